"""Product of an abstractly interpreted Rust text function with the state
machine of its specification.

The input is materialised one symbolic character at a time.  Every time the
function asks for a further character the joint state - program points, live
variables, pending operands, the specification's state and how far the two
outputs differ - is normalised; a state met before is not explored again, so
the exploration covers texts of every length once the set of joint states is
exhausted.
"""
from collections import deque
import rsi
from rsi_core import *
from rsi_std import expand

MAXSTATES = 30000


class Mismatch(Exception):
    pass


def items_eq(a, b, I):
    """do two output items denote the same character?"""
    if isinstance(a, Ch) and isinstance(b, Ch) and a is b: return True
    ca, cb = code_of(a), code_of(b)
    if ca is None or cb is None: return False
    if isinstance(ca, int) and isinstance(cb, int): return ca == cb
    if isinstance(ca, Lin) and isinstance(cb, Lin): return ca.key() == cb.key()
    for x, y in ((ca, cb), (cb, ca)):
        if isinstance(x, Lin) and isinstance(y, int):
            st = I.lin_set(x)
            return len(st) == 1 and st[0] == (y, y)
    return False


def code_of(x):
    if isinstance(x, CP): return x.c
    if isinstance(x, Ch) and len(x.set) == 1 and x.set[0][0] == x.set[0][1]: return x.set[0][0]
    if isinstance(x, CharOf): return x.n
    return None


def rep(st):
    for pref in ((97, 122), (48, 57), (32, 126), (9, 13)):
        i = isect(st, (pref,))
        if i: return i[0][0]
    return st[0][0] if st else 63


def word(inp):
    return ''.join(chr(rep(c.set)) for c in inp.cells)


class Norm:
    def __init__(s, I, inp, spec):
        s.I, s.inp, s.spec, s.ren = I, inp, spec, {}

    def idx(s, i):
        return s.ren.setdefault(i, len(s.ren))

    def __call__(s, v):
        I = s.I
        if isinstance(v, Cell): return s(v.v)
        if isinstance(v, Place): return s(v.get())
        if v is None or v is STOP or isinstance(v, (bool,)): return ('c', str(v))
        if isinstance(v, int): return v if -1 <= v <= 12 else ('big', v > 0)
        if isinstance(v, CP): return ('cp', v.c)
        if isinstance(v, Ch): return ('ch', s.idx(v.idx), v.set)
        if isinstance(v, Lin): return s.lin(v)
        if isinstance(v, CharOf): return ('co', s(v.n))
        if isinstance(v, (Top, Off)): return ('top',)
        if isinstance(v, InChars):
            n = len(s.inp.cells)
            if v.pos < n - 1 and v.end is None:
                k = s.inp.cells[v.pos:n]
                return ('icb', k[0].set, frozenset(c.set for c in k[1:]), len(v.peeked), v.mode)
            return ('ic', v.pos - n, tuple(s(x) for x in v.peeked), v.mode, None if v.end is None else v.end - n)
        if isinstance(v, InStr):
            n = len(s.inp.cells)
            if v.a >= n: return ('is', v.a - n, None if v.b is None else v.b - n)
            if v.a == 0 and v.b is None and not s.I.keepwhole: return ('whole',)
            kept = s.inp.cells[v.a:v.b if v.b is not None else n]
            return ('kept', kept[0].set if kept else None, frozenset(c.set for c in kept[1:]), v.b is None)
        if isinstance(v, (str, SymStr)):
            return s.text(v)
        if isinstance(v, It):
            return ('it', v.kind, tuple(s(x) for x in v.parts), tuple(s(x) for x in v.peeked))
        if isinstance(v, Adt):
            f = v.f
            if isinstance(f, dict): return ('adt', v.ty, v.var, tuple((k, s(x)) for k, x in f.items()))
            return ('adt', v.ty, v.var, tuple(s(x) for x in f))
        if isinstance(v, (list, tuple)):
            return ('l',) + tuple(s(x) for x in v)
        if isinstance(v, dict): return ('d',) + tuple((str(k), s(x)) for k, x in v.items())
        if isinstance(v, set): return ('set', tuple(sorted(map(repr, v))))
        if isinstance(v, Closure): return ('clo', id(v.node))
        if isinstance(v, FnRef): return ('fn', id(v.node))
        if isinstance(v, Native): return v.norm(s)
        return ('o', type(v).__name__)

    def lin(s, v):
        t = []
        for a, k in v.t:
            a2 = tuple(s.idx(x) if i == 1 and isinstance(x, int) else (s(x) if isinstance(x, Ch) else x) for i, x in enumerate(a))
            t.append((a2, k))
        st = s.I.cons.get(('lin',) + v.key())
        return ('lin', v.c, tuple(t), st)

    def text(s, v):
        its = s.raw(v)
        if not isinstance(its, list): return its
        r = s.spec.buffer(its, s)
        if r is not None: return r
        sp = s.spec.out
        k = 0
        while k < len(its) and k < len(sp) and items_eq(its[k], sp[k], s.I): k += 1
        a, b = its[k:], sp[k:]
        if len(a) + len(b) > 12 and k == 0 and not sp:
            return ('text', tuple(s(x) for x in a[:40]), len(a) > 40)
        if len(a) > 12 and len(b) > 12: raise Prune()   # apart for good: reported where the text ends earlier
        tail = tuple(s(x) for x in its[-3:]) if s.I.bufread else ()
        if len(a) > 12: a = a[:12] + ['...']
        if len(b) > 12: b = b[:12] + ['...']
        return ('buf', k == 0, tuple(s(x) if x != '...' else x for x in a), tuple(s(x) if x != '...' else x for x in b), tail)

    def raw(s, v):
        if isinstance(v, str): return [CP(ord(c)) for c in v]
        out = []
        for p in v.parts:
            if isinstance(p, str): out += [CP(ord(c)) for c in p]
            elif isinstance(p, InStr):
                n = len(s.inp.cells)
                if p.b is None: return ('textrest', s(p))
                out += s.inp.cells[p.a:p.b]
            elif isinstance(p, SymStr):
                r = s.raw(p)
                if not isinstance(r, list): return r
                out += r
            else: out.append(p)
        return out


def explore(mkinterp, call, mkspec, judge, universe=FULL, limit=MAXSTATES, filt=None):
    """explores the product; returns dict(states, paths, bad=[(word, why)], undecided=[...])"""
    r = explore1(mkinterp, call, mkspec, judge, universe, limit, filt, False)
    if r is None: r = explore1(mkinterp, call, mkspec, judge, universe, limit, filt, True)
    return r


def explore1(mkinterp, call, mkspec, judge, universe, limit, filt, keep):
    seen = set()
    todo = deque([[]])
    res = {'states': 0, 'paths': 0, 'bad': [], 'undecided': [], 'fns': set(), 'sites': set()}
    I = mkinterp()
    I.keepwhole, I.reread = keep, False
    while todo:
        dec = todo.popleft()
        if I.reread and not keep: return None
        I.decisions, I.dpos, I.alts = list(dec), 0, []
        I.points, I.temps, I.frames, I.cons = [], [], [], {}
        I.bufread = I.taint = False
        I.fuel = 400_000
        spec = mkspec(I)
        inp = Input(I, universe)
        if filt: filt_state = filt(I)

        def on_read(i_):
            if not I.fresh: return
            if len(I.cons) > 1 and not any(True for _ in solutions(I, inp, 1)): raise Prune()
            nz = Norm(I, inp, spec)
            live, done = [], set()
            for fr in I.frames:
                for env in [fr['env']] + fr.get('envs', []):
                    for sc in env:
                        if id(sc) in done: continue
                        done.add(id(sc))
                        live.append(tuple((k, nz(c)) for k, c in sc.items() if isinstance(c, Cell)))
            key = (tuple(I.points), tuple(live), tuple(nz(t) for t in I.temps), spec.key(nz), inp.universe, I.bufread,
                   filt_state.key() if filt else None)
            if key in seen: raise Prune()
            seen.add(key)
            if len(seen) > limit: raise Unknown('too many joint states')

        def on_char(i_, c):
            if filt: filt_state.step(I, c)
            spec.step(c)
            if getattr(spec, 'dont', False) or len(getattr(spec, 'errs', ())) > 1: raise Prune()
        I.on_read, I.on_char = on_read, on_char
        try:
            r = I.deref(call(I, inp))
            out = finish(I, inp, r)
            if not inp.ended: inp_drain(I, inp, out)
            res['paths'] += 1
            why = judge(I, inp, spec, out)
            if why:
                w = None if I.taint else confirm(I, inp, spec, out)
                if w is None: res['undecided'].append((word(inp), 'not confirmed: ' + why))
                elif w is not False: res['bad'].append((w, why, out))
        except Prune:
            pass
        except Panic as p:
            why = judge(I, inp, spec, None) if inp.ended else 'panics: ' + str(p)
            res['paths'] += 1
            if why and I.taint: res['undecided'].append((word(inp), 'unknown condition before a panic'))
            elif why and not (filt and filt_state.dead): res['bad'].append((word(inp), 'panics: ' + str(p), []))
        except Unknown as u:
            res['undecided'].append((word(inp), str(u)))
            if len(res['undecided']) > 300 or 'too many' in str(u): break
        except (RecursionError, AttributeError, TypeError, KeyError, IndexError, ValueError) as e:
            res['undecided'].append((word(inp), 'analysis: ' + repr(e)[:100]))
            if len(res['undecided']) > 300: break
        todo += I.alts
        if len(res['bad']) >= 6: break
    res['states'] = len(seen)
    res['fns'] = I.calls
    return res


def hexval(c):
    return int(chr(c), 16) if chr(c) in '0123456789abcdefABCDEF' else None


def solutions(I, inp, limit=200):
    """assignments of the digits that satisfy every range test taken"""
    cons = [(Lin(k[1], k[2]), st) for k, st in I.cons.items() if k[0] == 'lin']
    comps = []
    for l, st in cons:
        at = {a for a, _ in l.t}
        hit = [c for c in comps if c[0] & at]
        comps = [c for c in comps if not c[0] & at]
        comps.append((at.union(*[c[0] for c in hit]), [(l, st)] + [x for c in hit for x in c[1]]))
    sols = []
    for at, cs in comps:
        key = tuple(sorted(((tuple((a, dom_of(I, inp, a), k) for a, k in l.t), l.c, st) for l, st in cs), key=repr))
        r = SOLVED.get((key, limit))
        if r is None:
            r = SOLVED[(key, limit)] = list(solve(I, inp, cs, limit))
        if not r: return
        sols.append(r)
    for i in range(max([len(x) for x in sols] or [1])):
        asg = {}
        for x in sols: asg.update(x[min(i, len(x) - 1)])
        yield asg


SOLVED = {}


def dom_of(I, inp, a):
    if a[0] == 'dig':
        st = inp.cells[a[1]].set
        return tuple(sorted({hexval(c) for c in range(48, 103) if any(x <= c <= y for x, y in st) and hexval(c) is not None}))
    r = a[1].set if a[0] == 'code' else I.arange(a)
    return tuple(sorted({v for x, y in r for v in (x, y, (x + y) // 2)}))


def solve(I, inp, cons, limit):
    atoms = []
    for l, _ in cons:
        for a, _k in l.t:
            if a not in atoms: atoms.append(a)
    dom = {a: dom_of(I, inp, a) for a in atoms}
    if not all(dom.values()): return
    w = {a: max(abs(k) for l, _ in cons for b, k in l.t if b == a) for a in atoms}
    atoms.sort(key=lambda a: -w[a])
    n = [0]

    def ok(asg):
        for l, st in cons:
            lo = hi = l.c
            for a, k in l.t:
                d = [asg[a]] if a in asg else dom[a]
                lo += min(k * d[0], k * d[-1]); hi += max(k * d[0], k * d[-1])
            if not isect(((lo, hi),), st): return False
        return True

    def rec(i, asg):
        if n[0] >= limit: return
        if not ok(asg): return
        if i == len(atoms):
            n[0] += 1
            yield dict(asg)
            return
        for v in dom[atoms[i]]:
            asg[atoms[i]] = v
            yield from rec(i + 1, asg)
            del asg[atoms[i]]
            if n[0] >= limit: return
    yield from rec(0, {})


def confirm(I, inp, spec, out):
    """a concrete text of this class, or False when the class is empty; None when neither is shown"""
    any_ = False
    for asg in solutions(I, inp):
        any_ = True
        t = []
        dig = {a[1]: v for a, v in asg.items() if a[0] == 'dig'}
        for c in inp.cells:
            if c.idx in dig:
                o = [k for k in range(48, 103) if hexval(k) == dig[c.idx] and any(x <= k <= y for x, y in c.set)]
                t.append(chr(o[0]))
            else:
                cd = [v for a, v in asg.items() if a[0] == 'code' and a[1] is c]
                t.append(chr(cd[0] if cd else rep(c.set)))
        if out is None or getattr(spec, 'errs', None) or names(out): return ''.join(t)

        def ev(x):
            c = code_of(x)
            if isinstance(c, Lin): return c.c + sum(k * asg.get(a, dig.get(a[1], hexval(rep(inp.cells[a[1]].set)) or 0) if a[0] == 'dig' else 0) for a, k in c.t)
            if c is None and isinstance(x, Ch): return ord(t[x.idx])
            return c if c is not None else repr(x)
        if [ev(x) for x in out] != [ev(x) for x in spec.out]: return ''.join(t)
    return None if any_ else False


def names(out):
    t = show_items(out)
    return '<Lexer error' in t or 'rror' in t


def finish(I, inp, r):
    """the items of the returned text, reading what has not been read yet"""
    out = []
    I.temps = [None]

    def add(p):
        if isinstance(p, str): out.extend(CP(ord(c)) for c in p)
        elif isinstance(p, SymStr):
            for q in p.parts: add(q)
        elif isinstance(p, InStr):
            k = p.a
            while p.b is None or k < p.b:
                I.temps = [SymStr(out), (True, k - len(inp.cells))]
                c = inp.get(k)
                if c is None: break
                out.append(c); k += 1
        elif hasattr(p, 'stream'):
            it = p.stream()
            while True:
                I.temps = [SymStr(out), it]
                c = it.next()
                if c is STOP: break
                out.append(c)
        else: out.append(p)
    add(r)
    I.temps = []
    return out


def inp_drain(I, inp, out):
    """input the function never looked at still belongs to the specification"""
    I.temps = [SymStr(out), False]
    k = len(inp.cells)
    while inp.get(k) is not None:
        k += 1
        I.temps = [SymStr(out), False]
    I.temps = []


def diff(I, out, want):
    k = 0
    while k < len(out) and k < len(want) and items_eq(out[k], want[k], I): k += 1
    if k == len(out) == len(want): return None
    return k


def show_items(xs):
    t = ''
    for x in xs:
        c = code_of(x)
        t += chr(c) if isinstance(c, int) else (chr(rep(x.set)) if isinstance(x, Ch) else '?')
    return t
