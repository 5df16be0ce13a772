"""Regular expressions (the subset of Rust's regex syntax lexers use): syntax
trees, automata over code-point intervals, inclusion with witnesses, and
leftmost-first matching over symbolic text."""
from rsi_core import FULL, isect, compl, Unknown

ANYNL = compl(((10, 10),))
CLASSES = {'d': ((48, 57), (0x660, 0x669)), 'w': ((48, 57), (65, 90), (95, 95), (97, 122), (0xE9, 0xE9), (0x660, 0x669)),
           's': ((9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0))}
ESC = {'n': 10, 't': 9, 'r': 13, 'f': 12, 'v': 11, 'a': 7, '0': 0}


def norm(st):
    out = []
    for a, b in sorted(st):
        if out and a <= out[-1][1] + 1: out[-1] = (out[-1][0], max(b, out[-1][1]))
        else: out.append((a, b))
    return tuple(out)


class P:
    def __init__(s, t): s.t, s.i, s.ng = t, 0, 0

    def peek(s): return s.t[s.i] if s.i < len(s.t) else None

    def alt(s):
        a = [s.cat()]
        while s.peek() == '|':
            s.i += 1; a.append(s.cat())
        return a[0] if len(a) == 1 else ('alt', a)

    def cat(s):
        r = []
        while s.peek() not in (None, '|', ')'): r.append(s.rep())
        return r[0] if len(r) == 1 else ('cat', r)

    def rep(s):
        a = s.atom()
        while s.peek() is not None and s.peek() in '*+?{':
            c = s.peek()
            if c == '{':
                j = s.t.index('}', s.i)
                lo, _, hi = s.t[s.i + 1:j].partition(',')
                lo_ = int(lo or 0)
                hi_ = (None if hi == '' else int(hi)) if _ else lo_
                s.i = j + 1
            else:
                lo_, hi_ = {'*': (0, None), '+': (1, None), '?': (0, 1)}[c]
                s.i += 1
            greedy = True
            if s.peek() == '?': greedy = False; s.i += 1
            a = ('rep', a, lo_, hi_, greedy)
        return a

    def atom(s):
        c = s.t[s.i]; s.i += 1
        if c == '(':
            g = None
            if s.peek() == '?':
                if s.t.startswith('?:', s.i): s.i += 2
                else: raise Unknown('regex group ' + s.t[s.i:s.i + 4])
            else:
                s.ng += 1; g = s.ng
            a = s.alt()
            if s.peek() != ')': raise Unknown('regex')
            s.i += 1
            return ('grp', g, a) if g else a
        if c == '[': return ('set', s.cls())
        if c == '.': return ('set', ANYNL)
        if c in '^$': return ('anchor', c)
        if c == '\\': return ('set', s.esc())
        return ('set', ((ord(c), ord(c)),))

    def esc(s):
        c = s.t[s.i]; s.i += 1
        if c in CLASSES: return CLASSES[c]
        if c.lower() in CLASSES: return compl(norm(CLASSES[c.lower()]))
        if c == 'x':
            if s.peek() == '{':
                j = s.t.index('}', s.i); v = int(s.t[s.i + 1:j], 16); s.i = j + 1
            else:
                v = int(s.t[s.i:s.i + 2], 16); s.i += 2
            return ((v, v),)
        if c in ESC: return ((ESC[c], ESC[c]),)
        if c.isalnum(): raise Unknown('regex escape \\' + c)
        return ((ord(c), ord(c)),)

    def cls(s):
        neg = s.peek() == '^'
        if neg: s.i += 1
        out, first = [], True
        while True:
            c = s.t[s.i]
            if c == ']' and not first: s.i += 1; break
            first = False
            if c == '[':
                if s.t.startswith('[:', s.i):
                    j = s.t.index(':]', s.i); n = s.t[s.i + 2:j]; s.i = j + 2
                    T = {'alpha': ((65, 90), (97, 122)), 'digit': ((48, 57),), 'alnum': ((48, 57), (65, 90), (97, 122)), 'xdigit': ((48, 57), (65, 70), (97, 102)),
                         'upper': ((65, 90),), 'lower': ((97, 122),), 'space': ((9, 13), (32, 32)), 'word': ((48, 57), (65, 90), (95, 95), (97, 122))}
                    if n not in T: raise Unknown('regex class')
                    out += T[n]; continue
                raise Unknown('regex class')
            s.i += 1
            lo = s.esc() if c == '\\' else ((ord(c), ord(c)),)
            if s.t[s.i] == '-' and s.t[s.i + 1] != ']':
                s.i += 1
                d = s.t[s.i]; s.i += 1
                hi = s.esc() if d == '\\' else ((ord(d), ord(d)),)
                out.append((lo[0][0], hi[0][0]))
            else: out += lo
        st = norm(out)
        return compl(st) if neg else isect(st, FULL)


def parse(t):
    p = P(t)
    a = p.alt()
    if p.i != len(t): raise Unknown('regex ' + t)
    return a


# ---------------------------------------------------------------- automata
class DFA:
    """states 0..n-1; trans[q] = [(set, q')]; a missing symbol goes to the dead state"""
    def __init__(s, trans, acc): s.trans, s.acc = trans, acc

    def accepts(s, w):
        q = 0
        for c in w:
            q = s.nxt(q, ord(c))
            if q is None: return False
        return q in s.acc

    def nxt(s, q, c):
        for st, r in s.trans[q]:
            if any(a <= c <= b for a, b in st): return r
        return None


def dfa(ast):
    nfa = []          # list of (eps list, [(set, target)])

    def new(): nfa.append(([], [])); return len(nfa) - 1

    def build(a, i, o):
        k = a[0]
        if k == 'set':
            if a[1]: nfa[i][1].append((a[1], o))
        elif k == 'cat':
            cur = i
            for x in a[1]:
                n = new(); build(x, cur, n); cur = n
            nfa[cur][0].append(o)
        elif k == 'alt':
            for x in a[1]: build(x, i, o)
        elif k == 'grp': build(a[2], i, o)
        elif k == 'rep':
            _, x, lo, hi, _g = a
            cur = i
            for _ in range(lo):
                n = new(); build(x, cur, n); cur = n
            if hi is None:
                m = new(); nfa[cur][0].append(m)
                m2 = new(); build(x, m, m2); nfa[m2][0].append(m)
                nfa[m][0].append(o)
            else:
                nfa[cur][0].append(o)
                for _ in range(hi - lo):
                    n = new(); build(x, cur, n); nfa[n][0].append(o); cur = n
        elif k == 'anchor': raise Unknown('anchor in a token')
        else: raise Unknown(k)
    st, en = new(), new()
    # a start state nothing returns to keeps alternatives apart
    build(a := ast, st, en)

    def close(S):
        S, todo = set(S), list(S)
        while todo:
            for e in nfa[todo.pop()][0]:
                if e not in S: S.add(e); todo.append(e)
        return frozenset(S)
    s0 = close([st])
    ids, order, trans, acc = {s0: 0}, [s0], [], set()
    i = 0
    while i < len(order):
        S = order[i]
        if en in S: acc.add(i)
        edges = [(t, q) for x in S for t, q in nfa[x][1]]
        cuts = sorted({c for t, _ in edges for a, b in t for c in (a, b + 1)})
        tr = {}
        for a, b in zip(cuts, cuts[1:] + [None]):
            if b is None: break
            tg = close([q for t, q in edges if any(x <= a <= y for x, y in t)])
            if not tg: continue
            if tg not in ids: ids[tg] = len(order); order.append(tg)
            tr.setdefault(ids[tg], []).append((a, b - 1))
        trans.append([(norm(v), q) for q, v in tr.items()])
        i += 1
    return DFA(trans, acc)


def live(d):
    """states from which acceptance is reachable"""
    ok = set(d.acc)
    ch = True
    while ch:
        ch = False
        for q, tr in enumerate(d.trans):
            if q not in ok and any(r in ok for _, r in tr): ok.add(q); ch = True
    return ok


def not_in(a, b):
    """a shortest word of L(a) outside L(b), or None"""
    from collections import deque
    la = live(a)
    if 0 not in la: return None
    todo, seen = deque([(0, 0, '')]), {(0, 0)}
    while todo:
        p, q, w = todo.popleft()
        if p in a.acc and (q is None or q not in b.acc): return w
        for st, p2 in a.trans[p]:
            if p2 not in la: continue
            rest = st
            opts = []
            if q is not None:
                for st2, q2 in b.trans[q]:
                    i = isect(st, st2)
                    if i:
                        opts.append((i, q2)); rest = isect(rest, compl(st2))
            if rest: opts.append((rest, None))
            for st2, q2 in opts:
                if (p2, q2) not in seen:
                    seen.add((p2, q2))
                    todo.append((p2, q2, w + chr(rep(st2))))
    return None


def rep(st):
    for pref in ((97, 122), (48, 57), (65, 90), (32, 126), (9, 13)):
        i = isect(st, (pref,))
        if i: return i[0][0]
    return st[0][0]


class Filter:
    """keeps symbolic input inside a token language"""
    def __init__(s, d): s.d, s.q, s.dead, s.lv = d, 0, False, live(d)
    def key(s): return s.q

    def step(s, I, c):
        from rsi_core import Prune
        if c is None:
            if s.q not in s.d.acc: s.dead = True; raise Prune()
            return
        for st, q in s.d.trans[s.q]:
            if q in s.lv and I.split_ch(c, st):
                s.q = q
                return
        s.dead = True
        raise Prune()


# ------------------------------------------------- matching symbolic text
def match(I, ast, get, k):
    """leftmost-first match of ast at cell k: end cell and groups, or None"""
    def m(a, k, g, cont):
        t = a[0]
        if t == 'set':
            c = get(k)
            if c is None or not I.split_ch(c, a[1]): return None
            return cont(k + 1, g)
        if t == 'cat':
            def go(i, k, g):
                if i == len(a[1]): return cont(k, g)
                return m(a[1][i], k, g, lambda k2, g2: go(i + 1, k2, g2))
            return go(0, k, g)
        if t == 'alt':
            for x in a[1]:
                r = m(x, k, g, cont)
                if r is not None: return r
            return None
        if t == 'grp':
            return m(a[2], k, g, lambda k2, g2: cont(k2, dict(g2, **{str(a[1]): (k, k2)})))
        if t == 'rep':
            _, x, lo, hi, greedy = a

            def go(n, k, g):
                def more():
                    if hi is not None and n >= hi: return None
                    return m(x, k, g, lambda k2, g2: go(n + 1, k2, g2) if k2 > k or n < lo else None)
                if n < lo: return more()
                if greedy:
                    r = more()
                    return r if r is not None else cont(k, g)
                r = cont(k, g)
                return r if r is not None else more()
            return go(0, k, g)
        raise Unknown('regex ' + t)
    return m(ast, k, {}, lambda k2, g: (k2, g))
