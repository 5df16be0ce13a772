"""Comparing what the library does with what the contract asks for.

Both sides are abstract states over the same symbols.  They agree when their normal forms
agree.  When they do not, the difference is reported only if some valuation of the symbols
(random interpretation of the terms, repaired towards the guard facts) makes an observable
differ; otherwise the disjunct is left undecided and recorded as such.
"""
import random
from term import *
import term
from absint import *
import absint

# ---------------------------------------------------------------- deep normal form under guard facts
class Norm:
    def __init__(N, st, ripple=False): N.st = st; N.memo = {}; N.lmemo = {}; N.ripple = ripple; N.pinned = {t: lo for t, (lo, hi) in st.ival.items() if t.w == 8 and lo == hi}
    def slice(N, at, lo, n):
        """bits [lo, lo+n) of a wide sum of two words, byte by byte with explicit carries"""
        if N.ripple and at.k == "add" and at.a[0] == 0 and len(at.a[1]) == 2 and at.w > 8 and all(c == 1 for _, c in at.a[1]) and lo % 8 == 0 and n % 8 == 0 and (lo or n > 8):
            (a, _), (b, _) = at.a[1]; out = []; c = const(1, 0)
            for j in range(0, lo + n, 8):
                s = add(add(zext(extract(a, j, 8), 9), zext(extract(b, j, 8), 9)), zext(c, 9))
                if j >= lo: out.append(trunc(s, 8))
                c = extract(s, 8, 1)
            return concat(out)
        return trunc(at, n) if lo == 0 else extract(at, lo, n)
    def t(N, x):
        r = N.memo.get(x)
        if r is not None: return r
        stack = [x]
        while stack:
            y = stack[-1]
            if y in N.memo: stack.pop(); continue
            if y.k == "ite":
                if y.a[0] not in N.memo: stack.append(y.a[0]); continue
                v = N.st.decide(N.memo[y.a[0]])
                if v is not None:
                    z = y.a[1] if v else y.a[2]
                    if z not in N.memo: stack.append(z); continue
                    N.memo[y] = N.memo[z]; stack.pop(); continue
            todo = [c for c in children(y) if c not in N.memo]
            if todo: stack.extend(todo); continue
            N.memo[y] = N.fin(N.rebuild(y)); stack.pop()
        return N.memo[x]
    def fin(N, z):
        if z.k in ("const",): return z
        if z.w == 1:
            v = N.st.decide(z)
            if v is not None: return const(1, int(v))
        if z.k == "ite" and z.w > 1 and is_const(z.a[1]) and is_const(z.a[2]) and z.a[1].a + z.a[2].a == 1:
            c = z.a[0] if z.a[1].a else not_(z.a[0])
            return zext(c, z.w)
        lo, hi = N.st.interval(z)
        if lo == hi: return const(z.w, lo)
        if z.k == "ite" and z.w == 8:
            # if c then A else B is A when A means B wherever c fails (calldata bytes past the end are zero)
            for A, B, v in ((z.a[1], z.a[2], False), (z.a[2], z.a[1], True)):
                if A.k == "app" and A.a[0] == "cd" and is_const(B) and B.a == 0:
                    o = State(); o.facts = dict(N.st.facts); o.ival = dict(N.st.ival)
                    if not o.assume(z.a[0], v) or o.simp(A) is B: return A
        return N.st.simp(z)
    def known(N, y):
        """bytes of an input the guards pin down"""
        if y.w <= 8 or y.w % 8 or y.w > 1024 or not N.pinned: return y
        bs = [extract(y, i, 8) for i in range(0, y.w, 8)]
        cs = [N.pinned.get(b) for b in bs]
        if all(c is None for c in cs): return y
        return concat([b if c is None else const(8, c) for b, c in zip(bs, cs)])
    def rebuild(N, y):
        g = lambda c: N.memo[c]; k = y.k
        if k == "const": return y
        if k == "sym": return N.known(y)
        if k == "app": return N.known(term._mk(y.w, "app", tuple(N.any(c) for c in y.a)))
        if k == "cat":
            return concat([const(n, lo) if at is None else N.slice(g(at), lo, n) for n, at, lo in y.a])
        if k == "add":
            r = const(y.w, y.a[0])
            for at, co in y.a[1]: r = add_raw(r, mulc(g(at), co))
            return r
        if k == "mul":
            r = const(y.w, y.a[0])
            for at, p in y.a[1]: r = mul(r, power(g(at), p))
            return r
        if k == "rep": return rep(g(y.a), y.w)
        f = {"and": and_, "or": or_, "xor": xor_}.get(k)
        if f:
            r = g(y.a[0])
            for c in y.a[1:]: r = f(r, g(c))
            return r
        if k in ("shl", "lshr", "ashr"): return {"shl": shl, "lshr": lshr, "ashr": ashr}[k](g(y.a[0]), g(y.a[1]))
        if k in ("udiv", "urem", "sdiv", "srem"): return div(k, g(y.a[0]), g(y.a[1]))
        if k == "ite": return ite(g(y.a[0]), g(y.a[1]), g(y.a[2]))
        if k == "eq": return eq(g(y.a[0]), g(y.a[1]))
        if k == "ult": return ult(g(y.a[0]), g(y.a[1]))
        if k == "slt":
            a, b = g(y.a[0]), g(y.a[1])
            sa, sb = extract(a, a.w - 1, 1), extract(b, b.w - 1, 1)
            same = N.st.decide(eq(sa, sb))
            if same is None:
                va, vb = N.st.decide(sa), N.st.decide(sb)
                if va is not None and vb is not None: same = va == vb
            if same: return N.fin(ult(a, b))
            if same is False: return sa
            return slt(a, b)
        raise ValueError(k)
    def any(N, x):
        if isinstance(x, T): return N.t(x)
        if isinstance(x, tuple): return tuple(N.any(c) for c in x)
        if isinstance(x, Node): return N.log(x)
        return x
    def log(N, n):
        if n in N.lmemo: return N.lmemo[n]
        r = None; es = []; p = n
        while p is not None and p not in N.lmemo: es.append(p); p = p.prev
        for q in reversed(es):
            prev = N.lmemo[q.prev] if q.prev is not None else None
            e = q.e if q.prev is None else tuple(N.any(c) for c in q.e)
            if prev is not None and e[0] == "w" and prev.e[0] == "w" and prev.e[1] is e[1]:
                d = dict(prev.e[2]); d.update(dict(e[2]))
                e = ("w", e[1], tuple(sorted(d.items()))); prev = prev.prev
            elif e[0] == "bulk" and N.st.interval(e[2])[1] == 0:
                N.lmemo[q] = prev; continue
            elif e[0] == "bulk" and e[3][0] == "memfwd" and absint.forward_ok(N.st, e[3][2], e[3][3], e[2]):
                e = e[:3] + (("mem",) + e[3][1:3],)
            elif e[0] == "bulk" and e[3][0] == "membwd" and absint.backward_ok(N.st, e[3][2], e[3][3], e[2]):
                e = e[:3] + (("mem",) + e[3][1:3],)
            N.lmemo[q] = push(prev, e)
        return N.lmemo[n]

# ---------------------------------------------------------------- random interpretation
class Infeasible(Exception): pass
SPECIAL32 = [0, 1, 2, 3, 4, 5, 7, 8, 9, 31, 32, 33, 36, 63, 64, 65, 68, 95, 96, 99, 100, 101, 128, 200, 255, 256, 257, 300, 1024, 65535, 65536]
class Val:
    def __init__(V, rng, pool): V.rng = rng; V.syms = {}; V.apps = {}; V.pool = pool; V.keys = {}; V.isym = {}; V.bulk_n = 0
    def gen(V, w, small=False):
        r = V.rng; c = r.random()
        if w == 1: return r.randrange(2)
        if w <= 64 and c < (.88 if small else .7):
            v = r.choice(SPECIAL32 + V.pool) if c < .8 else r.randrange(300)
            return v & mask(w)
        if c < .25: return r.choice([0, 1, mask(w), 1 << (w - 1), mask(w) >> 1, 0x20, 0xff])
        if c < .4: return r.choice(V.pool or [0]) & mask(w)
        if c < .55: return r.getrandbits(min(w, r.choice([8, 16, 32, 64, 160, w])))
        if c < .65: return (r.getrandbits(min(w, 8)) << max(0, w - 8)) & mask(w)
        return r.getrandbits(w)
    def sym(V, t):
        k = (t.w, t.a)
        if k not in V.syms: V.syms[k] = V.base(t) if t.a.startswith("&") else V.gen(t.w, small=t.w <= 32)
        return V.syms[k]
    def base(V, t):
        return 0x10000000 if t.a == "&EVM" else 0x40000000 + 0x4000 * (len([k for k in V.syms if k[1].startswith("&")]) + 1)
    def k(V, x, memo):
        if isinstance(x, T): return evaluate(x, V, memo)
        if isinstance(x, tuple): return tuple(V.k(c, memo) for c in x)
        if isinstance(x, Node): return ("log", x.id)
        return x
    def app(V, x, memo):
        n = x.a[0]
        if n == "cd":
            i = V.k(x.a[1], memo)
            if i >= evaluate(CDS, V, memo): return 0
            return V.atom(("cd", 8, i), 8)
        if n == "forall":
            N_ = V.k(x.a[2], memo)
            if N_ > 300: return V.atom(("forall", x.id), 1)
            for j in range(N_):
                V.syms[(32, "#k")] = j
                if not evaluate(x.a[1], V, {}): return 0
            return 1
        if n == "ld": return V.mem(x.a[1], V.k(x.a[2], memo), memo)
        if n == "sel":
            i = V.k(x.a[2], memo); l = x.a[1]
            return V.k(l[i], memo) if i < len(l) else V.atom(("sel?", 8, i), 8)
        if n == "src":
            d = V.desc(x.a[1], memo); return V.dbyte(d, V.k(x.a[2], memo), memo)
        if n in ("storage", "transient"):
            nd = x.a[1]; key = V.k(x.a[2], memo); op = "sstore" if n == "storage" else "tstore"; calls = 0
            while nd is not None:
                if nd.e[0] == op and V.k(nd.e[1], memo) == key: return V.k(nd.e[2], memo)
                if nd.e[0] in ("call", "create"): break
                nd = nd.prev
            return V.atom((n, x.w, 0 if nd is None else nd.n, key), x.w)
        key = (n, x.w) + tuple(V.deepkey(c, memo) for c in x.a[1:])
        return V.atom(key, x.w)
    def deepkey(V, c, memo):
        if isinstance(c, tuple) and c and c[0] in ("bytes", "range", "src", "empty"): return V.content(c, memo)
        return V.k(c, memo)
    def atom(V, key, w):
        if key not in V.apps: V.apps[key] = V.gen(w)
        return V.apps[key]
    def poison(V, x): return V.atom(("poison", x.id), x.w)
    def mem(V, node, a, memo):
        a &= 0xffffffff
        while node is not None:
            e = node.e
            if e[0] == "w":
                sp = 0 if e[1] is None else V.k(e[1], memo)
                for o, b in e[2]:
                    if (sp + o) & 0xffffffff == a: return V.k(b, memo)
            elif e[0] == "bulk":
                at = V.k(e[1], memo); n = V.k(e[2], memo)
                i = (a - at) & 0xffffffff
                if i < n:
                    V.bulk_n = n
                    return V.dbyte(V.desc(e[3], memo), i, memo)
            node = node.prev
        return V.atom(("mem0", 8, a), 8)
    def desc(V, d, memo):
        return d
    def dbyte(V, d, i, memo):
        n = d[0]
        if n == "cd": 
            j = (V.k(d[1], memo) + i) & 0xffffffff
            return 0 if j >= evaluate(CDS, V, memo) else V.atom(("cd", 8, j), 8)
        if n == "fill": return V.k(d[1], memo)
        if n == "lst": return V.k(d[1][i], memo) if i < len(d[1]) else V.atom(("lst?", 8, i), 8)
        if n == "mem": return V.mem(d[1], V.k(d[2], memo) + i, memo)
        if n == "membwd":
            src = V.k(d[2], memo); dl = (src - V.k(d[3], memo)) & 0xffffffff; N = V.bulk_n or 0
            if 0 < dl < N and i < N - dl: i = N - dl + (i - (N - dl)) % dl
            return V.mem(d[1], src + i, memo)
        if n == "memfwd":
            # a forward byte loop inside one memory: what was copied may itself be re-read
            src = V.k(d[2], memo); dst = getattr(V, "_fwd_dst", None)
            return V.mem(d[1], src + i, memo) if len(d) < 4 else V.fwd(d, i, memo)
        if n == "regsel":
            j = (V.k(d[2], memo) + i) & 0xffffffff
            return V.k(d[1][j], memo) if j < len(d[1]) else V.atom(("oob", 8, j), 8)
        if n == "rd": return V.atom(("rd", 8, d[1], (V.k(d[2], memo) + i) & 0xffffffff), 8)
        if n == "code": return V.atom(("code", 8, (V.k(d[1], memo) + i) & 0xffffffff), 8)
        if n == "ext": return V.atom(("ext", 8, d[1], V.content(d[2], memo), (V.k(d[3], memo) + i) & 0xffffffff), 8)
        if n == "abs": return V.atom(("absmem", 8, (V.k(d[1], memo) + i) & 0xffffffff), 8)
        return V.atom(("d?", 8, V.k(d, memo), i), 8)
    def fwd(V, d, i, memo):
        src = V.k(d[2], memo); dst = V.k(d[3], memo); dl = (dst - src) & 0xffffffff
        if 0 < dl <= i: i = i % dl
        return V.mem(d[1], src + i, memo)
    LIM = 400
    def content(V, c, memo):
        if c[0] == "empty": return ()
        if c[0] == "none": return None
        if c[0] == "bytes":
            v = V.k(c[1], memo); return tuple((v >> (8 * i)) & 255 for i in range(c[1].w // 8))
        if c[0] == "range":
            a = V.k(c[1], memo); n = V.k(c[2], memo)
            if n == 0: return ()
            if n > V.LIM: return (n, a) + tuple(V.mem(c[3], a + i, memo) for i in list(range(16)) + [n - 1, n - 2])
            return tuple(V.mem(c[3], a + i, memo) for i in range(n))
        if c[0] == "src":
            n = V.k(c[2], memo)
            if n > V.LIM: return (n,) + tuple(V.dbyte(c[1], i, memo) for i in list(range(16)) + [n - 1, n - 2])
            return tuple(V.dbyte(c[1], i, memo) for i in range(n))
        return V.k(c, memo)
    def event(V, e, memo):
        return tuple(V.content(x, memo) if isinstance(x, tuple) and x and x[0] in ("bytes", "range", "src", "empty", "none") else
                     (tuple(V.content(y, memo) for y in x) if isinstance(x, tuple) and x and isinstance(x[0], tuple) else V.k(x, memo)) for x in e)

    # ---- repair: make a boolean/bit-vector term take a value ----
    def put(V, t, v, memo, d=0):
        """try to make t evaluate to v by changing atoms; True when it thinks it did"""
        if d > 12: return False
        v &= mask(t.w); k = t.k
        if k == "const": return t.a == v
        if k == "sym":
            if t.a.startswith("&"): return False
            V.syms[(t.w, t.a)] = v; return True
        ev = lambda x: evaluate(x, V, {})
        if k == "app":
            n = t.a[0]
            if n == "cd":
                i = ev(t.a[1])
                if i >= ev(CDS): return v == 0
                V.apps[("cd", 8, i)] = v; return True
            if n in ("ld", "sel", "src", "storage", "transient"):
                if n == "storage" or n == "transient":
                    nd = t.a[1]; nd2 = nd
                    V.apps[(n, t.w, 0 if nd.e[0] == "root" else nd.n, ev(t.a[2]))] = v; return True
                if n == "ld": V.apps[("mem0", 8, ev(t.a[2]) & 0xffffffff)] = v; return True
                return False
            V.apps[(n, t.w) + tuple(V.deepkey(c, {}) for c in t.a[1:])] = v; return True
        if k == "cat":
            p = 0
            for n, at, lo in t.a:
                x = (v >> p) & mask(n); p += n
                if at is None:
                    if lo != x: return False
                else:
                    cur = ev(at); m = mask(n) << lo
                    if not V.put(at, (cur & ~m) | (x << lo), memo, d + 1): return False
            return True
        if k == "rep": return v in (0, mask(t.w)) and V.put(t.a, v & 1, memo, d + 1)
        if k == "add":
            items = list(t.a[1]); V.rng.shuffle(items)
            for at, co in items:
                rest = (ev(t) - ev(at) * co) & mask(t.w)
                if co & 1:
                    if V.put(at, (v - rest) * pow(co, -1, 1 << t.w), memo, d + 1): return True
            return False
        if k == "xor":
            o = ev(t)
            for at in t.a:
                if at.k != "const": return V.put(at, ev(at) ^ o ^ v, memo, d + 1)
            return False
        if k == "and":
            return all(V.put(at, ev(at) | v if v else ev(at) & v, memo, d + 1) for at in t.a if at.k != "const") if t.w > 1 or v else \
                   V.put(V.rng.choice(t.a), 0, memo, d + 1)
        if k == "or":
            if t.w == 1: return V.put(V.rng.choice(t.a), 1, memo, d + 1) if v else all(V.put(a, 0, memo, d + 1) for a in t.a)
            return all(V.put(at, v if i == 0 else ev(at) & v, memo, d + 1) for i, at in enumerate(t.a))
        if k == "ite":
            c = ev(t.a[0]); br = t.a[1] if c else t.a[2]; ot = t.a[2] if c else t.a[1]
            if is_const(br) and br.a != v or V.rng.random() < .2: return V.put(t.a[0], 1 - c, memo, d + 1) and V.put(ot, v, memo, d + 1)
            return V.put(br, v, memo, d + 1)
        if k == "eq":
            a, b = t.a
            if v:
                if V.rng.random() < .5: a, b = b, a
                return V.put(a, ev(b), memo, d + 1) or V.put(b, ev(a), memo, d + 1)
            x = ev(b) ^ (1 << V.rng.randrange(b.w)); 
            return V.put(a, V.rng.choice([x, ev(b) + 1, ev(b) - 1, V.gen(a.w)]), memo, d + 1) or V.put(b, ev(a) + 1, memo, d + 1)
        if k in ("ult", "slt"):
            a, b = t.a; M = mask(a.w); x, y = ev(a), ev(b)
            h = 0 if k == "ult" else 1 << (a.w - 1)
            ux, uy = x ^ h, y ^ h
            r = V.rng
            def below(n, strict=True):
                n = n - 1 if strict else n
                return r.choice([n, max(0, n - 1), r.randint(0, n) if n >= 0 else 0, 0]) if n >= 0 else None
            def above(n, strict=True):
                n = n + 1 if strict else n
                return r.choice([n, min(M, n + 1), r.randint(n, M), min(M, n + r.randrange(200))]) if n <= M else None
            opts = [(a, below(uy)), (b, above(ux))] if v else [(a, above(uy, False)), (b, below(ux, False))]
            r.shuffle(opts)
            for at, z in opts:
                if z is not None and at.k != "const" and V.put(at, z ^ h, memo, d + 1): return True
            return False
        if k in ("lshr", "shl", "udiv", "urem", "mul", "ashr", "sdiv", "srem"):
            if k == "udiv": return V.put(t.a[0], v * max(1, ev(t.a[1])), memo, d + 1)
            return V.put(t.a[0] if k != "mul" else t.a[1][0][0], V.gen(t.w), memo, d + 1)
        return False

def constraints(st):
    cs = [(b, v) for b, v in st.facts.items()]
    iv = [(t, lo, hi) for t, (lo, hi) in st.ival.items() if t.k in ("sym", "app")]
    return cs, iv

def valuations(st, rng, tries=200, repairs=60, deadline=None):
    import time
    cs, iv = constraints(st)
    pool = []
    for b, _ in cs:
        for x in subterms(b):
            if is_const(x): pool += [x.a, x.a + 1, max(0, x.a - 1)]
    pool = sorted(set(pool))[:400]
    for _ in range(tries):
        if deadline and time.time() > deadline: return
        V = Val(rng, pool)
        for _ in range(repairs):
            bad = []; memo = {}
            for t, lo, hi in iv:
                x = evaluate(t, V, memo)
                if not lo <= x <= hi: bad.append((t, lo, hi))
            for b, v in cs:
                if bool(evaluate(b, V, memo)) != v: bad.append((b, v))
            if not bad: yield V; break
            z = rng.choice(bad[:3] if rng.random() < .6 else bad)
            if len(z) == 3:
                t, lo, hi = z
                w = [lo, hi, rng.randint(lo, hi), min(hi, lo + rng.randrange(300))] + [p for p in SPECIAL32 + pool if lo <= p <= hi][:60]
                V.put(t, rng.choice(w), memo)
            else: V.put(z[0], int(z[1]), memo)

# ---------------------------------------------------------------- observables
def observe(st, rv, watch, spec=False):
    """what a caller and the chain can see at the end of a disjunct"""
    m = Machine(st); m.spec = True
    m.evm_flush()
    o = {"outcome": st.outcome or "returns"}
    o["events"] = st.events
    if st.outcome in (None,):
        o["ret"] = rv
        o["evm"] = st.evm
        for nm, base, size in watch:
            o["*" + nm] = from_bytes(m.read_bytes(base, size))
        o["grown"] = st.grown
    return o

def nf(N, o):
    return {k: (N.any(v) if v is not None else None) for k, v in o.items()}

def diff_terms(a, b):
    return [k for k in sorted(set(a) | set(b)) if a.get(k) is not b.get(k) and a.get(k) != b.get(k)]

def concrete(V, o, keys, addrs):
    memo = {}
    out = {}
    for k in keys:
        v = o.get(k)
        if k == "outcome": out[k] = v
        elif v is None: out[k] = None
        elif k == "events": out[k] = tuple(V.event(e, memo) for e in entries(v))
        elif k == "evm": out[k] = tuple((a, V.mem(v, a, memo)) for a in addrs)
        else: out[k] = evaluate(v, V, memo)
    return out

def touched(V, nodes):
    """addresses worth comparing: those some write names, and their neighbours"""
    memo = {}; s = set()
    for n in nodes:
        for e in entries(n):
            if e[0] == "w":
                sp = 0 if e[1] is None else V.k(e[1], memo)
                for o, _ in e[2]: s.add((sp + o) & 0xffffffff)
                if e[2]: s.add((sp + e[2][0][0] - 1) & 0xffffffff); s.add((sp + e[2][-1][0] + 1) & 0xffffffff)
            elif e[0] == "bulk":
                a = V.k(e[1], memo); n_ = V.k(e[2], memo)
                ks = range(n_) if n_ <= 300 else list(range(64)) + [n_ // 2, n_ - 1, n_ - 2, n_ - 32]
                s.update((a + i) & 0xffffffff for i in ks); s.add((a - 1) & 0xffffffff); s.add((a + n_) & 0xffffffff)
    return sorted(s)

def shown(V, names):
    r = []
    for (w, n), v in V.syms.items():
        if n.startswith("&"): continue
        r.append(f"{n}={v:#x}" if v > 4096 else f"{n}={v}")
    return ", ".join(sorted(r)[:12])
