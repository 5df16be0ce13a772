"""Abstract interpretation of the runtime library's LLVM IR.

Domain: a bounded set of disjuncts, each holding
  * guard facts (branch conditions known on that disjunct, closed under simple order reasoning),
  * an abstract store (regions x byte offsets -> provenance term, see term.py),
  * an ordered log of writes to EVM memory and of effectful host calls,
  * the EVM memory sizes made sure of so far.
Calls inside the library are analysed in context (inlined); the freestanding primitives, the
memory-growth API and the host imports are summarised by their contracts (tables below).
No solver is involved: facts are looked up, not solved.
"""
from term import *
import llir

import collections
COUNT = collections.Counter()      # obligations examined, by kind
class Undecided(Exception): pass
class Anchor(Exception): pass

PAGE = 65536

# ---------------------------------------------------------------- persistent logs
_nodes = {}
class Node:
    __slots__ = ("prev", "e", "id", "n")
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __repr__(self): return f"log#{self.n}"
def push(node, e):
    key = (node.id if node else -1, e)
    r = _nodes.get(key)
    if r is None:
        r = Node(); r.prev = node; r.e = e; r.id = len(_nodes); r.n = (node.n if node else 0) + 1
        _nodes[key] = r
    return r
ROOT = push(None, ("root",))
def entries(node):
    out = []
    while node is not None:
        out.append(node.e); node = node.prev
    return list(reversed(out))

class Region:
    __slots__ = ("name", "kind", "size", "init", "base", "const")
    def __init__(s, name, kind, size, init, const=False):
        s.name, s.kind, s.size, s.init, s.const = name, kind, size, init, const
        s.base = sym(32, "&" + name)

# ---------------------------------------------------------------- state
class State:
    __slots__ = ("facts", "mem", "regions", "evm", "evm_head", "events", "ensured", "ctr", "outcome", "notes", "ival", "grown", "growlog", "trace", "addrlog")
    def __init__(s):
        s.facts = {}; s.mem = {}; s.regions = {}; s.evm = ROOT; s.evm_head = None
        s.events = ROOT; s.ensured = (); s.ctr = {}; s.outcome = None; s.notes = (); s.ival = {}
        s.grown = None; s.growlog = (); s.trace = (); s.addrlog = ()
    def copy(s):
        n = State()
        n.facts = dict(s.facts); n.mem = {k: dict(v) for k, v in s.mem.items()}; n.regions = dict(s.regions)
        n.evm = s.evm; n.evm_head = None if s.evm_head is None else (s.evm_head[0], dict(s.evm_head[1]))
        n.events = s.events; n.ensured = s.ensured; n.ctr = dict(s.ctr); n.outcome = s.outcome; n.notes = s.notes
        n.ival = dict(s.ival); n.grown = s.grown; n.growlog = s.growlog; n.addrlog = s.addrlog; n.trace = s.trace
        return n

    # ---- facts -------------------------------------------------
    def interval(s, t, d=0):
        if t.k == "const": return t.a, t.a
        lo, hi = 0, ubound(t)
        iv = s.ival.get(t)
        if iv: lo, hi = max(lo, iv[0]), min(hi, iv[1])
        if d < 4:
            if t.k == "cat":
                v = w = 0; p = 0
                for (n, at, l) in t.a:
                    if at is None: v |= l << p; w |= l << p
                    else:
                        z = s.ival.get(extract(at, l, n)) if s.ival and len(t.a) > 1 else None
                        x, y = z or (0, mask(n))
                        if l == 0 and n <= at.w:
                            a, b = s.interval(at, d + 1)
                            if b < (1 << n): x, y = max(x, a), min(y, b)
                        v |= x << p; w |= y << p
                    p += n
                lo, hi = max(lo, v), min(hi, w)
            elif t.k == "add":
                M = mask(t.w); a = b = t.a[0]; ok = True
                if a >> (t.w - 1): a = b = a - (1 << t.w)
                for at, co in t.a[1]:
                    x, y = s.interval(at, d + 1)
                    c = co if co < (1 << (t.w - 1)) else co - (1 << t.w)
                    if c >= 0: a += c * x; b += c * y
                    else: a += c * y; b += c * x
                if a >= 0 and b <= M: lo, hi = max(lo, a), min(hi, b)
                if len(t.a[1]) == 2 and s.facts:
                    (p, cp), (q, cq) = t.a[1]
                    if cp == M and cq == 1: p, cp, q, cq = q, cq, p, cp
                    if cp == 1 and cq == M and (s.facts.get(ult(q, p)) is True or s.facts.get(ult(p, q)) is False):
                        # p - q with q <= p known: no wrap
                        (pl, ph), (ql, qh) = s.interval(p, d + 1), s.interval(q, d + 1)
                        c = t.a[0] if t.a[0] < (1 << (t.w - 1)) else t.a[0] - (1 << t.w)
                        a, b = max(0, pl - qh) + c, ph - ql + c
                        if a >= 0 and b <= M: lo, hi = max(lo, a), min(hi, b)
                c = t.a[0]
                if c and s.ival:      # known range of the same sum without (or with another) constant
                    iv = s.ival.get(_base(t))
                    if iv:
                        a, b = (iv[0] + c) & M, (iv[1] + c) & M
                        if a <= b: lo, hi = max(lo, a), min(hi, b)
            elif t.k in ("udiv", "urem") and is_const(t.a[1]) and t.a[1].a:
                a, b = s.interval(t.a[0], d + 1); q = t.a[1].a
                if t.k == "udiv": lo, hi = max(lo, a // q), min(hi, b // q)
                elif b < q: lo, hi = max(lo, a), min(hi, b)
                else: hi = min(hi, q - 1)
            elif t.k == "ite":
                v = s.facts.get(t.a[0])
                if v is not None: 
                    a, b = s.interval(t.a[1] if v else t.a[2], d + 1); lo, hi = max(lo, a), min(hi, b)
        return lo, hi

    def decide(s, b):
        """True/False when the guard facts settle the boolean, else None"""
        if is_const(b): return bool(b.a)
        v = s.facts.get(b)
        if v is not None: return v
        if b.k == "xor" and len(b.a) == 2 and TRUE in b.a:
            o = b.a[0] if b.a[1] is TRUE else b.a[1]
            v = s.decide(o)
            return None if v is None else not v
        if b.k == "and":
            vs = [s.decide(x) for x in b.a]
            if any(v is False for v in vs): return False
            if all(v is True for v in vs): return True
            return None
        if b.k == "or":
            vs = [s.decide(x) for x in b.a]
            if any(v is True for v in vs): return True
            if all(v is False for v in vs): return False
            return None
        if b.k == "ite":
            c = s.decide(b.a[0])
            if c is not None: return s.decide(b.a[1] if c else b.a[2])
        if b.k == "eq":
            a, c = b.a
            (l1, h1), (l2, h2) = s.interval(a), s.interval(c)
            if h1 < l2 or h2 < l1: return False
            if l1 == h1 == l2 == h2: return True
            if s._ule(a, c, strict=True) or s._ule(c, a, strict=True): return False
            r = s._eq_bytes(a, c)
            if r is not None: return r
        if b.k == "ult":
            a, c = b.a
            if s._ule(a, c, strict=True): return True
            if s._ule(c, a): return False
            r = s._lex(a, c)
            if r is not None: return r
        if b.k == "slt":
            a, c = b.a; h = 1 << (a.w - 1)
            ia, ic = s.interval(a), s.interval(c)
            an, cn = ia[0] >= h, ic[0] >= h
            ap, cp = ia[1] < h, ic[1] < h
            if ap and cp or an and cn: return s.decide(ult(a, c)) if not (ult(a, c) is b) else None
            if an and cp: return True
            if ap and cn: return False
        if b.k == "cat" and b.w == 1:
            (n, at, lo), = b.a
            if lo == at.w - 1:
                l, h = s.interval(at)
                if h < 1 << lo: return False
                if l >= 1 << lo: return True
        return None

    # wide comparisons settled piece by piece
    def _eq1(s, x, y):
        e = eq(x, y)
        if is_const(e): return bool(e.a)
        v = s.facts.get(e)
        if v is not None: return v
        if s.facts.get(ult(x, y)) or s.facts.get(ult(y, x)): return False
        (l1, h1), (l2, h2) = s.interval(x), s.interval(y)
        if h1 < l2 or h2 < l1: return False
        if l1 == h1 == l2 == h2: return True
        if s.facts.get(ult(x, y)) is False and s.facts.get(ult(y, x)) is False: return True
        return None
    def _eq_bytes(s, a, b):
        w = a.w
        if w < 16 or w % 8 or w > 1024: return None
        allt = True; pairs = set()
        for i in range(0, w, 8):
            x, y = extract(a, i, 8), extract(b, i, 8)
            v = s._eq1(x, y)
            if v is False: return False
            if v is None: allt = False
            pairs.add((x, y)); pairs.add((y, x))
        if allt: return True
        for t, v in s.facts.items():
            if v or t.k != "eq": continue
            p, q = t.a
            if p.w % 8 or p.w > w: continue
            if all((extract(p, i, 8), extract(q, i, 8)) in pairs or s._eq1(extract(p, i, 8), extract(q, i, 8)) for i in range(0, p.w, 8)): return False
        return None
    def _lex(s, a, b):
        w = a.w
        if w < 16 or w % 8 or w > 1024: return None
        hi = w
        while hi > 0:
            moved = False
            for n in (128, 64, 32, 16, 8):
                if n > hi or n >= w: continue
                x, y = extract(a, hi - n, n), extract(b, hi - n, n)
                if s._eq1(x, y): hi -= n; moved = True; break
                if s.facts.get(ult(x, y)) or ult(x, y) is TRUE: return True
                if s.facts.get(ult(y, x)) or ult(y, x) is TRUE: return False
            if not moved: return None
        return False

    def _ule(s, a, b, strict=False, d=0):
        """a <= b (or a < b) as unsigned numbers, from intervals and facts"""
        la, ha = s.interval(a); lb, hb = s.interval(b)
        if (ha < lb) or (not strict and ha <= lb): return True
        if a is b: return not strict
        f = s.facts
        if a.w == b.w:
            if f.get(ult(a, b)) is True: return True
            if f.get(ult(b, a)) is False:
                if not strict: return True
                if f.get(eq(a, b)) is False: return True
            if f.get(eq(a, b)) is True and not strict: return True
            # b = a + nonnegative, no wrap
            ca, ia = _aff(a); cb, ib = _aff(b)
            dd = dict(ib); 
            for k, v in ia.items(): dd[k] = (dd.get(k, 0) - v) & mask(a.w)
            dd = {k: v for k, v in dd.items() if v}
            c = (cb - ca) & mask(a.w)
            if all(v < (1 << (a.w - 1)) for v in dd.values()) and c < (1 << (a.w - 1)):
                # diff = c + sum v*k >= 0 ; b does not wrap when a + diff stays below 2^w
                hi = ha + c + sum(v * s.interval(k)[1] for k, v in dd.items())
                lo = c + sum(v * s.interval(k)[0] for k, v in dd.items())
                if hi <= mask(a.w) and lo >= (1 if strict else 0): return True
            # x + c1 <= y + c2 from what is known about y - x
            if len(ia) == 1 and len(ib) == 1 and d < 2:
                (x, k1), = ia.items(); (y, k2), = ib.items()
                if k1 == 1 and k2 == 1 and x is not y:
                    M = mask(a.w); H = 1 << (a.w - 1)
                    c1 = ca - M - 1 if ca >= H else ca; c2 = cb - M - 1 if cb >= H else cb
                    xl, xh = s.interval(x); yl, yh = s.interval(y)
                    if xl + c1 >= 0 and xh + c1 <= M and yl + c2 >= 0 and yh + c2 <= M:
                        if s._difflo(y, x) + c2 - c1 >= (1 if strict else 0): return True
            if d < 2 and ca == 0 and len(ia) == 2:
                (p, cp), (q, cq) = ia.items(); M = mask(a.w)
                if cp == M: p, cp, q, cq = q, cq, p, cp
                if cp == 1 and cq == M and s._le_simple(q, p) and s.interval(q)[1] + hb <= M:
                    if s._ule(p, add_raw(q, b), strict, d + 1): return True
            # a = x + m, b = x + r with m <= r
            if d < 2 and len(ib) > 1:
                for x, k1 in ib.items():
                    if k1 == 1 and ia.get(x) == 1 and cb < (1 << (a.w - 1)) and all(v < 1 << (a.w - 1) for v in ib.values()) and \
                       cb + sum(v * s.interval(k)[1] for k, v in ib.items()) <= mask(a.w):
                        if s._ule(sub(a, x), sub(b, x), strict, d + 1): return True
            # a = b - m with m <= b
            if d < 2 and ia != ib:
                m = sub(b, a)
                if not is_const(m) and m.k in ("sym", "app", "cat", "add") and m is not b:
                    if s._le_simple(m, b) and (not strict or s.interval(m)[0] > 0): return True
        if d < 2:
            for t, v in f.items():
                if t.k == "ult":
                    x, y = t.a
                    if v: lo_, hi_, st = x, y, True
                    else: lo_, hi_, st = y, x, False
                    if lo_ is a and hi_.w == b.w and hi_ is not a:
                        if s._ule(hi_, b, strict and not st, d + 1): return True
                    if hi_ is b and lo_.w == a.w and lo_ is not b:
                        if s._ule(a, lo_, strict and not st, d + 1): return True
                elif t.k == "eq" and v:
                    x, y = t.a
                    for p, q in ((x, y), (y, x)):
                        if p is a and q is not a and s._ule(q, b, strict, d + 1): return True
                        if p is b and q is not b and s._ule(a, q, strict, d + 1): return True
        return False

    def _difflo(s, y, x):
        """a lower bound of y - x as whole numbers"""
        lo = s.interval(y)[0] - s.interval(x)[1]
        if s._le_simple(x, y): lo = max(lo, s.interval(sub(y, x))[0])
        if s._le_simple(y, x): lo = max(lo, -s.interval(sub(x, y))[1])
        return lo

    def _le_simple(s, a, b):
        f = s.facts
        if f.get(ult(a, b)) is True or f.get(ult(b, a)) is False: return True
        return s.interval(a)[1] <= s.interval(b)[0]

    def assume(s, b, v):
        """add a fact; False when it contradicts what is known"""
        if is_const(b): return bool(b.a) == v
        k = s.decide(b)
        if k is not None: return k == v
        if b.k == "xor" and len(b.a) == 2 and TRUE in b.a:
            o = b.a[0] if b.a[1] is TRUE else b.a[1]
            return s.assume(o, not v)
        if b.k == "and" and v: return all(s.assume(x, True) for x in b.a)
        if b.k in ("and", "or") and v == (b.k == "or"):
            left = [x for x in b.a if s.decide(x) is None]
            if len(left) == 1:
                if not s.assume(left[0], v): return False
        if b.k == "or" and not v: return all(s.assume(x, False) for x in b.a)
        if b.k == "slt":
            a, c = b.a; h = 1 << (a.w - 1)
            if s.interval(a)[1] < h and s.interval(c)[1] < h:
                return s.assume(ult(a, c), v)
        s.facts[b] = v
        if b.k == "eq":
            a, c = b.a
            if v:
                if a.w > 8 and a.w % 8 == 0 and a.w <= 1024 and (a.k == "cat" or c.k == "cat" or a.w > 64):
                    for i in range(0, a.w, 8):
                        x, y = extract(a, i, 8), extract(c, i, 8)
                        e = eq(x, y)
                        if is_const(e):
                            if not e.a: return False
                        elif e not in s.facts:
                            s.facts[e] = True
                            z = y if is_const(y) else x if is_const(x) else None
                            if z is not None: s._setiv(x if z is y else y, z.a, z.a)
                la, ha = s.interval(a); lc, hc = s.interval(c)
                lo, hi = max(la, lc), min(ha, hc)
                if lo > hi: return False
                for t in (a, c):
                    if not is_const(t): s._setiv(t, lo, hi)
            elif is_const(c):
                l, h = s.interval(a)
                if l == c.a: s._setiv(a, l + 1, h)
                elif h == c.a: s._setiv(a, l, h - 1)
        elif b.k == "ult":
            a, c = b.a
            if v: lo_, hi_, st = a, c, 1
            else: lo_, hi_, st = c, a, 0
            ll, lh = s.interval(lo_); hl, hh = s.interval(hi_)
            if not is_const(lo_): s._setiv(lo_, ll, min(lh, hh - st))
            if not is_const(hi_): s._setiv(hi_, max(hl, ll + st), hh)
            if not is_const(lo_) and not is_const(hi_):
                l, h = s.interval(sub(hi_, lo_))
                if l > h: return False
        elif b.k == "cat" and b.w == 1:
            (n, at, lo), = b.a
            if lo == at.w - 1:
                l, h = s.interval(at)
                if v: s._setiv(at, max(l, 1 << lo), h)
                else: s._setiv(at, l, min(h, (1 << lo) - 1))
        return True

    def _setiv(s, t, lo, hi):
        s.ival[t] = (lo, hi)
        if t.k == "add" and t.a[0]:
            c = t.a[0]; a, b = (lo - c) & mask(t.w), (hi - c) & mask(t.w)
            if a <= b:
                q = _base(t); x, y = s.interval(q)
                if max(a, x) <= min(b, y): s.ival[q] = (max(a, x), min(b, y))
        # widen the knowledge to the atom under a plain zero extension
        if t.k == "cat" and len(t.a) == 2 and t.a[1][1] is None and t.a[1][2] == 0:
            n, at, l = t.a[0]
            if at is not None and l == 0 and n == at.w:
                a, b = s.interval(at); s.ival[at] = (max(a, lo), min(b, hi))

    def simp(s, t):
        """resolve if-then-else nodes the facts settle"""
        n = 0
        if t.k == "app" and t.a[0] == "cd":
            return const(8, 0) if s._ule(CDS, t.a[1]) else t
        while t.k == "ite" and n < 64:
            v = s.decide(t.a[0]); n += 1
            if v is None: return t
            t = t.a[1] if v else t.a[2]
        return t

    def nonneg(s, t):
        return s.interval(t)[1] < (1 << (t.w - 1))

    # ---- regions -----------------------------------------------
    def add_region(s, r):
        s.regions[r.base] = r
        s.mem.setdefault(r.name, {})
        return r.base

    def resolve(s, addr):
        """(region, symbolic part or None, constant offset)"""
        c, it = _aff(addr)
        bases = [a for a, co in it.items() if a in s.regions]
        if len(bases) != 1 or it[bases[0]] != 1: return None, addr, 0
        r = s.regions[bases[0]]
        rest = {a: co for a, co in it.items() if a is not bases[0]}
        c = c - (1 << 32) if c >> 31 else c
        if not rest: return r, None, c
        from term import _mk_affine
        return r, _mk_affine(32, 0, rest), c

def subst(t, m):
    if t in m: return m[t]
    if t.k in ("eq", "ult", "slt"):
        return {"eq": eq, "ult": ult, "slt": slt}[t.k](subst(t.a[0], m), subst(t.a[1], m))
    if t.k == "xor" and len(t.a) == 2 and TRUE in t.a: return not_(subst([x for x in t.a if x is not TRUE][0], m))
    if t.k in ("and", "or"):
        r = None
        for x in t.a:
            y = subst(x, m); r = y if r is None else (and_ if t.k == "and" else or_)(r, y)
        return r
    if t.k in ("const", "sym"): return t
    raise Undecided("substitution in " + t.k)
def _base(t):
    from term import _mk_affine
    return _mk_affine(t.w, 0, dict(t.a[1]))
def _aff(t):
    from term import _affine
    return _affine(t)

# ---------------------------------------------------------------- host contracts
# name -> list of (argument index, kind, size) ; kind: "out" written by host, "in" read by host
# size: int, or ("arg", i) for a length passed as argument i
HOST = {
 "getAddress":        dict(bufs=[(0, "out", 20)], val="address"),
 "getCaller":         dict(bufs=[(0, "out", 20)], val="caller"),
 "getTxOrigin":       dict(bufs=[(0, "out", 20)], val="origin"),
 "getBlockCoinbase":  dict(bufs=[(0, "out", 20)], val="coinbase"),
 "getCallValue":      dict(bufs=[(0, "out", 32)], val="callvalue"),
 "getBlockPrevRandao":dict(bufs=[(0, "out", 32)], val="prevrandao"),
 "getTxGasPrice":     dict(bufs=[(0, "out", 32)], val="gasprice"),
 "getBaseFee":        dict(bufs=[(0, "out", 32)], val="basefee"),
 "getBlobBaseFee":    dict(bufs=[(0, "out", 32)], val="blobbasefee"),
 "getChainId":        dict(bufs=[(0, "out", 32)], val="chainid"),
 "getBlockHash":      dict(bufs=[(1, "out", 32)]),
 "getCallDataSize":   dict(scalar="calldatasize"),
 "getCodeSize":       dict(scalar="codesize"),
 "getBlockGasLimit":  dict(scalar="gaslimit"),
 "getBlockTimestamp": dict(scalar="timestamp"),
 "getBlockNumber":    dict(scalar="blocknumber"),
 "getGasLeft":        dict(),
 "getExternalBalance":dict(bufs=[(0, "in", 20), (1, "out", 32)]),
 "getExternalCodeHash":dict(bufs=[(0, "in", 20), (1, "out", 32)]),
 "getExternalCodeSize":dict(bufs=[(0, "in", 20)]),
 "externalCodeCopy":  dict(bufs=[(0, "in", 20), (1, "out", ("arg", 3))]),
 "storageLoad":       dict(bufs=[(0, "in", 32), (1, "out", 32)]),
 "storageStore":      dict(bufs=[(0, "in", 32), (1, "in", 32)]),
 "storageLoadLittleEndian":  dict(bufs=[(0, "in", 32), (1, "out", 32)]),
 "storageStoreLittleEndian": dict(bufs=[(0, "in", 32), (1, "in", 32)]),
 "transientLoad":     dict(bufs=[(0, "in", 32), (1, "out", 32)]),
 "transientStore":    dict(bufs=[(0, "in", 32), (1, "in", 32)]),
 "callDataCopy":      dict(bufs=[(0, "out", ("arg", 2))]),
 "codeCopy":          dict(bufs=[(0, "out", ("arg", 2))]),
 "returnDataCopy":    dict(bufs=[(0, "out", ("arg", 2))]),
 "getReturnDataSize": dict(),
 "callContract":      dict(bufs=[(1, "in", 20), (2, "in", 32), (3, "in", ("arg", 4))]),
 "callCode":          dict(bufs=[(1, "in", 20), (2, "in", 32), (3, "in", ("arg", 4))]),
 "callDelegate":      dict(bufs=[(1, "in", 20), (2, "in", ("arg", 3))]),
 "callStatic":        dict(bufs=[(1, "in", 20), (2, "in", ("arg", 3))]),
 "createContract":    dict(bufs=[(0, "in", 32), (1, "in", ("arg", 2)), (3, "in", ("arg", 4)), (5, "in?", 32), (7, "out", 20)]),
 "finish":            dict(bufs=[(0, "in", ("arg", 1))], terminal="return"),
 "revert":            dict(bufs=[(0, "in", ("arg", 1))], terminal="revert"),
 "invalid":           dict(terminal="invalid"),
 "selfDestruct":      dict(bufs=[(0, "in", 20)], terminal="selfdestruct"),
 "emitLogEvent":      dict(bufs=[(0, "in", ("arg", 1)), (3, "in?", 32), (4, "in?", 32), (5, "in?", 32), (6, "in?", 32)]),
 "keccak256":         dict(bufs=[(0, "in", ("arg", 1)), (2, "out", 32)]),
 "sha256":            dict(bufs=[(0, "in", ("arg", 1)), (2, "out", 32)]),
 "addmod":            dict(bufs=[(0, "in", 32), (1, "in", 32), (2, "in", 32), (3, "out", 32)]),
 "mulmod":            dict(bufs=[(0, "in", 32), (1, "in", 32), (2, "in", 32), (3, "out", 32)]),
}
SCALAR_W = {"calldatasize": 32, "codesize": 32, "gaslimit": 64, "timestamp": 64, "blocknumber": 64}
CDS = sym(32, "calldatasize")
CODESIZE = sym(32, "codesize")

def cd(idx):  # calldata byte, zero past the end (total function)
    return app(8, "cd", idx)

def bytes_of(t):
    return [extract(t, 8 * i, 8) for i in range(t.w // 8)]
def from_bytes(bs):  # memory order (low address first) -> little-endian value
    return concat(list(bs))
def be_value(bs):   # big-endian bytes -> value
    return concat(list(reversed(bs)))
def be_bytes(v):
    return list(reversed(bytes_of(v)))

def forward_ok(s, src, dst, n):
    """a byte-by-byte upward copy reads every source byte before overwriting it"""
    if (src is dst or s._ule(dst, src)) and s.interval(src)[1] < (1 << 31): return True
    # source below offset 0 (embedded data), destination inside EVM memory
    if s.interval(src)[0] >= (1 << 31) and s.interval(dst)[1] < (1 << 31): return bool(s._ule(n, neg(src)))
    if s.interval(add_raw(src, n))[1] < (1 << 31): return bool(s._ule(add_raw(src, n), dst))
    return False

def backward_ok(s, src, dst, n):
    """a byte-by-byte downward copy reads every source byte before overwriting it"""
    if src is dst or s._ule(src, dst): return s.interval(add_raw(dst, n))[1] < (1 << 31) + 1
    if s.interval(src)[0] >= (1 << 31) and s.interval(dst)[1] < (1 << 31): return True
    if s.interval(add_raw(dst, n))[1] < (1 << 31): return bool(s._ule(add_raw(dst, n), src))
    return False

KITER = sym(32, "#k")
def forall(body, n):
    """the guard 'body holds for every #k below n'"""
    return app(1, "forall", body, n)

class Bulk:  # source descriptors for copies: tuples, hashable
    pass

def src_byte(desc, k):
    """byte number k (int or term) of a bulk source"""
    kt = const(32, k) if isinstance(k, int) else k
    n = desc[0]
    if n == "cd": return cd(add_raw(desc[1], kt))
    if n == "fill": return desc[1]
    if n == "lst":
        if isinstance(k, int) and k < len(desc[1]): return desc[1][k]
        return app(8, "sel", desc[1], kt)
    if n in ("mem", "memfwd", "membwd"): return app(8, "ld", desc[1], add_raw(desc[2], kt))
    return app(8, "src", desc, kt)

class Machine:
    """operations shared by the interpreter and by the contracts (specs)"""
    def __init__(m, state, report=None):
        m.s = state; m.rep = report or (lambda *a: None); m.loc = ("", 0); m.spec = False

    # ---- byte access -------------------------------------------
    def region_default(m, r, off):
        if r.kind == "global":
            if r.init is not None and 0 <= off < len(r.init): return const(8, r.init[off])
            return app(8, "ginit", r.name, const(32, off))
        if r.kind == "alloca": return app(8, "undef", r.name, const(32, off))
        if r.kind == "param":
            if 0 <= off < r.size: return extract(sym(8 * r.size, "*" + r.name), 8 * off, 8)
        return app(8, "init", r.name, const(32, off))

    def load_byte(m, addr):
        s = m.s
        r, sp, off = s.resolve(addr)
        if r is None: return app(8, "abs", addr)
        if r.kind == "evm": return m.evm_read(sp, off)
        if sp is None:
            if r.size is not None and not (0 <= off < r.size):
                m.rep("bounds", f"read of byte {off} outside {r.name} (size {r.size})", m.loc, s)
            b = s.mem[r.name].get(off)
            return b if b is not None else m.region_default(r, off)
        if r.size is not None:
            m.range_need(addr, 1, "read")
            return src_byte(m.region_desc(r, sp, off), 0)
        return app(8, "init", r.name, add_raw(sp, const(32, off)))

    def region_desc(m, r, sp, off):
        """descriptor of reading region r at symbolic offset"""
        s = m.s
        lst = [s.mem[r.name].get(i) or m.region_default(r, i) for i in range(r.size)]
        at = add_raw(sp, const(32, off)) if sp is not None else const(32, off)
        def cdlike(b, i):
            if b.k == "app" and b.a[0] == "cd": return is_const(b.a[1]) and b.a[1].a == i
            return is_const(b) and b.a == 0 and s._ule(CDS, const(32, i))
        if lst and lst[0].k == "app" and all(cdlike(b, i) for i, b in enumerate(lst)): return ("cd", at)
        if is_const(at): return ("lst", tuple(lst[at.a:]))
        return ("regsel", tuple(lst), at)

    def store_byte(m, addr, b):
        s = m.s
        r, sp, off = s.resolve(addr)
        if r is None:
            s.events = push(s.events, ("absstore", addr, b)); return
        if r.kind == "evm": return m.evm_write(sp, off, b)
        if sp is None:
            if r.size is not None and not (0 <= off < r.size):
                m.rep("bounds", f"write of byte {off} outside {r.name} (size {r.size})", m.loc, s)
            if r.const: m.rep("bounds", f"write to read-only {r.name}", m.loc, s)
            s.mem[r.name][off] = b
            return
        # symbolic index into a fixed region: weak update
        m.range_need(addr, 1, "write")
        at = add_raw(sp, const(32, off))
        if r.size is not None and r.size <= 4096:
            for i in range(r.size):
                old = s.mem[r.name].get(i) or m.region_default(r, i)
                s.mem[r.name][i] = s.simp(ite(eq(at, const(32, i)), b, old))
        else:
            s.events = push(s.events, ("symstore", r.name, at, b))

    # ---- EVM memory --------------------------------------------
    def evm_flush(m):
        s = m.s
        if s.evm_head is not None:
            sp, d = s.evm_head
            s.evm = push(s.evm, ("w", sp, tuple(sorted(d.items()))))
            s.evm_head = None

    def evm_write(m, sp, off, b):
        s = m.s
        m.evm_need(sp, off, 1, "write")
        if s.evm_head is not None and s.evm_head[0] is not sp: m.evm_flush()
        if s.evm_head is None: s.evm_head = (sp, {})
        s.evm_head[1][off] = b

    def evm_read(m, sp, off):
        s = m.s
        m.evm_need(sp, off, 1, "read")
        if s.evm_head is not None:
            if s.evm_head[0] is sp:
                if off in s.evm_head[1]: return s.evm_head[1][off]
            else: m.evm_flush()
        n = s.evm
        while n is not None and n.e[0] == "w" and n.e[1] is sp:
            for o, b in n.e[2]:
                if o == off: return b
            n = n.prev
        a = const(32, off) if sp is None else add_raw(sp, const(32, off))
        return app(8, "ld", n, a)

    def evm_need(m, sp, off, n, what):
        """EVM memory up to off+n must have been made sure of"""
        if m.spec: return
        s = m.s
        o = const(32, off) if sp is None else add_raw(sp, const(32, off))
        n = const(32, n) if isinstance(n, int) else n
        m._need_end(o, add_raw(o, n), what, n)

    def _need_end(m, o, end, what, n):
        s = m.s; COUNT["evm"] += 1
        for e in s.ensured:
            if e is end: return
            d = sub(e, end)
            if is_const(d) and d.a < (1 << 31): return
            if s._ule(end, e): return
        # a negative offset names embedded data, not EVM memory
        if s.interval(o)[0] >= (1 << 31): return
        ens = s.ensured; n_ = n
        m.rep("evm", f"EVM memory {what} up to {show(end)} with nothing larger than " +
              (", ".join(show(e) for e in ens) or "nothing") + " made sure of", m.loc, s,
              lambda V, ev: ev(o) < (1 << 31) and ev(n_) > 0 and all(ev(e) < ev(end) for e in ens))

    # ---- ranges ------------------------------------------------
    def range_need(m, addr, n, what, buf=None):
        """own buffers: the range [addr, addr+n) must lie inside its region; EVM: must be grown"""
        s = m.s
        if isinstance(n, T) and is_const(n): n = n.a
        r, sp, off = s.resolve(addr)
        if r is None: return
        if r.kind == "evm":
            if m.spec: return
            if isinstance(n, int) and n == 0: return
            if isinstance(n, T) and s.interval(n) == (0, 0): return
            o = const(32, off) if sp is None else add_raw(sp, const(32, off))
            n = const(32, n) if isinstance(n, int) else n
            m._need_end(o, add_raw(o, n), what, n)
            return
        if r.size is None or m.spec: return
        COUNT["bounds"] += 1
        if sp is None and isinstance(n, int):
            if off < 0 or off + n > r.size:
                m.rep("bounds", f"{what} of {n} bytes at offset {off} of {r.name}, which has {r.size}", m.loc, s)
            return
        if sp is None:
            if off < 0 or not (s.interval(n)[1] <= r.size - off or s._ule(n, const(32, r.size - off))):
                m.rep("bounds?", f"{what} of {show(n)} bytes at offset {off} of {r.name}, which has {r.size}: not bounded by any guard", m.loc, s,
                      lambda V, ev: ev(n) > r.size - off)
            return
        at = add_raw(sp, const(32, off))
        nt = const(32, n) if isinstance(n, int) else n
        end = add_raw(at, nt)
        if s._ule(end, const(32, r.size)) and (s._ule(at, const(32, r.size)) or s._ule(at, end)): return
        m.rep("bounds?", f"{what} of {show(nt)} bytes at {show(at)} of {r.name}, which has {r.size}: not bounded by any guard", m.loc, s,
              lambda V, ev: ev(nt) > 0 and ev(at) + ev(nt) > r.size)

    def read_bytes(m, addr, n):
        return [m.load_byte(add_raw(addr, const(32, i))) for i in range(n)]

    def write_bytes(m, addr, bs):
        for i, b in enumerate(bs): m.store_byte(add_raw(addr, const(32, i)), b)

    def src_of(m, addr, n, fwd=False):
        """bulk source descriptor for reading n bytes at addr"""
        s = m.s
        r, sp, off = s.resolve(addr)
        if r is None: return ("abs", addr)
        if r.kind == "evm":
            m.evm_flush()
            a = const(32, off) if sp is None else add_raw(sp, const(32, off))
            return ("memfwd" if fwd else "mem", s.evm, a)
        if r.size is not None: return m.region_desc(r, sp, off)
        return ("abs", addr)

    def bulk(m, addr, n, desc, what="copy"):
        """write n bytes of desc at addr"""
        s = m.s
        if isinstance(n, T) and is_const(n): n = n.a
        if isinstance(n, T):
            lo, hi = s.interval(n)
            if lo == hi: n = lo
        m.range_need(addr, n, what)
        if isinstance(n, int):
            if n <= 4096 and desc[0] not in ("memfwd", "membwd"):
                bs = [src_byte(desc, k) for k in range(n)]
                m.write_bytes(addr, bs); return
            n = const(32, n)
        r, sp, off = s.resolve(addr)
        if r is not None and r.kind != "evm" and sp is None and r.size is not None and r.size <= 4096:
            for k in range(max(0, r.size - off)):
                c = ult(const(32, k), n)
                d = s.decide(c)
                if d is False: break
                nb = src_byte(desc, k)
                old = s.mem[r.name].get(off + k) or m.region_default(r, off + k)
                if d is True: s.mem[r.name][off + k] = nb
                elif nb.k == "app" and nb.a[0] == "cd" and is_const(old) and old.a == 0 and n is sub(CDS, sub(nb.a[1], const(32, k))):
                    # calldata bytes past the end are zero by definition of the calldata function
                    s.mem[r.name][off + k] = nb
                else: s.mem[r.name][off + k] = ite(c, nb, old)
            return
        if r is not None and r.kind == "evm":
            m.evm_flush()
            a = const(32, off) if sp is None else add_raw(sp, const(32, off))
            s.evm = push(s.evm, ("bulk", a, n, desc)); return
        s.events = push(s.events, ("absbulk", addr, n, desc))

    # ---- queries -----------------------------------------------
    def ctr(m, k):
        return m.s.ctr.get(k, 0)
    def bump(m, k): m.s.ctr[k] = m.ctr(k) + 1
    def host_bytes(m, name, n, *args):
        v = app(8 * n, name, *args) if args else sym(8 * n, name)
        return bytes_of(v)     # memory order
    def storage(m, key_bytes, kind="storage", op="sstore"):
        k = m.s.simp(from_bytes(key_bytes)); n = m.s.events
        while n.e[0] not in ("root", "call", "create"):
            if n.e[0] == op:
                same = m.s.decide(eq(n.e[1], k))
                if same: return bytes_of(n.e[2])
                if same is None: break
            n = n.prev
        return m.host_bytes(kind, 32, n, k)
    def transient(m, key_bytes):
        return m.storage(key_bytes, "transient", "tstore")
    def event(m, *e):
        m.evm_flush()
        m.s.events = push(m.s.events, e)

    def content(m, addr, n):
        """what the host sees in [addr, addr+n)"""
        s = m.s
        if isinstance(n, T) and is_const(n): n = n.a
        if isinstance(n, int) and n == 0: return ("empty",)
        r, sp, off = s.resolve(addr)
        if isinstance(n, int) and n <= 4096 and not (r is not None and r.kind == "evm"):
            bs = m.read_bytes(addr, n)
            if not m.spec: COUNT["uninit"] += 1
            und = [i for i, b in enumerate(bs) if any(x.k == "app" and x.a[0] == "undef" for x in subterms(b))]
            if und and not m.spec:
                m.rep("uninit", f"the host reads {len(und)} uninitialised byte(s) of {r.name if r else '?'}", m.loc, s)
            return ("bytes", from_bytes(bs))
        m.evm_flush()
        if r is not None and r.kind == "evm":
            a = const(32, off) if sp is None else add_raw(sp, const(32, off))
            return ("range", a, n if isinstance(n, T) else const(32, n), s.evm)
        d = m.src_of(addr, n)
        return ("src", d, n if isinstance(n, T) else const(32, n))

    # ---- host calls --------------------------------------------
    def host(m, name, args):
        """perform a host call on the abstract state; returns its result term or None"""
        s = m.s; h = HOST[name]
        for (i, kind, size) in h.get("bufs", []):
            n = args[size[1]] if isinstance(size, tuple) else size
            a = args[i]
            if kind == "in?" and is_const(a) and a.a == 0: continue
            m.range_need(a, n, f"{'host write by' if kind == 'out' else 'host read by'} {name}")
            if kind == "in" and n == 20: s.addrlog = s.addrlog + ((name, m.content(a, 20), m.loc),)
        if "scalar" in h: return sym(SCALAR_W[h["scalar"]], h["scalar"])
        if "val" in h:
            m.write_bytes(args[0], m.host_bytes(h["val"], h["bufs"][0][2])); return None
        C = m.content
        if name == "getGasLeft":
            m.bump("gas"); return app(64, "gasleft", m.ctr("gas"), m.ctr("epoch"))
        if name == "getBlockHash":
            m.write_bytes(args[1], m.host_bytes("blockhash", 32, args[0])); return app(32, "blockhash_found", args[0])
        if name in ("getExternalBalance", "getExternalCodeHash"):
            key = C(args[0], 20)
            m.write_bytes(args[1], m.host_bytes({"getExternalBalance": "balance", "getExternalCodeHash": "codehash"}[name], 32, m.ctr("epoch"), key)); return None
        if name == "getExternalCodeSize": return app(32, "extcodesize", m.ctr("epoch"), C(args[0], 20))
        if name == "externalCodeCopy":
            m.bulk(args[1], args[3], ("ext", m.ctr("epoch"), C(args[0], 20), args[2])); return None
        if name == "storageLoad":
            m.write_bytes(args[1], m.storage(m.read_init(args[0], 32))); return None
        if name == "storageLoadLittleEndian":
            m.write_bytes(args[1], list(reversed(m.storage(m.read_init(args[0], 32))))); return None
        if name == "transientLoad":
            m.write_bytes(args[1], m.transient(m.read_init(args[0], 32))); return None
        if name == "storageStore" or name == "storageStoreLittleEndian":
            k = m.read_init(args[0], 32); v = m.read_init(args[1], 32)
            if name.endswith("Endian"): v = list(reversed(v))
            m.event("sstore", s.simp(from_bytes(k)), from_bytes(v)); return None
        if name == "transientStore":
            k = m.read_init(args[0], 32); v = m.read_init(args[1], 32)
            m.event("tstore", s.simp(from_bytes(k)), from_bytes(v)); return None
        if name == "callDataCopy":
            m.cd_bounds(args[1], args[2])
            m.bulk(args[0], args[2], ("cd", args[1])); return None
        if name == "codeCopy":
            m.bulk(args[0], args[2], ("code", args[1])); return None
        if name == "returnDataCopy":
            m.rd_bounds(args[1], args[2])
            m.bulk(args[0], args[2], ("rd", m.ctr("epoch"), args[1])); return None
        if name == "getReturnDataSize": return m.rds()
        if name in ("callContract", "callCode"):
            m.event("call", name, args[0], C(args[1], 20), C(args[2], 32), C(args[3], args[4]))
            return m.after_call("callret")
        if name in ("callDelegate", "callStatic"):
            m.event("call", name, args[0], C(args[1], 20), C(args[2], args[3]))
            return m.after_call("callret")
        if name == "createContract":
            salt = ("none",) if is_const(args[5]) and args[5].a == 0 else C(args[5], 32)
            m.event("create", C(args[0], 32), C(args[1], args[2]), C(args[3], args[4]), salt, args[6])
            r = m.after_call("createret")
            # the host writes the new address (when it succeeds)
            m.write_bytes(args[7], m.host_bytes("newaddr", 20, m.ctr("epoch")))
            return r
        if name in ("finish", "revert"):
            m.event(h["terminal"], C(args[0], args[1])); s.outcome = h["terminal"]; return None
        if name == "invalid": m.event("invalid"); s.outcome = "invalid"; return None
        if name == "selfDestruct":
            m.event("selfdestruct", C(args[0], 20)); s.outcome = "selfdestruct"; return None
        if name == "emitLogEvent":
            tops = tuple(("none",) if is_const(a) and a.a == 0 else C(a, 32) for a in args[3:7])
            m.event("log", C(args[0], args[1]), args[2], tops); return None
        if name in ("keccak256", "sha256"):
            m.write_bytes(args[2], m.host_bytes(name, 32, C(args[0], args[1]))); return None
        if name in ("addmod", "mulmod"):
            xs = [from_bytes(m.read_init(a, 32)) for a in args[:3]]
            m.write_bytes(args[3], m.host_bytes(name, 32, *xs)); return None
        raise Anchor("no contract for host import " + name)

    def rds(m):
        t = app(32, "returndatasize", m.ctr("epoch"))
        m.s.ival.setdefault(t, (0, (1 << 31) - 1))
        return t

    def after_call(m, nm):
        m.bump("epoch")
        return app(32, nm, m.ctr("epoch"))

    def read_init(m, addr, n):
        c = m.content(addr, n)
        if c[0] != "bytes": 
            return m.read_bytes(addr, n)
        return bytes_of(c[1])

    def cd_bounds(m, off, n):
        if m.spec: return
        COUNT["calldata"] += 1
        s = m.s
        if is_const(n) and n.a == 0: return
        end = add_raw(off, n)
        ok = (s._ule(end, CDS) or end is CDS) and (s._ule(off, CDS) or is_const(off) and off.a == 0)
        if not ok: m.rep("calldata", f"host asked for calldata [{show(off)}, +{show(n)}), not bounded by the calldata size on this path", m.loc, s,
                     lambda V, ev: ev(n) > 0 and ev(off) + ev(n) > ev(CDS))

    def rd_bounds(m, off, n): return

    def ensure(m, size):
        if size not in m.s.ensured: m.s.ensured = m.s.ensured + (size,)

    # ---- wasm pages --------------------------------------------
    def pages_now(m):
        s = m.s
        t = add(sym(32, "pages"), s.grown) if s.grown is not None else sym(32, "pages")
        s.ival.setdefault(sym(32, "pages"), (1, 65536)); s._setiv(t, max(1, s.interval(t)[0]), min(65536, s.interval(t)[1]))
        return t

    def grow(m, n):
        """two disjuncts: the growth succeeded, or it failed and nothing changed"""
        s = m.s; o = s.copy(); k = m.ctr("growth"); m.bump("growth"); o.ctr["growth"] = k + 1
        before = m.pages_now()
        fail = sym(1, f"growfail{k}")
        out = []
        if s.assume(fail, False):
            s.grown = n if s.grown is None else add(s.grown, n)
            s.growlog = s.growlog + ((before, n),)
            m.pages_now()
            out.append((s, before))
        if o.assume(fail, True): out.append((o, const(32, -1)))
        return out

# ---------------------------------------------------------------- interpreter
import re
re_int = re.compile(r"-?\d+$"); re_ity = re.compile(r"i(\d+)$"); re_arr = re.compile(r"\[(\d+) x (.*)\]$")
re_ce = re.compile(r"(ptrtoint|inttoptr|getelementptr)\b")
INTRIN_MEMCPY = {"memcpy", "__memcpy"}
INTRIN_MEMMOVE = {"memmove", "__memmove"}
INTRIN_MEMSET = {"memset", "__memset"}

class Interp:
    """opts.summarise: treat the freestanding primitives and the EVM memory API by contract"""
    def __init__(I, mod, report, summarise=True, max_paths=3000, max_visits=400, max_steps=3_000_000, max_seconds=240, accel=False):
        I.accel = accel; I._loops = {}
        I.mod = mod; I.report = report; I.sum = summarise
        I.max_paths = max_paths; I.max_visits = max_visits; I.steps = 0; I.max_steps = max_steps
        I.calls = set(); I.hosts = set(); I.branches = set(); I.max_seconds = max_seconds
        import time; I.clock = time.time; I.t0 = time.time()

    def base_state(I):
        s = State()
        for n, g in I.mod.globals.items():
            if g["external"]: continue
            s.add_region(Region("g:" + n, "global", g["size"], g["init"], g["const"]))
        s.add_region(Region("EVM", "evm", None, None))
        s.ival[CDS] = (0, (1 << 31) - 1); s.ival[CODESIZE] = (0, (1 << 31) - 1)
        return s

    def run(I, fname, args, state):
        """all disjuncts (state, return term) reachable from fname"""
        if fname not in I.mod.fns: raise Anchor(f"function {fname} is gone")
        I.t0 = I.clock(); I.steps = 0
        return I.call(I.mod.fns[fname], args, state, 0)

    def call(I, f, args, state, depth):
        if depth > 24: raise Undecided(f"call depth in {f.name}")
        I.calls.add(f.name)
        env = {}
        key = "#call:" + f.name
        inst = state.ctr.get(key, 0) + 1; state.ctr[key] = inst
        for (ty, nm, bv), a in zip(f.params, args):
            if bv is not None:       # byval: private copy
                n = llir.tysize(bv)
                r = Region(f"{f.name}#{inst}:{nm}", "alloca", n, None)
                m = Machine(state, I.rep_for(f)); bs = m.read_bytes(a, n)
                state.mem[r.name] = {}
                b = state.add_region(r); m.write_bytes(b, bs); a = b
            env[nm] = a
        out = []
        work = [(state, env, f.order[0], None, 0, {})]
        while work:
            st, env, blk, prev, idx, visits = work.pop()
            if idx == 0 and I.accel and prev != blk and I.loops(f).get(blk):
                r = I.accelerate(f, st, env, blk, prev, I.loops(f)[blk])
                if r is not None:
                    for s2, e2, pb, nb in r: work.append((s2, e2, nb, pb, 0, visits))
                    continue
            if idx == 0:
                visits = dict(visits); visits[blk] = visits.get(blk, 0) + 1
                if visits[blk] > I.max_visits: raise Undecided(f"loop in {f.name} has no bound the analysis can see")
            for r in I.block(f, st, env, blk, prev, idx, depth, inst):
                if r[0] == "ret": out.append((r[1], r[2]))
                elif r[0] == "goto": work.append((r[1], r[2], r[3], blk, 0, visits))
                else: work.append((r[1], r[2], blk, prev, r[3], visits))
            if len(out) + len(work) > I.max_paths: raise Undecided(f"more than {I.max_paths} disjuncts in {f.name}")
            if I.clock() - I.t0 > I.max_seconds: raise Undecided(f"time budget in {f.name}")
        return out

    # ---- loops over byte ranges of symbolic length --------------
    def loops(I, f):
        """header -> the blocks of a simple cycle through it whose every other edge leaves the cycle"""
        r = I._loops.get(f.name)
        if r is not None: return r
        succ = {}
        for b in f.order:
            t = f.blocks[b][-1]
            succ[b] = [t[2]] if t[0] == "br" else [t[3], t[4]] if t[0] == "condbr" else []
        r = {}
        for h in f.order:
            cur = [h]; ok = None
            def go(path):
                for n in succ[path[-1]]:
                    if n == h: return path
                    if n not in path and len(path) < 4 and f.blocks[n] and f.blocks[n][0][0] != "phi":
                        g = go(path + [n])
                        if g: return g
                return None
            p = go([h])
            if p and f.blocks[h][0][0] == "phi" and f.order.index(h) == min(f.order.index(x) for x in p): r[h] = p
        I._loops[f.name] = r
        return r

    PURE = set(llir.BIN) | set(llir.CAST)
    def accelerate(I, f, st, env, blk, prev, path):
        """summarise  do { *d = *s or invariant; d,s += step } while (counter runs)  or
        do { if (p(k)) leave } while (counter runs).  None when the loop has another shape."""
        phis = []; 
        for ins in f.blocks[blk]:
            if ins[0] != "phi": break
            phis.append(ins)
        e = dict(env); init = {}; freshs = {}
        for q in phis:
            v = [x for x, pb in q[3] if pb == prev]; nx = [x for x, pb in q[3] if pb == path[-1]]
            if len(q[3]) != 2 or not v or not nx: return None
            init[q[1]] = I.val(env, q[2], v[0], st)
            freshs[q[1]] = sym(I.width(q[2]), f"#phi:{f.name}:{q[1]}")
        def body(vals, loadf, storef):
            e = dict(env); e.update(vals); exits = []
            for bi, b in enumerate(path):
                nxt = path[bi + 1] if bi + 1 < len(path) else blk
                for ins in f.blocks[b]:
                    op, d = ins[0], ins[1]
                    if op == "phi": continue
                    if op == "gep": e[d] = I.gep(ins[2], I.val(e, "ptr", ins[3], st), [(t, I.val(e, t, x, st)) for t, x in ins[4]])
                    elif op in llir.BIN:
                        if op in ("sdiv", "srem", "udiv", "urem", "shl", "lshr", "ashr"): return None
                        e[d] = I.binop(st, op, I.val(e, ins[2], ins[3], st), I.val(e, ins[2], ins[4], st))
                    elif op in llir.CAST:
                        a = I.val(e, ins[2], ins[3], st); w = I.width(ins[4])
                        e[d] = a if a.w == w else (trunc(a, w) if a.w > w else (sext if op == "sext" else zext)(a, w))
                    elif op == "icmp": e[d] = icmp(ins[2], I.val(e, ins[3], ins[4], st), I.val(e, ins[3], ins[5], st))
                    elif op == "load":
                        if I.width(ins[2]) != 8: return None
                        e[d] = loadf(I.val(e, "ptr", ins[3], st), ins[-1])
                    elif op == "store":
                        if I.width(ins[2]) != 8: return None
                        storef(I.val(e, "ptr", ins[4], st), I.val(e, ins[2], ins[3], st), ins[-1])
                    elif op == "call":
                        if not ins[3][1:].startswith("llvm.dbg"): return None
                    elif op == "br": pass
                    elif op == "condbr":
                        c = I.val(e, "i1", ins[2], st)
                        if ins[3] == nxt: exits.append((not_(c), ins[4], b))
                        elif ins[4] == nxt: exits.append((c, ins[3], b))
                        else: return None
                    else: return None
            return e, exits
        loads = []; stores = []
        def ld0(a, loc):
            v = sym(8, f"#ld{len(loads)}"); loads.append((a, v)); return v
        r = body(freshs, ld0, lambda a, v, loc: stores.append((a, v, loc)))
        if r is None: return None
        e1, exits = r
        step = {}
        fs = set(freshs.values()); lv = {v for _, v in loads}
        for q in phis:
            nx = [x for x, pb in q[3] if pb == path[-1]][0]
            d = sub(I.val(e1, q[2], nx, st), freshs[q[1]])
            if not is_const(d): return None
            step[q[1]] = d
        k = KITER
        at = lambda kt: {q[1]: add_raw(init[q[1]], mul(step[q[1]], kt) if init[q[1]].w == 32 else None) if init[q[1]].w == 32 else None for q in phis}
        if any(init[q[1]].w != 32 for q in phis): return None
        # with the iteration number
        loads.clear(); stores.clear()
        def ld1(a, loc):
            v = sym(8, f"#ld{len(loads)}"); loads.append((a, v, loc)); return v
        e2, exits = body(at(k), ld1, lambda a, v, loc: stores.append((a, v, loc)))
        lv = {v for _, v, _ in loads}
        count = [x for x in exits if not (subterms(x[0]) & lv)]
        data = [x for x in exits if subterms(x[0]) & lv]
        if len(count) != 1 or len(data) > 1: return None
        c, out, cb = count[0]
        # number of iterations
        if c.k == "eq":
            d = sub(c.a[0], c.a[1]); from_ = dict(_aff(d)[1]); co = from_.pop(k, 0); M = mask(32)
            if co not in (1, M) or d.w != 32 or any(k in subterms(a) for a in from_): return None
            rest = add_raw(d, mulc(k, -co))          # co*k + rest == 0
            last = neg(rest) if co == 1 else rest
            n = add_raw(last, const(32, 1))
        else: return None
        if c is not exits[-1][0] and data: return None
        if st.decide(eq(n, const(32, 0))) is not False: return None
        m = Machine(st, I.rep_for(f))
        def final(st, kt, b_):
            def ldf(a, loc): return app(8, "loopbyte", a)
            e3, _ = body(at(kt), ldf, lambda *a: None)
            return e3
        if stores:
            if len(stores) != 1 or data or len(loads) > 1: return None
            a, v, loc = stores[0]; m.loc = loc
            ca = _aff(a)[1].get(k, 0); M = mask(32)
            if ca not in (1, M): return None
            a0 = add_raw(a, mulc(k, -ca)); lo = a0 if ca == 1 else sub(a0, last)
            if v in lv:
                b = loads[0][0]
                if _aff(b)[1].get(k, 0) != ca: return None
                b0 = add_raw(b, mulc(k, -ca)); bl = b0 if ca == 1 else sub(b0, last)
                I.copy(m, st, lo, bl, n, None, False, back=ca == M)
            elif not (subterms(v) & (lv | {k})): m.bulk(lo, n, ("fill", v), "fill")
            else: return None
            return [(st, final(st, last, cb), cb, out)]
        if not data: return None
        # a search: leave at the first k for which the data exit fires
        lt = {}
        for a, v, loc in loads:
            m.loc = loc
            ca = _aff(a)[1].get(k, 0)
            if ca != 1: return None
            a0 = add_raw(a, neg(k)); m.range_need(a0, n, "read")
            lt[v] = src_byte(m.src_of(a0, n), k)
        dc = subst(data[0][0], lt); go_on = not_(dc)
        al = forall(go_on, n); res = []
        o = st.copy()
        if o.assume(al, True): res.append((o, final(o, last, cb), cb, out))
        if st.assume(al, False):
            kf = app(32, "first", go_on, n)
            res.append((st, final(st, kf, data[0][2]), data[0][2], data[0][1]))
        return res

    def rep_for(I, f):
        def rep(kind, msg, loc=None, st=None, cond=None):
            I.report(kind, msg, f.name, loc, None if st is None else st.copy(), cond)
        return rep

    def val(I, env, ty, v, st):
        if v.startswith("%"): return env[v]
        if v.startswith("@"):
            n = v[1:]
            if n in I.mod.globals: return sym(32, "&g:" + n)
            return sym(32, "&fn:" + n)
        w = I.width(ty)
        if v in ("true", "false"): return const(1, int(v == "true"))
        if v == "null" or v == "zeroinitializer": return const(w, 0)
        if v in ("undef", "poison"): return app(w, "undefval")
        if re_int.match(v): return const(w, int(v))
        if re_ce.match(v): return I.constexpr(v, st)
        raise Undecided("operand " + v)

    def constexpr(I, v, st):
        v = v.strip()
        if v.startswith("ptrtoint") or v.startswith("inttoptr"):
            inner = v[v.index("(") + 1:v.rindex(" to ")]
            ty, x = llir.take_type(inner); return I.val({}, ty, x, st)
        inner = v[v.index("(") + 1:-1]
        ps = llir.split_top(inner)
        base = I.val({}, "ptr", llir.take_type(ps[1])[1], st)
        return I.gep(re.sub(r"^(inbounds|nuw|nusw)\s+", "", ps[0]), base,
                     [(t, I.val({}, t, x, st)) for t, x in (llir.take_type(p) for p in ps[2:])])

    @staticmethod
    def width(ty):
        if ty == "ptr": return 32
        m = re_ity.match(ty)
        if m: return int(m.group(1))
        return 8 * llir.tysize(ty)

    def gep(I, ty, base, idx):
        a = base; cur = ty
        for j, (it, iv) in enumerate(idx):
            if iv.w < 32: iv = sext(iv, 32)
            elif iv.w > 32: iv = trunc(iv, 32)
            if j == 0: a = add_raw(a, mulc(iv, llir.tysize(cur))); continue
            m = re_arr.match(cur)
            if m:
                cur = m.group(2); a = add_raw(a, mulc(iv, llir.tysize(cur))); continue
            packed = cur.startswith("<")
            fs = llir.split_top(cur.strip("<>").strip()[1:-1]); k = iv.a; off = 0
            for q in range(k + 1):
                if not packed:
                    al = llir.tyalign(fs[q]); off = (off + al - 1) // al * al
                if q < k: off += llir.tysize(fs[q])
            a = add_raw(a, const(32, off)); cur = fs[k]
        return a

    def split_on(I, st, env, t, i):
        """two continuations at instruction i, one per arm of the if-then-else t"""
        out = []; c = t.a[0]
        o = st.copy()
        if o.assume(c, True): out.append(("at", o, dict(env), i))
        if st.assume(c, False): out.append(("at", st, env, i))
        return out

    def block(I, f, st, env, blk, prev, i, depth, inst):
        insts = f.blocks[blk]; rep = I.rep_for(f)
        while i < len(insts):
            ins = insts[i]; op, d = ins[0], ins[1]; loc = ins[-1]
            I.steps += 1
            if I.steps > I.max_steps: raise Undecided(f"step budget in {f.name}")
            if op == "alloca":
                n = llir.tysize(ins[2]); cnt = I.val(env, "i32", ins[3], st)
                if not is_const(cnt): raise Undecided("variable-length array")
                r = Region(f"{f.name}#{inst}:{d}", "alloca", n * cnt.a, None)
                st.mem[r.name] = {}
                env[d] = st.add_region(r)
            elif op == "load":
                m = Machine(st, rep); m.loc = loc
                a = st.simp(I.val(env, "ptr", ins[3], st)); w = I.width(ins[2]); n = llir.tysize(ins[2])
                if a.k == "ite": return I.split_on(st, env, a, i)
                t = from_bytes([st.simp(x) for x in m.read_bytes(a, n)])
                if w < 8 * n: t = trunc(t, w)
                env[d] = st.simp(t)
            elif op == "store":
                m = Machine(st, rep); m.loc = loc
                v = I.val(env, ins[2], ins[3], st); a = st.simp(I.val(env, "ptr", ins[4], st)); n = llir.tysize(ins[2])
                if a.k == "ite": return I.split_on(st, env, a, i)
                if v.w < 8 * n: v = zext(v, 8 * n)
                m.write_bytes(a, bytes_of(v))
            elif op == "gep":
                b = I.val(env, "ptr", ins[3], st)
                env[d] = I.gep(ins[2], b, [(t, I.val(env, t, x, st)) for t, x in ins[4]])
            elif op in llir.BIN:
                a = I.val(env, ins[2], ins[3], st); b = I.val(env, ins[2], ins[4], st)
                env[d] = I.binop(st, op, a, b)
            elif op in llir.CAST:
                a = I.val(env, ins[2], ins[3], st); w = I.width(ins[4])
                if op == "sext": env[d] = sext(a, w) if not st.nonneg(a) else zext(a, w)
                elif a.w < w: env[d] = zext(a, w)
                elif a.w > w: env[d] = trunc(a, w)
                else: env[d] = a
            elif op == "icmp":
                a = I.val(env, ins[3], ins[4], st); b = I.val(env, ins[3], ins[5], st)
                env[d] = icmp(ins[2], a, b)
            elif op == "select":
                c = I.val(env, "i1", ins[2], st); a = I.val(env, ins[3], ins[4], st); b = I.val(env, ins[3], ins[5], st)
                k = st.decide(c)
                env[d] = ite(c, a, b) if k is None else (a if k else b)
            elif op == "phi":
                vals = {}; j = i     # all phis of a block read the old values
                while j < len(insts) and insts[j][0] == "phi":
                    for v, pb in insts[j][3]:
                        if pb == prev: vals[insts[j][1]] = I.val(env, insts[j][2], v, st)
                    j += 1
                env.update(vals); i = j; continue
            elif op == "extractvalue":
                env[d] = env[ins[3]][ins[4]]
            elif op == "call":
                callee = ins[3][1:]
                args = [I.val(env, ty, v, st) for ty, v, _ in ins[4]]
                args = [st.simp(a) for a in args]
                if callee not in I.mod.fns or I.summarised(callee):
                    for k, a in enumerate(args):
                        if a.k == "ite" and ins[4][k][0] in ("ptr", "i32") and any(x in st.regions for x in subterms(a)):
                            return I.split_on(st, env, a, i)
                res = I.do_call(f, st, ins, callee, args, depth, loc)
                if len(res) == 1 and res[0][0] is st and st.outcome is None:
                    if d is not None: env[d] = res[0][1]
                else:
                    out = []
                    for k, (s2, rv) in enumerate(res):
                        if s2.outcome is not None: out.append(("ret", s2, None)); continue
                        e2 = dict(env)
                        if d is not None: e2[d] = rv
                        out.append(("at", s2, e2, i + 1))
                    return out
            elif op == "br": return [("goto", st, env, ins[2])]
            elif op == "condbr":
                c = I.val(env, "i1", ins[2], st); k = st.decide(c)
                if k is not None: return [("goto", st, env, ins[3] if k else ins[4])]
                I.branches.add((f.name, blk))
                o = st.copy(); out = []
                if o.assume(c, True): out.append(("goto", o, dict(env), ins[3]))
                if st.assume(c, False): out.append(("goto", st, env, ins[4]))
                return out
            elif op == "switch":
                v = st.simp(I.val(env, ins[2], ins[3], st)); out = []
                for cv, lb in ins[5]:
                    c = eq(v, const(v.w, cv)); k = st.decide(c)
                    if k is True: out.append(("goto", st, env, lb)); return out
                    if k is False: continue
                    o = st.copy()
                    if o.assume(c, True): out.append(("goto", o, dict(env), lb))
                    if not st.assume(c, False): return out
                out.append(("goto", st, env, ins[4])); return out
            elif op == "ret":
                return [("ret", st, None if ins[2] is None else st.simp(I.val(env, ins[2], ins[3], st)))]
            elif op == "unreachable":
                st.outcome = "unreachable"
                st.trace = st.trace + ((f.name,) + tuple(loc),)
                return [("ret", st, None)]
            else: raise Undecided("instruction " + op)
            i += 1
        raise Undecided("fell off block")

    def summarised(I, n):
        return I.sum and n in (INTRIN_MEMCPY | INTRIN_MEMMOVE | INTRIN_MEMSET | {"evm_make_sure_memory", "evm_get_memory_addr", "debug_bytes"})

    def do_call(I, f, st, ins, n, args, depth, loc):
        m = Machine(st, I.rep_for(f)); m.loc = loc
        rt = ins[2]
        if n.startswith("llvm."):
            if n.startswith("llvm.dbg") or n.startswith("llvm.lifetime") or n.startswith("llvm.assume") or n.startswith("llvm.experimental.noalias"): return [(st, None)]
            if n.startswith("llvm.memset"): return I.memset(m, st, args[0], args[1], args[2], None)
            if n.startswith("llvm.memcpy"): return I.copy(m, st, args[0], args[1], args[2], None, False)
            if n.startswith("llvm.memmove"): return I.copy(m, st, args[0], args[1], args[2], None, True)
            mm = re.match(r"llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)$", n)
            if mm:
                a, b = args; w = a.w
                ext = sext if mm.group(1) == "s" else zext
                W = 2 * w if mm.group(2) == "mul" else w + 2
                x = zext(a, W) if mm.group(1) == "u" or st.nonneg(a) else sext(a, W)
                y = zext(b, W) if mm.group(1) == "u" or st.nonneg(b) else sext(b, W)
                op = mm.group(2)
                wide = {"add": add, "sub": sub, "mul": mul}[op](x, y)
                r = I.binop(st, op, a, b)
                ov = I.overflow(st, mm.group(1), op, a, b)
                if ov is None:
                    ov = not_(eq(ext(r, W), wide))
                return [(st, (r, ov))]
            if n in ("llvm.trap", "llvm.ubsantrap", "llvm.debugtrap"):
                st.outcome = "trap"; return [(st, None)]
            if n.startswith("llvm.wasm.memory.size"):
                return [(st, m.pages_now())]
            if n.startswith("llvm.wasm.memory.grow"):
                return m.grow(args[-1])
            mm = re.match(r"llvm\.(umin|umax|smin|smax)\.", n)
            if mm:
                a, b = args; c = (ult if mm.group(1)[0] == "u" else slt)(a, b)
                return [(st, st.simp(ite(c, a, b) if mm.group(1).endswith("min") else ite(c, b, a)))]
            if n.startswith("llvm.bswap"): return [(st, concat(list(reversed(bytes_of(args[0])))))]
            if n.startswith("llvm.fshl"):
                a, b, c = args
                if is_const(c):
                    k = c.a % a.w
                    return [(st, a if k == 0 else or_(shl(a, const(a.w, k)), lshr(b, const(a.w, a.w - k))))]
            if n.startswith("llvm.abs"):
                a = args[0]; return [(st, st.simp(ite(extract(a, a.w - 1, 1), neg(a), a)))]
            if n.startswith("llvm.expect"): return [(st, args[0])]
            if n.startswith("llvm.objectsize"): return [(st, const(I.width(rt), -1))]
            raise Undecided("intrinsic " + n)
        if I.sum:
            if n in INTRIN_MEMSET: return I.memset(m, st, args[0], args[1], args[2], args[0] if rt == "ptr" else None)
            if n in INTRIN_MEMCPY: return I.copy(m, st, args[0], args[1], args[2], args[0] if rt == "ptr" else None, False)
            if n in INTRIN_MEMMOVE: return I.copy(m, st, args[0], args[1], args[2], args[0] if rt == "ptr" else None, True)
            if n == "evm_make_sure_memory":
                m.ensure(args[0]); return [(st, sym(32, "&EVM"))]
            if n == "evm_get_memory_addr":
                return [(st, add_raw(sym(32, "&EVM"), args[0]))]
            if n == "debug_bytes": return [(st, None)]
        if n in I.mod.fns and I.mod.fns[n].blocks:
            return I.call(I.mod.fns[n], args, st, depth + 1)
        if n == "debug_bytes": return [(st, None)]
        if n in HOST:
            I.hosts.add(n)
            r = m.host(n, args)
            return [(st, r)]
        raise Anchor(f"call to {n}, which neither the library nor the host interface defines")

    def overflow(I, st, sg, op, a, b):
        """interval argument that the operation cannot overflow"""
        (l1, h1), (l2, h2) = st.interval(a), st.interval(b); w = a.w; H = 1 << (w - 1)
        if sg == "s":
            def s(l, h):
                if h < H: return l, h
                if l >= H: return l - (1 << w), h - (1 << w)
                return -H, H - 1
            l1, h1 = s(l1, h1); l2, h2 = s(l2, h2); lim = (-H, H - 1)
        else: lim = (0, (1 << w) - 1)
        if op == "add": lo, hi = l1 + l2, h1 + h2
        elif op == "sub": lo, hi = l1 - h2, h1 - l2
        else:
            c = [x * y for x in (l1, h1) for y in (l2, h2)]; lo, hi = min(c), max(c)
        if lim[0] <= lo and hi <= lim[1]: return FALSE
        if hi < lim[0] or lo > lim[1]: return TRUE
        if op == "add" and sg == "s" and st.nonneg(a) and st.nonneg(b):
            c = extract(add(a, b), w - 1, 1); k = st.decide(c)
            return c if k is None else const(1, int(k))
        if op == "sub" and sg == "u":
            c = ult(a, b); k = st.decide(c)
            return c if k is None else const(1, int(k))
        return None

    def memset(I, m, st, dst, v, n, ret):
        v = trunc(v, 8) if v.w > 8 else v
        m.bulk(dst, n, ("fill", v), "fill")
        return [(st, ret)]

    def copy(I, m, st, dst, src, n, ret, overlap_ok, back=False):
        m.range_need(src, n, "copy from")
        rd, rs = st.resolve(dst)[0], st.resolve(src)[0]
        both = rd is not None and rd is rs
        d = m.src_of(src, n, fwd=both and not overlap_ok)
        if d[0] == "memfwd" and back:
            dr, dsp, doff = st.resolve(dst)
            at = const(32, doff) if dsp is None else add_raw(dsp, const(32, doff))
            d = ("mem",) + d[1:3] if backward_ok(st, d[2], at, n) else ("membwd",) + d[1:3] + (at,)
        if d[0] == "memfwd":
            dr, dsp, doff = st.resolve(dst)
            at = const(32, doff) if dsp is None else add_raw(dsp, const(32, doff))
            d = d + (at,)
            if forward_ok(st, d[2], at, n): d = ("mem",) + d[1:3]
        m.bulk(dst, n, d, "copy to")
        return [(st, ret)]

    def binop(I, st, op, a, b):
        if op == "add": return add(a, b)
        if op == "sub":
            return sub(a, b)
        if op == "mul": return mul(a, b)
        if op == "and": return and_(a, b)
        if op == "or": return or_(a, b)
        if op == "xor": return xor_(a, b)
        if op in ("shl", "lshr", "ashr"):
            lo, hi = st.interval(b)
            if lo == hi: b = const(b.w, lo)
            return {"shl": shl, "lshr": lshr, "ashr": ashr}[op](a, b)
        if op in ("sdiv", "srem"):
            if st.nonneg(a) and st.nonneg(b): op = "u" + op[1:]
        return div(op, a, b)
