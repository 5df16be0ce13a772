"""Equality of two observations by case analysis over normal forms.

The terms are normalised under the facts of their path; when they still differ, the argument
is split on a condition occurring in them, both sides of which must then be settled.
"""
from term import *  # noqa
import term, absint
from absint import State
from equiv import Norm


class N2(Norm):
    repl = {}
    def small(N, facts):
        """low parts of words the facts bound: {the part: the bounded bits, extended}"""
        N.repl = {}
        for c, v in facts:
            for x in subterms(c):
                if x.w > 64 and x.k == 'add':
                    k = N.st.interval(x)[1].bit_length()
                    for w in (32, 64):
                        if 0 < k < w: N.repl[trunc(x, w)] = zext(trunc(x, k), w)
        return N
    def widened(N, z):
        """a sum that cannot overflow, sign-extended: the sum of its extended terms"""
        n, r, off = z.a[-1]
        if r is None or r.k != 'rep': return z
        k = z.w - n
        x = trunc(z, k)
        if x.k != 'add' or extract(x, k - 1, 1) is not r.a: return z
        lo = hi = sval(const(k, x.a[0]))
        for at, co in x.a[1]:
            c = co if co < 1 << (k - 1) else co - (1 << k)
            a, b = N.st.interval(at)
            lo += min(c * a, c * b); hi += max(c * a, c * b)
        if lo < -(1 << (k - 1)) or hi >= 1 << (k - 1): return z
        res = const(z.w, sval(const(k, x.a[0])))
        for at, co in x.a[1]: res = add(res, mulc(zext(at, z.w), co if co < 1 << (k - 1) else co - (1 << k)))
        return res
    def known(N, y):
        lo, hi = N.st.interval(y)
        if lo == hi: return const(y.w, lo)
        k = hi.bit_length()
        return zext(extract(y, 0, k), y.w) if 0 < k < y.w else y
    def fin(N, z):
        if z in N.repl: return N.repl[z]
        if z.k == 'cat':
            y = N.widened(z)
            if y is not z: return y
        if z.k == 'cat' and z.w > 8: 
            lo, hi = N.st.interval(z)
            if lo == hi: return const(z.w, lo)
        if z.w > 8 and z.k not in ('const', 'cat', 'ite', 'sym', 'app'):
            # a value that stays small is that of its low bits
            k = N.st.interval(z)[1].bit_length()
            if 0 < k < z.w: return zext(trunc(z, k), z.w)
        return Norm.fin(N, z)
    def rebuild(N, y):
        if y.k == 'add' and (y.a[0] or len(y.a[1]) > 1):
            # a multiple is a coefficient, not a shifted atom
            w, it = y.w, {}
            c = y.a[0]
            for at, co in y.a[1]:
                c2, i2 = term._affine(N.memo[at])
                c += c2 * co
                for x, k in i2.items():
                    k *= co
                    if x.k == 'cat' and x.a[0][1] is None and x.a[0][2] == 0 and x.a[0][0] < w:
                        n = x.a[0][0]
                        x, k = zext(extract(x, n, w - n), w), k << n
                    it[x] = it.get(x, 0) + k
            return term._mk_affine(w, c, it)
        return Norm.rebuild(N, y)

def atoms(b):
    """comparisons a boolean is made of"""
    out, st = [], [b]
    while st:
        x = st.pop()
        if x.k in ('and', 'or', 'xor') and x.w == 1: st += [y for y in x.a if not is_const(y)]
        elif not is_const(x): out.append(x)
    return out


def conds(ts):
    """conditions in the terms, innermost first"""
    seen = set()
    for t in ts: subterms(t, seen)
    out = []
    for x in seen:
        if x.k == 'ite': out += atoms(x.a[0])
        elif x.w == 1 and x.k in ('eq', 'ult', 'slt'): out.append(x)
        elif x.k in ('udiv', 'urem', 'sdiv', 'srem') and not is_const(x.a[1]): out.append(eq(x.a[1], const(x.w, 0)))
    out = {x for x in out if not is_const(x)}
    sub = {x: {y for y in subterms(x) if y.k == 'ite'} for x in out}
    return sorted(out, key=lambda x: (len(sub[x]), len(subterms(x)), x.id))


class Budget:
    def __init__(b, n): b.n = n


def flat(x):
    if isinstance(x, T): return [x]
    if isinstance(x, (tuple, list)): return [y for z_ in x for y in flat(z_)]
    return []


def prove(facts, pairs, obls, depth=10, budget=None):
    """facts: [(cond, bool)]; pairs equal and obligations true under them"""
    budget = budget or Budget(400)
    budget.n -= 1
    if budget.n < 0: return False
    st = State()
    for c, v in facts:
        if not st.assume(c, v): return True
    N = N2(st).small(facts)
    # facts reduce under one another too
    for c, v in facts:
        z = N.t(c)
        if is_const(z) and bool(z.a) != v: return True
    ps = []
    for a, b in pairs:
        x, y = N.t(a), N.t(b)
        if x is not y: ps.append((x, y))
    os_ = []
    for c in obls:
        z = N.t(c)
        if is_const(z):
            if not z.a: return False
        else: os_.append(z)
    if not ps and not os_: return True
    if depth == 0: return False
    ts = [t for p in ps for t in p] + os_
    for t in ts:
        if len(subterms(t)) > 4000: return False
    known = {c for c, _ in facts}
    cs = [c for c in conds(ts) if c not in known and st.decide(c) is None]
    if not cs: return False
    c = cs[0]
    return all(prove(facts + [(c, v)], ps, os_, depth - 1, budget) for v in (True, False))


def prove_obs(facts, rev, gev, obls, depth=10):
    a, b = flat(rev), flat(gev)
    if len(a) != len(b) or shape(rev) != shape(gev): return False
    return prove([(c, v) for c, v in facts.items()], [(x, y) for x, y in zip(a, b) if x is not y], list(obls), depth)


def shape(x):
    if isinstance(x, T): return x.w
    if isinstance(x, (tuple, list)): return tuple(shape(y) for y in x)
    return x


def contradict(facts, splits=(), depth=8, budget=None):
    """the conditions cannot hold together"""
    budget = budget or Budget(300)
    budget.n -= 1
    if budget.n < 0: return False
    st = State()
    for c, v in splits:
        if not st.assume(c, v): return True
    N = N2(st)
    red = {}
    for c, v in facts:
        z = N.t(c)
        if z.k == 'xor' and z.w == 1 and any(is_const(y) for y in z.a): z, v = not_(z), not v
        if is_const(z):
            if bool(z.a) != v: return True
            continue
        if red.get(z, v) != v or red.get(not_(z), not v) == v: return True
        red[z] = v
    for c, v in red.items():
        if not st.assume(c, v): return True
    for c, v in red.items():
        d = st.decide(c)
        if d is not None and d != v: return True
    if depth == 0: return False
    known = {c for c, _ in splits}
    cs = [c for c in conds(list(red)) if c not in known and c not in red]
    if not cs: return False
    c = cs[0]
    rs = list(red.items())
    return all(contradict(rs, list(splits) + [(c, v)], depth - 1, budget) for v in (True, False))
