"""Hash-consed abstract values: a Herbrand/affine/bit-provenance domain.

Every value is a term over input symbols.  Construction normalises:
  * bit slices and concatenations (so byte-order shuffles, masks and shifts by constants
    become pure provenance: which bit of which input ends up where),
  * sums (affine normal form modulo 2^w), products (monomials),
  * bitwise operations (pushed into slices).
`evaluate` gives a term its meaning under a valuation of the symbols; it is used only to
back off from reporting when two different normal forms denote the same function.
"""
_tab = {}
_cnt = [0]

class T:
    __slots__ = ("w", "k", "a", "id", "_h")
    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o

def _mk(w, k, a):
    key = (w, k, a)
    t = _tab.get(key)
    if t is None:
        t = T(); t.w = w; t.k = k; t.a = a; t.id = _cnt[0]; _cnt[0] += 1
        _tab[key] = t
    return t

def mask(w): return (1 << w) - 1
def const(w, v): return _mk(w, "const", v & mask(w))
def sym(w, name): return _mk(w, "sym", name)
def app(w, name, *args): return _mk(w, "app", (name,) + args)
def is_const(t): return t.k == "const"
def cval(t): return t.a if t.k == "const" else None
def sval(t):
    v = t.a
    return v - (1 << t.w) if v >> (t.w - 1) else v
TRUE = const(1, 1); FALSE = const(1, 0)

# ---------------------------------------------------------------- segments
def segs(t):
    """low-to-high list of (len, atom-or-None, lo-or-constvalue)"""
    if t.k == "const": return ((t.w, None, t.a),)
    if t.k == "cat": return t.a
    return ((t.w, t, 0),)

def cat_segs(parts):
    out = []
    for (n, at, lo) in parts:
        if n == 0: continue
        if out:
            (pn, pat, plo) = out[-1]
            if at is None and pat is None:
                out[-1] = (pn + n, None, plo | (lo << pn)); continue
            if at is not None and pat is not None:
                if at is pat and lo == plo + pn:
                    out[-1] = (pn + n, at, plo); continue
                if at.k == "rep" and pat.k == "rep" and at.a is pat.a:
                    r = _mk(pn + n, "rep", at.a); out[-1] = (pn + n, r, 0); continue
        out.append((n, at, lo))
    w = sum(x[0] for x in out)
    if len(out) == 1:
        n, at, lo = out[0]
        if at is None: return const(n, lo)
        if lo == 0 and n == at.w: return at
    return _mk(w, "cat", tuple(out))

def extract(t, lo, n):
    if lo == 0 and n == t.w: return t
    assert 0 <= lo and lo + n <= t.w, (t, lo, n)
    if n == 0: return None
    k = t.k
    if k == "const": return const(n, t.a >> lo)
    if k == "cat":
        parts = []; pos = 0
        for (sn, at, sl) in t.a:
            s, e = max(pos, lo), min(pos + sn, lo + n)
            if s < e:
                if at is None: parts.append((e - s, None, (sl >> (s - pos)) & mask(e - s)))
                else:
                    x = _slice(at, sl + (s - pos), e - s)
                    parts.extend(segs(x))
            pos += sn
        return cat_segs(parts)
    return _slice(t, lo, n)

def _slice(t, lo, n):
    if lo == 0 and n == t.w: return t
    k = t.k
    if k == "const": return const(n, t.a >> lo)
    if k == "rep": return _mk(n, "rep", t.a) if n > 1 else t.a
    if k == "cat": return extract(t, lo, n)
    if k in ("and", "or", "xor"):
        f = {"and": and_, "or": or_, "xor": xor_}[k]
        r = None
        for x in t.a:
            y = extract(x, lo, n)
            r = y if r is None else f(r, y)
        return r
    if k == "ite":
        a, b = extract(t.a[1], lo, n), extract(t.a[2], lo, n)
        if is_const(a) or is_const(b) or a is b: return ite(t.a[0], a, b)
        return ite(t.a[0], a, b)
    return _mk(n, "cat", ((n, t, lo),))

def power(t, p):
    if p == 0: return const(t.w, 1)
    if is_const(t): return const(t.w, pow(t.a, p, 1 << t.w))
    if t.k == "mul": return _mul_norm(t.w, pow(t.a[0], p, 1 << t.w), [(a, q * p) for a, q in t.a[1]])
    return _mul_norm(t.w, 1, [(t, p)])

def concat(parts_low_first):
    out = []
    for t in parts_low_first: out.extend(segs(t))
    return cat_segs(out)

def zext(t, w):
    if w == t.w: return t
    return cat_segs(list(segs(t)) + [(w - t.w, None, 0)])

def rep(bit, n):
    if n == 1: return bit
    if is_const(bit): return const(n, mask(n) if bit.a else 0)
    return _mk(n, "rep", bit)

def sext(t, w):
    if w == t.w: return t
    if is_const(t): return const(w, sval(t))
    s = extract(t, t.w - 1, 1)
    return concat([t, rep(s, w - t.w)])

def trunc(t, w):
    """low bits; sums and products are reduced to the narrower modulus"""
    if t.w == w: return t
    if t.k == "add":
        r = const(w, t.a[0])
        for at, co in t.a[1]: r = add_raw(r, mulc(trunc(at, w), co))
        return r
    if t.k == "mul":
        r = const(w, t.a[0])
        for at, p in t.a[1]: r = mul(r, power(trunc(at, w), p))
        return r
    if t.k == "cat":
        # low part of a zero-extended sum
        n, at, lo = t.a[0]
        if at is not None and lo == 0 and w <= n and at.k in ("add", "mul"): return trunc(at, w)
    return extract(t, 0, w)

def _align(a, b):
    """split a and b into common pieces: list of (len, pieceA term, pieceB term)"""
    cuts = set([0])
    for t in (a, b):
        p = 0
        for s in segs(t):
            p += s[0]; cuts.add(p)
    cuts = sorted(cuts)
    return [(e - s, extract(a, s, e - s), extract(b, s, e - s)) for s, e in zip(cuts, cuts[1:])]

def _bitop(name, a, b):
    assert a.w == b.w, (name, a, b)
    if a.k == "const" and b.k == "const":
        v = {"and": a.a & b.a, "or": a.a | b.a, "xor": a.a ^ b.a}[name]
        return const(a.w, v)
    if a is b:
        return const(a.w, 0) if name == "xor" else a
    if b.k == "const": a, b = b, a
    if a.k == "const":
        # cut by runs of equal bits
        parts = []; i = 0; w = a.w
        while i < w:
            bit = (a.a >> i) & 1; j = i
            while j < w and ((a.a >> j) & 1) == bit: j += 1
            piece = extract(b, i, j - i)
            if name == "and": r = piece if bit else const(j - i, 0)
            elif name == "or": r = const(j - i, mask(j - i)) if bit else piece
            else: r = _not(piece) if bit else piece
            parts.append(r); i = j
        return concat(parts)
    if a.k == "cat" or b.k == "cat":
        al = _align(a, b)
        if len(al) > 1:
            return concat([_bitop(name, x, y) for (_, x, y) in al])
    fl = []
    for t in (a, b):
        if t.k == name: fl.extend(t.a)
        else: fl.append(t)
    if name == "xor":
        cnt = {}
        for t in fl: cnt[t] = cnt.get(t, 0) ^ 1
        fl = [t for t in cnt if cnt[t]]
        if not fl: return const(a.w, 0)
        # pull out complemented constants
        c = 0; rest = []
        for t in fl:
            if is_const(t): c ^= t.a
            else: rest.append(t)
        if c: rest.append(const(a.w, c))
        fl = rest
    else:
        fl = list(dict.fromkeys(fl))
        comp = set(_not(t) for t in fl)
        if any(t in comp for t in fl):
            return const(a.w, 0 if name == "and" else mask(a.w))
    if len(fl) == 1: return fl[0]
    fl.sort(key=lambda t: t.id)
    return _mk(a.w, name, tuple(fl))

def _not(t):
    if t.k == "const": return const(t.w, ~t.a)
    if t.k == "xor":
        last = [x for x in t.a if is_const(x)]
        if last:
            rest = [x for x in t.a if not is_const(x)]
            c = last[0].a ^ mask(t.w)
            if c: rest.append(const(t.w, c))
            if len(rest) == 1: return rest[0]
            rest.sort(key=lambda x: x.id)
            return _mk(t.w, "xor", tuple(rest))
    if t.k == "cat" and len(t.a) > 1:
        return concat([_not(extract(t, p, n)) for p, n in _pos(t)])
    if t.k == "rep": return rep(_not(t.a), t.w)
    if t.k == "ite" and t.w == 1: return ite(t.a[0], _not(t.a[1]), _not(t.a[2]))
    args = sorted([t, const(t.w, mask(t.w))], key=lambda x: x.id)
    return _mk(t.w, "xor", tuple(args))

def _pos(t):
    p = 0; out = []
    for s in segs(t): out.append((p, s[0])); p += s[0]
    return out

def and_(a, b): return _bitop("and", a, b)
def or_(a, b): return _bitop("or", a, b)
def xor_(a, b): return _bitop("xor", a, b)
def not_(a): return _not(a)

# ---------------------------------------------------------------- arithmetic
def ubound(t):
    """an upper bound of the unsigned value"""
    if t.k == "const": return t.a
    if t.k == "cat":
        v = 0; p = 0
        for (n, at, lo) in t.a:
            if at is None: v |= lo << p
            else:
                b = mask(n)
                if lo == 0: b = min(b, ubound(at))
                v |= b << p
            p += n
        return v
    if t.k == "ite": return max(ubound(t.a[1]), ubound(t.a[2]))
    if t.k == "urem" and is_const(t.a[1]) and t.a[1].a: return t.a[1].a - 1
    if t.k == "udiv" and is_const(t.a[1]) and t.a[1].a: return ubound(t.a[0]) // t.a[1].a
    if t.k == "and": return min(ubound(x) for x in t.a)
    if t.k == "add":
        v = t.a[0] + sum(co * ubound(at) for at, co in t.a[1])
        return v if v <= mask(t.w) else mask(t.w)
    return mask(t.w)

def _affine(t):
    """(const, {atom: coef})"""
    if t.k == "const": return t.a, {}
    if t.k == "add": return t.a[0], dict(t.a[1])
    if t.k == "mul" and t.a[0] != 1:
        return 0, {_mul_norm(t.w, 1, list(t.a[1])): t.a[0]}
    if t.k == "cat" and t.a[0][1] is None and t.a[0][2] == 0 and len(t.a) == 2 and t.a[1][1] is not None and t.a[1][2] == 0:
        # x << n with the top bits cut off: 2^n * x (mod 2^w) when the atom is as wide as w
        n = t.a[0][0]; at = t.a[1][1]
        if at.w == t.w: return 0, {at: 1 << n}
    return 0, {t: 1}

def _mk_affine(w, c, items):
    M = mask(w)
    items = [(a, co & M) for a, co in items.items() if co & M]
    c &= M
    if not items: return const(w, c)
    if c == 0 and len(items) == 1 and items[0][1] == 1: return items[0][0]
    if c == 0 and len(items) == 1:
        co = items[0][1]
        if co & (co - 1) == 0:   # power of two: a shift
            n = co.bit_length() - 1
            return cat_segs([(n, None, 0)] + list(segs(extract(items[0][0], 0, w - n))))
    items.sort(key=lambda x: x[0].id)
    return _mk(w, "add", (c, tuple(items)))

def add(a, b):
    assert a.w == b.w, (a, b)
    w = a.w
    if a.k == "const" and b.k == "const": return const(w, a.a + b.a)
    if a.k == "const" and a.a == 0: return b
    if b.k == "const" and b.a == 0: return a
    # disjoint bits: no carries
    if a.k == "cat" or b.k == "cat":
        al = _align(a, b)
        if all((x.k == "const" and x.a == 0) or (y.k == "const" and y.a == 0) for _, x, y in al):
            return concat([y if (x.k == "const" and x.a == 0) else x for _, x, y in al])
    # minimal width when nothing can overflow
    s = ubound(a) + ubound(b)
    m = s.bit_length()
    if m < w and m > 0:
        return zext(add_raw(trunc(a, m), trunc(b, m)), w)
    return add_raw(a, b)

def add_raw(a, b):
    c1, i1 = _affine(a); c2, i2 = _affine(b)
    for k, v in i2.items(): i1[k] = i1.get(k, 0) + v
    return _mk_affine(a.w, c1 + c2, i1)

def mulc(a, c):
    w = a.w; c &= mask(w)
    if c == 0: return const(w, 0)
    if c == 1: return a
    if a.k == "const": return const(w, a.a * c)
    if c & (c - 1) == 0:
        n = c.bit_length() - 1
        if a.k not in ("add",):
            return cat_segs([(n, None, 0)] + list(segs(extract(a, 0, w - n))))
    c0, it = _affine(a)
    return _mk_affine(w, c0 * c, {k: v * c for k, v in it.items()})

def neg(a): return mulc(a, -1)
def sub(a, b):
    if a is b: return const(a.w, 0)
    if a.k == "const" and b.k == "const": return const(a.w, a.a - b.a)
    if b.k == "const": 
        # keep affine form: no minimal-width trick with wrapped constants
        return add_raw(a, const(a.w, -b.a)) if b.a else a
    return add_raw(a, mulc(b, -1))

def _mul_norm(w, c, factors):
    d = {}
    for a, p in factors: d[a] = d.get(a, 0) + p
    c &= mask(w)
    if c == 0: return const(w, 0)
    items = tuple(sorted(((a, p) for a, p in d.items() if p), key=lambda x: x[0].id))
    if not items: return const(w, c)
    if len(items) == 1 and items[0][1] == 1: return mulc(items[0][0], c)
    return _mk(w, "mul", (c, items))

def mul(a, b):
    assert a.w == b.w
    if is_const(a): return mulc(b, a.a)
    if is_const(b): return mulc(a, b.a)
    fs = []; c = 1
    for t in (a, b):
        if t.k == "mul": c *= t.a[0]; fs += list(t.a[1])
        else: fs.append((t, 1))
    return _mul_norm(a.w, c, fs)

def shl(a, n):
    if is_const(n):
        s = n.a
        if s >= a.w: return app(a.w, "poison_shift")
        if s == 0: return a
        return cat_segs([(s, None, 0)] + list(segs(extract(a, 0, a.w - s))))
    if is_const(a) and a.a == 0: return a
    return _mk(a.w, "shl", (a, n))

def lshr(a, n):
    if is_const(n):
        s = n.a
        if s >= a.w: return app(a.w, "poison_shift")
        if s == 0: return a
        return zext(extract(a, s, a.w - s), a.w)
    if is_const(a) and a.a == 0: return a
    return _mk(a.w, "lshr", (a, n))

def ashr(a, n):
    if is_const(n):
        s = n.a
        if s >= a.w: return app(a.w, "poison_shift")
        if s == 0: return a
        return sext(extract(a, s, a.w - s), a.w)
    return _mk(a.w, "ashr", (a, n))

def _sd(x, y):
    q = abs(x) // abs(y)
    return -q if (x < 0) != (y < 0) else q

def div(name, a, b):
    w = a.w
    if is_const(a) and is_const(b) and b.a:
        if name == "udiv": return const(w, a.a // b.a)
        if name == "urem": return const(w, a.a % b.a)
        x, y = sval(a), sval(b)
        if name == "sdiv": return const(w, _sd(x, y))
        return const(w, x - _sd(x, y) * y)
    if is_const(b) and b.a and b.a & (b.a - 1) == 0 and name in ("udiv", "urem"):
        n = b.a.bit_length() - 1
        if n == 0: return a if name == "udiv" else const(w, 0)
        return lshr(a, const(w, n)) if name == "udiv" else zext(extract(a, 0, n), w)
    if is_const(b) and name in ("sdiv", "srem") and b.a in (1, mask(w)):
        # (the smallest value by -1 is a separate obligation of whoever divides)
        return const(w, 0) if name == "srem" else a if b.a == 1 else neg(a)
    return _mk(w, name, (a, b))

# ---------------------------------------------------------------- booleans
def ite(c, a, b):
    if is_const(c): return a if c.a else b
    if a is b: return a
    if a.w == 1 and is_const(a) and is_const(b):
        return c if a.a else not_(c)
    if c.k == "xor" and len(c.a) == 2 and TRUE in c.a:
        o = c.a[0] if c.a[1] is TRUE else c.a[1]
        return ite(o, b, a)
    return _mk(a.w, "ite", (c, a, b))

def eq(a, b):
    assert a.w == b.w, (a, b)
    if a is b: return TRUE
    if is_const(a) and is_const(b): return TRUE if a.a == b.a else FALSE
    # distinct constants in the same affine class
    ca, ia = _affine(a); cb, ib = _affine(b)
    if ia == ib and (ca - cb) & mask(a.w): return FALSE
    if a.k == "cat" or b.k == "cat":
        al = _align(a, b)
        r = []
        for n, x, y in al:
            if x is y: continue
            if is_const(x) and is_const(y):
                if x.a != y.a: return FALSE
                continue
            cx, jx = _affine(x); cy, jy = _affine(y)
            if jx == jy and (cx - cy) & mask(n): return FALSE
            r.append((x, y))
        if not r: return TRUE
        if len(r) < len(al):
            # drop equal parts; rebuild
            a = concat([x for x, _ in r]); b = concat([y for _, y in r])
            if is_const(a) and is_const(b): return TRUE if a.a == b.a else FALSE
    if a.w == 1:
        if is_const(b): return a if b.a else not_(a)
        if is_const(a): return b if a.a else not_(b)
    if is_const(b):
        # move constants: add(c, x) == k  ->  x == k - c
        c0, it = _affine(a)
        if c0 and len(it) == 1:
            (at, co), = it.items()
            if co == 1: a, b = at, const(a.w, b.a - c0)
        if a.k == "ite" and is_const(a.a[1]) and is_const(a.a[2]):
            return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
        if b.a == 0 and a.k == "or":
            r = TRUE
            for x in a.a: r = and_(r, eq(x, b))
            return r
        if a.k == "xor" and len(a.a) == 2:
            x, y = a.a
            if is_const(x): x, y = y, x
            if b.a == 0: return eq(x, y)
            if is_const(y): return eq(x, const(a.w, y.a ^ b.a))
    if is_const(a): a, b = b, a
    elif not is_const(b) and a.id > b.id: a, b = b, a
    return _mk(1, "eq", (a, b))

def ult(a, b):
    if a is b: return FALSE
    if is_const(a) and is_const(b): return TRUE if a.a < b.a else FALSE
    if is_const(b):
        if b.a == 0: return FALSE
        if ubound(a) < b.a: return TRUE
        if b.a == 1: return eq(a, const(a.w, 0))
    if is_const(a):
        if a.a == mask(a.w): return FALSE
        if a.a >= ubound(b): return FALSE
        if a.a == 0: return not_(eq(b, const(b.w, 0)))
    # compare at the narrowest width that holds both
    m = max(ubound(a).bit_length(), ubound(b).bit_length())
    if 0 < m < a.w: return ult(extract(a, 0, m), extract(b, 0, m))
    if is_const(b) and not is_const(a): return not_(_ult_c(b.a - 1, a))
    return _mk(1, "ult", (a, b))

def _ult_c(c, t):  # c < t
    return _mk(1, "ult", (const(t.w, c), t))

def slt(a, b):
    if a is b: return FALSE
    if is_const(a) and is_const(b): return TRUE if sval(a) < sval(b) else FALSE
    # both known non-negative
    h = 1 << (a.w - 1)
    if ubound(a) < h and ubound(b) < h: return ult(a, b)
    if is_const(b) and b.a == 0: return extract(a, a.w - 1, 1)
    if is_const(a) and a.a == mask(a.w): return not_(extract(b, b.w - 1, 1))
    if is_const(b) and not is_const(a):
        if sval(b) == -(1 << (b.w - 1)): return FALSE
        return not_(_mk(1, "slt", (const(b.w, b.a - 1), a)))
    if is_const(a) and sval(a) == (1 << (a.w - 1)) - 1: return FALSE
    return _mk(1, "slt", (a, b))

def icmp(p, a, b):
    if p == "eq": return eq(a, b)
    if p == "ne": return not_(eq(a, b))
    if p == "ult": return ult(a, b)
    if p == "ugt": return ult(b, a)
    if p == "ule": return not_(ult(b, a))
    if p == "uge": return not_(ult(a, b))
    if p == "slt": return slt(a, b)
    if p == "sgt": return slt(b, a)
    if p == "sle": return not_(slt(b, a))
    if p == "sge": return not_(slt(a, b))
    raise ValueError(p)

# ---------------------------------------------------------------- printing / walking
def show(t, d=0):
    if d > 6: return "…"
    s = lambda x: show(x, d + 1) if isinstance(x, T) else str(x)
    k = t.k
    if k == "const": return str(t.a) if t.a < 4096 else hex(t.a)
    if k == "sym": return t.a
    if k == "app":
        n = t.a[0]; r = ",".join(s(x) if isinstance(x, T) else (str(x) if len(str(x)) < 80 else "..") for x in t.a[1:])
        return f"{n}({r})" if r else n
    if k == "cat":
        return "{" + " ".join((f"{v:#x}:{n}" if a is None else f"{s(a)}[{v}+:{n}]") for n, a, v in reversed(t.a)) + "}"
    if k == "add":
        out = []
        for a, co in t.a[1]:
            c = co if co < 1 << (t.w - 1) else co - (1 << t.w)
            out.append(s(a) if c == 1 else ("-" + s(a) if c == -1 else f"{c}*{s(a)}"))
        c = t.a[0] if t.a[0] < 1 << (t.w - 1) else t.a[0] - (1 << t.w)
        if c: out.append(str(c))
        return "(" + "+".join(out).replace("+-", "-") + ")"
    if k == "mul": return "(" + "*".join(([str(t.a[0])] if t.a[0] != 1 else []) + [s(a) + (f"^{p}" if p != 1 else "") for a, p in t.a[1]]) + ")"
    if k in ("and", "or", "xor"):
        if k == "xor" and len(t.a) == 2 and any(is_const(x) and x.a == mask(t.w) for x in t.a):
            return "!" + s([x for x in t.a if not (is_const(x) and x.a == mask(t.w))][0])
        return "(" + {"and": "&", "or": "|", "xor": "^"}[k].join(s(x) for x in t.a) + ")"
    if k == "rep": return f"rep({s(t.a)})"
    return f"{k}(" + ",".join(s(x) for x in t.a) + ")"

def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        for y in children(x): st.append(y)
    return seen

def children(x):
    if x.k in ("const", "sym"): return []
    if x.k == "cat": return [a for _, a, _ in x.a if a is not None]
    if x.k == "add": return [a for a, _ in x.a[1]]
    if x.k == "mul": return [a for a, _ in x.a[1]]
    if x.k == "rep": return [x.a]
    out = []
    def rec(y):
        if isinstance(y, T): out.append(y)
        elif isinstance(y, tuple):
            for z in y: rec(z)
    rec(x.a)
    return out

# ---------------------------------------------------------------- meaning
class Undef(Exception): pass

def evaluate(t, env, memo):
    """env: object with .sym(term)->int and .app(term, argvals)->int"""
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo: stack.pop(); continue
        k = x.k
        if k == "ite":
            c = x.a[0]
            if c.id not in memo: stack.append(c); continue
            br = x.a[1] if memo[c.id] else x.a[2]
            if br.id not in memo: stack.append(br); continue
            memo[x.id] = memo[br.id]; stack.pop(); continue
        ch = children(x)
        todo = [c for c in ch if c.id not in memo]
        if todo: stack.extend(todo); continue
        g = lambda y: memo[y.id]
        w = x.w; M = mask(w)
        if k == "const": v = x.a
        elif k == "sym": v = env.sym(x) & M
        elif k == "app": v = env.app(x, memo) & M
        elif k == "cat":
            v = 0; p = 0
            for n, at, lo in x.a:
                v |= ((lo if at is None else (g(at) >> lo)) & mask(n)) << p; p += n
        elif k == "add":
            v = x.a[0]
            for at, co in x.a[1]: v += g(at) * co
        elif k == "mul":
            v = x.a[0]
            for at, p in x.a[1]: v = v * pow(g(at), p, 1 << w)
        elif k == "rep": v = M if g(x.a) else 0
        elif k == "and":
            v = M
            for y in x.a: v &= g(y)
        elif k == "or":
            v = 0
            for y in x.a: v |= g(y)
        elif k == "xor":
            v = 0
            for y in x.a: v ^= g(y)
        elif k in ("shl", "lshr", "ashr"):
            n = g(x.a[1]); y = g(x.a[0])
            if n >= w: v = env.poison(x)
            elif k == "shl": v = y << n
            elif k == "lshr": v = y >> n
            else: v = (y - (1 << w) if y >> (w - 1) else y) >> n
        elif k in ("udiv", "urem", "sdiv", "srem"):
            p, q = g(x.a[0]), g(x.a[1])
            if q == 0: v = env.poison(x)
            elif k == "udiv": v = p // q
            elif k == "urem": v = p % q
            else:
                sp = p - (1 << w) if p >> (w - 1) else p
                sq = q - (1 << w) if q >> (w - 1) else q
                d = _sd(sp, sq)
                v = d if k == "sdiv" else sp - d * sq
        elif k == "eq": v = int(g(x.a[0]) == g(x.a[1]))
        elif k == "ult": v = int(g(x.a[0]) < g(x.a[1]))
        elif k == "slt":
            ww = x.a[0].w
            f = lambda z: z - (1 << ww) if z >> (ww - 1) else z
            v = int(f(g(x.a[0])) < f(g(x.a[1])))
        else: raise ValueError(k)
        memo[x.id] = v & M
        stack.pop()
    return memo[t.id]
