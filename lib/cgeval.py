"""Meaning of generated code (inkm) and of Yul text (yulast) over the same observations.

Both sides are interpreted over abstract words (term): the generated code with the routine
contracts the R properties establish for the runtime library, the Yul text with Yul's own
semantics.  An observation is the ordered list of effects, the way execution ends and the
values returned.  Equal normal forms are proofs; a difference is reported only when a
valuation satisfying the path's conditions makes the two observations differ.
"""
import hashlib
from term import *  # noqa
from rsi_core import Unknown
import inkm, cgprove

M256 = mask(256)
N32 = 1 << 32


class Cut(Exception):
    """the path is longer than the analysis follows"""
class End(Exception):
    def __init__(s, kind): s.kind = kind
class Contra(Exception):
    pass


class Decider:
    """conditions decided so far on a path, and the choices still to be replayed"""
    def __init__(s, facts=(), prefix=(), limit=7):
        s.facts = dict(facts)
        s.base = len(s.facts)
        s.prefix, s.i, s.limit = list(prefix), 0, limit
        s.made = []

    def ask(s, c):
        if is_const(c): return bool(c.a)
        neg = False
        n = not_(c)
        if c in s.facts: return s.facts[c]
        if n in s.facts: return not s.facts[n]
        if s.i < len(s.prefix): v = s.prefix[s.i]
        else:
            if len(s.made) >= s.limit: raise Cut()
            v = True
        s.i += 1
        s.made.append(v)
        s.facts[c] = v
        return v


def paths(run, facts=(), limit=7, cap=160):
    """run(decider) for every choice sequence; yields (decider, result or Cut)"""
    todo = [[]]
    n = 0
    while todo:
        pre = todo.pop()
        d = Decider(facts, pre, limit)
        try: r = run(d)
        except Cut: r = Cut
        for k in range(len(pre), len(d.made)):
            todo.append(d.made[:k] + [False])
        n += 1
        yield d, r
        if n >= cap: return


# sizes and counters the host reports: signed in its interface and never negative
COUNTS = {'returndatasize', 'extcodesize', 'msize'}
def count(w, n): return zext(app(w - 1, n), w)


class World:
    def __init__(s, d):
        s.d, s.ev, s.nst, s.ngas, s.obl = d, [], 0, 0, []

    def event(s, op, *a):
        s.ev.append((op,) + a); s.nst += 1
    def rd(s, op, w, *a):
        if op in COUNTS: return zext(app(w - 1, op, const(32, s.nst), *a), w)
        return app(w, op, const(32, s.nst), *a)
    def gas(s):
        s.ngas += 1
        return zext(app(63, 'gas', const(32, s.ngas), const(32, s.nst)), 64)
    def end(s, kind, *a):
        s.ev.append((kind,) + a)
        raise End(kind)
    def callres(s): return app(1, 'call succeeds', const(32, s.nst))


def b2w(c): return zext(c, 256)
def z(t): return zext(t, 256)
def C(v): return const(256, v)
def addr(t): return trunc(t, 160)
_swapped = {}
def bswap(t):
    if t.id in _swapped: return _swapped[t.id]
    n = t.w // 8
    r = concat([extract(t, 8 * (n - 1 - i), 8) for i in range(n)])
    _swapped[t.id], _swapped[r.id] = r, t
    return r
def clamp_shift(f, n, v, big): return ite(ult(n, const(n.w, 256)), f(v, zext(n, 256) if n.w < 256 else n), big)


def signext(i, v):
    if is_const(i): return v if i.a > 30 else sext(trunc(v, 8 * (i.a + 1)), 256)
    return ite(ult(C(30), i), v, app(256, 'signextend', trunc(i, 5), v))


def expn(a, b):
    if is_const(b) and b.a < 64: return power(a, b.a)
    if is_const(a) and is_const(b): return C(pow(a.a, b.a, 1 << 256))
    return app(256, 'exp', a, b)


def modop(n, a, b, m):
    if is_const(a) and is_const(b) and is_const(m): return C(0 if not m.a else (a.a + b.a if n == 'addmod' else a.a * b.a) % m.a)
    return app(256, n, a, b, m)


def sdiv(n, a, b):
    """total signed division: MIN / -1 = MIN, remainder 0, x / 0 = 0"""
    m1, mn = C(-1), C(1 << 255)
    over = and_(eq(a, mn), eq(b, m1))
    r = ite(over, mn if n == 'sdiv' else C(0), div(n, a, b))
    return ite(eq(b, C(0)), C(0), r)


# ------------------------------------------------------------------ Yul's own semantics
R = {}
def ref(n, k):
    def d(f): R[n] = (k, f); return f
    return d
for _n, _f in (('add', add), ('sub', sub), ('mul', mul), ('and', and_), ('or', or_), ('xor', xor_)):
    R[_n] = (2, lambda W, a, b, f=_f: f(a, b))
for _n, _f in (('lt', lambda a, b: ult(a, b)), ('gt', lambda a, b: ult(b, a)), ('slt', lambda a, b: slt(a, b)), ('sgt', lambda a, b: slt(b, a)), ('eq', eq)):
    R[_n] = (2, lambda W, a, b, f=_f: b2w(f(a, b)))
R['iszero'] = (1, lambda W, a: b2w(eq(a, C(0))))
R['not'] = (1, lambda W, a: not_(a))
R['div'] = (2, lambda W, a, b: ite(eq(b, C(0)), C(0), div('udiv', a, b)))
R['mod'] = (2, lambda W, a, b: ite(eq(b, C(0)), C(0), div('urem', a, b)))
R['sdiv'] = (2, lambda W, a, b: sdiv('sdiv', a, b))
R['smod'] = (2, lambda W, a, b: sdiv('srem', a, b))
R['exp'] = (2, lambda W, a, b: expn(a, b))
R['addmod'] = (3, lambda W, a, b, m: modop('addmod', a, b, m))
R['mulmod'] = (3, lambda W, a, b, m: modop('mulmod', a, b, m))
R['signextend'] = (2, lambda W, i, v: signext(i, v))
R['byte'] = (2, lambda W, i, v: ite(ult(i, C(32)), and_(lshr(v, sub(C(248), mul(C(8), i))), C(255)), C(0)))
R['shl'] = (2, lambda W, n, v: clamp_shift(shl, n, v, C(0)))
R['shr'] = (2, lambda W, n, v: clamp_shift(lshr, n, v, C(0)))
R['sar'] = (2, lambda W, n, v: clamp_shift(ashr, n, v, sext(extract(v, 255, 1), 256)))


def o(t): return trunc(t, 32)
for _n in ('sload', 'tload'): R[_n] = (1, lambda W, k, n=_n: W.rd(n, 256, k))
for _n in ('sstore', 'tstore'): R[_n] = (2, lambda W, k, v, n=_n: W.event(n, k, v))
R['mload'] = (1, lambda W, p: W.rd('mload', 256, o(p)))
R['mstore'] = (2, lambda W, p, v: W.event('mstore', o(p), v))
R['mstore8'] = (2, lambda W, p, v: W.event('mstore8', o(p), trunc(v, 8)))
R['mcopy'] = (3, lambda W, d, s, n: W.event('mcopy', o(d), o(s), o(n)))
R['keccak256'] = (2, lambda W, p, n: W.rd('keccak256', 256, o(p), o(n)))
R['msize'] = (0, lambda W: z(W.rd('msize', 64)))
for _n in ('caller', 'address', 'origin', 'coinbase', 'callvalue', 'chainid', 'basefee', 'blobbasefee', 'gasprice', 'prevrandao'):
    R[_n] = (0, lambda W, n=_n: app(256, n))
R['difficulty'] = R['prevrandao']
for _n in ('timestamp', 'number', 'gaslimit'): R[_n] = (0, lambda W, n=_n: z(count(64, n)))
R['calldatasize'] = (0, lambda W: z(count(32, 'calldatasize')))
R['codesize'] = (0, lambda W: z(count(32, 'codesize')))
R['returndatasize'] = (0, lambda W: z(W.rd('returndatasize', 32)))
R['gas'] = (0, lambda W: z(W.gas()))
R['calldataload'] = (1, lambda W, p: app(256, 'calldataload', o(p)))
for _n in ('calldatacopy', 'returndatacopy', 'codecopy', 'datacopy'):
    R[_n] = (3, lambda W, d, s, n, k=_n: W.event(k, o(d), o(s), o(n)))
R['extcodecopy'] = (4, lambda W, a, d, s, n: W.event('extcodecopy', addr(a), o(d), o(s), o(n)))
R['balance'] = (1, lambda W, a: W.rd('balance', 256, addr(a)))
R['selfbalance'] = (0, lambda W: W.rd('selfbalance', 256))
R['extcodesize'] = (1, lambda W, a: z(W.rd('extcodesize', 32, addr(a))))
R['extcodehash'] = (1, lambda W, a: W.rd('extcodehash', 256, addr(a)))
R['blockhash'] = (1, lambda W, n: app(256, 'blockhash', trunc(n, 64)))
R['memoryguard'] = (1, lambda W, n: z(W.rd('memoryguard', 32, o(n))))
for _k in range(5):
    R['log%d' % _k] = (2 + _k, lambda W, p, n, *t, k=_k: W.event('log%d' % k, o(p), o(n), *t))
def _call(kind):
    def f(W, g, a, *r):
        v = (r[0],) if kind == 'call' else ()
        m = r[1:] if kind == 'call' else r
        W.event(kind, trunc(g, 64), addr(a), *v, *[o(x) for x in m])
        return b2w(W.callres())
    return f
R['call'] = (7, _call('call')); R['delegatecall'] = (6, _call('delegatecall')); R['staticcall'] = (6, _call('staticcall'))
def _create(kind):
    def f(W, v, p, n, *s):
        W.event(kind, v, o(p), o(n), *s)
        return W.rd('created', 256)
    return f
R['create'] = (3, _create('create')); R['create2'] = (4, _create('create2'))
R['return'] = (2, lambda W, p, n: W.end('return', o(p), o(n)))
R['revert'] = (2, lambda W, p, n: W.end('revert', o(p), o(n)))
R['stop'] = (0, lambda W: W.end('stop'))
R['invalid'] = (0, lambda W: W.end('invalid'))
R['selfdestruct'] = (1, lambda W, a: W.end('selfdestruct', addr(a)))
R['pop'] = (1, lambda W, a: None)
# not Yul: what a recorded finding does instead (only in the alternative meaning of a program)
R['kept_pointer'] = (0, lambda W: z(W.rd('free memory pointer kept aside', 32)))
R['keep_pointer'] = (1, lambda W, v: W.event('free memory pointer set aside', trunc(v, 32)))
NAMED = {'datasize', 'dataoffset', 'loadimmutable', 'setimmutable', 'linkersymbol', 'verbatim', 'debug_print'}


class Lv(Exception):
    pass
class Bk(Exception):
    pass
class Ct(Exception):
    pass


class Yul:
    """interpreter of Yul text over abstract words"""
    def __init__(s, W, named=None, funs=None):
        s.W, s.named, s.depth, s.steps = W, named, 0, 0
        s.fscopes = [funs or {}]

    def call_fun(s, f, args, fsc):
        _, n, ps, rs, body = f
        s.depth += 1
        if s.depth > 12: raise Cut()
        env = [{}]
        for (p, _), v in zip(ps, args): env[0][p] = v
        for (r, _) in rs: env[0][r] = C(0)
        save, s.fscopes = s.fscopes, fsc
        try: s.block(body, env)
        except Lv: pass
        finally: s.fscopes = save
        s.depth -= 1
        return [env[0][r] for r, _ in rs]

    def funs_of(s, b): return {x[1]: x for x in b if x[0] == 'fun'}

    def block(s, b, env):
        s.fscopes = s.fscopes + [s.funs_of(b)]
        try:
            e = env + [{}]
            for x in b: s.stmt(x, e)
        finally: s.fscopes = s.fscopes[:-1]

    def look(s, env, n):
        for sc in reversed(env):
            if n in sc: return sc
        raise Unknown('unknown variable ' + n)

    def stmt(s, x, env):
        s.steps += 1
        if s.steps > 300: raise Cut()
        k = x[0]
        if k == 'let':
            vs = s.exprs(x[2], env) if x[2] else [C(0)] * len(x[1])
            for (n, _), v in zip(x[1], vs): env[-1][n] = v
        elif k == 'set':
            vs = s.exprs(x[2], env)
            for n, v in zip(x[1], vs): s.look(env, n)[n] = v
        elif k == 'expr': s.exprs(x[1], env)
        elif k == 'if':
            if s.true(s.expr(x[1], env)): s.block(x[2], env)
        elif k == 'block': s.block(x[1], env)
        elif k == 'switch':
            v = s.expr(x[1], env)
            for l, b in x[2]:
                if s.W.d.ask(eq(v, s.lit(l))): return s.block(b, env)
            if x[3] is not None: s.block(x[3], env)
        elif k == 'for':
            _, ini, c, post, body = x
            e = env + [{}]
            s.fscopes = s.fscopes + [s.funs_of(ini)]
            try:
                for y in ini: s.stmt(y, e)
                while s.true(s.expr(c, e)):
                    s.steps += 1
                    if s.steps > 300: raise Cut()
                    try: s.block(body, e)
                    except Ct: pass
                    except Bk: break
                    s.block(post, e)
            finally: s.fscopes = s.fscopes[:-1]
        elif k == 'leave': raise Lv()
        elif k == 'break': raise Bk()
        elif k == 'continue': raise Ct()
        elif k == 'fun': pass
        else: raise Unknown('statement ' + k)

    def true(s, v): return not s.W.d.ask(eq(v, C(0)))

    def lit(s, e):
        k = e[0]
        if k == 'dec': return C(int(e[1]))
        if k == 'hex': return C(int(e[1], 16))
        if k == 'true': return C(1)
        if k == 'false': return C(0)
        if k == 'str':
            b = e[1].encode()
            return C(int.from_bytes(b[:32].ljust(32, b'\0'), 'big'))
        raise Unknown('literal')

    def expr(s, e, env):
        v = s.exprs(e, env)
        return v[0] if v else None

    def exprs(s, e, env):
        k = e[0]
        if k == 'id': return [s.look(env, e[1])[e[1]]]
        if k != 'call': return [s.lit(e)]
        n, a = e[1], e[2]
        for i in range(len(s.fscopes) - 1, -1, -1):
            if n in s.fscopes[i]:
                vs = [s.expr(x, env) for x in reversed(a)][::-1]
                return s.call_fun(s.fscopes[i][n], vs, s.fscopes[:i + 1])
        if n in NAMED:
            if not s.named: raise Unknown(n)
            lits = [x[1] if x[0] == 'str' else None for x in a]
            vs = [None if x[0] == 'str' else s.expr(x, env) for x in reversed(a)][::-1]
            r = s.named(s.W, n, lits, vs)
            return [] if r is None else [r]
        if n not in R: raise Unknown('builtin ' + n)
        vs = [s.expr(x, env) for x in reversed(a)][::-1]
        if len(vs) != R[n][0]: raise Unknown('wrong number of operands for ' + n)
        r = R[n][1](s.W, *vs)
        return [] if r is None else [r]


# ------------------------------------------------------------------ generated code
class Ptr:
    __slots__ = ('c', 'off')
    def __init__(s, c, off=0): s.c, s.off = c, off


class Cell:
    """bytes of one stack slot / heap word: a whole little-endian value, or byte by byte"""
    __slots__ = ('size', 'whole', 'bs', 'ro', 'name', 'uid', 'ptrs')
    n = 0
    def __init__(s, size, name='', ro=False):
        s.size, s.whole, s.bs, s.ro, s.name, s.ptrs = size, None, None, ro, name, {}
        Cell.n += 1
        s.uid = Cell.n


class Gen:
    """interpreter of one generated module"""
    def __init__(s, W, out, named=None):
        s.W, s.out, s.steps, s.depth, s.nundef = W, out, 0, 0, 0
        s.named = named
        s.zero = Cell(32, 'zero', True)
        s.zero.whole = C(0)
        s.cov = set()
        s.globals = {}

    # memory
    def bytes_(s, c):
        if c.bs is None:
            if c.whole is None: c.bs = [None] * c.size
            else: c.bs = [extract(c.whole, 8 * i, 8) for i in range(c.size)]
            c.whole = None
        return c.bs

    def read(s, p, w):
        c = s.cell(p)
        n = (w + 7) // 8
        if c.whole is not None and p.off == 0 and n == c.size: return trunc(c.whole, w) if w < c.whole.w else c.whole
        if p.off + n > c.size: raise Unknown('read past a stack slot')
        bs = s.bytes_(c)[p.off:p.off + n]
        if any(b is None for b in bs):
            s.nundef += 1
            u = app(8 * n, 'never written', const(32, s.nundef))
            bs = [extract(u, 8 * i, 8) if b is None else b for i, b in enumerate(bs)]
        v = concat(bs)
        return trunc(v, w) if w < v.w else v

    def write(s, p, v):
        c = s.cell(p)
        if c.ro: s.W.obl.append((FALSE, 'the shared zero word is overwritten'))
        n = (v.w + 7) // 8
        if v.w % 8: v = zext(v, 8 * n)
        if p.off == 0 and n == c.size: c.whole, c.bs = v, None; return
        if p.off + n > c.size: raise Overrun(f'{n} bytes written to a slot of {c.size}')
        bs = s.bytes_(c)
        for i in range(n): bs[p.off + i] = extract(v, 8 * i, 8)

    def cell(s, p):
        if not isinstance(p, Ptr): raise Unknown('access through a computed address')
        if isinstance(p.c, Cell): return p.c
        if not isinstance(p.c, inkm.Val): raise Unknown('access to contract memory through an address')
        c = s.globals.get(id(p.c))
        if c is None:
            b = global_bytes(p.c)
            c = s.globals[id(p.c)] = Cell(len(b), p.c.name, bool(p.c.kw.get('constant')))
            c.whole = const(8 * len(b), int.from_bytes(b, 'little'))
        return c

    def B(s, p): return bswap(s.read(p, 256))
    def U(s, p): return s.read(p, 256)
    def sB(s, p, v): s.write(p, bswap(v))
    def sU(s, p, v): s.write(p, v)

    def const(s, v):
        t = v.ty
        if v.op == 'const': return const(t.bits, v.args[0])
        if v.op == 'czero':
            if t.kind == 'struct': return [s.const(inkm.zero(x)) for x in t.a[0]]
            if t.kind == 'array': return const(8 * inkm.size(t), 0)
            if t.kind == 'ptr': return None
            raise Unknown('zero of ' + str(t))
        if v.op == 'poison':
            s.nundef += 1
            return app(t.bits, 'undefined value', const(32, s.nundef)) if t.kind == 'int' else None
        if v.op == 'global': return Ptr(v)
        if v.op == 'cstruct': return [s.const(x) for x in v.args]
        raise Unknown('constant ' + v.op)

    def run(s, fn, args):
        s.depth += 1
        if s.depth > 24: raise Cut()
        if not fn.blocks: raise Unknown('call of a function without code: ' + fn.name)
        vals = dict(zip([id(p) for p in fn.params], args))
        g = lambda v: vals[id(v)] if id(v) in vals else s.const(v)
        bb = fn.blocks[0]
        while True:
            s.cov.add(id(bb))
            nxt = None
            for v in bb.ins:
                s.steps += 1
                if s.steps > 5000: raise Cut()
                op = v.op
                if op == 'br': nxt = v.kw['to'][0]; break
                if op == 'condbr': nxt = v.kw['to'][0 if s.W.d.ask(g(v.args[0])) else 1]; break
                if op == 'switch':
                    x = g(v.args[0])
                    nxt = v.kw['to'][0]
                    for c, t in zip(v.kw['cases'], v.kw['to'][1:]):
                        if s.W.d.ask(eq(x, const(x.w, c))): nxt = t; break
                    break
                if op == 'ret':
                    s.depth -= 1
                    return g(v.args[0]) if v.args else None
                if op == 'unreachable': raise End('unreachable')
                r = s.ins(v, op, g)
                vals[id(v)] = r
            else:
                raise Fallthrough(f'block {bb.name} of {fn.name} has no end')
            bb = nxt

    def ins(s, v, op, g):
        a = v.args
        if op == 'alloca': return Ptr(Cell(inkm.size(v.kw['aty'])))
        if op == 'store':
            p, x = g(a[0]), g(a[1])
            return s.store(p, x, a[1].ty)
        if op == 'load': return s.load(g(a[0]), v.ty)
        if op == 'gep':
            p = g(a[0])
            return Ptr(p.c, p.off + v.kw['off'])
        if op == 'call': return s.call(v, [g(x) for x in a])
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
            return {'add': add, 'sub': sub, 'mul': mul, 'and': and_, 'or': or_, 'xor': xor_}[op](g(a[0]), g(a[1]))
        if op == 'icmp':
            x, y = g(a[0]), g(a[1])
            if isinstance(x, Ptr) or isinstance(y, Ptr): raise Unknown('comparison of addresses')
            return icmp(v.kw['pred'].lower(), x, y)
        if op == 'zext': return zext(g(a[0]), v.ty.bits)
        if op == 'sext': return sext(g(a[0]), v.ty.bits)
        if op == 'trunc': return trunc(g(a[0]), v.ty.bits)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            x, y = g(a[0]), g(a[1])
            w = x.w
            s.W.obl.append((not_(eq(y, const(w, 0))), f'{op} by zero'))
            if op[0] == 's': s.W.obl.append((not_(and_(eq(x, const(w, 1 << (w - 1))), eq(y, const(w, -1)))), f'{op} of the smallest value by -1'))
            return div(op, x, y)
        if op in ('shl', 'lshr', 'ashr'): return {'shl': shl, 'lshr': lshr, 'ashr': ashr}[op](g(a[0]), g(a[1]))
        if op == 'select':
            c, x, y = g(a[0]), g(a[1]), g(a[2])
            if isinstance(x, T) and isinstance(y, T): return ite(c, x, y)
            return x if s.W.d.ask(c) else y
        if op == 'extractvalue': return g(a[0])[v.kw['ix']]
        if op == 'insertvalue':
            r = list(g(a[0])); r[v.kw['ix']] = g(a[1]); return r
        if op == 'ptrtoint':
            p = g(a[0])
            if isinstance(p.c, inkm.Val): return add(trunc(app(32, 'address of', content(p.c)), v.ty.bits), const(v.ty.bits, p.off)) if v.ty.bits <= 32 else zext(app(32, 'address of', content(p.c)), v.ty.bits)
            if isinstance(p.c, tuple): return add(sym(32, '&EVM'), p.c[1])
            raise Unknown('address of a stack slot as a number')
        if op == 'bitcast' and isinstance(g(a[0]), Ptr): return g(a[0])
        raise Unknown('instruction ' + op)

    def store(s, p, x, ty):
        c = s.cell(p)
        if isinstance(x, T): return s.write(p, x)
        if isinstance(x, Ptr): c.ptrs[p.off] = x; return
        if isinstance(x, list):
            for off, y, t in zip(inkm.layout(ty)[0], x, ty.a[0]): s.store(Ptr(c, p.off + off), y, t)
            return
        raise Unknown('store of ' + str(ty))

    def load(s, p, ty):
        if ty.kind == 'int': return s.read(p, ty.bits)
        if ty.kind == 'ptr':
            c = s.cell(p)
            if p.off not in c.ptrs: raise Uninit('an address that was never written is used')
            return c.ptrs[p.off]
        if ty.kind == 'struct': return [s.load(Ptr(p.c, p.off + off), t) for off, t in zip(inkm.layout(ty)[0], ty.a[0])]
        if ty.kind == 'array': return s.read(p, 8 * inkm.size(ty))
        raise Unknown('load of ' + str(ty))

    def call(s, v, args):
        f = v.kw['f']
        if not f.runtime: return s.run(f, args)
        h = RT.get(f.name)
        if h is None:
            # a runtime routine this analysis has no contract for
            raise Unknown('runtime routine ' + f.name)
        return h(s, *args)


class Overrun(Exception):
    pass
class Uninit(Exception):
    pass
class Fallthrough(Exception):
    pass


def content(g):
    """name of a global by what it holds"""
    if g.kw.get('init') is None: return 'extern ' + g.name
    return 'bytes ' + global_bytes(g).hex()


def global_bytes(g):
    i = g.kw.get('init')
    if i is None: raise Unknown('contents of ' + g.name)
    if i.op == 'const': return i.args[0].to_bytes(inkm.size(i.ty), 'little')
    if i.op == 'czero': return bytes(inkm.size(i.ty))
    if i.op != 'carray': raise Unknown('initialiser ' + i.op)
    return bytes(x if isinstance(x, int) else x.args[0] for x in i.args)


RT = {}
def _r(n, f): RT[n] = f
# parameters: B big-endian word, U native word, b/u results in those, i/l numbers
def rt(name, params, fn, ret=None):
    """fn(W, *operands) -> value stored to the result parameter, or returned"""
    def h(G, *args):
        ops, res = [], None
        for p, a in zip(params, args):
            if p == 'B': ops.append(G.B(a))
            elif p == 'U': ops.append(G.U(a))
            elif p in 'bu': res = (p, a)
            else: ops.append(a)
        r = fn(G.W, *ops)
        if res: (G.sB if res[0] == 'b' else G.sU)(res[1], r); return None
        return r
    RT[name] = h
    SIG[name] = params
SIG = {}
I32 = lambda c: zext(c, 32)
for _n in ('caller', 'origin'): rt('wrapper_' + _n, 'b', lambda W, n=_n: app(256, n))
for _n, _m in (('current_contract', 'address'), ('block_coin_base', 'coinbase'), ('block_prevRandao', 'prevrandao')): rt('wrapper_' + _n, 'b', lambda W, m=_m: app(256, m))
for _n, _m in (('callvalue', 'callvalue'), ('current_chainid', 'chainid'), ('current_base_fee', 'basefee'), ('current_blob_base_fee', 'blobbasefee'), ('gas_price', 'gasprice')):
    rt('wrapper_' + _n, 'u', lambda W, m=_m: app(256, m))
rt('wrapper_callvalue_not_zero', '', lambda W: I32(not_(eq(app(256, 'callvalue'), C(0)))))
rt('wrapper_query_balance', 'Bu', lambda W, a: W.rd('balance', 256, addr(a)))
rt('wrapper_self_balance', 'u', lambda W: W.rd('selfbalance', 256))
rt('wrapper_extcode_hash', 'Bb', lambda W, a: W.rd('extcodehash', 256, addr(a)))
rt('wrapper_extcode_size', 'B', lambda W, a: W.rd('extcodesize', 32, addr(a)))
rt('wrapper_gas_limit', '', lambda W: count(64, 'gaslimit'))
rt('wrapper_time_stamp', '', lambda W: count(64, 'timestamp'))
rt('wrapper_block_number', '', lambda W: count(64, 'number'))
rt('wrapper_gas', '', lambda W: W.gas())
rt('wrapper_block_hash', 'lb', lambda W, n: app(256, 'blockhash', n))
rt('wrapper_returndata_size', '', lambda W: W.rd('returndatasize', 32))
rt('wrapper_calldata_size', '', lambda W: count(32, 'calldatasize'))
rt('wrapper_memory_size', '', lambda W: W.rd('msize', 64))
rt('u256_to_big_endian_bytes', 'Ub', lambda W, v: v)
rt('u256_from_big_endian_bytes', 'Bu', lambda W, v: v)
rt('wrapper_decode_big_endian_i256_from_wasm_mem', 'Bu', lambda W, v: v)
rt('i32_to_bytes32_big_endian_bytes', 'ib', lambda W, v: z(v))
rt('i32_from_big_endian_bytes32', 'B', lambda W, v: trunc(v, 32))
rt('wrapper_mstore_bytes32', 'iB', lambda W, p, v: W.event('mstore', p, v))
rt('wrapper_mstore_u256', 'iU', lambda W, p, v: W.event('mstore', p, v))
for _w in (32, 64): rt('wrapper_mstore_u%d' % _w, 'ii', lambda W, p, v: W.event('mstore', p, z(v)))
rt('wrapper_mstore_u8', 'ii', lambda W, p, v: W.event('mstore8', p, v))
rt('wrapper_mload_u256', 'iu', lambda W, p: W.rd('mload', 256, p))
rt('wrapper_mload_bytes32', 'ib', lambda W, p: W.rd('mload', 256, p))
for _w in (32, 64): rt('wrapper_mload_u%d' % _w, 'i', lambda W, p, w=_w: trunc(W.rd('mload', 256, p), w))
rt('wrapper_calldataload_u256', 'iu', lambda W, p: app(256, 'calldataload', p))
rt('wrapper_calldataload_bytes32', 'ib', lambda W, p: app(256, 'calldataload', p))
rt('wrapper_calldata_load_selector', '', lambda W: extract(app(256, 'calldataload', const(32, 0)), 224, 32))
rt('wrapper_calldata_size_minus_4', '', lambda W: sub(count(32, 'calldatasize'), const(32, 4)))
for _n, _m in (('calldata_copy', 'calldatacopy'), ('returndata_copy', 'returndatacopy'), ('codecopy', 'codecopy'), ('data_copy', 'datacopy'), ('mcopy', 'mcopy')):
    rt('wrapper_' + _n, 'iii', lambda W, d, s, n, k=_m: W.event(k, d, s, n))
rt('wrapper_extcode_copy', 'Biii', lambda W, a, d, s, n: W.event('extcodecopy', addr(a), d, s, n))
for _n in ('sstore', 'tstore'):
    rt(f'wrapper_{_n}_u256', 'UU', lambda W, k, v, n=_n: W.event(n, k, v))
    rt(f'wrapper_{_n}_bytes32', 'BB', lambda W, k, v, n=_n: W.event(n, k, v))
rt('wrapper_sstore_u256_using_little_endian_hostapi', 'BU', lambda W, k, v: W.event('sstore', k, v))
rt('wrapper_sload_u256', 'Uu', lambda W, k: W.rd('sload', 256, k))
rt('wrapper_sload_u256_using_little_endian_hostapi', 'Bu', lambda W, k: W.rd('sload', 256, k))
rt('wrapper_sload_bytes32', 'Bb', lambda W, k: W.rd('sload', 256, k))
rt('wrapper_tload_u256', 'Uu', lambda W, k: W.rd('tload', 256, k))
rt('wrapper_tload_bytes32', 'Bb', lambda W, k: W.rd('tload', 256, k))
for _k in range(5): rt('wrapper_log%d' % _k, 'ii' + 'B' * _k, lambda W, p, n, *t, k=_k: W.event('log%d' % k, p, n, *t))
rt('wrapper_keccak256', 'iib', lambda W, p, n: W.rd('keccak256', 256, p, n))
rt('wrapper_return', 'ii', lambda W, p, n: W.end('return', p, n))
rt('wrapper_revert', 'ii', lambda W, p, n: W.end('revert', p, n))
rt('wrapper_stop', '', lambda W: W.end('stop'))
rt('wrapper_invalid', '', lambda W: W.end('invalid'))
rt('wrapper_selfdestruct', 'B', lambda W, a: W.end('selfdestruct', addr(a)))
def _wc(kind):
    def f(W, g, a, *m):
        v = (m[0],) if kind == 'call' else ()
        W.event(kind, g, addr(a), *v, *(m[1:] if kind == 'call' else m))
        return I32(W.callres())
    return f
rt('wrapper_call_contract', 'lBUiiii', _wc('call')); rt('wrapper_delegatecall', 'lBiiii', _wc('delegatecall')); rt('wrapper_staticcall', 'lBiiii', _wc('staticcall'))
def _wcr(kind):
    def f(W, v, p, n, *s):
        W.event(kind, v, p, n, *s)
        return W.rd('created', 256)
    return f
rt('wrapper_create', 'Uiib', _wcr('create')); rt('wrapper_create2', 'UiiUb', _wcr('create2'))
for _n, _f in (('lt', lambda a, b: ult(a, b)), ('gt', lambda a, b: ult(b, a)), ('slt', lambda a, b: slt(a, b)), ('sgt', lambda a, b: slt(b, a)), ('eq', eq)):
    rt('wrapper_bytes32_' + _n, 'BB', lambda W, a, b, f=_f: I32(f(a, b)))
rt('wrapper_bytes32_iszero', 'B', lambda W, a: I32(eq(a, C(0))))
rt('wrapper_bytes32_not', 'Bb', lambda W, a: not_(a))
for _n, _f in (('and', and_), ('or', or_), ('xor', xor_), ('add', add)): rt('wrapper_bytes32_' + _n, 'BBb', lambda W, a, b, f=_f: f(a, b))
def _rsh(f):
    def h(W, v, n):
        # the count is a signed number: below one the value is unchanged
        m = zext(n, 256)
        return ite(slt(n, const(32, 1)), v, ite(ult(n, const(32, 256)), f(v, m), C(0)))
    return h
for _r, _p in (('bytes32', 'Bib'), ('u256', 'Uiu')):
    rt(f'wrapper_{_r}_shl', _p, _rsh(shl)); rt(f'wrapper_{_r}_shr', _p, _rsh(lshr))
rt('wrapper_sign_extend', 'iUu', lambda W, i, v: signext(z(i), v))
for _n in ('addmod', 'mulmod'): rt('wrapper_' + _n, 'BBBb', lambda W, a, b, m, n=_n: modop(n, a, b, m))
rt('wrapper_exp', 'UUu', lambda W, a, b: expn(a, b))
rt('wrapper_memory_guard', 'i', lambda W, n: W.rd('memoryguard', 32, n))
rt('wrapper_current_contract_code_size', '', lambda W: count(32, 'codesize'))
rt('wrapper_current_contract_pure_contract_size', '', lambda W: count(32, 'own code size'))
rt('wrapper_loadimmutable', 'Uu', lambda W, k: W.rd('immutable', 256, k))
rt('wrapper_setimmutable', 'iUU', lambda W, p, k, v: W.event('setimmutable', p, k, v))
rt('set_is_deploying_tx', '', lambda W: None)
rt('__init_evm_heap', 'i', lambda W, n: None)
rt('wrapper_set_memptr_global', 'i', lambda W, v: W.event('free memory pointer set aside', v))
rt('wrapper_get_memptr_global', '', lambda W: W.rd('free memory pointer kept aside', 32))
rt('wrapper_optimized_erc20_fun_transfer', 'BBB', lambda W, a, b, v: W.event('erc20 transfer', a, b, v))
rt('wrapper_debug_bytes32', 'B', lambda W, v: W.event('debug', v))
rt('wrapper_debug_i256', 'U', lambda W, v: W.event('debug', v))
RT['wrapper_zero_bytes32'] = lambda G: Ptr(G.zero)
RT['memory_alloca_bytes32'] = lambda G: Ptr(Cell(32))
RT['memory_alloca_u256'] = lambda G: Ptr(Cell(32))
RT['evm_get_memory_addr'] = lambda G, off: Ptr(('evm', off))


# ------------------------------------------------------------------ observations
class Obs:
    def __init__(s, W, kind, vals, why=''):
        s.kind, s.ev, s.vals, s.obl, s.why = kind, W.ev, vals, W.obl, why


def ref_fun(funs, name, args, named=None):
    def run(d):
        W = World(d)
        y = Yul(W, named, funs)
        try: vs = y.call_fun(funs[name], args, y.fscopes)
        except End as e: return Obs(W, e.kind, [])
        except Cut: return Obs(W, 'cut', [])
        return Obs(W, 'normal', vs)
    return run


def ref_code(code, named=None):
    def run(d):
        W = World(d)
        y = Yul(W, named)
        try: y.block(code, [])
        except End as e: return Obs(W, e.kind, [])
        except Cut: return Obs(W, 'cut', [])
        except Lv: pass
        return Obs(W, 'normal', [])
    return run


def gen_fun(out, fn, args, decode=None, named=None):
    def run(d):
        W = World(d)
        G = Gen(W, out, named)
        try: v = G.run(fn, args(G) if callable(args) else args)
        except End as e: return Obs(W, e.kind, [])
        except Overrun as e: return Obs(W, 'overrun', [], str(e))
        except Uninit as e: return Obs(W, 'uninit', [], str(e))
        except Fallthrough as e: return Obs(W, 'falls off', [], str(e))
        except Cut: return Obs(W, 'cut', [])
        return Obs(W, 'normal', decode(G, v) if decode else [])
    return run


SPECIAL = [0, 1, 2, 3, 4, 7, 31, 32, 33, 64, 96, 127, 128, 255, 256, 257, 300, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 4, (1 << 32) + 256,
           (1 << 63), (1 << 64) - 1, 1 << 64, (1 << 64) + 1, (1 << 64) + 5, (1 << 128), (1 << 160) - 1, 1 << 160, (1 << 255) - 1, 1 << 255, (1 << 255) + 1, M256 - 1, M256]


class Env:
    def __init__(s, seed, pool, force=None):
        s.seed, s.pool, s.used, s.apps, s.force = seed, pool, {}, {}, force or {}

    def h(s, *k): return int.from_bytes(hashlib.blake2b(repr((s.seed,) + k).encode(), digest_size=40).digest(), 'big')

    def pick(s, key, w):
        r = s.h(*key)
        c = r & 7
        r >>= 8
        if c == 0: v = r
        elif c == 1: v = r & 0xffffffff
        else: v = s.pool[r % len(s.pool)]
        return v & mask(w)

    def sym(s, t):
        if t in s.force: v = s.force[t]
        else: v = s.pick(('sym', t.a), t.w)
        s.used[t.a] = v
        return v

    def app(s, t, memo):
        if t in s.force: return s.force[t]
        n = t.a[0]
        vs = tuple(memo[x.id] if isinstance(x, T) else x for x in t.a[1:])
        if n == 'exp': return pow(vs[0], vs[1], 1 << 256)
        if n == 'addmod': return 0 if not vs[2] else (vs[0] + vs[1]) % vs[2]
        if n == 'mulmod': return 0 if not vs[2] else (vs[0] * vs[1]) % vs[2]
        if n == 'signextend':
            i, v = vs
            if i > 30: return v
            b = 8 * i + 7
            return (v | (M256 ^ mask(b + 1))) if v >> b & 1 else v & mask(b + 1)
        v = s.pick(('app', n, vs), t.w)
        s.used[n + repr(vs) if vs else n] = v
        return v

    def poison(s, t): return s.pick(('poison', t.id), t.w)


def consts_of(terms):
    out = set()
    for x in terms:
        for y in subterms(x):
            if y.k == 'const': out.add(y.a)
            elif y.k == 'add': out.add(y.a[0])
            elif y.k == 'cat':
                for n, at, lo in y.a:
                    if at is None: out.add(lo)
    return out


DEFINED = {'exp', 'addmod', 'mulmod', 'signextend'}
def atom(t):
    """(atom, width) when t is an atom or an extension of one"""
    if t.k == 'app' and t.a[0] in DEFINED: return None
    if t.k in ('sym', 'app'): return t
    if t.k == 'cat' and t.a[0][1] is not None and t.a[0][2] == 0 and t.a[0][0] == t.a[0][1].w and t.a[0][1].k in ('sym', 'app') and atom(t.a[0][1]) is not None and all(at is None and lo == 0 for _, at, lo in t.a[1:]):
        return t.a[0][1]
    return None


def forced(facts):
    f = {}
    for c, v in facts.items():
        while c.k == 'xor' and TRUE in c.a and len(c.a) == 2:
            c = c.a[0] if c.a[1] is TRUE else c.a[1]; v = not v
        if c.k == 'eq' and v:
            x, y = c.a
            if is_const(x): x, y = y, x
            if is_const(y):
                a = atom(x)
                if a is not None: f[a] = y.a & mask(a.w)
        elif c.k in ('sym', 'app'): f[c] = int(v)
    return f


def valuations(facts, extra, want=24, tries=600, seed=1):
    """valuations of the symbols under which every fact holds"""
    pool = list(SPECIAL)
    for c in sorted(consts_of(list(facts) + list(extra))):
        for k in (c, c + 1, c - 1): pool.append(k & M256)
    f = forced(facts)
    got = 0
    for i in range(tries):
        env = Env((seed, i), pool, f if i % 4 != 3 else {})
        memo = {}
        ok = True
        for c, v in facts.items():
            if bool(evaluate(c, env, memo)) != v: ok = False; break
        if ok:
            got += 1
            yield env, memo
            if got >= want: return


def flat(x):
    if isinstance(x, T): return [x]
    if isinstance(x, (tuple, list)): return [y for z_ in x for y in flat(z_)]
    return []


def conc(x, env, memo):
    if isinstance(x, T): return evaluate(x, env, memo)
    if isinstance(x, (tuple, list)): return tuple(conc(y, env, memo) for y in x)
    return x


def proved(facts, r, g, obls):
    try: return cgprove.prove_obs(facts, r, g, obls)
    except (cgprove.absint.Undecided, RecursionError, ValueError): return False


def infeasible(facts):
    """no valuation satisfies the path's conditions"""
    try: return cgprove.contradict(list(facts.items()))
    except (cgprove.absint.Undecided, RecursionError, ValueError): return False


class Cmp:
    """result of one comparison"""
    def __init__(s): s.pairs = s.proved = s.sampled = s.cut = s.skipped = s.open = 0; s.bad = []


def text(x):
    if isinstance(x, int): return hex(x) if x > 4095 else str(x)
    if isinstance(x, tuple): return '(' + ', '.join(text(y) for y in x) + ')'
    return str(x)


def compare(ref_run, gen_run, limit=7, want=24, seed=1, cap=60):
    """observations of the generated code against Yul's, on every path followed"""
    C_ = Cmp()
    for d, r in paths(ref_run, (), limit, cap):
        if r is Cut: C_.cut += 1; continue
        for d2, g in paths(gen_run, d.facts, 0 if r.kind == 'cut' else 5, cap):
            if g is Cut: C_.cut += 1; continue
            C_.pairs += 1
            partial = 'cut' in (g.kind, r.kind)
            if partial:
                # the path was not followed to its end: what was seen of it must agree
                C_.cut += 1
                if g.kind == 'cut' and r.kind != 'cut' and not d2.made and len(list(valuations(d2.facts, (), 1, seed=seed))):
                    C_.bad.append(('loop', 'the generated code does not come to an end where the program does', ''))
                    return C_
                n = min(len(r.ev), len(g.ev))
                short = g.kind != 'cut' and len(g.ev) < len(r.ev)
                rev, gev, rk, gk, rv, gv = r.ev[:n], g.ev[:n], '', '', [], []
                if short: rk = 'more'
            else: rev, gev, rk, gk, rv, gv = r.ev, g.ev, r.kind, g.kind, r.vals, g.vals
            same = gk == rk and len(gev) == len(rev) and all(same_t(x, y) for x, y in zip(gev, rev)) and same_t(tuple(gv), tuple(rv))
            obl = [(c, w) for c, w in g.obl if not (is_const(c) and c.a)]
            if same and not obl: C_.proved += 1; continue
            n = 0
            hit = None
            for env, memo in valuations(d2.facts, flat(rev) + flat(rv) + flat(gev), want, seed=seed):
                n += 1
                for c, w in obl:
                    if not evaluate(c, env, memo): hit = ('undefined', w, env); break
                if hit: break
                if same: continue
                if gk != rk or len(gev) != len(rev):
                    hit = ('effects', differ(r, g, env, memo), env); break
                a = (conc(rev, env, memo), conc(rv, env, memo)); b = (conc(gev, env, memo), conc(gv, env, memo))
                if a != b: hit = ('values', differ(r, g, env, memo), env); break
            if hit:
                C_.bad.append((hit[0], hit[1], 'with ' + ', '.join(f'{k}={text(v)}' for k, v in list(hit[2].used.items())[:6])))
                return C_
            if gk == rk and proved(d2.facts, (rev, rv), (gev, gv), [c for c, _ in obl]): C_.proved += 1
            elif n == 0 and infeasible(d2.facts): C_.skipped += 1
            elif n == 0: C_.open += 1
            else: C_.sampled += 1
    return C_


def same_t(a, b):
    if isinstance(a, T) or isinstance(b, T): return a is b
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)): return len(a) == len(b) and all(same_t(x, y) for x, y in zip(a, b))
    return a == b


def differ(r, g, env, memo):
    if g.why: return g.why
    for i in range(max(len(r.ev), len(g.ev))):
        x = conc(r.ev[i], env, memo) if i < len(r.ev) else None
        y = conc(g.ev[i], env, memo) if i < len(g.ev) else None
        if x != y: return f'effect {i + 1} should be {text(x) if x else "none"} and is {text(y) if y else "none"}'
    if r.kind != g.kind: return f'execution should end with {r.kind} and ends with {g.kind}'
    x, y = conc(r.vals, env, memo), conc(g.vals, env, memo)
    return f'the result should be {text(x)} and is {text(y)}'
