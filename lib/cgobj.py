"""Whole objects: entry points, embedded data and sub-objects, immutables, library symbols."""
import re, multiprocessing, traceback
import cgrun, cgprops, yulast, inkm
from cgprops import MODES, ALL, LE, trees, show_err
from cgeval import *  # noqa
from cgeval import RT, app, const, sym, zext, add, sub, count, C
from rsi_core import Unknown, Panic, Adt

# markers of the two routines every entry point starts with
RT['set_is_deploying_tx'] = lambda G: G.W.event('the transaction is marked as a deployment')
RT['__init_evm_heap'] = lambda G, n: G.W.event('memory set up', n)
STANDIN = re.compile(r'^bytes ([0-9a-f]{8})0061736d([0-9a-f]{2})abcd$')


def has_sub(o):
    """an object besides the contract's own deployed one is embedded"""
    return any(g[0] == 'object' and (g[1] != o[1] + '_deployed' or has_sub(g)) for g in o[3])


def own_deployed(o):
    for g in o[3]:
        if g[0] == 'object' and g[1] == o[1] + '_deployed': return g


def address(label): return zext(sub(app(32, 'address of', label), sym(32, '&EVM')), 256)


class Names:
    """what the names in the code of one object stand for"""
    def __init__(s, o, objs, keys, syms):
        s.o, s.objs, s.keys, s.syms = o, objs, keys, syms

    def child(s, n):
        for g in s.o[3]:
            if g[1] == n: return g
        raise Unknown('no segment named ' + n)

    def bytes_of(s, n):
        g = s.child(n)
        if g[0] == 'data': return b''.join(bytes.fromhex(v) if k == 'hex' else v.encode() for k, v in g[2])
        if g[1] == s.o[1] + '_deployed': return bytes(4)
        i = s.objs.get(id(g))
        if i is None: raise Unknown('no embedded code of ' + n)
        return (7).to_bytes(4, 'big') + b'\0asm' + bytes([i, 0xAB, 0xCD])

    def __call__(s, W, n, lits, vs):
        if n == 'datasize':
            if lits[0] == s.o[1]: return zext(count(32, 'own code size'), 256)
            return C(len(s.bytes_of(lits[0])))
        if n == 'dataoffset': return address('bytes ' + s.bytes_of(lits[0]).hex())
        if n == 'loadimmutable': return W.rd('immutable', 256, s.key(lits[0]))
        if n == 'setimmutable': W.event('setimmutable', trunc(vs[0], 32), s.key(lits[1]), vs[2]); return None
        if n == 'linkersymbol':
            a = s.syms.get(lits[0])
            return C(int(a, 16)) if a is not None else app(256, 'no address for ' + lits[0])
        raise Unknown(n)

    def key(s, n):
        k = s.keys.get(n)
        if k is None: raise Unknown('no key known for immutable ' + n)
        return const(256, k)


def emitted_index(out, o, objs, keys, syms):
    """which emitted module is the code of object o: the one whose deployment entry runs it"""
    for i, m in enumerate(out.I.emitted):
        fs = [f for f in m.fns if not f.runtime and f.name == 'deploy']
        if len(fs) != 1: continue
        sub_ = cgrun.Out(); sub_.mod = m
        c = entry(sub_, fs[0], o, True, objs, keys, syms)
        if not c.bad and c.pairs: return i
    return None


def entry(out, fn, o, deploy, objs, keys, syms, want=24):
    # counters in the terms name the number of effects before them
    def shifted(d):
        W = World(d)
        if deploy: W.event('the transaction is marked as a deployment')
        y = Yul(W, Names(o, objs, keys, syms))
        try: y.block(o[2], [])
        except End as e: return Obs(W, e.kind, [])
        except Cut: return Obs(W, 'cut', [])
        except Lv: pass
        return Obs(W, 'normal', [])
    return compare(shifted, gen_fun(out, fn, []), 7, want)


def immutable_key(n, how, where, opts):
    """the key the generated code uses for an immutable"""
    code = f'setimmutable(0, "{n}", 5)' if how == 'set' else f'sstore(1, loadimmutable("{n}"))'
    txt = 'object "T" { code { %s } object "T_deployed" { code { %s } } }' % (code if where == 'creation' else '', code if where == 'deployed' else '')
    out = cgrun.compile_obj(trees(), yulast.parse(txt), **opts)
    if out.status != 'ok': raise Unknown(f'immutable {n!r}: {show_err(out)}')
    seen = []
    old = RT['wrapper_setimmutable'], RT['wrapper_loadimmutable']
    def si(G, p, k, v): seen.append(G.U(k))
    def li(G, k, r): seen.append(G.U(k)); G.sU(r, sym(256, 'im'))
    RT['wrapper_setimmutable'], RT['wrapper_loadimmutable'] = si, li
    try: Gen(World(_D()), out).run(exported(out, 'deploy' if where == 'creation' else 'call'), [])
    finally: RT['wrapper_setimmutable'], RT['wrapper_loadimmutable'] = old
    if len(seen) != 1 or seen[0].k != 'const': raise Unknown(f'key of immutable {n!r}')
    return seen[0].a


class _D:
    facts = ()
    def ask(s, c):
        if c.k == 'const': return bool(c.a)
        raise Unknown('the entry point branches')


def exported(out, name):
    c = [f for f in out.mod.fns if not f.runtime and f.name == name]
    if len(c) != 1: raise Unknown(f'{len(c)} functions named {name}')
    return c[0]


def judge_object(txt, opts, syms=(), keys=None):
    """[(entry, status, detail)]"""
    ast = yulast.parse(txt)
    syms = dict(syms)
    try: out = cgrun.compile_obj(trees(), ast, emit=True, symbol2addr=syms, **opts)
    except Unknown as e: return [('', 'unknown', 'generator: ' + str(e))]
    if out.status != 'ok': return [('', 'fails', f'{out.status}: {show_err(out)}')]
    if out.problems: return [('', 'ill-formed', out.problems[0][1])]
    res = []
    keys = keys or {}
    objs = {}
    def subs(o):
        for g in o[3]:
            if g[0] != 'object': continue
            subs(g)
            if g[1] == o[1] + '_deployed': continue
            i = emitted_index(out, g, objs, keys, syms)
            if i is None: res.append((f'code of {g[1]}', 'differs', f'no embedded module runs the code of {g[1]}')); continue
            objs[id(g)] = i
    try: subs(ast)
    except Unknown as e: return [('', 'unknown', str(e))]
    links = {i: a for i, a in out.I.links}
    def one(mod, o, i, path):
        o_ = cgrun.Out(); o_.mod = mod
        dep = own_deployed(o)
        want = [('deploy', o, True)] + ([('call', dep, False)] if dep else [])
        for nm, x, d in want:
            fs = [f for f in mod.fns if not f.runtime and f.name == nm]
            if not fs: res.append((path + nm, 'differs', f'there is no entry point {nm}')); continue
            try: c = entry(o_, fs[0], x, d, objs, keys, syms)
            except Unknown as e: res.append((path + nm, 'unknown', str(e))); continue
            if c.bad: res.append((path + nm, 'differs', c.bad[0][1]))
            elif not c.pairs: res.append((path + nm, 'unknown', 'no path compared'))
            else: res.append((path + nm, 'ok', (c.pairs, c.proved, c.sampled + c.open, c.cut)))
        fs = [f for f in mod.fns if not f.runtime and f.name == '_start']
        if not fs: res.append((path + '_start', 'differs', 'there is no _start'))
        else:
            W = World(_D())
            try:
                Gen(W, o_).run(fs[0], [])
                ev = [e for e in W.ev]
                flag = len(ev) == 1 and ev[0][0] == 'memory set up' and ev[0][1].k == 'const' and ev[0][1].a
                small = opts.get(ALL) and True
                if len(ev) != 1 or ev[0][0] != 'memory set up': res.append((path + '_start', 'differs', f'_start does {ev} instead of setting memory up once'))
                elif not flag and not small: res.append((path + '_start', 'differs', 'memory is not given pages of its own although no optimisation asks for that'))
                else: res.append((path + '_start', 'ok', (1, 1, 0, 0)))
            except Unknown as e: res.append((path + '_start', 'unknown', str(e)))
        a = links.get(i)
        if a is None: res.append((path + 'exports', 'unknown', 'the module is not linked'))
        else:
            ex = [out.I.deref(x) for x in a]
            ls = [x for x in ex if isinstance(x, list)]
            hs = [x for x in ex if isinstance(x, bool)]
            if len(ls) != 1: res.append((path + 'exports', 'unknown', 'the export list is not recognised'))
            else:
                miss = [n for n, _, _ in want if n not in ls[0]]
                res.append((path + 'exports', 'differs', f'{", ".join(miss)} is not exported') if miss else (path + 'exports', 'ok', (1, 1, 0, 0)))
            if len(hs) == 1 and not hs[0] and has_sub(o): res.append((path + 'stack', 'differs', 'an object with embedded contracts is linked with the small stack'))
    try:
        main = [i for i, m in enumerate(out.I.emitted) if m is out.mod]
        one(out.mod, ast, main[0] if main else None, '')
        def deeper(o, path):
            for g in o[3]:
                if g[0] != 'object': continue
                i = objs.get(id(g))
                if i is not None: one(out.I.emitted[i], g, i, path + g[1] + '.')
                deeper(g, path + g[1] + '.')
        deeper(ast, '')
    except Unknown as e: res.append(('', 'unknown', str(e)))
    return res


def refused(txt, opts, syms=()):
    """status of compiling a program that must not compile"""
    try: out = cgrun.compile_obj(trees(), yulast.parse(txt), emit=True, symbol2addr=dict(syms), **opts)
    except Unknown as e: return 'unknown', str(e)
    return ('accepted', '') if out.status == 'ok' and not out.problems else ('refused', show_err(out) if out.status != 'ok' else out.problems[0][1])


_w = []
def _one(i):
    f, mode, key, a = _w[i]
    try: return mode, key, f(*a)
    except Unknown as e: return mode, key, [('', 'unknown', str(e))]
    except RecursionError: return mode, key, [('', 'unknown', 'too deep')]
    except Exception as e: return mode, key, [('', 'unknown', f'{type(e).__name__}: {e} {traceback.format_exc()[-300:]}')]


def run(jobs, procs=8):
    """[(function, mode, key, args)] in parallel"""
    global _w
    trees()
    _w = jobs
    with multiprocessing.get_context('fork').Pool(procs, maxtasksperchild=8) as p:
        return list(p.imap_unordered(_one, range(len(jobs)), chunksize=2))


# ------------------------------------------------------------------ programs
def two(x, y, segs='', name='T'):
    return 'object "%s" { code { %s } object "%s_deployed" { code { %s } %s } }' % (name, x, name, y, segs)


DEPLOY = 'let n := datasize("T_deployed") datacopy(0, dataoffset("T_deployed"), n) return(0, n)'
USER = ['init', 'deploy', '_start', 'main', 'entry', 'T', 'T_deployed', 'code', 'memcpy', 'wrapper_sload_bytes32', 'wrapper_stop', '__init_evm_heap', 'set_is_deploying_tx', 'transform', 'exit', 'unified_revert', '$unified_revert_error_zero', 'memory_alloca_u256', 'T.T.f', 'f.g']


def entry_programs(codes):
    out = []
    ks = list(codes)
    for i, k in enumerate(ks):
        out.append((f'creation {k}', two(codes[k], codes[ks[(i + 1) % len(ks)]])))
        out.append((f'creation {k} alone', 'object "T" { code { %s } }' % codes[k]))
    out.append(('usual deployment', two(DEPLOY, codes['dispatch'])))
    out.append(('same code', two(codes['dispatch'], codes['dispatch'])))
    for n in USER:
        f = 'function %s(x) -> y { sstore(x, 5) y := add(x, 1) }' % n
        g = 'function %s(x) -> y { sstore(x, 6) y := add(x, 2) }' % n
        out.append((f'a function named {n}', two(f'sstore(1, 2) sstore({n}(3), 4) {f}', f'sstore(7, {n}(8)) {g}')))
        out.append((f'a function named {n} without operands', two(f'{n}() sstore(1, 2) function {n}() {{ sstore(3, 4) }}', f'sstore(7, 8) {n}() function {n}() {{ sstore(9, 1) }}')))
    out.append(('functions of the same name in both', two('sstore(f(1), 2) function f(x) -> y { y := mul(x, 3) }', 'sstore(f(1), 2) function f(x) -> y { y := sub(x, 3) }')))
    out.append(('a function only the creation code has, one only the deployed code has', two('sstore(f(1), 2) function f(x) -> y { y := mul(x, 3) }', 'sstore(g(1), 2) function g(x) -> y { y := sub(x, 3) }')))
    out.append(('variables of the same name in both', two('let x := 1 let y := sload(x) sstore(x, y)', 'let x := calldatasize() let y := sload(x) sstore(y, x)')))
    return out


def data_programs():
    out = []
    use = lambda n, k=1: f'datacopy({k}, dataoffset("{n}"), datasize("{n}")) sstore({k}, datasize("{n}")) sstore(add({k}, 100), dataoffset("{n}")) '
    D = {'one byte': '00', 'two': 'aabb', 'three': 'c0ffee', 'four': '00000004', 'word': '11' * 32, 'long': bytes(range(70)).hex(), 'zero led': '000000ff', 'ends in zeros': 'ff0000', 'looks like an object': '0000000700' + '61736d00abcd', 'empty': ''}
    for k, v in D.items():
        out.append((f'data {k}', f'object "T" {{ code {{ {use("d")} }} data "d" hex"{v}" }}'))
        out.append((f'data {k} of the deployed object', two(DEPLOY, use('d'), f'data "d" hex"{v}"')))
        out.append((f'data {k} in both', f'object "T" {{ code {{ {use("d")} }} object "T_deployed" {{ code {{ {use("d")} }} data "d" hex"77{v}" }} data "d" hex"{v}" }}'))
    two_ = 'data "d" hex"aabb" data "e" hex"ccddee"'
    out.append(('two data segments', f'object "T" {{ code {{ {use("d", 1)} {use("e", 2)} }} {two_} }}'))
    out.append(('three data segments, used in another order', f'object "T" {{ code {{ {use("f", 1)} {use("d", 2)} {use("e", 3)} }} {two_} data "f" hex"01" }}'))
    out.append(('equal data under two names', f'object "T" {{ code {{ {use("d", 1)} {use("e", 2)} }} data "d" hex"aa" data "e" hex"aa" }}'))
    out.append(('names that contain each other', f'object "T" {{ code {{ {use("d", 1)} {use("dd", 2)} {use("d.d", 3)} }} data "dd" hex"aa" data "d" hex"bbbb" data "d.d" hex"cccccc" }}'))
    out.append(('metadata', f'object "T" {{ code {{ {use("x")} }} data ".metadata" hex"a264" data "x" hex"0102" }}'))
    out.append(('data before the deployed object', f'object "T" {{ code {{ {use("d")} {use("T_deployed", 9)} }} data "d" hex"0102" object "T_deployed" {{ code {{ sstore(1, 2) }} }} }}'))
    out.append(('data used in a function', f'object "T" {{ code {{ f(1) function f(x) {{ {use("d")} sstore(x, 9) }} }} data "d" hex"0102" }}'))
    out.append(('own size', two('sstore(1, datasize("T"))', 'sstore(2, datasize("T_deployed"))')))
    out.append(('size in arithmetic', f'object "T" {{ code {{ let n := add(datasize("d"), 32) mstore(96, n) sstore(n, sub(dataoffset("d"), 1)) if eq(datasize("d"), 2) {{ sstore(5, 6) }} }} data "d" hex"0102" }}'))
    out.append(('string data', f'object "T" {{ code {{ {use("d")} }} data "d" "xyz" }}'))
    B = 'object "B" { code { sstore(11, %s) } object "B_deployed" { code { sstore(12, %s) } } }'
    Cc = 'object "C" { code { sstore(21, 22) } }'
    new = lambda n, k=0: f'let s{k} := datasize("{n}") datacopy({k}, dataoffset("{n}"), s{k}) sstore({k}, create(0, {k}, s{k})) '
    out.append(('an object created by the constructor', f'object "T" {{ code {{ {new("B")} }} object "T_deployed" {{ code {{ sstore(1, 2) }} }} {B % ("1", "2")} }}'))
    out.append(('an object before the deployed object', f'object "T" {{ code {{ {new("B")} }} {B % ("1", "2")} object "T_deployed" {{ code {{ sstore(1, 2) }} }} }}'))
    out.append(('an object created by the deployed code', two(DEPLOY, new('B'), B % ('1', '2'))))
    out.append(('two objects', two(DEPLOY, new('B') + new('C', 1), B % ('1', '2') + Cc)))
    out.append(('two objects in another order', two(DEPLOY, new('B') + new('C', 1), Cc + B % ('1', '2'))))
    out.append(('the same name on two levels', f'object "T" {{ code {{ {new("B")} }} object "B" {{ code {{ sstore(1, 2) }} }} object "T_deployed" {{ code {{ {new("B")} }} object "B" {{ code {{ sstore(3, 4) }} }} }} }}'))
    out.append(('an object that creates another', two(DEPLOY, new('B'), 'object "B" { code { %s } object "B_deployed" { code { %s } %s } %s }' % (new('C'), new('C', 5), 'object "C" { code { sstore(9, 8) } }', Cc))))
    out.append(('an object with data of the same name', f'object "T" {{ code {{ {use("d")} {new("B", 3)} }} object "B" {{ code {{ {use("d")} }} data "d" hex"bb" }} data "d" hex"aa" }}'))
    out.append(('an object without code', two(DEPLOY, new('B'), 'object "B" { code { } }')))
    return out


DATA_REFUSED = {
    'a name that is not there': 'object "T" { code { sstore(1, %s("nope")) } data "d" hex"aa" }', 'data of the deployed object': two('sstore(1, %s("d"))', '', 'data "d" hex"aa"'),
    'data of the enclosing object': 'object "T" { code { } object "T_deployed" { code { sstore(1, %s("d")) } } data "d" hex"aa" }', 'an object of the deployed object': two('sstore(1, %s("B"))', '', 'object "B" { code { } }'),
    'a sibling of the deployed object': 'object "T" { code { } object "T_deployed" { code { sstore(1, %s("B")) } } object "B" { code { } } }', 'another case': 'object "T" { code { sstore(1, %s("D")) } data "d" hex"aa" }',
    'data of an embedded object': 'object "T" { code { sstore(1, %s("d")) } object "B" { code { } data "d" hex"aa" } }', 'the empty name': 'object "T" { code { sstore(1, %s("")) } data "d" hex"aa" }',
}


IMM = ['a', 'b', '1', '11', '111', 'ab', 'A', 'immutable', 'x' * 22, 'x' * 23, 'x' * 24 + 'a', 'x' * 24 + 'b', 'x' * 32 + 'a', 'x' * 32 + 'b', '1234', '4321', 'value', 'Value', ' a', 'a ']


def immutable_programs():
    out = []
    for a, b in (('a', 'b'), ('1', '11'), ('x' * 32 + 'a', 'x' * 32 + 'b')):
        out.append((f'immutables {a[-3:]}, {b[-3:]}', two(f'setimmutable(0, "{a}", 5) let v := sload(2) setimmutable(v, "{b}", add(v, 1)) sstore(1, loadimmutable("{a}"))',
                                                          f'sstore(loadimmutable("{a}"), loadimmutable("{b}")) f() function f() {{ let k := loadimmutable("{a}") sstore(k, sub(k, 1)) }}')))
    out.append(('the value of an immutable', two('setimmutable(mload(96), "a", caller()) setimmutable(1, "b", extcodesize(2)) setimmutable(2, "1", lt(callvalue(), 5)) setimmutable(3, "11", 0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff) setimmutable(4, "ab", calldataload(4))', 'if loadimmutable("a") { sstore(1, 2) } switch loadimmutable("b") case 5 { sstore(3, 4) } default { sstore(5, and(loadimmutable("1"), 0xff)) }')))
    return out


SYMS = {'L': '0x1234567890abcdef1234567890abcdef12345678', 'l1': '0x00000000000000000000000000000000000000ff', 'a.sol:Lib': '0xffffffffffffffffffffffffffffffffffffffff', 'Lib': '0x8000000000000000000000000000000000000001', 'Lib2': '0xABCDEFabcdefABCDEFabcdefABCDEFabcdefABCD', 'short': '0x7'}


def symbol_programs():
    out = []
    for n in SYMS:
        out.append((f'symbol {n}', f'object "T" {{ code {{ sstore(1, linkersymbol("{n}")) }} }}'))
        out.append((f'symbol {n} in a variable', f'object "T" {{ code {{ f() function f() {{ let l := linkersymbol("{n}") sstore(1, l) }} }} }}'))
        out.append((f'symbol {n} in a variable of the code', f'object "T" {{ code {{ let l := linkersymbol("{n}") sstore(1, l) }} }}'))
        out.append((f'symbol {n} called', two('', f'f(5) function f(g) {{ let l := linkersymbol("{n}") let ok := delegatecall(g, l, 0, 4, 0, 32) if iszero(ok) {{ revert(0, 0) }} sstore(extcodesize(l), balance(l)) }}')))
        out.append((f'symbol {n} assigned', f'object "T" {{ code {{ f(2) function f(x) {{ x := linkersymbol("{n}") sstore(x, add(x, 1)) let y y := linkersymbol("{n}") sstore(y, x) }} }} }}'))
    out.append(('two symbols', 'object "T" { code { f() function f() { let a := linkersymbol("L") let b := linkersymbol("Lib") let c := linkersymbol("Lib2") sstore(a, b) sstore(b, c) } } }'))
    out.append(('used in a nested block', 'object "T" { code { f() function f() { let a := linkersymbol("L") { if callvalue() { sstore(1, a) } } } } }'))
    out.append(('used in a loop and a case', 'object "T" { code { f() function f() { let a := linkersymbol("L") for { } lt(a, 5) { } { } switch a case 1 { sstore(3, a) } default { sstore(4, a) } } } }'))
    out.append(('assigned but never read', 'object "T" { code { f() function f() { let a := linkersymbol("L") a := 5 sstore(1, 2) } } }'))
    out.append(('never read', two('let a := linkersymbol("L") f() function f() { let b := linkersymbol("Lib") sstore(1, 2) }', 'let c := linkersymbol("none") sstore(1, 2)')))
    out.append(('declared twice, read once', 'object "T" { code { f() function f() { { let a := linkersymbol("L") } { let a := linkersymbol("Lib") sstore(1, a) } } { let b := linkersymbol("L") sstore(b, 1) } let b := 5 sstore(2, b) } }'))
    out.append(('passed on', 'object "T" { code { f() function f() { let a := linkersymbol("L") sstore(1, g(a)) } function g(a) -> r { r := a } } }'))
    return out


SYM_MISSING = {
    'read': 'object "T" { code { sstore(1, linkersymbol("missing")) } }', 'in a variable that is read': 'object "T" { code { f() function f() { let l := linkersymbol("missing") sstore(1, l) } } }',
    'in a variable of the code': 'object "T" { code { let l := linkersymbol("missing") sstore(1, l) } }', 'part of a known name': 'object "T" { code { sstore(1, linkersymbol("Li")) } }', 'a longer name': 'object "T" { code { sstore(1, linkersymbol("Lib3")) } }',
    'another case': 'object "T" { code { sstore(1, linkersymbol("lib")) } }', 'without the file': 'object "T" { code { sstore(1, linkersymbol("sol:Lib")) } }', 'in the deployed code': two('', 'sstore(1, linkersymbol("missing"))'), 'in an embedded object': two('', 'sstore(1, 2)', 'object "B" { code { sstore(1, linkersymbol("missing")) } }'),
    'assigned': 'object "T" { code { f() function f() { let l l := linkersymbol("missing") sstore(1, l) } } }', 'as an operand': 'object "T" { code { f() function f() { if eq(caller(), linkersymbol("missing")) { sstore(1, 2) } } } }',
}
