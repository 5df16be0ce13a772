"""What the generator does when an operation it performs fails, and whether what it emits is well formed."""
import multiprocessing, random, re, traceback
import cgrun, cgprops, yulast, inkm, cfront
from cgprops import MODES, trees, show_err, program, batches
from rsi_core import Unknown, Panic, Err, Adt, last


class Rec:
    """one interpretation, remembering from where each operation was asked for"""
    def __init__(s, txt, opts, debug=False, fail_at=None, lib_fail=None, emit=None, record=True):
        if emit is None: emit = whole(txt)
        s.sites = {}
        stack, s.stack = [], []
        orig, om = cgrun.make, inkm.BuilderN.op

        def mk(t, d=False):
            I = orig(t, d)
            I.lib_fail = lib_fail
            if record:
                for k in ('MCall', 'Call', 'Macro'):
                    f = I.disp.get(k)
                    if f:
                        def g(e, env, h=None, f=f):
                            stack.append(e.get('l'))
                            try: return f(e, env, h)
                            finally: stack.pop()
                        I.disp[k] = g
            return I

        def op(b, I, m, a, node):
            if record: s.sites.setdefault((m, frozenset(stack)), (I.nbuild, tuple(I.where())))
            return om(b, I, m, a, node)
        cgrun.make, inkm.BuilderN.op = mk, op
        try: s.out = cgrun.compile_obj(trees(), yulast.parse(txt), debug_build=debug, emit=emit, fail_at=fail_at, symbol2addr=opts.get('symbol2addr', {}), **{k: v for k, v in opts.items() if k != 'symbol2addr'})
        finally: cgrun.make, inkm.BuilderN.op = orig, om


def whole(txt):
    """more than the code of one object: its parts are emitted on their own"""
    return txt.count('object "') > 1 or 'data "' in txt


def mods(out): return out.I.emitted or ([out.mod] if out.mod is not None else [])


def called(out):
    """{runtime routine: number of calls} in everything emitted"""
    d = {}
    for m in mods(out):
        for f in m.fns:
            for b in getattr(f, 'blocks', []):
                for v in b.ins:
                    if v.op == 'call' and v.kw['f'].runtime: d[v.kw['f'].name] = d.get(v.kw['f'].name, 0) + 1
    return d


def unfinished(out):
    """blocks that do not end: (function, block)"""
    return [(f.name, b.name) for m in mods(out) for f in m.fns if not f.runtime for b in f.blocks if not b.term()]


def generate(job): return record(job, False)


def record(job, sites=True):
    """(texts, options name, options, debug build) -> sites and problems"""
    key, txt, mode, opts, debug = job
    try:
        r = Rec(txt, opts, debug, record=sites)
        o = r.out
        return job, o.status, show_err(o) if o.status != 'ok' else '', r.sites, o.problems, called(o), unfinished(o) if o.status == 'ok' else []
    except Unknown as e: return job, 'unknown', str(e), {}, [], {}, []
    except Exception: return job, 'unknown', traceback.format_exc()[-300:], {}, [], {}, []


def inject(job):
    (key, txt, mode, opts, debug), k, m, where = job
    try:
        o = Rec(txt, opts, debug, fail_at=k, record=False).out
        if o.I.failed_op is None: return job, 'unknown', 'the operation was not reached again'
        return job, o.status, ''
    except Unknown as e:
        # past the failure the generator computes with what it was not given: the failure was not reported where it happened
        return job, 'unknown', str(e)
    except Exception: return job, 'unknown', traceback.format_exc()[-300:]


def pool(f, jobs, chunk=4):
    trees()
    import gc
    gc.collect(); gc.freeze()
    with multiprocessing.Pool(8, initializer=gc.disable) as p: return p.map(f, jobs, chunk)


def cover(sites, deep, seed=1):
    """injections so that each place that asks for an operation, directly or through others, sees one fail"""
    cand = []
    for (m, chain), (job, k, where) in sites.items(): cand.append((m, chain, job, k, where))
    cand.sort(key=lambda c: (len(c[2][1]), c[3], c[0], sorted(x or 0 for x in c[1])))
    if deep: return [(j, k, m, w) for m, ch, j, k, w in cand]
    seen, out = {}, []
    for m, ch, j, k, w in cand:
        new = [x for x in ch if seen.get(x, 0) < 2] + ([] if (m, max(ch, key=lambda x: x or 0)) in seen else [1])
        if not new: continue
        for x in ch: seen[x] = seen.get(x, 0) + 1
        seen[m, max(ch, key=lambda x: x or 0)] = 1
        out.append((j, k, m, w))
    return out


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values(): yield from walk(v)
    elif isinstance(n, list):
        for v in n: yield from walk(v)


def functions(trees_):
    for n in walk(list(trees_.values())):
        if n.get('k') == 'Fn' and n.get('body') is not None: yield n


def strip(e):
    while isinstance(e, dict) and e.get('k') in ('Ref', 'Paren'): e = e['e']
    return e


def named_calls(trees_):
    """[(function, routine named, number of operands or None)] for every place that asks for a routine by a literal name"""
    out = []
    asks = {'build_call', 'build_void_call', 'lookup_function'}
    for f in functions(trees_):
        for n in walk(f['body']):
            if n.get('k') != 'MCall' or n['m'] not in asks or not n['args']: continue
            a = strip(n['args'][0])
            names = [a['v']] if a.get('k') == 'Lit' and a.get('t') == 'str' else [x['v'] for x in walk(a) if x.get('k') == 'Lit' and x.get('t') == 'str'] if a.get('k') in ('If', 'Match') else []
            if not names: continue
            b = strip(n['args'][1]) if len(n['args']) > 1 else None
            cnt = len(b['es']) if b and b.get('k') == 'Array' and 'es' in b else None
            for x in names: out.append((f['name'], x, cnt, n['m']))
    return out


def linked_units(trees_):
    """units of the runtime library embedded in the compiler: (always, all lists)"""
    raw = open(cgrun.SRC + '/stdlib.rs').read()
    return sorted(set(re.findall(r'include_bytes!\(\s*"[^"]*/(\w+)\.bc"', re.sub(r'//[^\n]*', '', raw))))


# name -> operand types and result of the host interface; pointers and 32-bit numbers alike are i32
HOST_SIG = {}
for l in '''addmod iiii v|mulmod iiii v|expmod iiii v|callContract Liiii i|callCode Liiii i|callDelegate Liii i|callStatic Liii i|callDataCopy iii v|codeCopy iii v|createContract iiiiiiii i
emitLogEvent iiiiiii v|externalCodeCopy iiii v|finish ii v|getAddress i v|getBaseFee i v|getBlobBaseFee i v|getBlockCoinbase i v|getBlockGasLimit - L|getBlockHash Li i|getBlockNumber - L
getBlockPrevRandao i v|getBlockTimestamp - L|getCallDataSize - i|getCallValue i v|getCaller i v|getChainId i v|getCodeSize - i|getExternalBalance ii v|getExternalCodeHash ii v|getExternalCodeSize i i
getGasLeft - L|getReturnDataSize - i|getTxGasPrice i v|getTxOrigin i v|invalid - v|keccak256 iii v|sha256 iii v|returnDataCopy iii v|revert ii v|selfDestruct i v|storageLoad ii v
storageLoadLittleEndian ii v|storageStore ii v|storageStoreLittleEndian ii v|transientLoad ii v|transientStore ii v'''.replace('\n', '|').split('|'):
    n, p, r = l.split()
    HOST_SIG[n] = ([{'i': 'i32', 'L': 'i64'}[c] for c in p if c != '-'], {'i': 'i32', 'L': 'i64', 'v': 'void'}[r])
# printing routines of the debugging units
DEBUG_HOST = re.compile(r'^(debug|print)')


def interface():
    """(defined: {name: internal?}, declared: {name: (params, ret, module, import name)}) of the runtime units the compiler embeds"""
    defined, declared = {}, {}
    for u in linked_units(None):
        import os
        if not os.path.exists(f'{cfront.STD}/{u}.c'): continue
        m, text = cfront.build(units=[u])
        groups = {g: a for g, a in re.findall(r'^attributes #(\d+) = \{(.*)\}', text, re.M)}
        for l in re.findall(r'^define (.*)$', text, re.M):
            n = re.search(r'@([\w.$]+)\(', l)
            if n: defined.setdefault(n.group(1), set()).add(u if not re.match(r'internal|private', l) else None)
        for n, d in m.decls.items():
            if n.startswith('llvm.'): continue
            g = re.search(r'#(\d+)', d['attrs'])
            a = groups.get(g.group(1), '') if g else ''
            mo = re.search(r'"wasm-import-module"="([^"]*)"', a)
            na = re.search(r'"wasm-import-name"="([^"]*)"', a)
            norm = lambda t: 'i32' if t == 'ptr' else t
            declared.setdefault(n, []).append(([norm(p if not isinstance(p, tuple) else p[0]) for p in d['params']], norm(d['ret']), mo and mo.group(1), na and na.group(1), u))
    return defined, declared


# ------------------------------------------------------------------ programs with something wrong in them
POS = {
 'expression statement': '{S}', 'initial value': 'let x := {E} sstore(0, x)', 'one of two initial values': 'let x, y := two({E}) sstore(x, y)', 'assigned value': 'let x := 1 x := {E} sstore(0, x)',
 'builtin operand 1': 'sstore({E}, 1)', 'builtin operand 2': 'sstore(1, {E})', 'nested operand': 'sstore(0, add(1, mul(2, {E})))', 'user call operand': 'sstore(0, one({E}))',
 'user call operand in a statement': 'none({E})', 'if condition': 'if {E} { sstore(0, 1) }', 'if body': 'if callvalue() { sstore(0, {E}) }', 'switch scrutinee': 'switch {E} case 0 { sstore(0, 1) } default { sstore(0, 2) }',
 'first case': 'switch callvalue() case 0 { sstore(0, {E}) } case 1 { sstore(0, 2) }', 'last case': 'switch callvalue() case 0 { sstore(0, 1) } case 1 { sstore(0, {E}) }',
 'case before a default': 'switch callvalue() case 0 { sstore(0, {E}) } default { sstore(0, 2) }', 'default': 'switch callvalue() case 0 { sstore(0, 1) } default { sstore(0, {E}) }', 'only default': 'switch callvalue() default { sstore(0, {E}) }',
 'case statement': 'switch callvalue() case 0 { {S} }', 'default statement': 'switch callvalue() case 0 { } default { {S} }', 'if body statement': 'if callvalue() { {S} }',
 'loop start': 'for { let i := {E} } lt(i, 3) { i := add(i, 1) } { sstore(i, i) }', 'loop condition': 'for { let i := 0 } lt(i, {E}) { i := add(i, 1) } { sstore(i, i) }',
 'loop step': 'for { let i := 0 } lt(i, 3) { i := add(i, {E}) } { sstore(i, i) }', 'loop body': 'for { let i := 0 } lt(i, 3) { i := add(i, 1) } { sstore(i, {E}) }', 'loop body statement': 'for { let i := 0 } lt(i, 3) { i := add(i, 1) } { {S} }',
 'loop step statement': 'for { let i := 0 } lt(i, 3) { i := add(i, 1) {S} } { sstore(i, i) }', 'loop start statement': 'for { {S} } callvalue() { } { sstore(1, 1) }',
 'nested block': '{ { sstore(0, {E}) } }', 'nested block statement': '{ sstore(0, 1) { {S} } }', 'after a statement': 'sstore(0, 1) {S}', 'before a statement': '{S} sstore(0, 1)',
 'if in a loop in a case': 'switch callvalue() case 1 { for { } callvalue() { } { if gas() { sstore(0, {E}) } } } default { }',
 'log operand': 'log3(0, 0, 1, {E}, 3)', 'return operand': 'return(0, {E})', 'revert operand': 'revert({E}, 0)', 'memory address': 'mstore({E}, 1)', 'call operand': 'sstore(0, call(gas(), 1, {E}, 0, 0, 0, 0))', 'condition operand': 'if iszero({E}) { sstore(0, 1) }',
 'and condition': 'if and(callvalue(), {E}) { sstore(0, 1) }', 'free memory pointer': 'mstore(64, {E})', 'immutable': 'setimmutable(0, "x", {E})', 'shifted word': 'sstore(0, shr(224, calldataload({E})))',
}
FUNS = 'function one(a) -> r { r := add(a, 1) } function two(a) -> r, s { r := a s := 2 } function none(a) { sstore(a, a) }'
WHERE = {
 'creation code': ('{B}', ''), 'deployed code': ('sstore(9, 9)', 'object "T_deployed" { code { {B} {F} } }'),
 'a function': ('fn(1) function fn(q) { {B} }', ''), 'a function with a result': ('sstore(5, fn(1)) function fn(q) -> r { {B} r := q }', ''),
 "a deployed function": ('', 'object "T_deployed" { code { fn(1) function fn(q) { {B} } {F} } }'),
 'a sub-object': ('sstore(dataoffset("S"), datasize("S"))', 'object "S" { code { {B} {F} } }'),
 "a sub-object's deployed code": ('sstore(dataoffset("S"), datasize("S"))', 'object "S" { code { } object "S_deployed" { code { {B} {F} } } }'),
}
WRONG = {'a function that does not exist': ('nothere(1)', 'nothere(1)'), 'a variable that does not exist': ('nosuch', 'sstore(1, nosuch)'), 'assigning a variable that does not exist': (None, 'nosuch := 1')}


def wrong_programs():
    for wn, (code, objs) in WHERE.items():
        for n, (e, s_) in WRONG.items():
            for p, t in POS.items():
                if '{E}' in t and e is None: continue
                b = t.replace('{E}', e or '').replace('{S}', s_)
                f = lambda x: x.replace('{B}', b).replace('{F}', FUNS)
                yield f'{n}, {p} of {wn}', 'object "T" { code { %s %s } %s }' % (f(code), FUNS, f(objs))


def right_programs():
    """the same positions with nothing wrong: these compile"""
    for wn, (code, objs) in WHERE.items():
        for p, t in POS.items():
            b = t.replace('{E}', 'gas()').replace('{S}', 'sstore(7, 8)')
            f = lambda x: x.replace('{B}', b).replace('{F}', FUNS)
            yield f'{p} of {wn}', 'object "T" { code { %s %s } %s }' % (f(code), FUNS, f(objs))


# ------------------------------------------------------------------ what is emitted, as text
def text(out):
    I = out.I
    ids = {}

    def show(v):
        if isinstance(v, inkm.Val):
            if v.op == 'const': return repr(v)
            if v.op == 'global': return '@' + str(v.name)
            if v.isconst(): return f'{v.op}({", ".join(map(show, v.args))})'
            return f'%{ids.setdefault(v.id, len(ids))}'
        if isinstance(v, (inkm.BB, inkm.FnV)): return repr(v)
        if isinstance(v, (list, tuple)): return '[' + ', '.join(map(show, v)) + ']'
        if isinstance(v, bytes): return v.hex()
        if isinstance(v, dict): return '{' + ', '.join(f'{show(k)}: {show(x)}' for k, x in v.items()) + '}'
        if isinstance(v, Adt): return f'{v.ty}.{v.var}({show(v.f)})' if v.f else f'{v.ty}.{v.var}'
        if v is None or isinstance(v, (str, int, bool, inkm.Ty)): return str(v)
        return type(v).__name__
    t = []
    for m in mods(out):
        t.append('module ' + m.name)
        for g in m.globals: t.append(f'global {getattr(g, "name", "")} {show(getattr(g, "init", None) or getattr(g, "kw", None))}')
        for f in m.fns:
            if f.runtime: continue
            t.append(f'function {f.name} {f.fty}')
            for b in f.blocks:
                t.append(f' {b.name}')
                for v in b.ins: t.append(f'  {show(v)} = {v.op} {show(v.args)} {show({k: x for k, x in v.kw.items() if k != "fn"})}')
    for i, a in I.links: t.append(f'link {i} {show([I.deref(x) for x in a])}')
    for k, v in I.files.items(): t.append(f'file {k} {show(v)}')
    return t


def salted(job):
    """differences between what one program gives under several orders of the unordered collections"""
    key, txt, mode, opts, salts = job
    out = []
    try:
        ref, seen, n = None, set(), 0
        for s in salts:
            o = cgrun.compile_obj(trees(), yulast.parse(txt), salt=s, emit=whole(txt), symbol2addr=opts.get('symbol2addr', {}), **{k: v for k, v in opts.items() if k != 'symbol2addr'})
            if s == salts[0] and o.status == 'ok': out += [('environment', p[1], p[3][-1] if p[3] else '') for p in o.problems if p[0] == 'environment']
            t = text(o) + [o.status, show_err(o) if o.status == 'err' else '']
            seen |= o.I.unordered_seen; n += 1
            if ref is None: ref = t
            elif t != ref:
                d = next((i for i, (a, b) in enumerate(zip(ref, t)) if a != b), min(len(ref), len(t)))
                f = next((x for x in reversed(ref[:d]) if x.startswith(('function', 'module'))), '')
                out.append(('order', f'{(ref + ["nothing"])[d].strip()} or {(t + ["nothing"])[d].strip()} in {f}', ','.join(sorted(o.I.unordered_seen))))
                break
        return job, 'ok', out, seen, n
    except Unknown as e: return job, 'unknown', str(e), set(), 0
    except Exception: return job, 'unknown', traceback.format_exc()[-300:], set(), 0


def many_programs():
    """programs with several of everything the generator keeps tables of"""
    n = 6
    funs = ' '.join(f'function f{i}(a, b) -> r {{ let v{i} := sload(add(a, {i})) switch v{i} case {i} {{ if b {{ r := {i + 1} }} }} case {i + 10} {{ for {{ let j := 0 }} lt(j, b) {{ j := add(j, 1) }} {{ r := add(r, j) }} }} default {{ r := mul(a, {i + 2}) }} }}' for i in range(n))
    same = ' '.join(f'function s{i}(a) -> r {{ r := add(a, 1) }}' for i in range(n))
    rev = ' '.join(f'function rv{i}() {{ revert(0, 0) }}' for i in range(n))
    yield 'functions', 'object "T" { code { %s %s %s %s } }' % (' '.join(f'sstore({i}, f{i}({i}, s{i}({i})))' for i in range(n)), funs, same, rev + ' ' + ' '.join(f'if callvalue() {{ rv{i}() }}' for i in range(n)))
    yield 'cases', 'object "T" { code { switch calldataload(0) %s default { if gas() { sstore(99, 99) } } } }' % ' '.join(f'case {i} {{ if callvalue() {{ let x{i} := gas() sstore(x{i}, {i}) }} switch gas() case 1 {{ sstore(1, {i}) }} case 2 {{ sstore(2, {i}) }} }}' for i in range(n))
    yield 'variables', 'object "T" { code { %s %s %s } }' % (' '.join(f'let v{i} := sload({i})' for i in range(n)), ' '.join(f'v{i} := add(v{i}, v{(i + 1) % n})' for i in range(n)), ' '.join(f'sstore({i}, v{i})' for i in range(n)))
    yield 'data', 'object "T" { code { %s } %s }' % (' '.join(f'datacopy({32 * i}, dataoffset("d{i}"), datasize("d{i}")) sstore({i}, dataoffset("d{n - 1 - i}"))' for i in range(n)), ' '.join(f'data "d{i}" hex"{i:02x}{i + 1:02x}"' for i in range(n)))
    yield 'sub-objects', 'object "T" { code { %s } %s }' % (' '.join(f'datacopy({32 * i}, dataoffset("O{i}"), datasize("O{i}"))' for i in range(4)), ' '.join(f'object "O{i}" {{ code {{ sstore({i}, dataoffset("x{i}")) }} object "O{i}_deployed" {{ code {{ f() function f() {{ sstore({i}, {i}) }} }} }} data "x{i}" "a{i}" }}' for i in range(4)))
    yield 'immutables', 'object "T" { code { %s } object "T_deployed" { code { %s } } }' % (' '.join(f'setimmutable(0, "i{i}", {i})' for i in range(n)), ' '.join(f'sstore({i}, loadimmutable("i{i}"))' for i in range(n)))
    yield 'symbols', 'object "T" { code { %s } object "T_deployed" { code { %s } } }' % ((' '.join(f'let l{i} := linkersymbol("{s}") sstore({i}, l{i})' for i, s in enumerate(SYMBOLS)),) * 2)
    yield 'literals', 'object "T" { code { %s } }' % ' '.join(f'sstore({i}, "text {i}") mstore({32 * i}, {(1 << 200) + i}) log2(0, 0, {(1 << 100) + i}, "t{i}")' for i in range(n))


SYMBOLS = {f'lib/L{i}.sol:L{i}': f'0x{i + 1:040x}' for i in range(6)}
