"""Abstract runs of wasm::link: the object code, names, options and every external step unknown.

Files hold terms.  The linker gives `linked(arguments)`, the optimisers give terms over what they
read, so that the result of link says exactly which steps produced it."""
import rsi
from rsi_core import *
from mainrun import Tok, Flag, REPO

FILES = [REPO + '/src/yul2ir/wasm.rs', REPO + '/src/yul2ir/config.rs', REPO + '/src/yul2ir/utils.rs']


class T(Native):
    """content: a term"""
    def __init__(s, *n): s.n = n
    def __eq__(s, o): return isinstance(o, T) and s.n == o.n
    def __hash__(s): return hash(s.n)
    def __repr__(s): return f'{s.n[0]}(' + ', '.join(map(repr, s.n[1:])) + ')'

    def method(s, I, m, args, node):
        if m in ('clone', 'to_vec', 'as_slice', 'as_ref', 'to_owned', 'into', 'borrow', 'deref', 'as_mut', 'into_boxed_slice'): return s
        if m == 'is_empty': return I.truth(Flag('empty', s))
        if m == 'len': return Top('size')
        raise Unknown('bytes.' + m)


class Dir(Native):
    def __init__(s, n): s.n = n
    def __repr__(s): return f'<temporary directory {s.n}>'
    def __eq__(s, o): return isinstance(o, Dir) and s.n == o.n
    def __hash__(s): return hash(s.n)
    def method(s, I, m, args, node):
        if m in ('path', 'as_ref', 'into_path', 'keep'): return P(s)
        if m == 'close': return Ok(UNIT)
        raise Unknown('TempDir.' + m)


class P(Native):
    """a path below a temporary directory"""
    def __init__(s, d, *r): s.d, s.r = d, r
    def __repr__(s): return f'<path in {s.d}: ' + '/'.join(map(str, s.r)) + '>'
    def __eq__(s, o): return isinstance(o, P) and (s.d, s.r) == (o.d, o.r)
    def __hash__(s): return hash((s.d, s.r))
    def norm(s, nz): return repr(s)

    def method(s, I, m, args, node):
        if m == 'join': return P(s.d, *s.r, show(I.deref(args[0])))
        if m in ('clone', 'as_path', 'to_path_buf', 'to_owned', 'as_ref', 'into', 'as_os_str', 'display', 'to_string_lossy', 'borrow', 'deref', 'to_string', 'into_owned'): return s
        if m == 'to_str': return Some(s)
        if m == 'exists': return s in I.fs
        raise Unknown('path.' + m)


def show(v):
    return repr(v) if not isinstance(v, str) else v


class CStr(Native):
    def __init__(s, v): s.v = v
    def method(s, I, m, args, node):
        if m in ('as_ptr', 'as_c_str', 'clone', 'to_owned', 'as_ref'): return s
        if m == 'to_str': return Ok(s.v)
        if m in ('to_string_lossy', 'into_string'): return s.v if m[0] == 't' else Ok(s.v)
        raise Unknown('CString.' + m)


class Hand(Native):
    def __init__(s, p): s.p = p
    def method(s, I, m, args, node):
        a = [I.deref(x) for x in args]
        if m == 'write_all':
            if not I.step(f'writing {s.p}'): return Err(Tok('error', 'write'))
            if I.fs[s.p] is not None: raise Unknown('a file written twice')
            I.fs[s.p] = content(a[0]); return Ok(UNIT)
        if m in ('flush', 'sync_all'): return Ok(UNIT)
        if m == 'read_to_end':
            if not I.step(f'reading {s.p}'): return Err(Tok('error', 'read'))
            if not isinstance(a[0], list): raise Unknown('read_to_end')
            a[0].append(I.fs[s.p]); return Ok(Top('size'))
        raise Unknown('File.' + m)


def content(v):
    if isinstance(v, list) and len(v) == 1: v = v[0]
    if isinstance(v, T): return v
    if isinstance(v, list) and not v: return T('nothing')
    raise Unknown(f'content {v!r}')


class Cmd(Native):
    def __init__(s, prog): s.a = [prog]
    def method(s, I, m, args, node):
        a = [I.deref(x) for x in args]
        if m == 'arg': s.a.append(a[0]); return s
        if m == 'args':
            xs = I.iter_of(a[0])
            s.a += I.collect(xs, None); return s
        if m in ('stdout', 'stderr', 'stdin', 'current_dir', 'env'):
            if m in ('env', 'current_dir'): raise Unknown('Command.' + m)
            return s
        if m in ('output', 'spawn', 'status'):
            if not I.step(f'starting {s.a[0]}'): return Err(Tok('error', 'start'))
            ok = I.tool([x.v if isinstance(x, CStr) else x for x in s.a])
            return Ok(Child(ok))
        raise Unknown('Command.' + m)


class Child(Native):
    def __init__(s, ok): s.ok = ok
    def field(s, n):
        if n == 'status': return s
        return Tok(n)
    def method(s, I, m, args, node):
        if m == 'success': return s.ok
        if m == 'code': return Some(0 if s.ok else 1)
        if m in ('wait', 'try_wait'): return Ok(s)
        if m == 'wait_with_output': return Ok(s)
        raise Unknown('Child.' + m)


class Wiz(Native):
    def __init__(s): s.f = '<default>'
    def method(s, I, m, args, node):
        a = [I.deref(x) for x in args]
        if m == 'init_func': s.f = a[0]; return s
        if m == 'run':
            if not I.step('initialising'): return Err(Tok('error', 'wizer'))
            return Ok(T('initialised', s.f, content(a[0])))
        raise Unknown('Wizer.' + m)


class Mod(Native):
    def __init__(s, c): s.c, s.sp = c, None
    def method(s, I, m, args, node):
        if m in ('global_section_mut', 'global_section'): return Some(s) if I.truth(Flag('the module has a global section')) else NONE
        if m in ('entries_mut', 'entries'): return [Glob(s)] if I.truth(Flag('the module has globals')) else []
        if m in ('build', 'clone', 'with_module', 'into'): return s
        raise Unknown('Module.' + m)


class Glob(Native):
    def __init__(s, m): s.m = m
    def method(s, I, m, args, node):
        if m == 'init_expr_mut':
            def put(v): s.m.sp = I.deref(v)
            return Place(lambda: s.m.sp, put)
        raise Unknown('global.' + m)


class BuilderV(Native):
    def method(s, I, m, args, node):
        if m == 'with_module': return I.deref(args[0])
        raise Unknown('builder.' + m)


class LinkI(rsi.Interp):
    def __init__(s, trees, release):
        super().__init__(trees)
        s.ext_call, s.ext_method, s.ext_path = s.xcall, s.xmethod, s.xpath
        s.release = release
        s.reset()

    def reset(s):
        s.flags, s.fs, s.runs, s.ndir, s.nrand, s.msgs = {}, {}, [], 0, 0, []
        s.points, s.temps, s.frames, s.cons, s.taint = [], [], [], {}, False
        s.fuel = 400_000

    def truth(s, v):
        v = s.deref(v)
        if isinstance(v, Flag):
            if v not in s.flags: s.flags[v] = s.choose(2, str(v)) == 0
            return s.flags[v]
        return super().truth(v)

    def e_Unary(s, e, env, h):
        if e['op'] == '!':
            v = s.rv(e['e'], env)
            if isinstance(v, (Flag, bool)): return not s.truth(v)
            return super().e_Unary(dict(e, e=dict(e['e'], k='Given', v=v)), env, h)
        return super().e_Unary(e, env, h)

    def e_Given(s, e, env, h): return e['v']

    def printed(s, n, t): s.msgs.append(n)

    def step(s, what):
        k = Flag('ok', what, len(s.runs))
        return s.truth(k)

    def show_hook(s, v, fs):
        if isinstance(v, (Tok, P, Dir, T, CStr)): return SymStr([(show(v), 'any', 0, None)])
        return NotImplemented

    def iter_of(s, v):
        if isinstance(v, T): return super().iter_of([v])
        return super().iter_of(v)

    def eq(s, a, b):
        a, b = s.deref(a), s.deref(b)
        if isinstance(a, (P, T, Dir)) or isinstance(b, (P, T, Dir)): return a == b
        if isinstance(a, Tok) and b == '': return Flag('empty text', a)
        return super().eq(a, b)

    def e_Macro(s, e, env, h):
        if e['name'] in ('println', 'eprintln', 'print', 'eprint'): return UNIT
        return super().e_Macro(e, env, h)

    def tool(s, a):
        """an external program runs: did it succeed; its effect on files"""
        prog = a[0]
        if prog not in ('wasm-ld', 'wasm-opt'): raise Unknown(f'program {prog}')
        s.runs.append(a)
        ok = s.step(f'running {prog} {a[1] if a[1:] and isinstance(a[1], str) else ""}')
        out = [i for i, x in enumerate(a[:-1]) if x == '-o']
        if not ok and prog == 'wasm-opt':
            for i in out: s.fs[a[i + 1]] = T('partial output', prog)      # lld commits its output in one step
        if ok and out:
            rest, i = [], 1
            while i < len(a):
                if i in out: i += 2; continue
                x = a[i]
                rest.append(s.fs[x] if isinstance(x, P) and s.fs.get(x) is not None else x)
                i += 1
            for i in out[-1:]:
                if not isinstance(a[i + 1], P): raise Unknown('output of ' + prog)
                s.fs[a[i + 1]] = T({'wasm-ld': 'linked', 'wasm-opt': 'optimised'}[prog], *[freeze(x) for x in rest])
        return ok

    def xcall(s, segs, args, node, hint):
        n = [x[0] for x in segs]
        a = [s.deref(x) for x in args]
        t = n[-2:] if len(n) > 1 else ['', n[0]]
        if t[1] == 'tempdir' or t == ['TempDir', 'new']:
            if not s.step(f'making temporary directory {s.ndir}'): return Err(Tok('error', 'tempdir'))
            s.ndir += 1
            return Ok(Dir(s.ndir))
        if t == ['CString', 'new']: return Ok(CStr(a[0]))
        if t[0] == 'ThreadRng' or t[1] in ('thread_rng', 'rng', 'random'): return Rng()
        if t == ['File', 'create']:
            if not s.step(f'creating {a[0]}'): return Err(Tok('error', 'create'))
            s.fs[a[0]] = None
            return Ok(Hand(a[0]))
        if t == ['File', 'open']:
            if s.fs.get(a[0]) is None or not s.step(f'opening {a[0]}'): return Err(Tok('error', 'open'))
            return Ok(Hand(a[0]))
        if t[0] == 'fs':
            if t[1] == 'write':
                if not s.step(f'writing {a[0]}'): return Err(Tok('error', 'write'))
                s.fs[a[0]] = content(a[1]); return Ok(UNIT)
            if t[1] == 'read':
                if s.fs.get(a[0]) is None or not s.step(f'reading {a[0]}'): return Err(Tok('error', 'read'))
                return Ok(s.fs[a[0]])
            if t[1] == 'remove_file': s.fs.pop(a[0], None); return Ok(UNIT)
        if t == ['env', 'var']:
            k = Flag('set', a[0])
            return Ok(Tok('environment', a[0])) if s.truth(k) else Err(Tok('error', 'var'))
        if t[1] == 'get_clang_rt_lib_dir': return Tok('compiler-rt directory')
        if t == ['Command', 'new']: return Cmd(a[0])
        if t == ['Wizer', 'new']: return Wiz()
        if t[1] == 'deserialize_buffer':
            if not s.step('reading the linked module'): return Err(Tok('error', 'deserialize'))
            return Ok(Mod(content(a[0])))
        if t[1] == 'serialize':
            if not s.step('writing the linked module'): return Err(Tok('error', 'serialize'))
            if not isinstance(a[0], Mod): raise Unknown('serialize')
            return Ok(T('module', a[0].c, ('stack pointer', a[0].sp)))
        if t == ['builder', 'module']: return BuilderV()
        if t == ['InitExpr', 'new']:
            x = a[0]
            if not (isinstance(x, list) and len(x) == 2 and isinstance(x[0], Adt) and x[0].var == 'I32Const' and isinstance(x[1], Adt) and x[1].var == 'End'): raise Unknown('initial value of a global')
            return x[0].f[0]
        if t == ['Instruction', 'I32Const']: return Adt('Instruction', 'I32Const', [a[0]])
        if t[1] == 'LLDWasmLink':
            if not isinstance(a[0], list): raise Unknown('linker arguments')
            v = [s.deref(x) for x in a[0]]
            v = [x.v if isinstance(x, CStr) else x for x in v]
            return 1 if s.tool(v) else 0     # lld's answer: true when the link succeeded
        return NotImplemented

    def xpath(s, segs, node, hint):
        n = [x[0] for x in segs]
        if n[-2:] == ['Instruction', 'End']: return Adt('Instruction', 'End', [])
        if n[-2:] == ['Instruction', 'I32Const']: return NFn(lambda v: Adt('Instruction', 'I32Const', [s.deref(v)]))
        if len(n) > 1 and n[-2] == 'OptimizationLevel' and 'inkwell' not in n and n[-1] in ('None', 'Less', 'Default', 'Aggressive'): return Adt('OptimizationLevel', n[-1], [])
        if n[-1] == 'Alphanumeric': return Tok('Alphanumeric')
        if n[-2:] == ['char', 'from']: return NFn(lambda v: s.deref(v))
        return NotImplemented

    def xmethod(s, v, m, args, node, hint):
        if isinstance(v, Tok) and m == 'is_empty': return s.truth(Flag('empty text', v))
        if isinstance(v, Adt) and v.ty == 'OptimizationLevel' and m in ('clone', 'to_owned'): return v
        if m == 'unwrap_or_default' and isinstance(v, Adt) and v.var == 'Err' and isinstance(v.f[0], Tok) and v.f[0].n == ('error', 'read'): return []
        if isinstance(v, list):
            if m == 'as_ptr': return v
            if any(isinstance(s.deref(x), T) for x in v) and m in ('extend_from_slice', 'push', 'insert', 'truncate', 'extend'): raise Unknown('the module is changed in place')
        if isinstance(v, Tok) and v.n[0] in ('error',): return Tok('error')
        if isinstance(v, SymStr) and m in ('is_empty',): return s.truth(Flag('empty text', repr(v)))
        return NotImplemented


class Rng(Native):
    def method(s, I, m, args, node):
        if m in ('sample_iter', 'clone'): return s
        if m in ('take', 'map'): return s
        if m in ('collect', 'gen', 'random', 'gen_range', 'next_u32', 'next_u64'):
            I.nrand += 1
            return SymStr([(f'<random {I.nrand}>', 'any', 1, None)])
        raise Unknown('random.' + m)


def freeze(x):
    if isinstance(x, SymStr): return 'text ' + ''.join(p if isinstance(p, str) else p[0] for p in x.parts)
    if isinstance(x, list): return tuple(freeze(y) for y in x)
    if isinstance(x, Dir) or isinstance(x, P): return repr(x)
    return x


def runs(release, names, level, limit=20000):
    """every abstract run: (flags, outcome, content or message, runs of programs)"""
    trees = dump(FILES)
    trees = {p: [dict(x, attrs=[a for a in x.get('attrs') or [] if 'release' not in a]) for x in t if keep(x, release)] for p, t in trees.items()}
    I = LinkI(trees, release)
    fn = I.filefns.get((FILES[0], 'link'))
    if fn is None: raise Unknown('link')
    ty = I.types.get('Yul2IROptions')
    if ty is None: raise Unknown('the options type')
    todo, n = [[]], 0
    while todo:
        dec = todo.pop()
        n += 1
        if n > limit: raise Unknown('too many runs of link')
        I.decisions, I.dpos, I.alts = list(dec), 0, []
        I.reset()
        f = {}
        for x in ty['fields']:
            t = x['t']
            b = t.get('segs', [['']])[-1][0] if isinstance(t, dict) else ''
            f[x['name']] = Flag('option', x['name']) if b == 'bool' else Adt('OptimizationLevel', level, []) if x['name'] == 'opt_level' else Tok('option', x['name'])
        kinds = {'input': T('object code'), 'name': 'wasm_module', 'export_names': list(names), 'opts': Adt('Yul2IROptions', None, f)}
        args = []
        for p in fn['params']:
            nm = (p.get('pat') or {}).get('name') or p.get('name')
            args.append(kinds.get(nm, Flag('argument', nm)))
        try: out = ('ok', content(I.deref(I.call_fn(fn, args))))
        except Panic as e: out = ('panic', str(e))
        except Prune: out = None
        todo += I.alts
        if out: yield dict(I.flags), out, list(I.runs), I.taint


def keep(x, release):
    if x.get('name') in ('get_clang_rt_lib_dir', 'get_executable_lib_path'): return False     # a place on this machine
    at = ' '.join(x.get('attrs') or []).replace('"', '')
    if 'cfg(feature=release)' in at: return release
    if 'cfg(not(feature=release))' in at: return not release
    return True


def split(t):
    """the steps a result went through: (optional steps outermost first, the innermost term)"""
    st = []
    while isinstance(t, T) and t.n[0] in ('initialised', 'optimised'):
        st.append(t)
        inner = [x for x in t.n[1:] if isinstance(x, T)]
        if len(inner) != 1: return st, t
        t = inner[0]
    return st, t


def judge(flags, term, ran, names):
    """faults of one run of link that returned a module: (key, text)"""
    opt = lambda n: next((v for k, v in flags.items() if k.n == ('option', n)), None)
    st, base = split(term)
    text = repr(term)
    if not isinstance(base, T) or base.n[0] != 'module':
        what = base.n[0] if isinstance(base, T) else '?'
        yield 'result', f'the result is {what}: not a module the linker produced, or one that was not given its stack pointer'
        return
    if '<random' in text or '<temporary directory' in text.replace('object code', ''): yield 'random', f'the result depends on a random name: {text}'
    linked, sp = base.n[1], base.n[2][1]
    if not isinstance(linked, T) or linked.n[0] != 'linked': yield 'result', f'the module is {linked!r}'; return
    a = list(linked.n[1:])
    code = [x for x in a if isinstance(x, T)]
    if code != [T('object code')]: yield 'object', f'the linker is given {code!r} instead of the generated object code'
    for x in a:
        if isinstance(x, str) and x.startswith('<path'): yield 'object', f'the linker is given {x}, which is not known to hold anything'
    for k in ('initialised', 'optimised'):
        if sum(x.n[0] == k for x in st) > 1: yield 'steps', f'the result is {k} more than once'
    for x in st:
        if x.n[0] == 'initialised' and x.n[1] != '_start': yield 'init', f'the module is initialised by running {x.n[1]!r} instead of _start'
        if x.n[0] == 'optimised' and opt('no_binaryen_optimize') is not False: yield 'optimiser', 'the optimiser runs although it is turned off'
    did = [v for k, v in flags.items() if k.n[:2] == ('ok', 'initialising')]
    if did and all(did) and not any(x.n[0] == 'initialised' for x in st): yield 'init', 'the module initialised by running _start is thrown away'
    if '--allow-undefined' not in a and '--import-undefined' not in a: yield 'imports', 'host functions are not left to be imported (--allow-undefined)'
    if '--no-entry' not in a: yield 'entry', 'the linker is not told that there is no entry (--no-entry)'
    ex = {b for x, b in zip(a, a[1:]) if x == '--export'} | {x[9:] for x in a if isinstance(x, str) and x.startswith('--export=')}
    if '--export-all' not in a:
        miss = [n for n in ('_start', *names) if n not in ex]
        if miss: yield 'exports', f'{", ".join(miss)} is not exported'
        if not names: yield 'exports', 'without a list of exports not everything is exported'
    size = [x[len('stack-size='):] for z, x in zip(a, a[1:]) if z == '-z' and isinstance(x, str) and x.startswith('stack-size=')] + [x[len('-zstack-size='):] for x in a if isinstance(x, str) and x.startswith('-zstack-size=')]
    want = int(size[-1], 0) if size else 65536
    if sp is not None:
        if not isinstance(sp, int): yield None, f'stack pointer {sp!r}'
        elif sp != want: yield 'stack', f'the stack pointer starts at {sp} in a stack of {want} bytes'
        if '--stack-first' not in a: yield 'stack', 'the stack pointer is set to the stack\'s size although the stack is not placed first'
    mini = opt('minify_wasm_size')
    strip = any(x in ('--strip-all', '-s') for x in a)
    if mini is None: yield 'strip', f'symbols are {"" if strip else "not "}stripped whatever minify_wasm_size says'
    elif strip != mini: yield 'strip', f'minify_wasm_size is {mini} and the symbols are {"" if strip else "not "}stripped'
