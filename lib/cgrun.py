"""Interpret the repository's code generator on a family of Yul programs (see inkm)."""
import glob, hashlib, os, re, subprocess, tempfile
from collections import OrderedDict
from rsi_core import *  # noqa
from rsi_core import Native, FnRef, NFn, Top, last
import rsi, rsi_std, inkm, cfront, llir, yulast
from inkm import Ty, Val, ModN, FnV, CtxN

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src/yul2ir'


def sources():
    fs = sorted(f for f in glob.glob(SRC + '/*.rs') if os.path.basename(f) not in ('wasm.rs', 'mod.rs'))
    if not fs: raise Unknown('no generator sources')
    return dump(fs)


_units = {}


def runtime_unit(name):
    """{function: type} the named unit of the runtime library defines or declares"""
    if name not in _units:
        try: m, _ = cfront.build(units=[name])
        except subprocess.CalledProcessError as e: raise Unknown('runtime unit %s does not compile' % name)
        d = {}
        for n, f in m.fns.items(): d[n] = (f.ret, [p[0] if isinstance(p, tuple) else p for p in f.params], True)
        for n, v in m.decls.items(): d.setdefault(n, (None, None, False))
        _units[name] = d
    return _units[name]


class Blob(Native):
    """opaque helper object of the code generation library: every operation succeeds"""
    def __init__(s, what): s.what = what

    def method(s, I, m, args, node):
        if m == 'write_to_memory_buffer':
            if getattr(I, 'lib_fail', None) == m: I.failed_op = m; return Err(Blob('LLVMString'))
            mod = I.deref(args[0])
            if isinstance(mod, ModN): I.emitted.append(mod)
            return Ok(Blob(('object', len(I.emitted) - 1)))
        if m in ('create_target_machine',): return Some(Blob(m))
        if m == 'run_on': return True
        if m in ('as_slice', 'clone', 'as_ref'): return s
        if m == 'success': return True
        return UNIT


class Anon(Native):
    """Default::default() at a type only inference knows"""
    def method(s, I, m, args, node): raise Unknown('method %s of a default value' % m)


class CG(rsi.Interp):
    def __init__(s, trees):
        super().__init__(trees)
        s.problems, s.emitted, s.nbuild, s.fail_at, s.failed_op = [], [], 0, None, None
        s.fuel = 400_000_000
        s.ctx = CtxN()
        s.files = {}
        s.hashed = {}
        s.hash_salt = 0
        s.unordered_seen = set()
        s.ins_hook = None
        s.ext_path = s.cg_path
        s.macro_hook = s.cg_macro
        s.ext_method = s.cg_method
        s.dropdepth = 0

    # --- events from the model
    def problem(s, kind, msg, key=''):
        s.problems.append((kind, msg, key, s.where()))

    def where(s):
        return [f['fn'].get('name', '?') for f in s.frames if not f.get('closure')][-4:]

    def on_ins(s, v):
        if s.ins_hook: s.ins_hook(v)

    def on_position(s, bb): pass

    # --- library paths
    def cg_path(s, segs, node, hint):
        n = last(segs)
        p = segs[-2][0] if len(segs) > 1 else ''
        names = [x[0] for x in segs]
        if n == 'link' and 'wasm' in names:
            return NFn(lambda obj, *a: s.linked(obj, a))
        if p == 'IntPredicate': return Adt('IntPredicate', n)
        if p == 'StringRadix': return Adt('StringRadix', n)
        if p == 'Linkage': return Adt('Linkage', n)
        if p in ('RelocMode', 'CodeModel', 'FileType') or p == 'OptimizationLevel' and 'inkwell' in names: return Adt(p, n)
        if p == 'AddressSpace': return NFn(lambda *a: Adt('AddressSpace', 'Default'))
        if p == 'Context' and n == 'create': return NFn(lambda: CtxN())
        if p in ('PassManager', 'PassManagerBuilder', 'TargetTriple', 'Target', 'TargetMachine', 'Command', 'Stdio', 'InitializationConfig'):
            if n == 'from_name': return NFn(lambda *a: Some(Blob(n)))
            if n in ('from_triple',): return NFn(lambda *a: Ok(Blob(n)))
            return NFn(lambda *a: Blob(p + '::' + n))
        if p == 'MemoryBuffer': return NFn(lambda b, nm: b)
        if p == 'Module' and n == 'parse_bitcode_from_buffer': return NFn(lambda b, c: s.bitcode(b))
        if p == 'OnceCell': return NFn(lambda *a: Adt('OnceCell', None, []))
        if n in ('BasicValueEnum', 'BasicMetadataTypeEnum', 'BasicMetadataValueEnum', 'BasicTypeEnum') or p in ('BasicMetadataTypeEnum', 'BasicMetadataValueEnum', 'BasicTypeEnum', 'BasicValueEnum', 'AnyValueEnum', 'AnyTypeEnum') and not (p, n) in s.impls:
            return NFn(lambda a: inkm.unval(s.deref(a)))
        if p == 'hex' and n in ('encode', 'decode', 'encode_upper'): return NFn(lambda a: s.hexfn(n, s.deref(a)))
        if p in ('fs', 'env', 'time', 'SystemTime', 'Instant', 'thread_rng', 'rand') and n not in ('exists', 'create_dir_all'):
            if p == 'fs' and n == 'write': return NFn(lambda path, data: (s.files.__setitem__(s.deref(path), s.deref(data)), Ok(UNIT))[1])
            s.problem('environment', '::'.join(names)); return NFn(lambda *a: Top('environment'))
        if n in ('to_be_bytes', 'to_le_bytes', 'to_ne_bytes') and re.fullmatch(r'[ui](8|16|32|64|128|size)', p):
            w = 4 if p[1:] == 'size' else int(p[1:]) // 8
            return NFn(lambda a: list((s.deref(a) & ((1 << 8 * w) - 1)).to_bytes(w, 'big' if n == 'to_be_bytes' else 'little')))
        if n == 'keccak256' or n == 'keccak': return NFn(lambda a: s.keccak(s.deref(a)))
        return NotImplemented

    def linked(s, obj, a):
        obj = s.deref(obj)
        if isinstance(obj, Blob) and isinstance(obj.what, tuple):
            s.links.append((obj.what[1], a)) if hasattr(s, 'links') else None
            return [0, 0x61, 0x73, 0x6d, obj.what[1], 0xAB, 0xCD]
        raise Unknown('link of an unknown object')

    def hexfn(s, n, a):
        if n == 'decode':
            if not isinstance(a, str): raise Unknown('hex of unknown text')
            try: return Ok(list(bytes.fromhex(a)))
            except ValueError: return Err(Adt('FromHexError', 'InvalidHexCharacter'))
        b = list(a.encode()) if isinstance(a, str) else a
        if not isinstance(b, list): raise Unknown('hex of unknown bytes')
        t = bytes(b).hex()
        return t.upper() if n == 'encode_upper' else t

    def keccak(s, a):
        """in-place hash: any function that tells inputs apart stands for it"""
        if not isinstance(a, list) or not all(isinstance(x, int) for x in a): raise Unknown('hash of unknown bytes')
        d = hashlib.sha3_256(bytes(a)).digest()
        s.hashed[d] = bytes(a)
        a[:32] = list(d)
        return UNIT

    def cg_macro(s, name, e, env):
        if name == 'include_bytes':
            t = e.get('raw', '')
            return Adt('Bitcode', None, [t])
        if name in ('eprintln', 'println', 'dbg', 'debug', 'info', 'warn', 'eprint', 'print'): return UNIT
        if name == 'matches':
            pass
        return NotImplemented

    def bitcode(s, b):
        b = s.deref(b)
        if not (isinstance(b, Adt) and b.ty == 'Bitcode'): raise Unknown('bitcode that is not an embedded file')
        m = re.search(r'(\w+)\.bc"?$', b.f[0])
        if not m: raise Unknown('embedded file ' + str(b.f[0]))
        mod = ModN(m.group(1))
        for n, (ret, ps, defd) in runtime_unit(m.group(1)).items():
            if not defd: continue
            mod.fns.append(FnV(mod, n, Ty('fn', inkm.parse_ty(ret), tuple(inkm.parse_ty(p) for p in ps), False), runtime=True))
        return Ok(mod)

    # --- language: values of the library in patterns, shared cells, drops
    def pat_hook(s, p, v):
        n = last(p['segs'])
        if isinstance(v, Val):
            k = {'IntValue': 'int', 'PointerValue': 'ptr', 'ArrayValue': 'array', 'StructValue': 'struct', 'FloatValue': 'float', 'VectorValue': 'vector'}.get(n)
            if k: return [v] if v.ty.kind == k else None
        if isinstance(v, Ty):
            k = {'IntType': 'int', 'PointerType': 'ptr', 'ArrayType': 'array', 'StructType': 'struct', 'FloatType': 'float', 'VectorType': 'vector', 'VoidType': 'void', 'FunctionType': 'fn'}.get(n)
            if k: return [v] if v.kind == k else None
        return NotImplemented

    def clone(s, v):
        v = s.deref(v)
        if isinstance(v, Adt) and v.ty == 'RefCell': return v
        return super().clone(v)

    def cg_method(s, recv, m, args, node, hint):
        if m == 'or_default' and isinstance(recv, Adt) and recv.ty == 'Entry':
            t = s.elem_type(node['recv'])
            if t is None: raise Unknown('default of an unknown element type')
            return s.m_entry_with(recv, t)
        if isinstance(recv, Adt) and recv.ty == 'OnceCell':
            if m in ('get_or_init', 'get_or_try_init'):
                if not recv.f: recv.f.append(s.call(args[0], []))
                return recv.f[0]
            if m == 'get': return Some(recv.f[0]) if recv.f else NONE
            if m == 'set':
                if not recv.f: recv.f.append(args[0])
                return Ok(UNIT)
        return NotImplemented

    def default_of(s, hint):
        return super().default_of(hint) if hint else Anon()

    def e_Call(s, e, env, h):
        f = e['f']
        if h and f['k'] == 'Path' and len(f['segs']) == 2 and f['segs'][0][0] in ('RefCell', 'Rc', 'Box', 'Cell', 'Arc') and f['segs'][1][0] == 'new' \
                and len(e['args']) == 1 and h.get('segs') and h['segs'][-1][0] == f['segs'][0][0] and h['segs'][-1][1]:
            v = s.val(e['args'][0], env, h['segs'][-1][1][0])
            return Adt('RefCell', None, [v]) if f['segs'][0][0] in ('RefCell', 'Cell') else v
        return super().e_Call(e, env, h)

    def m_entry_with(s, en, t):
        d, k = en.f
        if k not in d: d[k] = s.default_of(t)
        return Place(lambda: d[k], lambda x: d.__setitem__(k, x))

    def elem_type(s, e):
        """declared value type of the map an entry is taken from"""
        while e['k'] in ('MCall', 'Ref', 'Paren', 'Field', 'Un') and not (e['k'] == 'Field'):
            e = e.get('recv') or e.get('e')
        if e['k'] == 'Field':
            for t in s.types.values():
                for f in t.get('fields') or []:
                    if f['name'] == e['name'] and f.get('t'): return s.map_value(f['t'])
            return None
        if e['k'] == 'Path':
            n = last(e['segs'])
            for p in s.frames[-1]['fn'].get('params', []):
                pt = p.get('pat') or {}
                if pt.get('name') == n or p.get('name') == n: return s.map_value(p['t'])
        return None

    def map_value(s, t):
        while t:
            if t.get('k') in ('TRef', 'Ref') or 'segs' not in t: t = t.get('t') or t.get('e'); continue
            n, a = t['segs'][-1]
            if n in ('RefCell', 'Rc', 'Box', 'Arc', 'Mutex') and a: t = a[0]; continue
            return a[1] if len(a) == 2 else None
        return None

    def eq(s, a, b):
        a, b = s.deref(a), s.deref(b)
        if isinstance(a, (Ty, Val)) or isinstance(b, (Ty, Val)):
            if isinstance(a, Val) and isinstance(b, Val): return a == b
            return a is b
        return super().eq(a, b)

    def droppable(s, v):
        v = s.deref(v) if isinstance(v, Place) else v
        if isinstance(v, Adt) and not v.ty in ('Option', 'Result'):
            f = s.impls.get((v.ty, 'drop'))
            if isinstance(f, dict) and f.get('trait') == 'Drop': return f
        return None

    def dropv(s, v):
        v = s.deref(v)
        f = s.droppable(v)
        if f and not getattr(v, 'dropped', False):
            v.dropped = True
            s.call_fn(f, [], v, v.ty)

    def block(s, b, env, hint=None):
        if b['k'] != 'Block': return s.ev(b, env, hint)
        env = env + [{}]
        s.frames[-1].setdefault('envs', []).append(env)
        np = len(s.points)
        mine = []
        try:
            for x in b['stmts']:
                if x['k'] == 'Item' and x['item']['k'] == 'Fn':
                    x['item'].setdefault('file', s.frames[-1]['fn'].get('file', ''))
                    env[-1][x['item']['name']] = Cell(FnRef(x['item'], s.frames[-1]['selfty']))
            val = UNIT
            n = len(b['stmts'])
            for i, st in enumerate(b['stmts']):
                val = UNIT
                k = st['k']
                if k == 'Let':
                    if st['e'] is None: s.declare(st['pat'], env)
                    else:
                        h = st['pat'].get('t') if st['pat']['k'] == 'PType' else None
                        v = s.val(st['e'], env, h)
                        nsc = {}
                        if not s.bind(st['pat'], v, env[:-1] + [nsc]):
                            if st['else'] is None: raise Unknown('refutable let')
                            s.ev(st['else'], env)
                            raise Unknown('let-else falls through')
                        env[-1].update(nsc)
                        if not isinstance(v, Place):
                            if st['pat']['k'] == 'PWild': s.dropv(v)
                            elif s.droppable(v): mine.append(v)
                elif k == 'Expr':
                    last_ = i == n - 1 and not st['semi']
                    v = s.val(st['e'], env, hint if last_ else None)
                    if last_: val = v
                    elif not isinstance(v, Place) and st['e']['k'] in ('Call', 'MCall', 'Struct'): s.dropv(v)
                    if st['e']['k'] == 'Macro' and st['e']['name'] in ('matches',): pass
            res = s.deref(val)
            for v in reversed(mine):
                if v is not res: s.dropv(v)
            return val
        except (ReturnEx, BreakEx, ContinueEx) as ex:
            keep = s.deref(ex.v) if isinstance(ex, ReturnEx) else None
            for v in reversed(mine):
                if v is not keep: s.dropv(v)
            raise
        finally:
            s.frames[-1]['envs'].pop()
            del s.points[np:]

    # fast paths: this interpretation is concrete, so nothing has to be kept for merging
    def ev(s, e, env, hint=None):
        s.fuel -= 1
        if s.fuel < 0: raise Unknown('analysis budget exhausted')
        return s.disp[e['k']](e, env, hint)

    def choose(s, n, why=''):
        raise Unknown('the generator branches on an unknown value: ' + why)

    def hash_order(s, v):
        if len(v) > 1: s.unordered_seen.add(s.where()[-1])
        if not s.hash_salt: return super().hash_order(v)
        return sorted(v, key=lambda k: hashlib.sha1((s.stable(k) + str(s.hash_salt)).encode()).digest())

    def stable(s, k):
        """a text that is the same in every run"""
        if isinstance(k, Val) and not k.isconst(): return f'{k.op} {k.ty} {k.name} {[s.stable(x) for x in k.args]}'
        return repr(k)


def make(trees, debug_build=False):
    I = (CGdebug if debug_build else CG)(trees)
    I.disp = {k[2:]: getattr(I, k) for k in dir(I) if k.startswith('e_')}
    return I


class CGdebug(CG):
    _debug_build = True


class Out:
    """result of one interpretation"""
    pass


OPTS0 = dict(verbose=False, no_inline=False, use_llvm_toolchain=False, main_contract_name='T', output_dir='/out', ignore_unknown_linker_library=False,
             debug_mode=False, no_binaryen_optimize=False, generate_llvm_ir=False, minify_wasm_size=False, disable_all_optimizers=False, enable_all_optimizers=False,
             enable_storage_load_store_little_endian=False, symbol2addr={})


def options(I, **kw):
    t = I.types.get('Yul2IROptions')
    if t is None: raise Unknown('the options type is gone')
    f = {}
    have = {x['name']: x for x in t['fields']}
    o = dict(OPTS0, **kw)
    for n, x in have.items():
        if n in o: f[n] = o.pop(n) if n != 'symbol2addr' else dict(o.pop(n))
        elif n == 'opt_level': f[n] = Adt('OptimizationLevel', 'Default')
        else: f[n] = I.default_of(x['t'])
    if 'symbol2addr' not in have: raise Unknown('the table of library symbols is gone')
    for n in o:
        if o[n] and n in OPTS0: raise Unknown('the option %s is gone' % n)
    return Adt('Yul2IROptions', None, f)


def compile_obj(trees, obj, salt=0, fail_at=None, ret=None, debug_build=False, emit=False, hook=None, **opts):
    """interpret the generator on one object; Out with ctx, module, status"""
    I = make(trees, debug_build)
    I.hash_salt = salt
    I.fail_at = fail_at
    I.links = []
    if hook: I.ins_hook = hook
    o = Out()
    o.I = I
    conv = yulast.Conv(I)
    a = conv.object(obj)
    op = options(I, **opts)
    new = I.impls.get(('Yul2IRContext', 'new_with_object'))
    tr = I.impls.get(('Yul2IRContext', 'transform' if not emit else 'emit'))
    if not new or not tr: raise Unknown('entry points of the generator are gone')
    try: c = I.call_fn(new, [I.ctx, op, a], selfty='Yul2IRContext')
    except Panic as e:
        o.status, o.err, o.problems, o.fns, o.mod, o.ctx = 'panic', str(e), I.problems, OrderedDict(), None, None
        return o
    o.ctx = c
    if ret: c.f['default_ret_type'] = Adt('YulLowLevelValueType', ret)
    o.mod = I.deref(c.f['llvm_module'].f[0])
    o.status, o.err = 'ok', None
    try:
        r = I.call_fn(tr, ['out'] if emit else [], c, 'Yul2IRContext')
        if isinstance(r, Adt) and r.var == 'Err': o.status, o.err = 'err', r.f[0]
    except Panic as e:
        o.status, o.err = 'panic', str(e)
    o.problems = I.problems
    o.fns = OrderedDict()
    for f in o.mod.fns:
        if not f.runtime: o.fns.setdefault(f.name, f)
    if o.status == 'ok': I.problems += unfinished(o.mod)
    return o


def unfinished(mod):
    """what the module verifier refuses once everything is in place: a block nothing ends"""
    return [('no-terminator', f'block {b.name} of {f.name} has no terminator', f.name, [])
            for f in mod.fns if not f.runtime for b in f.blocks if not b.term()]
