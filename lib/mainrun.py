"""Abstract runs of src/main.rs: every option an unknown, every step that can
fail failing or not.  Effects (settings handed to the code generator, files
written, exit status) are recorded per run."""
import rsi
from rsi_core import *

REPO = os.environ.get('VERIF_REPO', '/repo')
FILES = [REPO + '/src/main.rs', REPO + '/src/yul2ir/config.rs', REPO + '/src/yul2ir/utils.rs', REPO + '/src/yul2ir/yul_instruction.rs']
OUT = 'the --output path'


class Exit(Exception):
    def __init__(s, code): s.code = code


class Tok(Native):
    """an opaque value named for where it comes from"""
    def __init__(s, *n): s.n = n
    def __eq__(s, o): return isinstance(o, Tok) and s.n == o.n
    def __hash__(s): return hash(s.n)
    def __repr__(s): return '<' + ' '.join(map(str, s.n)) + '>'

    def method(s, I, m, args, node):
        if m in ('clone', 'as_str', 'to_string', 'to_owned', 'as_ref', 'into', 'borrow', 'as_deref', 'deref', 'into_owned', 'to_string_lossy'): return s
        if m == 'to_str': return Some(s)
        raise Unknown(f'{m} of {s}')


class Flag(Tok):
    pass


class Len:
    """(length of a blob >> shift) mod 2^bits, held in an integer of the given width"""
    def __init__(s, blob, shift=0, bits=64, width=64):
        s.blob, s.shift, s.bits, s.w = blob, shift, max(0, min(bits, 32 - shift)), width
    def key(s): return (s.blob.name, s.shift, s.bits) if s.bits else 0
    def __repr__(s): return f'len[{s.shift}..{s.shift + s.bits}]' if s.bits else '0'
    def __eq__(s, o): return isinstance(o, Len) and s.key() == o.key() or isinstance(o, int) and s.key() == 0 == o
    def __hash__(s): return hash(s.key())


class Blob(Native):
    """a byte string of unknown content and length below 2^32"""
    def __init__(s, name, size=None): s.name, s.size = name, size
    def __repr__(s): return f'<bytes of {s.name}>'
    def __eq__(s, o): return isinstance(o, Blob) and s.name == o.name
    def __hash__(s): return hash(s.name)

    def method(s, I, m, args, node):
        if m in ('clone', 'to_vec', 'as_slice', 'as_ref', 'to_owned', 'into', 'into_vec', 'borrow', 'deref', 'into_boxed_slice'): return s
        if m == 'len': return Len(s) if s.size is None else s.size
        if m in ('iter', 'into_iter', 'bytes'): return I.iter_of([s])
        if m == 'is_empty': return I.truth(Flag('empty', s.name)) if s.size is None else s.size == 0
        if m in ('extend', 'extend_from_slice', 'push', 'append', 'insert', 'splice'): raise Unknown('the module is changed in place')
        raise Unknown('bytes.' + m)


class PathV(Native):
    def __init__(s, *p): s.p = p
    def __repr__(s): return 'path' + repr(s.p)
    def __eq__(s, o): return isinstance(o, PathV) and s.p == o.p
    def __hash__(s): return hash(s.p)

    def method(s, I, m, args, node):
        a = [I.deref(x) for x in args]
        if m in ('clone', 'to_path_buf', 'as_path', 'as_os_str', 'to_owned', 'as_ref', 'into', 'display', 'to_string', 'into_os_string', 'borrow', 'deref'): return s
        if m in ('to_str', ): return Some(s.text())
        if m in ('to_string_lossy',): return s.text()
        if m == 'parent': return Some(PathV('parent', s))
        if m == 'file_name': return Some(PathV('name', s))
        if m == 'file_stem': return Some(PathV('stem', s))
        if m == 'with_extension':
            if not isinstance(a[0], str): raise Unknown('extension')
            if s.p[0] == 'ext':
                e = s.p[2]
                return PathV('ext', s.p[1], a[0] if '.' not in e else e.rsplit('.', 1)[0] + '.' + a[0])
            return PathV('ext', s, a[0])
        if m in ('canonicalize',):
            if not I.exists(s): return Err(Tok('error', 'canonicalize'))
            return Ok(PathV('abs', s))
        if m in ('exists', 'is_dir'): return I.exists(s)
        if m == 'try_exists': return Ok(I.exists(s))
        if m == 'is_absolute': return I.truth(Flag('absolute', s))
        if m == 'join': return PathV('join', s, a[0])
        if m in ('eq', 'ne'): return I.truth(I.eq(s, a[0])) == (m == 'eq')
        raise Unknown('Path.' + m)

    def text(s):
        return s.p[1] if s.p[0] == 'of' else Tok('path', s)

    def root(s):
        return s.p[1].root() if s.p[0] in ('abs',) else s


class MainI(rsi.Interp):
    def __init__(s, trees):
        super().__init__(trees)
        s.ext_call, s.ext_method = s.xcall, s.xmethod
        s.reset()

    inst = None                 # None: everything open; else one concrete (module, symbols, names)
    objname = Tok('object name')

    def module(s):
        if s.inst is None: return Blob('the module')
        m = s.inst.module
        return list(m) if isinstance(m, bytes) else Blob('the module', m)

    def reset(s):
        s.flags, s.effects, s.made, s.msgs = {}, [], set(), []
        s.points, s.temps, s.frames, s.cons, s.taint = [], [], [], {}, False
        s.fuel = 400_000

    def op_hook(s, op, a, b):
        if op == '+' and any(isinstance(x, Len) for x in (a, b)) or op in ('*', '-') and any(isinstance(x, Len) for x in (a, b)): return Top('size')
        if isinstance(a, Len):
            if isinstance(b, int):
                if op == '>>': return Len(a.blob, a.shift + b, a.bits - b, a.w)
                if op == '&' and b & (b + 1) == 0: return Len(a.blob, a.shift, min(a.bits, b.bit_length()), a.w)
                if op == '/' and b > 0 and b & (b - 1) == 0: k = b.bit_length() - 1; return Len(a.blob, a.shift + k, a.bits - k, a.w)
                if op == '%' and b > 0 and b & (b - 1) == 0: return Len(a.blob, a.shift, min(a.bits, b.bit_length() - 1), a.w)
                if op in ('<', '<=', '>', '>=') and a.shift == 0 and a.bits == 32:
                    if b >= 0xFFFFFFFF: return {'<': True, '<=': True, '>': False, '>=': False}[op] if b > 0xFFFFFFFF or op in ('<=', '>') else NotImplemented
        return NotImplemented

    def cast_hook(s, v, t):
        if isinstance(v, Len):
            if t in s.INTB: return Len(v.blob, v.shift, min(v.bits, s.INTB[t]), s.INTB[t])
        return NotImplemented

    def lenbytes(s, v, w, end):
        n = w // 8
        be = [Len(v.blob, v.shift + 8 * (n - 1 - i), min(8, max(0, v.bits - 8 * (n - 1 - i))), 8) for i in range(n)]
        return be if end == 'be' else be[::-1]

    def intfn_hook(s, ty, n, a, args, hint):
        if n in ('to_be_bytes', 'to_le_bytes', 'to_ne_bytes') and a:
            w = s.INTB[ty]
            if isinstance(a[0], Len): return s.lenbytes(a[0], w, n[3:5])
            if isinstance(a[0], int): return list(a[0].to_bytes(w // 8, 'big' if n[3] == 'b' else 'little'))
        return s.m_int(None, a[0], n, args[1:], hint)

    def exists(s, p):
        p = p.root()
        if p.p == ('of', '.'): return True
        return True if p in s.made else s.truth(Flag('exists', p))

    def truth(s, v):
        v = s.deref(v)
        if isinstance(v, Flag):
            if v not in s.flags: s.flags[v] = s.choose(2, str(v)) == 0
            return s.flags[v]
        return super().truth(v)

    def e_Unary(s, e, env, h):
        if e['op'] == '!':
            v = s.rv(e['e'], env)
            if isinstance(v, (Flag, bool)): return not s.truth(v)
            return super().e_Unary(dict(e, e=dict(e['e'], k='Given', v=v)), env, h)
        return super().e_Unary(e, env, h)

    def e_Given(s, e, env, h): return e['v']

    def eq(s, a, b):
        a, b = s.deref(a), s.deref(b)
        if isinstance(a, PathV) and isinstance(b, PathV):
            if a == b: return True
            for x, y in ((a, b), (b, a)):
                if x.p == ('of', ''): return Flag('empty path', y)
            raise Unknown('comparison of paths')
        if isinstance(a, PathV) or isinstance(b, PathV):
            p, o = (a, b) if isinstance(a, PathV) else (b, a)
            if o == '': return Flag('empty path', p)
        if isinstance(a, Len) and isinstance(b, (int, Len)): return True if a == b else Flag('length', a.key(), b if isinstance(b, int) else b.key())
        if isinstance(a, Tok) and isinstance(b, Tok) and a == b: return True
        if isinstance(a, Tok) and b == '': return Flag('empty text', a)
        return super().eq(a, b)

    def show_hook(s, v, fs):
        if isinstance(v, (Tok, PathV)): return SymStr([('fmt', 'any', 0, None)])
        return NotImplemented

    def printed(s, n, t): s.msgs.append(n)

    def iter_of(s, v):
        if isinstance(v, Blob): return super().iter_of([v])
        return super().iter_of(v)

    def step(s, what):
        """a step that can fail"""
        return s.truth(Flag('ok', what))

    def conv_path(s, v):
        v = s.deref(v)
        return v if isinstance(v, PathV) else PathV('of', v)

    def bytes_of(s, v):
        v = s.deref(v)
        if isinstance(v, Blob): return [v]
        if isinstance(v, list): return list(v)
        if isinstance(v, str): return list(v.encode())
        if isinstance(v, Tok): return [v]
        raise Unknown(f'content {v!r}')

    def xcall(s, segs, args, node, hint):
        n = [x[0] for x in segs]
        a = [s.deref(x) for x in args]
        t = n[-2:] if len(n) > 1 else ['', n[0]]
        if t == ['Args', 'parse']: return s.args
        if t[0] == 'fs' or t[0] == 'File':
            if t[1] in ('read_to_string', 'read'):
                s.effects.append(('read', s.conv_path(a[0])))
                return Ok(Tok('source', t[1])) if s.step('reading the input') else Err(Tok('error', 'read'))
            if t[1] == 'write':
                p = s.conv_path(a[0])
                if not s.step(('writing', p)): return Err(Tok('error', 'write'))
                s.effects.append(('write', p, s.bytes_of(a[1]))); return Ok(UNIT)
            if t[1] in ('create_dir_all', 'create_dir'):
                p = s.conv_path(a[0])
                if not s.step(('creating the directory', p)): return Err(Tok('error', 'create_dir'))
                s.made.add(p.root()); return Ok(UNIT)
            if t[1] == 'exists': return Ok(s.exists(s.conv_path(a[0])))
            if t == ['File', 'create']:
                p = s.conv_path(a[0])
                if not s.step(('writing', p)): return Err(Tok('error', 'write'))
                e = ('write', p, [])
                s.effects.append(e); return Ok(FileV(e))
            if t[1] in ('remove_file', 'remove_dir_all', 'rename', 'copy'): raise Unknown('fs::' + t[1])
        if t[1] == 'exit' and t[0] in ('process', ''): raise Exit(a[0])
        if t in (['Path', 'new'], ['PathBuf', 'from']): return s.conv_path(a[0])
        if t == ['ObjectParser', 'new']: return Parser()
        if t == ['Context', 'create']: return Tok('llvm')
        if t[0] == 'Yul2IRContext' and t[1].startswith('new'):
            o = [x for x in a if isinstance(x, Adt) and x.ty == 'Yul2IROptions']
            b = [x for x in a if isinstance(x, Adt) and x.ty == 'Object']
            if len(o) != 1 or len(b) != 1: raise Unknown('Yul2IRContext::' + t[1])
            return CtxV(o[0], b[0])
        if t == ['hex', 'encode'] or t == ['hex', 'encode_upper']: return HexV(s.bytes_of(a[0]))
        if t[1] == 'remove_comments' and len(a) == 1 and isinstance(a[0], Tok): return Tok('uncommented', a[0])
        if t == ['ExitCode', 'from']: return Adt('ExitCode', None, [a[0]])
        return NotImplemented

    def ext_path_(s, full):
        n = [x[0] for x in full]
        if n[-2:] == ['ExitCode', 'SUCCESS']: return Adt('ExitCode', None, [0])
        if n[-2:] == ['ExitCode', 'FAILURE']: return Adt('ExitCode', None, [1])
        return None

    def path(s, segs, env, node, hint=None):
        if len(segs) >= 2:
            r = s.ext_path_(segs)
            if r is not None: return r
        if len(segs) >= 2 and segs[-1][0] == 'remove_comments':
            return NFn(lambda x: s.strip_comments(x))
        return super().path(segs, env, node, hint)

    def call_fn(s, node, args, selfv=None, selfty=None):
        if node['name'] == 'remove_comments' and len(args) == 1 and isinstance(s.deref(args[0]), Tok): return Tok('uncommented', s.deref(args[0]))
        return super().call_fn(node, args, selfv, selfty)

    def strip_comments(s, x):
        x = s.deref(x)
        return Tok('uncommented', x)

    def xmethod(s, v, m, args, node, hint):
        if isinstance(v, Len):
            if m in ('to_be_bytes', 'to_le_bytes', 'to_ne_bytes'): return s.lenbytes(v, v.w, m[3:5])
            if m == 'to_be': raise Unknown('to_be')
            if m in ('clone', 'into'): return v
            if m == 'try_into': return Ok(v)
            if m == 'wrapping_shr': return s.op_hook('>>', v, s.deref(args[0]))
        if isinstance(v, list):
            a = [s.deref(x) for x in args]
            if m == 'concat' and any(isinstance(s.deref(x), (Blob, HexV)) for x in v): return [y for x in v for y in s.bytes_of(x)]
            if m in ('extend_from_slice', 'append', 'write_all') and isinstance(a[0], Blob): v.append(a[0]); return UNIT
            if m == 'splice' and isinstance(a[0], RangeV) and a[0].lo in (0, None) and a[0].hi == 0:
                v[0:0] = s.bytes_of(a[1]) if not isinstance(a[1], It) else s.collect(a[1], None)
                return s.iter_of([])
            bl = [i for i, x in enumerate(v) if isinstance(x, Blob)]
            if bl:
                if m in ('len',): return Top('size')
                if m == 'insert' and a[0] <= bl[0] or m in ('push', 'extend', 'extend_from_slice', 'append', 'iter', 'into_iter', 'clone', 'as_slice', 'to_vec', 'reserve', 'is_empty', 'concat', 'as_ref', 'borrow'): return NotImplemented
                raise Unknown('list with a module inside: ' + m)
        if isinstance(v, SymStr) and v.parts and m in ('split', 'splitn', 'split_once', 'find', 'contains'):
            pat = s.deref(args[-1])
            c = chr(pat.c) if isinstance(pat, CP) else pat
            if isinstance(c, str) and len(c) == 1 and all(isinstance(p, str) or c not in p[1] and p[1] != 'any' for p in v.parts):
                out, cur = [], []
                for p in v.parts:
                    if isinstance(p, str):
                        q = p.split(c)
                        cur.append(q[0])
                        for z in q[1:]: out.append(cur); cur = [z]
                    else: cur.append(p)
                out.append(cur)
                mk = lambda ps: '' if not [x for x in ps if x] else (SymStr(ps) if not all(isinstance(x, str) for x in ps) else ''.join(ps))
                if m == 'contains': return len(out) > 1
                if m == 'split': return s.iter_of([mk(x) for x in out])
                n = s.deref(args[0]) if m == 'splitn' else 2
                if m != 'find':
                    if len(out) > n: raise Unknown('splitn')
                    if m == 'splitn': return s.iter_of([mk(x) for x in out])
                    return Some((mk(out[0]), mk(out[1]))) if len(out) == 2 else NONE
            raise Unknown('text.' + m)
        if isinstance(v, (str, SymStr)) and m in ('trim',) and isinstance(v, SymStr): return v
        return NotImplemented


class FileV(Native):
    def __init__(s, e): s.e = e

    def method(s, I, m, args, node):
        if m in ('write_all',):
            if not I.step(('writing', s.e[1])): return Err(Tok('error', 'write'))
            s.e[2].extend(I.bytes_of(args[0])); return Ok(UNIT)
        if m in ('flush', 'sync_all'): return Ok(UNIT)
        raise Unknown('File.' + m)


class HexV(Native):
    def __init__(s, b): s.b = b
    def __eq__(s, o): return isinstance(o, HexV) and s.b == o.b
    def __hash__(s): return hash(tuple(s.b))

    def method(s, I, m, args, node):
        if m in ('as_bytes', 'clone', 'to_string', 'as_str', 'into_bytes', 'as_ref', 'to_owned'): return [s]
        raise Unknown('hex text.' + m)


def _bytes_of(I, v):
    v = I.deref(v)
    return [v] if isinstance(v, HexV) else MainI.bytes_of_(I, v)


MainI.bytes_of_ = MainI.bytes_of
MainI.bytes_of = _bytes_of


class Parser(Native):
    def __init__(s): pass

    def method(s, I, m, args, node):
        if m == 'parse':
            I.effects.append(('parse', I.deref(args[0])))
            if not I.step('parsing'): return Err(Tok('error', 'parse'))
            return Ok(Adt('Object', None, {'name': I.objname, 'code': Tok('code'), 'inner_segments': []}))
        raise Unknown('parser.' + m)


class CtxV(Native):
    def __init__(s, opts, obj): s.opts, s.obj, s.f = opts, obj, {}
    def norm(s, nz): return ('ctx',)

    def field(s, n): return Place(lambda: s.f.get(n, Tok('context field', n)), lambda v: s.f.__setitem__(n, v))

    def method(s, I, m, args, node):
        if m == 'emit':
            I.effects.append(('emit', s.opts.f, dict(s.f), [I.deref(x) for x in args]))
            return Ok(I.module()) if I.step('generating code') else Err(Tok('error', 'emit'))
        raise Unknown('Yul2IRContext.' + m)


# ------------------------------------------------------------------ runs
class Run:
    pass


def arg_options(tree_items):
    """field -> (long option, default text) of the clap Args struct"""
    import re
    st = [x for x in tree_items if x['k'] == 'Struct' and any('Parser' in a for a in x['attrs'])]
    if len(st) != 1: raise Unknown('command line struct')
    out = {}
    for f in st[0]['fields']:
        at = ' '.join(a for a in f['attrs'] if a.startswith(('arg(', 'clap(')))
        m = re.search(r'\blong="([^"]*)"', at)
        long_ = m.group(1) if m else (f['name'].replace('_', '-') if re.search(r'\blong\b', at) else None)
        d = re.search(r'\bdefault_value="([^"]*)"', at)
        dt = re.search(r'\bdefault_value_t=([^,)]*)', at)
        out[f['name']] = (long_, d.group(1) if d else (dt.group(1).strip('"') if dt else None), f['t']['s'] if 's' in f['t'] else '', at)
    return st[0]['name'], out


PATHSET, ADDRSET = 'letters digits . / : _', 'hex digits x'
LEVELS = {'none': 'None', 'less': 'Less', 'default': 'Default', 'aggressive': 'Aggressive'}


DIMS = (('none', 'less', 'default', 'aggressive', 'fastest'), (None, 'u256', 'bytes32', 'u64'), (False, True), (0, 2))


def scenarios(full):
    import itertools
    base = ('default', None, False, 0)
    if full: yield from itertools.product(*DIMS); return
    yield base
    for i, d in enumerate(DIMS):
        for v in d:
            if v != base[i]: yield base[:i] + (v,) + base[i + 1:]


class Instance:
    """a concrete module (bytes, or only a size when large), symbols and names:
    what a run is repeated with when it cannot be followed with them open"""
    def __init__(s, module, syms, main, obj): s.module, s.syms, s.main, s.obj = module, syms, main, obj

    def blob(s):
        return list(s.module) if isinstance(s.module, bytes) else [Blob('the module', s.module)]

    def size(s): return len(s.module) if isinstance(s.module, bytes) else s.module


PAT = bytes((i * 37 + 11) % 256 for i in range(300))
MODULES = [b'', b'\0', PAT[:5], PAT[:6], PAT[:255], PAT[:256], PAT, 65535, 65536, 70003, (1 << 24) - 1, (1 << 24) + 257, 0x01020304]
SYMS = [('contracts/lib/Math.sol:Math', '0x' + '0' * 39 + '1'), ('b.c.sol:L_2', '0xAbCdEf0123456789abcdef0123456789ABCDEF01'), ('L3', '0xff')]


def instances():
    for i, m in enumerate(MODULES): yield Instance(m, SYMS[i % 3:] + SYMS[:i % 3], ('Main_7', 'a.b')[i % 2], ('Token_12', 'C_34_deployed')[i % 2])


def runs(full=False):
    bad = None
    for sc in scenarios(full):
        try: yield from runs1(sc, 600 if not full else 6000)
        except Unknown as u:
            bad = u
            for inst in instances():
                try: yield from runs1(sc, 600, inst)
                except Unknown as v: bad = v
    if bad: raise bad


def runs1(sc, limit, inst=None):
    """yields every abstract run of main under the given option texts"""
    trees = dump(FILES)
    I = MainI(trees)
    I.inst = inst
    if inst: I.objname = inst.obj
    name, opts = arg_options(trees[FILES[0]])
    main = I.filefns.get((FILES[0], 'main'))
    if main is None: raise Unknown('main')
    by = {v[0]: k for k, v in opts.items()}
    todo, n = [[]], 0
    while todo:
        dec = todo.pop()
        n += 1
        if n > limit: raise Unknown('too many runs of main')
        I.decisions, I.dpos, I.alts = list(dec), 0, []
        I.reset()
        r = Run()
        r.inst, r.objname, r.mainname = inst, I.objname, inst.main if inst else Tok('main contract option')
        r.level = r.ret = r.main = None
        r.syms = []
        f = {}
        for fld, (long_, d, ty, at) in opts.items():
            if ty == 'bool': f[fld] = Flag('option', long_)
            elif long_ == 'opt-level':
                r.level = sc[0]
                f[fld] = r.level
            elif long_ == 'default_ret_type':
                r.ret = sc[1]
                f[fld] = (Some(r.ret) if r.ret else NONE) if ty.startswith('Option') else (r.ret or d)
            elif long_ == 'main-contract':
                r.main = sc[2]
                f[fld] = Some(r.mainname) if r.main else NONE
            elif long_ == 'symbol':
                k = sc[3]
                r.syms = [(SymStr([('path%d' % i, PATHSET, 1, None)]), SymStr([('addr%d' % i, ADDRSET, 1, None)])) for i in range(k)]
                f[fld] = [SymStr([*p.parts, '=', *q.parts]) for p, q in r.syms]
                if inst:
                    r.syms = inst.syms[:k]
                    f[fld] = [p + '=' + q for p, q in r.syms]
            else:
                f[fld] = Tok('option', long_)
        I.args = Adt(name, None, f)
        r.out = 'exit 0'
        try:
            v = I.call_fn(main, [])
            v = I.deref(v)
            if isinstance(v, Adt) and v.ty == 'ExitCode': r.out = 'exit 0' if v.f[0] == 0 else 'fail'
            elif isinstance(v, Adt) and v.ty == 'Result': r.out = 'exit 0' if v.var == 'Ok' else 'fail'
        except Exit as e: r.out = 'exit 0' if e.code == 0 else 'fail'
        except Panic as p: r.out = 'fail'; r.panic = str(p)
        except Prune: r.out = None
        r.flags, r.effects, r.msgs = dict(I.flags), list(I.effects), list(I.msgs)
        todo += I.alts
        r.taint = I.taint
        if r.out: yield r
