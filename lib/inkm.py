"""Abstract model of the code-generation library (inkwell over LLVM) for the Rust
interpreter: types, values, basic blocks, functions, modules and the builder.

Interpreting the repository's generator over this model yields the generated program as
data, for every program of a family, without building or running anything.  Operations are
type-checked as the LLVM verifier would; what it would refuse is recorded in `problems`.
"""
from rsi_core import *  # noqa
from rsi_core import Native, last, Top

M256 = (1 << 256) - 1


class Ty(Native):
    tab = {}

    def __new__(cls, kind, *a):
        k = (kind,) + a
        if k not in cls.tab:
            o = object.__new__(cls)
            o.kind, o.a = kind, a
            cls.tab[k] = o
        return cls.tab[k]

    def __init__(s, *a): pass
    def __repr__(s):
        if s.kind == 'int': return 'i%d' % s.a[0]
        if s.kind == 'array': return f'[{s.a[1]} x {s.a[0]}]'
        if s.kind == 'struct': return '{' + ', '.join(map(str, s.a[0])) + '}'
        if s.kind == 'fn': return f'{s.a[0]} (' + ', '.join(map(str, s.a[1])) + ')'
        return s.kind
    __str__ = __repr__
    def norm(s, nz): return repr(s)

    @property
    def bits(s): return s.a[0]

    def method(s, I, m, args, node):
        a = [I.deref(x) for x in args]
        k = s.kind
        if m.startswith('is_') and m.endswith('_type'):
            w = m[3:-5]
            if w in ('int', 'array', 'struct', 'pointer', 'float', 'vector', 'void', 'function'): return k == {'pointer': 'ptr', 'function': 'fn'}.get(w, w)
        if m.startswith('into_') and m.endswith('_type'):
            w = {'pointer': 'ptr', 'function': 'fn'}.get(m[5:-5], m[5:-5])
            if k != w: raise Panic(f'{m} on {s}')
            return s
        if m in ('as_basic_type_enum', 'as_any_type_enum', 'into', 'as_ref', 'borrow'): return s
        if m == 'get_bit_width': return s.bits
        if m == 'get_element_type': return s.a[0]
        if m == 'len': return s.a[1]
        if m == 'is_sized': return k not in ('void', 'fn')
        if m in ('const_zero', 'const_null'): return zero(s)
        if m == 'const_all_ones': return const(s, -1)
        if m == 'const_int':
            v = a[0]
            if not isinstance(v, int): raise Unknown('const_int of an unknown number')
            v &= (1 << 64) - 1
            if len(a) > 1 and a[1] is True and s.bits > 64 and v >> 63: v -= 1 << 64
            return const(s, v)
        if m == 'const_int_arbitrary_precision': return const(s, sum(x << (64 * i) for i, x in enumerate(a[0])))
        if m == 'const_int_from_string':
            t, r = a
            if not isinstance(t, str): raise Unknown('const_int_from_string of an unknown text')
            r = r.var if isinstance(r, Adt) else r
            digs = {'Decimal': r'[-+]?[0-9]+', 'Hexadecimal': r'[-+]?[0-9A-Fa-f]+', 'Binary': r'[-+]?[01]+', 'Octal': r'[-+]?[0-7]+'}[r]
            import re
            if not re.fullmatch(digs, t): return NONE
            return Some(const(s, int(t, {'Decimal': 10, 'Hexadecimal': 16, 'Binary': 2, 'Octal': 8}[r])))
        if m == 'array_type': return Ty('array', s, a[0])
        if m == 'ptr_type': return Ty('ptr')
        if m == 'fn_type': return Ty('fn', s, tuple(a[0]), bool(a[1]))
        if m == 'get_return_type': return NONE if s.a[0].kind == 'void' else Some(s.a[0])
        if m == 'get_param_types': return list(s.a[1])
        if m == 'count_fields': return len(s.a[0])
        if m == 'get_field_types': return list(s.a[0])
        if m == 'get_field_type_at_index': return Some(s.a[0][a[0]]) if a[0] < len(s.a[0]) else NONE
        if m == 'get_poison' or m == 'get_undef': return Val('poison', s)
        if m == 'size_of': return Some(const(Ty('int', 64), size(s)))
        if m == 'get_context': return I.ctx
        if m == 'const_array': return Val('carray', Ty('array', s, len(a[0])), tuple(a[0]))
        if m in ('to_string', 'print_to_string'): return str(s)
        if m == 'eq': return s is a[0]
        raise Unknown(f'type method {m}')


def size(t):
    if t.kind == 'int':
        n = (t.bits + 7) // 8
        p = 1
        while p < n: p *= 2
        return p
    if t.kind == 'ptr': return 4
    if t.kind == 'array': return size(t.a[0]) * t.a[1]
    if t.kind == 'struct': return layout(t)[1]
    raise Unknown(f'size of {t}')


def align(t):
    if t.kind == 'array': return align(t.a[0])
    if t.kind == 'struct': return max([align(x) for x in t.a[0]] or [1])
    return min(size(t), 8)


def layout(t):
    off, o = [], 0
    for f in t.a[0]:
        al = 1 if t.a[1] else align(f)
        o = (o + al - 1) // al * al
        off.append(o); o += size(f)
    al = 1 if t.a[1] else align(t)
    return off, (o + al - 1) // al * al


class Val(Native):
    """a constant (hash-equal by value), an instruction, a parameter, a global or a function"""
    n = 0

    def __init__(s, op, ty, args=(), name='', **kw):
        s.op, s.ty, s.args, s.name, s.kw = op, ty, tuple(args), name, kw
        Val.n += 1
        s.id = Val.n

    def key(s): return (s.op, s.ty, s.args) if s.op in ('const', 'czero', 'poison') else s.id
    def __eq__(s, o): return isinstance(o, Val) and s.key() == o.key()
    def __hash__(s): return hash(s.key())
    def __repr__(s):
        if s.op == 'const': return f'{s.ty} {s.args[0]:#x}'
        return f'%{s.id}:{s.ty}'

    def full(s):
        return f'{s!r} = {s.op} ' + ', '.join(map(repr, s.args)) + (f' {s.kw}' if s.kw else '')

    def isconst(s): return s.op in ('const', 'czero', 'poison', 'global', 'fn', 'cstruct', 'carray')

    def method(s, I, m, args, node):
        a = [I.deref(x) for x in args]
        k = s.ty.kind
        if m == 'get_type': return s.ty
        if m.startswith('is_') and m.endswith('_value'):
            w = m[3:-6]
            if w in ('int', 'array', 'struct', 'pointer', 'float', 'vector'): return k == {'pointer': 'ptr'}.get(w, w)
        if m.startswith('into_') and m.endswith('_value'):
            w = {'pointer': 'ptr'}.get(m[5:-6], m[5:-6])
            if k != w: raise Panic(f'{m} on {s.ty}')
            return s
        if m in ('as_basic_value_enum', 'as_any_value_enum', 'into', 'as_ref', 'as_pointer_value', 'borrow', 'as_basic_value'): return s
        if m == 'is_const': return s.isconst()
        if m == 'is_null': return s.op in ('const', 'czero') and not any(s.args)
        if m == 'is_undef' or m == 'is_poison': return s.op == 'poison'
        if m == 'get_zero_extended_constant':
            return Some(s.args[0]) if s.op == 'const' and s.ty.bits <= 64 else NONE
        if m == 'get_sign_extended_constant':
            if s.op != 'const' or s.ty.bits > 64: return NONE
            v = s.args[0]
            return Some(v - (1 << s.ty.bits) if v >> (s.ty.bits - 1) else v)
        if m == 'get_name': return s.name
        if m == 'set_name': s.name = a[0]; return UNIT
        if m in ('to_string', 'print_to_string'): return repr(s)
        if m == 'as_instruction' or m == 'as_instruction_value': return Some(s) if s.op not in ('const', 'param', 'global') else NONE
        if m == 'set_initializer': s.kw['init'] = I.deref(a[0]); return UNIT
        if m in ('set_linkage', 'set_constant', 'set_unnamed_addr', 'set_alignment', 'set_section', 'set_visibility', 'set_thread_local', 'set_externally_initialized', 'set_unnamed_address'): return UNIT if m != 'set_alignment' else Ok(UNIT)
        if m == 'get_initializer': return Some(s.kw['init']) if 'init' in s.kw else NONE
        if m == 'const_cast' or m == 'const_truncate': return cast(s, a[0])
        if m == 'try_as_basic_value': return EitherN(s)
        if m == 'set_tail_call' or m == 'add_attribute' or m == 'set_call_convention': return UNIT
        if m == 'eq': return s == a[0]
        if m.startswith('const_'):
            op = m[6:]
            if op in ('add', 'sub', 'mul', 'and', 'or', 'xor') and s.op == 'const' and a[0].op == 'const': return fold(op, s.ty, s, a[0])
        raise Unknown(f'value method {m}')


class EitherN(Native):
    def __init__(s, v): s.v = v

    def method(s, I, m, args, node):
        void = s.v.ty.kind == 'void'
        if m in ('left', 'basic'): return NONE if void else Some(s.v)
        if m in ('right', 'instruction'): return Some(s.v) if void else NONE
        if m in ('is_left', 'is_basic'): return not void
        if m in ('is_right', 'is_instruction'): return void
        if m in ('unwrap_left', 'unwrap_basic', 'expect_basic', 'expect_left'):
            if void: raise Panic('unwrap_left of a call without a result')
            return s.v
        if m in ('unwrap_right',): return s.v
        raise Unknown('either method ' + m)


def const(t, v): return Val('const', t, (v & ((1 << t.bits) - 1),))


def zero(t):
    if t.kind == 'int': return const(t, 0)
    return Val('czero', t)


def fold(op, ty, x, y=None, pred=None):
    """constant folding as the builder's folder does it; None when not constant"""
    if x.op == 'poison' or y is not None and y.op == 'poison': return Val('poison', ty)
    if x.op != 'const' or y is not None and y.op != 'const': return None
    w = x.ty.bits
    a = x.args[0]
    b = y.args[0] if y is not None else 0
    sg = lambda v: v - (1 << w) if v >> (w - 1) else v
    if op == 'add': return const(ty, a + b)
    if op == 'sub': return const(ty, a - b)
    if op == 'mul': return const(ty, a * b)
    if op == 'and': return const(ty, a & b)
    if op == 'or': return const(ty, a | b)
    if op == 'xor': return const(ty, a ^ b)
    if op == 'icmp':
        if pred in ('SLT', 'SLE', 'SGT', 'SGE'): a, b = sg(a), sg(b)
        p = pred.lstrip('US') if pred not in ('EQ', 'NE') else pred
        return const(ty, {'EQ': a == b, 'NE': a != b, 'LT': a < b, 'LE': a <= b, 'GT': a > b, 'GE': a >= b}[p])
    if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0: return Val('poison', ty)
    if op == 'udiv': return const(ty, a // b)
    if op == 'urem': return const(ty, a % b)
    if op in ('sdiv', 'srem'):
        u, v = sg(a), sg(b)
        if u == -(1 << (w - 1)) and v == -1: return Val('poison', ty)
        q = abs(u) // abs(v)
        if (u < 0) != (v < 0): q = -q
        return const(ty, q if op == 'sdiv' else u - q * v)
    if op in ('shl', 'lshr', 'ashr'):
        if b >= w: return Val('poison', ty)
        return const(ty, a << b if op == 'shl' else a >> b if op == 'lshr' else sg(a) >> b)
    if op in ('zext', 'trunc'): return const(ty, a)
    if op == 'sext': return const(ty, sg(a))
    return None


def cast(v, t, signed=True):
    if v.ty is t: return v
    op = 'trunc' if v.ty.bits > t.bits else ('sext' if signed else 'zext')
    return fold(op, t, v) or Val(op, t, (v,))


class BB(Native):
    def __init__(s, fn, name): s.fn, s.name, s.ins = fn, name, []
    def __repr__(s): return f'{s.name}#{s.fn.blocks.index(s)}'
    def term(s): return s.ins[-1] if s.ins and s.ins[-1].op in TERM else None

    def method(s, I, m, args, node):
        if m == 'get_terminator': return Some(s.term()) if s.term() else NONE
        if m == 'get_parent': return Some(s.fn)
        if m == 'get_name': return s.name
        if m == 'get_last_instruction': return Some(s.ins[-1]) if s.ins else NONE
        if m == 'get_first_instruction': return Some(s.ins[0]) if s.ins else NONE
        if m == 'get_next_basic_block':
            i = s.fn.blocks.index(s)
            return Some(s.fn.blocks[i + 1]) if i + 1 < len(s.fn.blocks) else NONE
        raise Unknown('block method ' + m)


TERM = ('br', 'condbr', 'switch', 'ret', 'unreachable')


class FnV(Native):
    def __init__(s, mod, name, ty, runtime=False):
        s.mod, s.name, s.ty, s.runtime, s.blocks = mod, name, ty, runtime, []
        s.params = [Val('param', t, (i,), fn=None) for i, t in enumerate(ty.a[1])]
        s.fty = ty

    def __repr__(s): return '@' + s.name

    def method(s, I, m, args, node):
        a = [I.deref(x) for x in args]
        if m == 'get_nth_param': return Some(s.params[a[0]]) if a[0] < len(s.params) else NONE
        if m == 'get_params': return list(s.params)
        if m == 'get_param_iter': return I.iter_of(list(s.params))
        if m == 'get_first_param': return Some(s.params[0]) if s.params else NONE
        if m == 'count_params': return len(s.params)
        if m == 'count_basic_blocks': return len(s.blocks)
        if m == 'get_type': return s.fty
        if m == 'get_name': return s.name
        if m in ('get_first_basic_block',): return Some(s.blocks[0]) if s.blocks else NONE
        if m in ('get_last_basic_block',): return Some(s.blocks[-1]) if s.blocks else NONE
        if m == 'get_basic_blocks': return list(s.blocks)
        if m in ('add_attribute', 'set_linkage', 'set_call_conventions', 'set_gc', 'set_section'): return UNIT
        if m == 'verify': return True
        if m in ('as_global_value', 'into', 'as_ref', 'borrow'): return s
        if m == 'as_pointer_value': return s
        raise Unknown('function method ' + m)


class ModN(Native):
    def __init__(s, name): s.name, s.fns, s.globals, s.runtime = name, [], [], {}

    def method(s, I, m, args, node):
        a = [I.deref(x) for x in args]
        if m == 'get_function':
            if not isinstance(a[0], str): raise Unknown('get_function of an unknown name')
            for f in s.fns:
                if f.name == a[0]: return Some(f)
            return NONE
        if m == 'add_function':
            n = a[0]
            if not isinstance(n, str): raise Unknown('add_function of an unknown name')
            have = {f.name for f in s.fns}
            k = 0
            while n in have: k += 1; n = a[0] + '.%d' % k
            f = FnV(s, n, a[1])
            f.asked = a[0]
            s.fns.append(f)
            return f
        if m == 'add_global':
            g = Val('global', Ty('ptr'), (), a[2], gty=a[0])
            s.globals.append(g)
            return g
        if m == 'get_global':
            for g in s.globals:
                if g.name == a[0]: return Some(g)
            return NONE
        if m == 'get_globals': return I.iter_of(list(s.globals))
        if m == 'get_functions': return I.iter_of(list(s.fns))
        if m == 'link_in_module':
            if getattr(I, 'lib_fail', None) == m: I.failed_op = m; return Err(Adt('LLVMString', None))
            o = a[0]
            s.fns += o.fns; s.globals += o.globals
            return Ok(UNIT)
        if m == 'verify':
            if getattr(I, 'lib_fail', None) == m: I.failed_op = m; return Err(Adt('LLVMString', None))
            return Ok(UNIT)
        if m in ('set_triple', 'set_data_layout', 'set_name', 'print_to_stderr'): return UNIT
        if m == 'print_to_file': return Ok(UNIT)
        if m in ('print_to_string', 'get_name'): return s.name
        if m in ('as_ref', 'borrow'): return s
        if m == 'get_context': return I.ctx
        raise Unknown('module method ' + m)


class CtxN(Native):
    def method(s, I, m, args, node):
        a = [I.deref(x) for x in args]
        w = {'i8_type': 8, 'i16_type': 16, 'i32_type': 32, 'i64_type': 64, 'i128_type': 128, 'bool_type': 1}.get(m)
        if w: return Ty('int', w)
        if m == 'custom_width_int_type': return Ty('int', a[0])
        if m == 'void_type': return Ty('void')
        if m == 'ptr_type': return Ty('ptr')
        if m == 'struct_type': return Ty('struct', tuple(a[0]), bool(a[1]))
        if m == 'create_module': return ModN(a[0])
        if m == 'create_builder': return BuilderN(I)
        if m == 'append_basic_block':
            b = BB(a[0], a[1]); a[0].blocks.append(b)
            return b
        if m == 'insert_basic_block_after':
            b = BB(a[0].fn, a[1]); a[0].fn.blocks.insert(a[0].fn.blocks.index(a[0]) + 1, b)
            return b
        if m == 'prepend_basic_block' or m == 'insert_basic_block_before':
            b = BB(a[0].fn, a[1]); a[0].fn.blocks.insert(a[0].fn.blocks.index(a[0]), b)
            return b
        if m == 'const_string':
            v = a[0]
            v = list(v.encode()) if isinstance(v, str) else list(v)
            if not all(isinstance(x, int) for x in v): raise Unknown('const_string of unknown bytes')
            if a[1]: v = v + [0]
            return Val('carray', Ty('array', Ty('int', 8), len(v)), tuple(v))
        if m == 'const_struct': return Val('cstruct', Ty('struct', tuple(x.ty for x in a[0]), bool(a[1])), tuple(a[0]))
        if m in ('as_ref', 'borrow'): return s
        raise Unknown('context method ' + m)


class BuildErr(Exception):
    pass


class BuilderN(Native):
    def __init__(s, I): s.I, s.bb = I, None

    BIN = {'build_int_add': 'add', 'build_int_sub': 'sub', 'build_int_mul': 'mul', 'build_int_unsigned_div': 'udiv', 'build_int_signed_div': 'sdiv',
           'build_int_unsigned_rem': 'urem', 'build_int_signed_rem': 'srem', 'build_and': 'and', 'build_or': 'or', 'build_xor': 'xor', 'build_left_shift': 'shl',
           'build_int_nsw_add': 'add', 'build_int_nuw_add': 'add', 'build_int_nsw_sub': 'sub', 'build_int_nuw_sub': 'sub', 'build_int_nsw_mul': 'mul', 'build_int_nuw_mul': 'mul'}

    def method(s, I, m, args, node):
        a = [unval(I.deref(x)) for x in args]
        if m == 'position_at_end':
            s.bb = a[0]; I.on_position(a[0]); return UNIT
        if m == 'get_insert_block': return Some(s.bb) if s.bb else NONE
        if m == 'clear_insertion_position': s.bb = None; return UNIT
        if m in ('borrow', 'as_ref'): return s
        if not m.startswith('build_'): raise Unknown('builder method ' + m)
        if s.bb is None: raise Panic('builder is not positioned')
        I.nbuild += 1
        if I.nbuild == I.fail_at:
            I.failed_op = m
            return Err(Adt('BuilderError', 'GEPIndex'))
        v = s.op(I, m, a, node)
        return Ok(v)

    def bad(s, what):
        s.I.problem('ill-typed', f'{what} in {s.bb.fn.name}')

    def add(s, v):
        if s.bb.term():
            s.I.problem('after-terminator', f'{v.op} after {s.bb.term().op} in block {s.bb.name} of {s.bb.fn.name}')
        s.bb.ins.append(v)
        v.kw.setdefault('fn', s.bb.fn)
        s.I.on_ins(v)
        return v

    def op(s, I, m, a, node):
        if m in s.BIN: return s.bin(s.BIN[m], a[0], a[1])
        if m == 'build_right_shift': return s.bin('ashr' if I.truth(a[2]) else 'lshr', a[0], a[1])
        if m == 'build_not':
            if not isint(a[0]): s.bad('not of ' + str(a[0].ty)); return Val('poison', a[0].ty)
            return s.bin('xor', a[0], const(a[0].ty, -1))
        if m == 'build_int_neg': return s.bin('sub', const(a[0].ty, 0), a[0])
        if m == 'build_int_compare':
            p = a[0].var
            x, y = a[1], a[2]
            if x.ty is not y.ty: s.bad(f'comparison of {x.ty} with {y.ty}')
            r = fold('icmp', Ty('int', 1), x, y, p) if isint(x) and x.ty is y.ty else None
            return r or s.add(Val('icmp', Ty('int', 1), (x, y), pred=p))
        if m in ('build_int_z_extend', 'build_int_s_extend', 'build_int_truncate', 'build_int_cast', 'build_int_cast_sign_flag', 'build_int_z_extend_or_bit_cast', 'build_int_truncate_or_bit_cast', 'build_int_s_extend_or_bit_cast'):
            v, t = a[0], a[1]
            if not isint(v) or t.kind != 'int': s.bad(f'integer conversion of {v.ty} to {t}'); return Val('poison', t)
            if m.startswith('build_int_cast'):
                if v.ty is t: return v
                op = 'trunc' if v.ty.bits > t.bits else ('sext' if m == 'build_int_cast' or I.truth(a[2]) else 'zext')
            else:
                op = {'z': 'zext', 's': 'sext', 't': 'trunc'}[m[10]]
                if v.ty is t and m.endswith('_or_bit_cast'): return v
                if (v.ty.bits >= t.bits) if op != 'trunc' else (v.ty.bits <= t.bits): s.bad(f'{op} from {v.ty} to {t}')
            return fold(op, t, v) or s.add(Val(op, t, (v,)))
        if m == 'build_alloca': return s.add(Val('alloca', Ty('ptr'), (), a[1], aty=a[0]))
        if m == 'build_array_alloca': raise Unknown('array alloca')
        if m == 'build_store':
            if a[0].ty.kind != 'ptr': s.bad('store to ' + str(a[0].ty))
            return s.add(Val('store', Ty('void'), (a[0], a[1])))
        if m == 'build_load':
            if a[1].ty.kind != 'ptr': s.bad('load from ' + str(a[1].ty))
            return s.add(Val('load', a[0], (a[1],)))
        if m == 'build_struct_gep':
            if a[0].kind != 'struct' or a[2] >= len(a[0].a[0]): s.bad(f'field {a[2]} of {a[0]}'); return Val('poison', Ty('ptr'))
            return s.add(Val('gep', Ty('ptr'), (a[1],), off=layout(a[0])[0][a[2]]))
        if m in ('build_gep', 'build_in_bounds_gep'):
            t, p, ix = a[0], a[1], a[2]
            off = 0
            for n, i in enumerate(ix):
                if i.op != 'const': raise Unknown('variable address arithmetic')
                if n == 0: off += size(t) * i.args[0]
                elif t.kind == 'array': t = t.a[0]; off += size(t) * i.args[0]
                elif t.kind == 'struct': off += layout(t)[0][i.args[0]]; t = t.a[0][i.args[0]]
                else: raise Unknown('address arithmetic')
            return s.add(Val('gep', Ty('ptr'), (p,), off=off))
        if m == 'build_ptr_to_int': return s.add(Val('ptrtoint', a[1], (a[0],)))
        if m == 'build_int_to_ptr': return s.add(Val('inttoptr', a[1], (a[0],)))
        if m in ('build_bit_cast', 'build_bitcast', 'build_pointer_cast'):
            if a[0].ty is a[1]: return a[0]
            return s.add(Val('bitcast', a[1], (a[0],)))
        if m == 'build_unconditional_branch': return s.add(Val('br', Ty('void'), (), to=[a[0]]))
        if m == 'build_conditional_branch':
            if not (isint(a[0]) and a[0].ty.bits == 1): s.bad('branch on ' + str(a[0].ty))
            return s.add(Val('condbr', Ty('void'), (a[0],), to=[a[1], a[2]]))
        if m == 'build_switch':
            cs = [(I.deref(c[0]), I.deref(c[1])) for c in a[2]]
            for c, _ in cs:
                if c.ty is not a[0].ty: s.bad(f'case of {c.ty} for a switch on {a[0].ty}')
                if c.op != 'const': raise Unknown('case that is not constant')
            vs = [c.args[0] for c, _ in cs]
            if len(set(vs)) != len(vs): s.bad('duplicate case')
            return s.add(Val('switch', Ty('void'), (a[0],), to=[a[1]] + [b for _, b in cs], cases=vs))
        if m == 'build_return':
            v = a[0]
            if isinstance(v, Adt): v = unval(I.deref(v.f[0])) if v.var == 'Some' else None
            want = s.bb.fn.fty.a[0]
            got = v.ty if v is not None else Ty('void')
            if want is not got: s.bad(f'return of {got} from a function returning {want}')
            return s.add(Val('ret', Ty('void'), (v,) if v is not None else ()))
        if m == 'build_unreachable': return s.add(Val('unreachable', Ty('void')))
        if m == 'build_select':
            c, x, y = a[:3]
            if x.ty is not y.ty or not (isint(c) and c.ty.bits == 1): s.bad(f'select of {c.ty}, {x.ty}, {y.ty}')
            if c.op == 'const': return x if c.args[0] else y
            return s.add(Val('select', x.ty, (c, x, y)))
        if m in ('build_extract_value',):
            if a[1] >= len(a[0].ty.a[0]): raise Unknown('extract_value index')
            return s.add(Val('extractvalue', a[0].ty.a[0][a[1]], (a[0],), ix=a[1]))
        if m in ('build_insert_value',): return s.add(Val('insertvalue', a[0].ty, (a[0], a[1]), ix=a[2]))
        if m == 'build_memcpy' or m == 'build_memset': raise Unknown(m)
        if m in ('build_call', 'build_direct_call'):
            f, xs = a[0], [unval(I.deref(x)) for x in a[1]]
            if not isinstance(f, FnV): raise Unknown('call of an unknown function')
            want = list(f.fty.a[1])
            got = [x.ty for x in xs]
            if want != got:
                I.problem('call', f'{f.name} is called with ({", ".join(map(str, got))}) but takes ({", ".join(map(str, want))})', f.name)
            return s.add(Val('call', f.fty.a[0], tuple(xs), f=f))
        raise Unknown('builder method ' + m)

    def bin(s, op, x, y):
        if not isint(x) or not isint(y) or x.ty is not y.ty:
            s.bad(f'{op} of {getattr(x, "ty", x)} and {getattr(y, "ty", y)}'); return Val('poison', x.ty)
        return fold(op, x.ty, x, y) or s.add(Val(op, x.ty, (x, y)))


def isint(v): return isinstance(v, Val) and v.ty.kind == 'int'


def unval(v):
    """the wrapper struct around a machine value converts to the value (`into`)"""
    if isinstance(v, Adt) and isinstance(v.f, dict) and isinstance(v.f.get('value'), Val): return v.f['value']
    return v


def parse_ty(t):
    t = t.strip()
    if t in ('void', 'ptr'): return Ty(t)
    if t[0] == 'i': return Ty('int', int(t[1:]))
    raise Unknown('runtime type ' + t)
