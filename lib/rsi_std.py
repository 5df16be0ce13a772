"""Transfer functions for the parts of the Rust standard library the
repository uses (mixed into rsi.Interp)."""
from collections import OrderedDict
from rsi_core import *  # noqa
from rsi_core import single, PLACEK

WS = ((9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000))
CLS = {
    'is_ascii': ((0, 127),), 'is_ascii_digit': ((48, 57),), 'is_ascii_hexdigit': ((48, 57), (65, 70), (97, 102)),
    'is_ascii_alphabetic': ((65, 90), (97, 122)), 'is_ascii_alphanumeric': ((48, 57), (65, 90), (97, 122)),
    'is_ascii_uppercase': ((65, 90),), 'is_ascii_lowercase': ((97, 122),), 'is_whitespace': WS,
    'is_ascii_whitespace': ((9, 10), (12, 13), (32, 32)), 'is_ascii_punctuation': ((33, 47), (58, 64), (91, 96), (123, 126)),
    'is_ascii_control': ((0, 31), (127, 127)), 'is_control': ((0, 31), (127, 159)), 'is_ascii_graphic': ((33, 126),),
}
EXPORT = ['e_MCall', 'method', 'builtin_call', 'iter_of', 'collect', 'default_of', 'm_option', 'm_list', 'm_dict', 'm_str', 'm_symstr',
          'm_instr', 'm_char', 'm_int', 'm_iter', 'pat_set', 'pat_text', 'm_u256', 'm_entry', 'unordered', 'hash_order', 'keys_of', 'm_set', 'into', 'from_radix', 'eq_key', 'sym_trim']


def unordered(s, what): pass


class TreeMap(OrderedDict):
    """BTreeMap: iterated in key order"""


class TreeSet(set):
    """BTreeSet: iterated in order"""


class IndexSet(set):
    """IndexSet: iterated in insertion order, which is not tracked"""


SETS = {'HashSet': set, 'BTreeSet': TreeSet, 'IndexSet': IndexSet}


def hash_order(s, v): return list(v) if isinstance(v, dict) else sorted(v, key=repr)


def keys_of(s, v):
    if isinstance(v, (TreeMap, TreeSet)):
        try: return sorted(v)
        except TypeError: raise Unknown('order of the keys')
    if isinstance(v, IndexSet): raise Unknown('order of an IndexSet')
    if isinstance(v, OrderedDict): return list(v)
    s.unordered(type(v).__name__)
    return s.hash_order(v)


def eq_key(s, k):
    k = s.deref(k)
    if isinstance(k, (str, int, tuple, SymStr, Native)): return k
    if isinstance(k, Adt) and not k.f: return (k.ty, k.var)
    raise Unknown(f'key {k!r}')


def e_MCall(s, e, env, hint):
    m = e['m']
    rp = s.ev(e['recv'], env)
    recv = s.deref(rp)
    s.temps.append(recv)
    fn = s.impls.get((recv.ty, m)) if isinstance(recv, Adt) else None
    hints = None
    if isinstance(fn, dict):
        hints = [p.get('t') for p in fn['params'] if not p['self']]
    elif m in ('unwrap_or', 'push', 'push_str'):
        hints = None
    args = s.evs(e['args'], env, hints)
    s.temps.pop()
    r = s.ext_method(recv, m, args, e, hint)
    if r is not NotImplemented: return r
    if isinstance(fn, dict):
        selfv = rp if fn['params'] and fn['params'][0]['self'] and fn['params'][0]['ref'] and isinstance(rp, Place) and not isinstance(recv, Adt) else recv
        return s.call_fn(fn, args, selfv, recv.ty)
    h = hint
    if e['tf']: h = e['tf'][0]
    return s.method(rp, recv, m, args, e, h)


def method(s, rp, v, m, args, node, hint):
    if m in ('clone', 'cloned', 'to_owned', 'to_vec') and not isinstance(v, (It,)) and not (isinstance(v, Adt) and v.ty in ('Option', 'Result')):
        return s.clone(v)
    if m in ('as_ref', 'as_mut', 'borrow', 'borrow_mut', 'as_str', 'as_slice', 'as_mut_slice', 'deref', 'as_deref', 'iter_mut', 'by_ref', 'unwrap_unchecked', 'as_mut_str', 'to_str', 'as_os_str') and False:
        return rp
    if isinstance(v, Adt):
        if v.ty in ('Option', 'Result'): return s.m_option(rp, v, m, args, hint)
        if v.ty == 'RefCell' or v.ty == 'Cell':
            if m in ('borrow', 'borrow_mut', 'get_mut'):
                return Place(lambda: v.f[0], lambda x: v.f.__setitem__(0, x))
            if m == 'get': return s.clone(v.f[0])
            if m == 'set': v.f[0] = args[0]; return UNIT
            if m in ('into_inner',): return v.f[0]
            if m in ('replace',): o = v.f[0]; v.f[0] = args[0]; return o
            if m == 'take':
                o = v.f[0]
                v.f[0] = NONE if isinstance(o, Adt) and o.ty == 'Option' else type(o)()
                return o
        if v.ty == 'Entry': return s.m_entry(v, m, args)
        if v.ty == 'Ordering':
            if m == 'is_lt': return v.var == 'Less'
            if m == 'is_gt': return v.var == 'Greater'
            if m == 'is_eq': return v.var == 'Equal'
            if m == 'is_le': return v.var != 'Greater'
            if m == 'is_ge': return v.var != 'Less'
        if m in ('as_ref', 'as_mut', 'borrow', 'borrow_mut'): return rp
        if m == 'into': return s.into(v, hint)
        if m == 'eq': return s.eq(v, args[0])
        if m == 'ne': return not s.truth(s.eq(v, args[0]))
        if m == 'to_string': return s.show(v)
        if ('trait', m) in s.impls: return s.call_fn(s.impls[('trait', m)], args, v, v.ty)
        raise Unknown(f'method {m} of {v.ty}')
    if m == 'into': return s.into(v, hint)
    if m == 'try_into': return Ok(s.into(v, hint))
    if isinstance(v, (Closure, FnRef, NFn)) and m in ('call', 'call_mut'): return s.call(v, args)
    if isinstance(v, It): return s.m_iter(rp, v, m, args, hint)
    if isinstance(v, Native): return v.method(s, m, args, node)
    if m in ('as_ref', 'as_mut', 'borrow', 'borrow_mut', 'as_slice', 'as_mut_slice', 'as_str', 'as_deref', 'deref', 'as_mut_str', 'into_boxed_str', 'into_string') : return rp
    if m == 'eq': return s.eq(v, args[0])
    if m == 'ne': return not s.truth(s.eq(v, args[0]))
    if m == 'cmp' or m == 'partial_cmp':
        lt = s.truth(s.binop('<', v, args[0]))
        o = Adt('Ordering', 'Less') if lt else (Adt('Ordering', 'Equal') if s.truth(s.eq(v, args[0])) else Adt('Ordering', 'Greater'))
        return o if m == 'cmp' else Some(o)
    if isinstance(v, list): return s.m_list(rp, v, m, args, hint)
    if isinstance(v, dict): return s.m_dict(rp, v, m, args)
    if isinstance(v, set): return s.m_set(rp, v, m, args)
    if isinstance(v, str): return s.m_str(rp, v, m, args, hint)
    if isinstance(v, SymStr): return s.m_symstr(rp, v, m, args)
    if isinstance(v, InStr): return s.m_instr(rp, v, m, args)
    if isinstance(v, (Ch, CP, CharOf, ByteOf)): return s.m_char(v, m, args)
    if isinstance(v, U256v): return s.m_u256(v, m, args)
    if isinstance(v, (int, Lin)): return s.m_int(rp, v, m, args, hint)
    if isinstance(v, tuple):
        if m in ('iter', 'into_iter'): return s.iter_of(list(v))
    if isinstance(v, RangeV):
        if m == 'contains':
            return s.in_range(s.deref(args[0]), v.lo, v.hi, v.incl)
        return s.m_iter(rp, s.iter_of(v), m, args, hint)
    if isinstance(v, Top): return Top(v.why + '.' + m)
    raise Unknown(f'method {m} on {v!r}')


def into(s, v, hint):
    v = s.deref(v)
    if hint is not None:
        t = s.tyname(hint)
        im = s.impls.get((t, 'from'))
        if isinstance(im, list):
            for src, fn in im:
                if s.has_type(v, src): return s.call_fn(fn, [v], selfty=t)
        if t == 'U256' and isinstance(v, int): return U256v(v)
        if t in s.INTB and isinstance(v, bool): return int(v)
    return v


def m_entry(s, v, m, args):
    d, k = v.f
    def place(): return Place(lambda: d[k], lambda x: d.__setitem__(k, x))
    if m == 'or_insert':
        if k not in d: d[k] = args[0]
        return place()
    if m == 'or_insert_with':
        if k not in d: d[k] = s.call(args[0], [])
        return place()
    if m == 'or_default':
        if k not in d: d[k] = s.default_elem(d)
        return place()
    if m == 'and_modify':
        if k in d: s.call(args[0], [place()])
        return v
    raise Unknown('entry.' + m)


def m_option(s, rp, v, m, args, hint):
    var = v.var
    some = var in ('Some', 'Ok')
    x = v.f[0] if v.f else None
    if m in ('is_some', 'is_ok'): return some
    if m in ('is_none', 'is_err'): return not some
    if m in ('is_some_and', 'is_ok_and'): return some and s.truth(s.call(args[0], [x]))
    if m == 'is_none_or': return not some or s.truth(s.call(args[0], [x]))
    if m in ('unwrap', 'expect'):
        if not some: raise Panic(m)
        return x
    if m in ('unwrap_err', 'expect_err'):
        if some: raise Panic(m)
        return x
    if m == 'unwrap_or': return x if some else s.deref(args[0])
    if m == 'unwrap_or_else': return x if some else s.call(args[0], [] if var == 'None' else [x])
    if m == 'unwrap_or_default': return x if some else s.default_of(hint)
    if m == 'map': return Adt(v.ty, var, [s.deref(s.call(args[0], [x]))]) if some else v
    if m == 'map_err': return v if some else Err(s.deref(s.call(args[0], [x])))
    if m == 'map_or': return s.call(args[1], [x]) if some else args[0]
    if m == 'map_or_else': return s.call(args[1], [x]) if some else s.call(args[0], [] if var == 'None' else [x])
    if m == 'and_then': return s.deref(s.call(args[0], [x])) if some else v
    if m == 'and': return s.deref(args[0]) if some else v
    if m == 'or': return v if some else s.deref(args[0])
    if m == 'or_else': return v if some else s.deref(s.call(args[0], [] if var == 'None' else [x]))
    if m == 'xor':
        o = s.deref(args[0])
        return v if some and o.var == 'None' else (o if not some else NONE)
    if m == 'ok_or': return Ok(x) if some else Err(args[0])
    if m == 'ok_or_else': return Ok(x) if some else Err(s.call(args[0], []))
    if m == 'ok': return Some(x) if some else NONE
    if m == 'err': return NONE if some else Some(x)
    if m == 'filter': return v if some and s.truth(s.call(args[0], [x])) else NONE
    if m in ('as_ref', 'as_deref', 'as_slice', 'copied', 'by_ref'): return v
    if m in ('as_mut', 'as_deref_mut'):
        if not some: return v
        return Adt(v.ty, var, [Place(lambda: v.f[0], lambda y: v.f.__setitem__(0, y))])
    if m in ('cloned', 'clone'): return Adt(v.ty, var, [s.clone(x)]) if v.f else v
    if m == 'take':
        if isinstance(rp, Place): rp.set(NONE)
        else: raise Unknown('take')
        return v
    if m == 'replace':
        rp.set(Some(args[0])); return v
    if m == 'insert':
        rp.set(Some(args[0])); return args[0]
    if m in ('get_or_insert_with', 'get_or_insert'):
        if not some:
            nv = Some(s.call(args[0], []) if m.endswith('with') else args[0]); rp.set(nv); return nv.f[0]
        return x
    if m == 'flatten': return s.deref(x) if some else v
    if m == 'iter' or m == 'into_iter': return s.iter_of([x] if some else [])
    if m == 'unwrap_or_log': raise Unknown(m)
    if m == 'left': return Some(x) if var == 'Left' else NONE
    if m == 'zip':
        o = s.deref(args[0])
        return Some((x, o.f[0])) if some and o.var == 'Some' else NONE
    if m == 'into': return v
    if m == 'eq': return s.eq(v, args[0])
    if m == 'ne': return not s.truth(s.eq(v, args[0]))
    if m == 'to_string': return s.show(v)
    raise Unknown(f'{v.ty}.{m}')


def iter_of(s, v):
    v = s.deref(v)
    if isinstance(v, It): return v
    if isinstance(v, (list, tuple)):
        lst = list(v) if isinstance(v, tuple) else v
        st = {'i': 0, 'j': None}

        def mk(i, j):
            st = {'i': i, 'j': j}

            def nxt():
                j_ = len(lst) if st['j'] is None else st['j']
                if st['i'] >= j_: return STOP
                st['i'] += 1
                return lst[st['i'] - 1]
            it = It(nxt, [lst, st], lambda: mk(st['i'], st['j']), 'list')

            def back():
                if st['j'] is None: st['j'] = len(lst)
                if st['i'] >= st['j']: return STOP
                st['j'] -= 1
                return lst[st['j']]
            it.back = back
            return it
        return mk(0, None)
    if isinstance(v, RangeV):
        if isinstance(v.lo, int) and (v.hi is None or isinstance(v.hi, int)):
            hi = None if v.hi is None else v.hi + (1 if v.incl else 0)
            st = {'i': v.lo, 'j': hi}

            def nxt():
                if st['j'] is not None and st['i'] >= st['j']: return STOP
                st['i'] += 1
                return st['i'] - 1
            it = It(nxt, [st], None, 'range')

            def back():
                if st['i'] >= st['j']: return STOP
                st['j'] -= 1
                return st['j']
            it.back = back
            it.n = (lambda: max(0, st['j'] - st['i'])) if hi is not None else None
            return it
        raise Unknown('range over unknown bounds')
    if isinstance(v, dict): return s.iter_of([(k, v[k]) for k in s.keys_of(v)])
    if isinstance(v, set): return s.iter_of(list(s.keys_of(v)))
    if isinstance(v, Adt) and v.ty == 'Option': return s.iter_of(v.f)
    if isinstance(v, Native):
        r = v.method(s, 'iter', [], None)
        return s.iter_of(r)
    raise Unknown(f'iteration over {v!r}')


def collect(s, it, hint):
    out = []
    while True:
        x = it.next()
        if x is STOP: break
        out.append(s.deref(x))
    t = s.tyname(hint) if hint else None
    if t in ('Result', 'Option') and hint.get('segs'):
        inner = hint['segs'][-1][1][0] if hint['segs'][-1][1] else None
        vals = []
        for x in out:
            if x.var in ('Err', 'None'): return x
            vals.append(x.f[0])
        r = s.collect(s.iter_of(vals), inner)
        return Ok(r) if t == 'Result' else Some(r)
    if t == 'CompileResult': raise Unknown('collect')
    if t == 'String':
        r = ''
        for x in out: r = s.scat(r, chr(x.c) if isinstance(x, CP) else (x if isinstance(x, (str, SymStr)) else SymStr([x])))
        return r
    if t == 'HashMap': return {s.eq_key(a): b for a, b in out}
    if t == 'BTreeMap': return TreeMap((s.eq_key(a), b) for a, b in out)
    if t == 'IndexMap': return OrderedDict((s.eq_key(a), b) for a, b in out)
    if t in SETS: return SETS[t](out)
    return out


def m_iter(s, rp, it, m, args, hint):
    f = args[0] if args else None
    nx = it.next

    def lazy(gen_next, clone=None, extra=()):
        return It(gen_next, (it,) + tuple(extra), clone, 'adapt:' + m)
    if m in ('iter', 'into_iter', 'by_ref', 'iter_mut', 'fuse', 'as_mut'): return it
    if m in ('cloned', 'copied'):
        def n1():
            x = nx()
            return x if x is STOP else s.clone(x)
        r = lazy(n1)
        if hasattr(it, 'back'): r.back = lambda: (lambda x: x if x is STOP else s.clone(x))(it.back())
        return r
    if m == 'clone': return it.clone()
    if m == 'next':
        x = nx()
        return NONE if x is STOP else Some(x)
    if m == 'next_back':
        x = it.back()
        return NONE if x is STOP else Some(x)
    if m == 'peekable': return it
    if m == 'peek':
        if not it.peeked:
            x = it.nxt()
            it.peeked.append(x)
        x = it.peeked[-1]
        return NONE if x is STOP else Some(x)
    if m in ('next_if', 'next_if_eq'):
        if not it.peeked: it.peeked.append(it.nxt())
        x = it.peeked[-1]
        if x is STOP: return NONE
        ok = s.truth(s.call(f, [x])) if m == 'next_if' else s.truth(s.eq(x, s.deref(f)))
        if ok:
            it.peeked.pop(); return Some(x)
        return NONE
    if m == 'as_str' and isinstance(it, InChars): return InStr(it.inp, it.pos, it.end)
    if m == 'as_str' and hasattr(it, 'as_text'): return it.as_text()
    if m == 'as_str' and it.kind == 'list':
        st = it.parts[1]
        return ''.join(chr(c.c) for c in it.parts[0][st['i']:st['j']])
    if m == 'map':
        def n2():
            x = nx()
            return x if x is STOP else s.call(f, [x])
        r = lazy(n2)
        if hasattr(it, 'back'): r.back = lambda: (lambda x: x if x is STOP else s.call(f, [x]))(it.back())
        return r
    if m in ('filter', 'skip_while', 'take_while', 'map_while', 'inspect'):
        st = {'on': False}

        def n3():
            while True:
                s.tick()
                if m == 'take_while' and st['on']: return STOP
                x = nx()
                if x is STOP: return x
                if m == 'inspect': s.call(f, [x]); return x
                if m == 'map_while':
                    r = s.deref(s.call(f, [x]))
                    return STOP if r.var == 'None' else r.f[0]
                if m == 'skip_while' and st['on']: return x
                t = s.truth(s.call(f, [x]))
                if m == 'filter':
                    if t: return x
                elif m == 'take_while':
                    if t: return x
                    st['on'] = True
                    return STOP
                elif m == 'skip_while':
                    if not t:
                        st['on'] = True
                        return x
        return lazy(n3, None, (st,))
    if m == 'filter_map':
        def n4():
            while True:
                x = nx()
                if x is STOP: return x
                r = s.deref(s.call(f, [x]))
                if r.var in ('Some', 'Ok'): return r.f[0]
        return lazy(n4)
    if m == 'enumerate':
        st = {'i': -1}

        def n5():
            x = nx()
            if x is STOP: return x
            st['i'] += 1
            return (st['i'], x)
        r = lazy(n5, None, (st,))
        if it.kind == 'list' and st['i'] == -1:
            lst, st0 = it.parts
            def back():
                x = it.back()
                return x if x is STOP else (st0['j'], x)
            if st0['i'] == 0: r.back = back
        return r
    if m == 'zip':
        o = s.iter_of(f)

        def n6():
            a = nx()
            if a is STOP: return a
            b = o.next()
            return STOP if b is STOP else (a, b)
        return lazy(n6, None, (o,))
    if m == 'chain':
        o = s.iter_of(f)

        def n7():
            a = nx()
            return o.next() if a is STOP else a
        return lazy(n7, None, (o,))
    if m == 'rev':
        if not hasattr(it, 'back'):
            if it.kind == 'in': raise Unknown('reversed input')
            return s.iter_of(s.collect(it, None)[::-1])
        return It(it.back, (it, 'rev'), None, 'rev')
    if m in ('skip', 'take', 'step_by'):
        n = s.deref(f)
        if not isinstance(n, int): raise Unknown(m)
        st = {'n': n}

        def n8():
            if m == 'take':
                if st['n'] <= 0: return STOP
                st['n'] -= 1
                return nx()
            if m == 'skip':
                while st['n'] > 0:
                    st['n'] -= 1
                    if nx() is STOP: return STOP
                return nx()
            x = nx()
            for _ in range(n - 1): nx()
            return x
        return lazy(n8, None, (st,))
    if m in ('flat_map', 'flatten'):
        st = {'cur': None}

        def n9():
            while True:
                if st['cur'] is not None:
                    x = st['cur'].next()
                    if x is not STOP: return x
                x = nx()
                if x is STOP: return x
                st['cur'] = s.iter_of(s.call(f, [x]) if m == 'flat_map' else x)
        return lazy(n9, None, (st,))
    # consumers
    s.temps.append(it)
    try:
        if m == 'collect': return s.collect(it, hint)
        if m in ('count',):
            n = 0
            while nx() is not STOP: n += 1
            return n
        if m == 'len':
            if it.kind == 'list': return (len(it.parts[0]) if it.parts[1]['j'] is None else it.parts[1]['j']) - it.parts[1]['i']
            if getattr(it, 'n', None): return it.n()
        if m in ('any', 'all'):
            while True:
                s.tick()
                x = nx()
                if x is STOP: return m == 'all'
                if s.truth(s.call(f, [x])) == (m == 'any'): return m == 'any'
        if m in ('find', 'position', 'find_map', 'rposition'):
            if m == 'rposition': raise Unknown(m)
            i = 0
            base = it.pos if isinstance(it, InChars) else None
            while True:
                s.tick()
                at = it.pos if isinstance(it, InChars) else None
                x = nx()
                if x is STOP: return NONE
                if m == 'find_map':
                    r = s.deref(s.call(f, [x]))
                    if r.var == 'Some': return r
                    continue
                if s.truth(s.call(f, [x])):
                    if m == 'find': return Some(x)
                    if base is not None:
                        return Some(Off(it.inp, base, at)) if it.mode == 'bytes' else Some(Top('character position'))
                    return Some(i)
                i += 1
        if m in ('fold',):
            acc = f
            while True:
                x = nx()
                if x is STOP: return acc
                acc = s.call(args[1], [acc, x])
        if m in ('try_fold', 'try_for_each'):
            acc = f if m == 'try_fold' else UNIT
            while True:
                x = nx()
                if x is STOP: return Ok(acc)
                r = s.deref(s.call(args[1], [acc, x]) if m == 'try_fold' else s.call(f, [x]))
                if r.var in ('Err', 'None'): return r
                acc = r.f[0]
        if m == 'for_each':
            while True:
                x = nx()
                if x is STOP: return UNIT
                s.call(f, [x])
        if m in ('sum', 'product'):
            acc = 0 if m == 'sum' else 1
            while True:
                x = nx()
                if x is STOP: return acc
                acc = s.binop('+' if m == 'sum' else '*', acc, s.deref(x))
        if m in ('max', 'min', 'max_by_key', 'min_by_key'):
            xs = s.collect(it, None)
            if not xs: return NONE
            key = (lambda x: s.deref(s.call(f, [x]))) if 'key' in m else (lambda x: x)
            return Some((max if m.startswith('max') else min)(xs, key=key))
        if m == 'last':
            xs = s.collect(it, None)
            return Some(xs[-1]) if xs else NONE
        if m == 'nth':
            for _ in range(s.deref(f)):
                if nx() is STOP: return NONE
            x = nx()
            return NONE if x is STOP else Some(x)
        if m == 'partition':
            a, b = [], []
            for x in s.collect(it, None): (a if s.truth(s.call(f, [x])) else b).append(x)
            return (a, b)
        if m == 'unzip':
            xs = s.collect(it, None)
            return ([a for a, _ in xs], [b for _, b in xs])
        if m == 'eq':
            return s.eq(s.collect(it, None), s.collect(s.iter_of(f), None))
        if m == 'join':
            return s.m_list(None, s.collect(it, None), 'join', args, None)
    finally:
        s.temps.pop()
    raise Unknown('iterator.' + m)


def m_list(s, rp, v, m, args, hint):
    a = [s.deref(x) for x in args]
    if m == 'len': return len(v)
    if m == 'is_empty': return not v
    if m == 'push': v.append(a[0]); return UNIT
    if m == 'push_back': v.append(a[0]); return UNIT
    if m == 'push_front': v.insert(0, a[0]); return UNIT
    if m == 'pop_back': return Some(v.pop()) if v else NONE
    if m == 'front': m = 'first'
    if m == 'back': m = 'last'
    if m == 'front_mut': m = 'first_mut'
    if m == 'back_mut': m = 'last_mut'
    if m == 'make_contiguous': return v
    if m == 'pop': return Some(v.pop()) if v else NONE
    if m == 'pop_front': return Some(v.pop(0)) if v else NONE
    if m in ('iter', 'into_iter'): return s.iter_of(v)
    if m == 'drain':
        r = a[0]
        if not isinstance(r, RangeV): raise Unknown('drain')
        x = list(s.slice(v, r)); lo = r.lo or 0
        del v[lo:lo + len(x)]
        return s.iter_of(x)
    if m == 'iter_mut': return s.iter_of([Place((lambda i: lambda: v[i])(i), (lambda i: lambda x: v.__setitem__(i, x))(i)) for i in range(len(v))])
    if m == 'first': return Some(v[0]) if v else NONE
    if m == 'last': return Some(v[-1]) if v else NONE
    if m in ('last_mut', 'first_mut'):
        if not v: return NONE
        i = len(v) - 1 if m == 'last_mut' else 0
        return Some(Place(lambda: v[i], lambda x: v.__setitem__(i, x)))
    if m in ('get', 'get_mut'):
        i = a[0]
        if isinstance(i, RangeV):
            try: return Some(s.slice(v, i))
            except Panic: return NONE
        if isinstance(i, int):
            if not 0 <= i < len(v): return NONE
            return Some(Place(lambda: v[i], lambda x: v.__setitem__(i, x)) if m == 'get_mut' else v[i])
    if m == 'contains': return any(s.truth(s.eq(x, a[0])) for x in v)
    if m == 'extend':
        it = s.iter_of(args[0])
        while True:
            x = it.next()
            if x is STOP: return UNIT
            v.append(s.deref(x))
    if m == 'extend_from_slice' or m == 'append':
        if not isinstance(a[0], list): raise Unknown('extend_from_slice')
        v.extend(a[0])
        if m == 'append': a[0].clear()
        return UNIT
    if m == 'insert':
        if not isinstance(a[0], int): raise Unknown('insert')
        if a[0] > len(v): raise Panic('insert')
        v.insert(a[0], a[1]); return UNIT
    if m == 'remove':
        if not 0 <= a[0] < len(v): raise Panic('remove')
        return v.pop(a[0])
    if m == 'clear': v.clear(); return UNIT
    if m == 'truncate': del v[a[0]:]; return UNIT
    if m == 'resize':
        n = a[0]
        if n < len(v): del v[n:]
        else: v.extend([a[1]] * (n - len(v)))
        return UNIT
    if m == 'reverse': v.reverse(); return UNIT
    if m == 'swap': v[a[0]], v[a[1]] = v[a[1]], v[a[0]]; return UNIT
    if m in ('rotate_left', 'rotate_right'):
        n = a[0]
        if not isinstance(n, int): raise Unknown(m)
        if n > len(v): raise Panic(m)
        if m == 'rotate_right': n = len(v) - n
        v[:] = v[n:] + v[:n]
        return UNIT
    if m == 'copy_within':
        x = list(s.slice(v, a[0]))
        if a[1] + len(x) > len(v): raise Panic(m)
        v[a[1]:a[1] + len(x)] = x
        return UNIT
    if m == 'split_at_mut': return (View(v, 0, a[0]), View(v, a[0], len(v)))
    if m in ('chunks_mut', 'chunks_exact_mut'): return s.iter_of([View(v, i, min(i + a[0], len(v))) for i in range(0, len(v) if m == 'chunks_mut' else len(v) // a[0] * a[0], a[0])])
    if m in ('sort', 'sort_unstable'): v.sort(key=lambda x: x); return UNIT
    if m in ('sort_by_key',): v.sort(key=lambda x: s.deref(s.call(args[0], [x]))); return UNIT
    if m == 'dedup':
        out = []
        for x in v:
            if not out or not s.truth(s.eq(out[-1], x)): out.append(x)
        v[:] = out
        return UNIT
    if m == 'retain': v[:] = [x for x in v if s.truth(s.call(args[0], [x]))]; return UNIT
    if m == 'copy_from_slice' or m == 'clone_from_slice':
        if len(a[0]) != len(v): raise Panic('copy_from_slice')
        v[:] = a[0]
        if isinstance(rp, Place): pass
        return UNIT
    if m == 'concat':
        if all(isinstance(s.deref(x), list) for x in v): return [y for x in v for y in s.deref(x)]
        r = ''
        for x in v: r = s.scat(r, s.deref(x))
        return r
    if m == 'join':
        if v and isinstance(s.deref(v[0]), list):
            out = []
            for i, x in enumerate(v):
                if i: out += a[0] if isinstance(a[0], list) else [a[0]]
                out += s.deref(x)
            return out
        r = ''
        for i, x in enumerate(v):
            if i: r = s.scat(r, a[0])
            r = s.scat(r, s.deref(x))
        return r
    if m == 'starts_with': return len(v) >= len(a[0]) and s.truth(s.eq(v[:len(a[0])], a[0]))
    if m == 'ends_with': return len(v) >= len(a[0]) and s.truth(s.eq(v[len(v) - len(a[0]):], a[0]))
    if m in ('split_first',): return Some((v[0], v[1:])) if v else NONE
    if m == 'split_last': return Some((v[-1], v[:-1])) if v else NONE
    if m == 'split_at': return (v[:a[0]], v[a[0]:])
    if m in ('chunks', 'chunks_exact'): return s.iter_of([v[i:i + a[0]] for i in range(0, len(v) if m == 'chunks' else len(v) // a[0] * a[0], a[0])])
    if m == 'windows': return s.iter_of([v[i:i + a[0]] for i in range(0, len(v) - a[0] + 1)])
    if m in ('as_ptr', 'into_boxed_slice', 'to_vec', 'clone', 'into_vec'): return list(v) if isinstance(v, View) else v
    if m == 'fill': v[:] = [a[0]] * len(v); return UNIT
    if m == 'reserve' or m == 'shrink_to_fit': return UNIT
    if m == 'capacity': return Top('capacity')
    return s.m_iter(rp, s.iter_of(v), m, args, hint)


def m_dict(s, rp, v, m, args):
    k = s.eq_key(args[0]) if args and m not in ('extend', 'retain') else None
    if m == 'insert':
        o = Some(v[k]) if k in v else NONE
        v[k] = s.deref(args[1])
        return o
    if m == 'get': return Some(v[k]) if k in v else NONE
    if m == 'get_mut': return Some(Place(lambda: v[k], lambda x: v.__setitem__(k, x))) if k in v else NONE
    if m == 'contains_key': return k in v
    if m in ('remove', 'shift_remove', 'swap_remove'): return Some(v.pop(k)) if k in v else NONE
    if m == 'entry': return Adt('Entry', None, [v, k])
    if m == 'len': return len(v)
    if m == 'is_empty': return not v
    if m == 'clear': v.clear(); return UNIT
    if m in ('keys', 'into_keys'):
        return s.iter_of(list(s.keys_of(v)))
    if m in ('values', 'into_values'):
        return s.iter_of([v[q] for q in s.keys_of(v)])
    if m in ('iter', 'into_iter', 'drain'): return s.iter_of(v)
    if m == 'values_mut' or m == 'iter_mut':
        def pl(q): return Place(lambda: v[q], lambda x: v.__setitem__(q, x))
        return s.iter_of([pl(q) if m == 'values_mut' else (q, pl(q)) for q in s.keys_of(v)])
    if m == 'extend':
        it = s.iter_of(args[0])
        while True:
            x = it.next()
            if x is STOP: return UNIT
            v[s.eq_key(x[0])] = x[1]
    raise Unknown('map.' + m)


def m_set(s, rp, v, m, args):
    k = s.eq_key(args[0]) if args else None
    if m == 'insert':
        n = k not in v
        v.add(k); return n
    if m == 'contains': return k in v
    if m == 'remove':
        n = k in v
        v.discard(k); return n
    if m == 'len': return len(v)
    if m == 'is_empty': return not v
    if m in ('iter', 'into_iter'): return s.iter_of(v)
    if m == 'clear': v.clear(); return UNIT
    raise Unknown('set.' + m)


def pat_set(s, p):
    """set of characters a char-pattern matches; None when it is a text"""
    p = s.deref(p)
    if isinstance(p, CP): return ((p.c, p.c),)
    if isinstance(p, list) and all(isinstance(x, CP) for x in p): return tuple((x.c, x.c) for x in p)
    return None


def pat_text(s, p):
    p = s.deref(p)
    if isinstance(p, str): return p
    return None


def cmatch(s, p):
    st = s.pat_set(p)
    if st is not None: return lambda c: any(a <= ord(c) <= b for a, b in st)
    p = s.deref(p)
    if isinstance(p, (Closure, FnRef, NFn)): return lambda c: s.truth(s.call(p, [CP(ord(c))]))
    return None


def from_radix(s, t, radix):
    t2 = t
    if radix == 16 and t2[:2] in ('0x', '0X'): t2 = t2[2:]
    try:
        v = int(t2, radix) if t2 and '_' not in t2 and not t2.startswith(('+', '-')) else None
    except ValueError:
        v = None
    return v


def m_str(s, rp, v, m, args, hint):
    a = [s.deref(x) for x in args]
    if m in ('to_string', 'as_str', 'to_owned', 'into_owned', 'to_string_lossy', 'as_ref', 'into_boxed_str', 'into_string'): return v
    if m == 'len': return len(v.encode())
    if m == 'is_empty': return v == ''
    if m == 'chars': return s.iter_of([CP(ord(c)) for c in v])
    if m == 'char_indices':
        out, o = [], 0
        for c in v:
            out.append((o, CP(ord(c)))); o += len(c.encode())
        return s.iter_of(out)
    if m in ('bytes',): return s.iter_of(list(v.encode()))
    if m in ('as_bytes', 'into_bytes', 'to_vec'): return list(v.encode())
    if m == 'push':
        rp.set(s.scat(v, chr(a[0].c) if isinstance(a[0], CP) else SymStr([a[0]]))); return UNIT
    if m == 'push_str':
        rp.set(s.scat(v, a[0]) if not isinstance(a[0], InStr) else SymStr([v, a[0]])); return UNIT
    if m == 'pop':
        if not v: return NONE
        rp.set(v[:-1]); return Some(CP(ord(v[-1])))
    if m == 'remove':
        b = v.encode()
        if a[0] >= len(b): raise Panic('remove')
        i = len(b[:a[0]].decode())
        rp.set(v[:i] + v[i + 1:]); return CP(ord(v[i]))
    if m == 'clear': rp.set(''); return UNIT
    if m == 'truncate': rp.set(v.encode()[:a[0]].decode()); return UNIT
    if m == 'insert': rp.set(v[:a[0]] + chr(a[1].c) + v[a[0]:]); return UNIT
    if m == 'insert_str': rp.set(s.scat(s.scat(v[:a[0]], a[1]), v[a[0]:])); return UNIT
    if m in ('reserve', 'shrink_to_fit'): return UNIT
    t = s.pat_text(a[0]) if a else None
    cm = cmatch(s, args[0]) if args and t is None and not isinstance(a[0], (int, RangeV)) else None
    if m == 'contains':
        if t is not None: return t in v
        if cm: return any(cm(c) for c in v)
        if isinstance(a[0], SymStr): return Top('contains')
    if m == 'starts_with': return v.startswith(t) if t is not None else bool(v) and cm(v[0])
    if m == 'ends_with': return v.endswith(t) if t is not None else bool(v) and cm(v[-1])
    if m in ('trim', 'trim_start', 'trim_end'):
        return {'trim': str.strip, 'trim_start': str.lstrip, 'trim_end': str.rstrip}[m](v)
    if m in ('trim_start_matches', 'trim_end_matches', 'trim_matches'):
        if t is not None:
            if not t: return v
            if m != 'trim_end_matches':
                while v.startswith(t): v = v[len(t):]
            if m != 'trim_start_matches':
                while v.endswith(t): v = v[:-len(t)]
            return v
        if m != 'trim_end_matches':
            while v and cm(v[0]): v = v[1:]
        if m != 'trim_start_matches':
            while v and cm(v[-1]): v = v[:-1]
        return v
    if m == 'strip_prefix':
        if t is not None: return Some(v[len(t):]) if v.startswith(t) else NONE
        return Some(v[1:]) if v and cm(v[0]) else NONE
    if m == 'strip_suffix':
        if t is not None: return Some(v[:len(v) - len(t)]) if v.endswith(t) else NONE
        return Some(v[:-1]) if v and cm(v[-1]) else NONE
    if m in ('find', 'rfind'):
        if t is not None: i = v.find(t) if m == 'find' else v.rfind(t)
        else:
            ix = [i for i, c in enumerate(v) if cm(c)]
            i = -1 if not ix else (ix[0] if m == 'find' else ix[-1])
        return NONE if i < 0 else Some(len(v[:i].encode()))
    if m in ('split', 'rsplit', 'split_terminator'):
        if t is not None: r = v.split(t)
        else:
            r, cur = [], ''
            for c in v:
                if cm(c): r.append(cur); cur = ''
                else: cur += c
            r.append(cur)
        return s.iter_of(r if m != 'rsplit' else r[::-1])
    if m in ('splitn', 'rsplitn'):
        t = a[1] if isinstance(a[1], str) else chr(a[1].c)
        r = v.split(t, a[0] - 1) if m == 'splitn' else v.rsplit(t, a[0] - 1)[::-1]
        return s.iter_of(r)
    if m in ('split_once', 'rsplit_once'):
        tt = t if t is not None else (chr(a[0].c) if isinstance(a[0], CP) else None)
        if tt is None: raise Unknown(m)
        p = v.partition(tt) if m == 'split_once' else v.rpartition(tt)
        return Some((p[0], p[2])) if p[1] else NONE
    if m == 'lines': return s.iter_of([x[:-1] if x.endswith('\r') else x for x in (v[:-1] if v.endswith('\n') else v).split('\n')] if v else [])
    if m == 'split_whitespace': return s.iter_of(v.split())
    if m == 'split_at': b = v.encode(); return (b[:a[0]].decode(), b[a[0]:].decode())
    if m == 'replace' or m == 'replacen':
        if t is None: t = chr(a[0].c) if isinstance(a[0], CP) else None
        if t is None: raise Unknown(m)
        return v.replace(t, a[1]) if m == 'replace' else v.replace(t, a[1], a[2])
    if m in ('to_lowercase', 'to_ascii_lowercase'): return v.lower()
    if m in ('to_uppercase', 'to_ascii_uppercase'): return v.upper()
    if m == 'eq_ignore_ascii_case': return v.lower() == a[0].lower()
    if m == 'repeat': return v * a[0]
    if m == 'get':
        try: return Some(s.slice(v, a[0]))
        except (Panic, UnicodeDecodeError): return NONE
    if m == 'is_char_boundary': return True
    if m == 'parse':
        t = s.tyname(hint) if hint else None
        if t in s.INTB:
            n = s.from_radix(v, 10)
            if n is None or n >= 1 << s.INTB[t]: return Err('ParseIntError')
            return Ok(n)
        im = s.impls.get((t, 'from_str'))
        if isinstance(im, dict): return s.call_fn(im, [v], selfty=t)
        if t is None:
            cand = [x for x in s.impls if x[1] == 'from_str']
            if len(cand) == 1: return s.call_fn(s.impls[cand[0]], [v], selfty=cand[0][0])
        raise Unknown('parse')
    if m == 'fmt': s.write_to(args[0], v); return Ok(UNIT)
    raise Unknown('str.' + m)


DIG = {10: ((48, 57),), 16: ((48, 57), (65, 70), (97, 102)), 8: ((48, 55),), 2: ((48, 49),)}


def m_char(s, v, m, args):
    a = [s.deref(x) for x in args]
    if m in ('clone', 'to_owned'): return v
    if isinstance(v, ByteOf):
        if m in CLS:
            if m == 'is_ascii': return s.split_ch(v.ch, ((0, 127),))
            c = s.byte_ch(v)
            return s.m_char(c, m, args) if isinstance(c, Ch) else False
        raise Unknown('byte.' + m)
    if m in CLS:
        st = CLS[m]
        if isinstance(v, CP): return any(x <= v.c <= y for x, y in st)
        if isinstance(v, Ch): return s.split_ch(v, st)
    if m == 'is_digit':
        st = DIG[a[0]]
        if isinstance(v, CP): return any(x <= v.c <= y for x, y in st)
        if isinstance(v, Ch): return s.split_ch(v, st)
    if m == 'to_digit':
        r = a[0]
        if r not in DIG: raise Unknown('to_digit radix')
        if isinstance(v, CP):
            try: return Some(int(chr(v.c), r)) if any(x <= v.c <= y for x, y in DIG[r]) else NONE
            except ValueError: return NONE
        if isinstance(v, Ch):
            if s.split_ch(v, DIG[r]): return Some(Lin(0, [(('dig', v.idx, r - 1), 1)]))
            return NONE
    if m in ('len_utf8', 'len_utf16'):
        if isinstance(v, CP): return len(chr(v.c).encode())
        if isinstance(v, Ch) and v.set[-1][1] < 128: return 1
        return Top('len_utf8')
    if m == 'to_string': return chr(v.c) if isinstance(v, CP) else SymStr([v])
    if isinstance(v, CP):
        c = chr(v.c)
        if m == 'is_alphabetic': return c.isalpha()
        if m == 'is_alphanumeric': return c.isalnum()
        if m == 'is_numeric': return c.isnumeric()
        if m == 'is_uppercase': return c.isupper()
        if m == 'is_lowercase': return c.islower()
        if m == 'to_ascii_lowercase': return CP(ord(c.lower())) if v.c < 128 else v
        if m == 'to_ascii_uppercase': return CP(ord(c.upper())) if v.c < 128 else v
    raise Unknown('char.' + m)


def expand(s, v):
    """flat item list of a text"""
    out = []
    if isinstance(v, str): return [CP(ord(c)) for c in v]
    if isinstance(v, InStr):
        k = v.a
        while v.b is None or k < v.b:
            c = v.inp.get(k)
            if c is None: break
            out.append(c); k += 1
        return out
    if isinstance(v, SymStr):
        for p in v.parts:
            if isinstance(p, (str, InStr, SymStr)): out += expand(s, p)
            else: out.append(p)
        return out
    raise Unknown(f'text {v!r}')


def m_instr(s, rp, v, m, args):
    a = [s.deref(x) for x in args]
    if m in ('to_string', 'as_str', 'to_owned', 'clone'): return v
    if v.a == 0 and v.inp.cells and m not in ('len', 'is_empty'): s.reread = True
    if m == 'chars': return InChars(v.inp, v.a, v.b)
    if m == 'char_indices': return InChars(v.inp, v.a, v.b, 'idx', v.a)
    if m in ('bytes',): return InChars(v.inp, v.a, v.b, 'bytes')
    if m == 'len':
        if v.b is not None: return Off(v.inp, v.a, v.b)
        return Off(v.inp, v.a, None)
    if m == 'is_empty':
        if v.b is not None: return v.a >= v.b
        return v.inp.get(v.a) is None
    if m == 'contains':
        st = s.pat_set(args[0])
        if st is not None and len(v.inp.cells) <= v.a and v.b is None and not v.inp.ended:
            if s.choose(2, 'contains') == 0: return True
            v.inp.universe = isect(v.inp.universe, compl(st))
            return False
        if st is not None:
            k = v.a
            while v.b is None or k < v.b:
                c = v.inp.get(k)
                if c is None: return False
                if s.split_ch(c, st): return True
                k += 1
            return False
        t = s.pat_text(args[0])
        if t is not None: return Top('contains')
    if m in ('starts_with', 'strip_prefix'):
        st = s.pat_set(args[0])
        t = [st] if st is not None else [((ord(c), ord(c)),) for c in s.pat_text(args[0]) or '']
        if not t: raise Unknown(m)
        for i, q in enumerate(t):
            if v.b is not None and v.a + i >= v.b: return False if m == 'starts_with' else NONE
            c = v.inp.get(v.a + i)
            if c is None or not s.split_ch(c, q): return False if m == 'starts_with' else NONE
        return True if m == 'starts_with' else Some(InStr(v.inp, v.a + len(t), v.b))
    if m in ('trim_start', 'trim_start_matches'):
        st = WS if m == 'trim_start' else s.pat_set(args[0])
        cl = None
        if st is None:
            cl = s.deref(args[0])
            if not isinstance(cl, Closure): raise Unknown(m)
        k = v.a
        while v.b is None or k < v.b:
            c = v.inp.get(k)
            if c is None: break
            if not (s.split_ch(c, st) if st else s.truth(s.call(cl, [c]))): break
            k += 1
        return InStr(v.inp, k, v.b)
    if m in ('find',):
        st = s.pat_set(args[0])
        cl = s.deref(args[0])
        k = v.a
        while v.b is None or k < v.b:
            c = v.inp.get(k)
            if c is None: return NONE
            if (s.split_ch(c, st) if st else s.truth(s.call(cl, [c]))): return Some(Off(v.inp, v.a, k))
            k += 1
        return NONE
    raise Unknown('text.' + m)


def sym_trim(s, parts, st, both):
    """strip characters of set st from the ends named in both ('l', 'r')"""
    p = list(parts)
    def covers(x):
        # 'in' all chars in st, 'out' none in st
        cs = x[1]
        if cs == 'any': return None
        i = isect(cs, st)
        if not i: return 'out'
        return 'in' if i == tuple(sorted(cs)) else None
    for side in both:
        while p:
            x = p[0] if side == 'l' else p[-1]
            if isinstance(x, str):
                y = x
                while y and any(a <= ord(y[0 if side == 'l' else -1]) <= b for a, b in st):
                    y = y[1:] if side == 'l' else y[:-1]
                if y:
                    p[0 if side == 'l' else -1] = y
                    break
                p.pop(0 if side == 'l' else -1)
                continue
            if isinstance(x, tuple):
                c = covers(x)
                if c == 'out' and x[2] >= 1: break
                if c == 'in':
                    p.pop(0 if side == 'l' else -1)
                    continue
                raise Unknown('trim of unknown text')
            raise Unknown('trim of unknown text')
    return SymStr(p)


def m_symstr(s, rp, v, m, args):
    a = [s.deref(x) for x in args]
    if m in ('to_string', 'as_str', 'to_owned', 'clone', 'into_owned'): return v
    if m == 'push':
        rp.set(s.scat(v, chr(a[0].c) if isinstance(a[0], CP) else SymStr([a[0]]))); return UNIT
    if m == 'push_str':
        rp.set(s.scat(v, a[0] if not isinstance(a[0], InStr) else SymStr([a[0]]))); return UNIT
    if m == 'clear': rp.set(''); return UNIT
    if m == 'len': return s.symlen(v) if all(isinstance(p, (str, tuple)) for p in v.parts) else Top('len')
    if m == 'is_empty':
        return False if any(isinstance(p, str) or (isinstance(p, tuple) and p[2] > 0) or isinstance(p, (Ch, CharOf)) for p in v.parts) else Top('is_empty')
    p = list(v.parts)
    if m == 'remove' and a[0] == 0:
        if isinstance(p[0], str):
            c = p[0][0]; p[0] = p[0][1:]
            rp.set(SymStr(p)); return CP(ord(c))
    if m == 'pop':
        s.bufread = True
        x = p[-1]
        if isinstance(x, str):
            p[-1] = x[:-1]; rp.set(SymStr(p)); return Some(CP(ord(x[-1])))
        if isinstance(x, (Ch, CharOf)):
            rp.set(SymStr(p[:-1])); return Some(x)
    st = s.pat_set(args[0]) if args else None
    t = s.pat_text(args[0]) if args else None
    if m in ('trim_matches', 'trim_start_matches', 'trim_end_matches', 'trim', 'trim_start', 'trim_end'):
        sides = {'m': 'lr', 's': 'l', 'e': 'r'}[{'trim_matches': 'm', 'trim': 'm', 'trim_start_matches': 's', 'trim_start': 's'}.get(m, 'e')]
        if m in ('trim', 'trim_start', 'trim_end'): st = WS
        if st is None and t is not None and len(t) == 1: st = ((ord(t), ord(t)),)
        if st is not None: return s.sym_trim(p, st, sides)
        if t is not None:
            if 'l' in sides:
                while isinstance(p[0], str) and p[0].startswith(t):
                    p[0] = p[0][len(t):]
                    if not p[0]: p.pop(0); break
                x = p[0]
                if isinstance(x, tuple) and (x[1] == 'any' or isect(x[1], ((ord(t[0]), ord(t[0])),))): raise Unknown('trim of unknown text')
            if 'r' in sides:
                while isinstance(p[-1], str) and p[-1].endswith(t):
                    p[-1] = p[-1][:-len(t)]
                    if not p[-1]: p.pop(); break
                x = p[-1]
                if isinstance(x, tuple) and (x[1] == 'any' or isect(x[1], ((ord(t[-1]), ord(t[-1])),))): raise Unknown('trim of unknown text')
            return SymStr(p)
    if m in ('strip_prefix', 'strip_suffix', 'starts_with', 'ends_with'):
        q = t if t is not None else (chr(a[0].c) if isinstance(a[0], CP) else None)
        pre = m in ('strip_prefix', 'starts_with')
        x = p[0] if pre else p[-1]
        if q is not None and isinstance(x, str) and len(x) >= len(q):
            ok = x.startswith(q) if pre else x.endswith(q)
            if 'with' in m: return ok
            if not ok: return NONE
            if pre: p[0] = x[len(q):]
            else: p[-1] = x[:len(x) - len(q)]
            return Some(SymStr(p))
        return s.sym_affix(v, m, q) if hasattr(s, 'sym_affix') else Top(m)
    if m == 'contains': return Top('contains')
    if m in ('chars', 'bytes', 'as_bytes'):
        return s.sym_chars(v, m)
    raise Unknown('text.' + m)


def m_int(s, rp, v, m, args, hint):
    a = [s.deref(x) for x in args]
    if m == 'to_string': return str(v) if isinstance(v, int) else SymStr([('fmt', 'any', 1, None)])
    if isinstance(v, IW):
        b, sg = s.INTB[v.t], v.t[0] == 'i'
        M = (1 << b) - 1
        sgn = lambda x: IW(x - (1 << b) if sg and x >> (b - 1) else x, v.t)
        if m in ('to_be_bytes', 'to_le_bytes', 'to_ne_bytes'): return list((v & M).to_bytes(b // 8, 'big' if m[3] == 'b' else 'little'))
        if m in ('wrapping_add', 'wrapping_sub', 'wrapping_mul') and isinstance(a[0], int):
            return sgn({'a': v + a[0], 's': v - a[0], 'm': v * a[0]}[m[9]] & M)
        if m in ('swap_bytes', 'to_be'): return sgn(int.from_bytes((v & M).to_bytes(b // 8, 'big'), 'little'))
        if m == 'to_le': return v
        if m == 'leading_zeros': return b - (v & M).bit_length()
        if m == 'trailing_zeros': return b if not v & M else ((v & -v) & M).bit_length() - 1
        if m == 'count_ones': return bin(v & M).count('1')
        if m in ('rotate_left', 'rotate_right') and isinstance(a[0], int):
            k = a[0] % b if m[7] == 'l' else -a[0] % b
            return sgn(((v & M) << k | (v & M) >> (b - k)) & M)
        if m in ('saturating_add', 'saturating_mul', 'checked_add', 'checked_mul', 'checked_sub') and isinstance(a[0], int):
            r = int(v) + a[0] if 'add' in m else int(v) * a[0] if 'mul' in m else int(v) - a[0]
            lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if sg else (0, M)
            if m[0] == 'c': return Some(IW(r, v.t)) if lo <= r <= hi else NONE
            return IW(min(hi, max(lo, r)), v.t)
    if isinstance(v, int) and not isinstance(v, bool):
        if m in CLS: return any(x <= v <= y for x, y in CLS[m])
        if m in ('min', 'max') and isinstance(a[0], int): return min(v, a[0]) if m == 'min' else max(v, a[0])
        if m == 'pow': return v ** a[0]
        if m == 'abs': return abs(v)
        if m in ('wrapping_add', 'add') and isinstance(a[0], int): return v + a[0]
        if m in ('wrapping_sub', 'sub'): return v - a[0]
        if m == 'wrapping_mul': return v * a[0]
        if m == 'saturating_sub': return max(0, v - a[0])
        if m in ('saturating_add',): return v + a[0]
        if m == 'checked_add': return Some(v + a[0])
        if m == 'checked_sub': return Some(v - a[0]) if v >= a[0] else NONE
        if m == 'checked_mul': return Some(v * a[0])
        if m == 'div_ceil': return -(-v // a[0])
        if m == 'is_power_of_two': return v > 0 and v & (v - 1) == 0
        if m == 'abs_diff': return abs(v - a[0])
    if isinstance(v, bool):
        if m == 'then': return Some(s.call(args[0], [])) if v else NONE
        if m == 'then_some': return Some(a[0]) if v else NONE
        if m == 'not': return not v
    if m == 'add' : return s.binop('+', v, a[0])
    r = s.int_hook(v, m, a) if hasattr(s, 'int_hook') else NotImplemented
    if r is not NotImplemented: return r
    raise Unknown(f'int.{m}')


def m_u256(s, v, m, args):
    a = [s.deref(x) for x in args]
    if m in ('as_u64', 'low_u64', 'as_u32', 'low_u32', 'as_usize', 'as_u128'):
        bits = {'64': 64, '32': 32, 'ze': 64, '28': 128}[m[-2:]]
        if v.v >> bits and m.startswith('as'): raise Panic('integer overflow when casting U256')
        return v.v & ((1 << bits) - 1)
    if m == 'is_zero': return v.v == 0
    if m == 'to_big_endian':
        d = s.deref(args[0])
        d[:] = list(v.v.to_bytes(32, 'big')); return UNIT
    if m == 'to_little_endian':
        d = s.deref(args[0])
        d[:] = list(v.v.to_bytes(32, 'little')); return UNIT
    if m == 'to_string': return str(v.v)
    if m == 'bits': return v.v.bit_length()
    raise Unknown('U256.' + m)


def default_of(s, hint):
    t = s.tyname(hint) if hint else None
    if t in ('String', 'str'): return ''
    if t in ('Vec', 'VecDeque', '[]'): return []
    if t == 'IndexMap': return OrderedDict()
    if t == 'HashMap': return {}
    if t == 'BTreeMap': return TreeMap()
    if t in SETS: return SETS[t]()
    if t in s.INTB: return 0
    if t == 'bool': return False
    if t == 'Option': return NONE
    if t == 'RefCell': return Adt('RefCell', None, [s.default_of(hint['segs'][-1][1][0])])
    if t in s.enums:
        for v in s.enums[t]['variants']:
            if 'default' in v['attrs']: return Adt(t, v['name'])
    if (t, 'default') in s.impls: return s.call_fn(s.impls[(t, 'default')], [], selfty=t)
    if t in s.types and any('Default' in a for a in s.types[t]['attrs']):
        return Adt(t, None, {f['name']: s.default_of(f['t']) for f in s.types[t]['fields']})
    raise Unknown(f'Default for {t}')


def builtin_call(s, segs, args, node, hint):
    r = s.ext_call(segs, args, node, hint)
    if r is not NotImplemented: return r
    ty = segs[-2][0] if len(segs) >= 2 else ''
    n = segs[-1][0]
    a = [s.deref(x) for x in args]
    if ty in ('String', 'str'):
        if n in ('new', 'with_capacity'): return ''
        if n in ('from', 'from_str'): return a[0]
        if n in ('from_utf8', 'from_utf8_lossy', 'from_utf8_unchecked'):
            if isinstance(a[0], list) and all(isinstance(x, int) for x in a[0]):
                try: t = bytes(a[0]).decode()
                except UnicodeDecodeError: return Err('Utf8Error')
                return Ok(t) if n == 'from_utf8' else t
            return Ok(SymStr([('utf8', 'any', 0, None)]))
    if ty in ('Vec', 'VecDeque') and n in ('new', 'with_capacity'): return []
    if ty == 'Vec' and n == 'from': return list(a[0]) if isinstance(a[0], list) else list(a[0].encode())
    if ty == 'HashMap' and n in ('new', 'with_capacity', 'default'): return {}
    if ty == 'BTreeMap' and n in ('new', 'default'): return TreeMap()
    if ty == 'IndexMap' and n in ('new', 'with_capacity', 'default'): return OrderedDict()
    if ty in SETS and n in ('new', 'with_capacity', 'default'): return SETS[ty]()
    if ty in ('RefCell', 'Cell', 'Mutex') and n == 'new': return Adt('RefCell', None, [a[0]])
    if ty in ('Rc', 'Arc', 'Box', 'Cow', 'Pin') and n in ('new', 'from', 'clone'): return a[0]
    if ty == 'Default' and n == 'default': return s.default_of(hint)
    if n == 'default' and not args: return s.default_of({'k': 'Path', 'segs': [segs[-2]], 's': ty})
    if ty == 'char':
        if n == 'from_u32':
            v = a[0]
            if isinstance(v, int): return Some(CP(v)) if v <= 0x10FFFF and not 0xD800 <= v <= 0xDFFF else NONE
            if isinstance(v, Lin): return Some(CharOf(v)) if s.split_lin(v, FULL) else NONE
        if n == 'from':
            v = a[0]
            if isinstance(v, int): return CP(v)
            if isinstance(v, Lin): return CharOf(v)
            if isinstance(v, (Ch, CP)): return v
        if n == 'from_digit': raise Unknown('from_digit')
    if ty == 'U256':
        if n == 'from':
            v = a[0]
            if isinstance(v, bool): v = int(v)
            if isinstance(v, int):
                if v < 0: raise Panic('U256::from negative')
                return U256v(v)
            if isinstance(v, U256v): return v
        if n == 'zero': return U256v(0)
        if n == 'one': return U256v(1)
        if n == 'max_value': return U256v((1 << 256) - 1)
        if n in ('from_str_radix', 'from_dec_str'):
            if isinstance(a[0], str):
                v = s.from_radix(a[0], a[1] if n == 'from_str_radix' else 10)
                return Ok(U256v(v)) if v is not None and v >> 256 == 0 else Err('FromStrRadixErr')
        if n in ('from_big_endian', 'from_little_endian') and all(isinstance(x, int) for x in a[0]):
            return U256v(int.from_bytes(bytes(a[0]), 'big' if n == 'from_big_endian' else 'little'))
    if ty in s.INTB:
        if n in ('from', 'try_from'):
            v = a[0]
            if isinstance(v, CP): v = v.c
            if isinstance(v, bool): v = int(v)
            if n == 'try_from':
                if isinstance(v, int): return Ok(IW(v, ty)) if (-(1 << s.INTB[ty] - 1) if ty[0] == 'i' else 0) <= v < 1 << s.INTB[ty] - (ty[0] == 'i') else Err('TryFromIntError')
                raise Unknown('try_from')
            return IW(v, ty) if isinstance(v, int) else v
        if n == 'from_str_radix' and isinstance(a[0], str):
            v = s.from_radix(a[0], a[1])
            return Ok(v) if v is not None and v < 1 << s.INTB[ty] else Err('ParseIntError')
        if args:
            if type(a[0]) is int: a[0] = s.typed(a[0], ty)
            return s.m_int(None, a[0], n, args[1:], hint) if not hasattr(s, 'intfn_hook') else s.intfn_hook(ty, n, a, args, hint)
    if ty == 'mem':
        if n == 'swap':
            x, y = args[0].get(), args[1].get()
            args[0].set(y); args[1].set(x); return UNIT
        if n == 'take':
            x = s.deref(args[0])
            p = args[0]
            p.set(NONE if isinstance(x, Adt) else ('' if isinstance(x, (str, SymStr)) else type(x)())); return x
        if n == 'replace':
            x = s.deref(args[0]); args[0].set(a[1]); return x
    if n == 'drop': return UNIT
    if ty == 'iter':
        if n == 'once': return s.iter_of([a[0]])
        if n == 'empty': return s.iter_of([])
        if n == 'repeat': return It(lambda: a[0], (a[0],), None, 'repeat')
    if ty in ('cmp', '') and n in ('max', 'min') and all(isinstance(x, int) for x in a): return (max if n == 'max' else min)(*a)
    if n[:1].isupper() and ty[:1].isupper(): return Adt(ty, n, a)
    if len(args) >= 1 and ty[:1].isupper() and not isinstance(a[0], (int, str)):
        # UFCS
        try:
            return s.method(args[0], a[0], n, args[1:], node, hint)
        except Unknown:
            pass
    raise Unknown('call ' + '::'.join(x[0] for x in segs))
