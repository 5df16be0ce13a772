"""Abstract interpreter for Rust source: expressions, patterns, traces (see rsi_core)."""
from rsi_core import *  # noqa
from rsi_core import single, PLACEK
import rsi_std


class Interp:
    def __init__(s, trees):
        """trees: {file: items}"""
        s.fns, s.types, s.impls, s.consts, s.enums, s.variants = {}, {}, {}, {}, {}, {}
        s.traits, s.filefns, s.aliases = {}, {}, {}
        s.decisions, s.dpos, s.alts = [], 0, []
        s.points, s.temps, s.frames = [], [], []
        s.on_read = lambda inp: None
        s.on_char = lambda inp, c: None
        s.ext_call = lambda segs, args, node, hint: NotImplemented
        s.ext_path = lambda segs, node, hint: NotImplemented
        s.ext_method = lambda recv, m, args, node, hint: NotImplemented
        s.macro_hook = lambda name, args, node: NotImplemented
        s.cons = {}
        s.taint = False
        s.bufread = False
        s.fuel = 2_000_000
        s.calls = set()
        s.debug_build = getattr(s, '_debug_build', False)
        for f, items in trees.items():
            s.load(items, f)

    def cfg_ok(s, attrs):
        for a in attrs or []:
            if a == 'test':
                return False
            if a.startswith('cfg('):
                if a == 'cfg(test)': return False
                if a == 'cfg(debug_assertions)' and not s.debug_build: return False
                if a == 'cfg(not(debug_assertions))' and s.debug_build: return False
                if a == 'cfg(feature="release")': return False
        return True

    def load(s, items, f, mod=''):
        for it in items or []:
            if not s.cfg_ok(it.get('attrs')):
                continue
            k = it['k']
            it['file'] = f
            if k == 'Fn':
                s.filefns[(f, it['name'])] = it
                s.fns.setdefault(it['name'], it)
            elif k == 'Struct':
                s.types[it['name']] = it
            elif k == 'Enum':
                s.enums[it['name']] = it
                for v in it['variants']:
                    s.variants.setdefault(v['name'], []).append(it['name'])
            elif k == 'Const':
                s.consts[it['name']] = it
            elif k == 'Impl':
                t = s.tyname(it['self'])
                for m in it['items']:
                    if m['k'] == 'Fn' and s.cfg_ok(m.get('attrs')):
                        m['file'] = f
                        m['impl'] = t
                        tr = last(it['trait']) if it['trait'] else None
                        m['trait'] = tr
                        key = m['name']
                        if tr == 'From' and key == 'from':
                            src = s.tyname(it['trait'][-1][1][0]) if it['trait'][-1][1] else '?'
                            s.impls.setdefault((t, 'from'), []).append((src, m))
                        else:
                            s.impls[(t, key)] = m
                    elif m['k'] == 'Const':
                        s.consts[t + '::' + m['name']] = m
            elif k == 'Mod':
                s.load(it['items'], f, it['name'])
            elif k == 'Use':
                for p, a in it['uses']:
                    s.aliases.setdefault(f, {})[a] = p
            elif k == 'Trait':
                for m in it['items']:
                    if m['k'] == 'Fn' and m.get('body'):
                        m['file'] = f
                        s.impls.setdefault(('trait', m['name']), m)

    def tyname(s, t):
        if t is None: return '()'
        if t['k'] == 'Path': return last(t['segs'])
        if t['k'] == 'Ref': return s.tyname(t['t'])
        if t['k'] == 'Slice': return '[]'
        return t['s']

    # ------------------------------------------------------------ decisions
    def choose(s, n, why=''):
        if n == 1:
            return 0
        if s.dpos < len(s.decisions):
            d = s.decisions[s.dpos]
        else:
            d = 0
            for i in range(1, n):
                s.alts.append(s.decisions[:s.dpos] + [i])
            s.decisions = s.decisions[:s.dpos] + [0]
        s.dpos += 1
        return d

    @property
    def fresh(s):
        return s.dpos >= len(s.decisions)

    def split_ch(s, c, st):
        """does input character c lie in st?  splits when open"""
        yes, no = isect(c.set, st), isect(c.set, compl(st))
        if not no: return True
        if not yes: return False
        if s.choose(2, 'char class') == 0:
            c.set = yes
            return True
        c.set = no
        return False

    # atoms: ('ch', idx) resolved through cons; digits ('dig', idx)
    def atom_range(s, a):
        return s.cons.get(('lin', 0, ((a, 1),)), s.arange(a))

    def arange(s, a):
        if a[0] == 'dig': return ((0, a[2]),)
        if a[0] == 'rng': return ((a[2], a[3]),)
        if a[0] == 'code':
            return s.inputs_set(a[1])
        raise Unknown('range of ' + str(a))

    def inputs_set(s, c): return c.set

    def lin_set(s, l):
        st = s.cons.get(('lin',) + l.key())
        if st is not None: return st
        lo = hi = l.c
        for a, k in l.t:
            r = s.atom_range(a)
            a0, a1 = r[0][0], r[-1][1]
            lo += min(k * a0, k * a1); hi += max(k * a0, k * a1)
        return ((lo, hi),)

    def split_lin(s, l, st):
        cur = s.lin_set(l)
        big = ((-(1 << 300), 1 << 300),)
        yes, no = isect(cur, st), isect(cur, compl(st, big))
        if not no: return True
        if not yes: return False
        if s.choose(2, 'number range') == 0:
            s.cons[('lin',) + l.key()] = yes
            return True
        s.cons[('lin',) + l.key()] = no
        return False

    # ------------------------------------------------------------ helpers
    def tick(s):
        s.fuel -= 1
        if s.fuel < 0:
            raise Unknown('analysis budget exhausted')

    def deref(s, v):
        while isinstance(v, Place):
            v = v.get()
        return v

    def truth(s, v):
        v = s.deref(v)
        if isinstance(v, bool): return v
        if isinstance(v, Top):
            s.taint = True
            return s.choose(2, 'unknown condition') == 0
        raise Unknown(f'condition {v!r}')

    # environment: list of dicts
    def lookup(s, env, name):
        for sc in reversed(env):
            if name in sc: return sc[name]
        return None

    # ------------------------------------------------------------ calling
    def call_fn(s, node, args, selfv=None, selfty=None):
        s.tick()
        if len(s.frames) > 120:
            raise Unknown('recursion too deep')
        if node.get('body') is None:
            raise Unknown('no body for ' + node['name'])
        s.calls.add((node.get('file', ''), node['name']))
        env = [{}]
        ai = 0
        args = list(args)
        for p in node['params']:
            if p['self']:
                env[0]['self'] = Cell(selfv if selfv is not None else args.pop(0))
            else:
                v = args[ai]; ai += 1
                if not s.bind(p['pat'], v, env):
                    raise Unknown('parameter pattern')
        if ai != len(args):
            raise Unknown('argument count of ' + node['name'])
        fr = {'fn': node, 'env': env, 'selfty': selfty or node.get('impl'), 'ret': node['ret']}
        s.frames.append(fr)
        np, nt = len(s.points), len(s.temps)
        s.points.append(id(node))
        try:
            try:
                v = s.block(node['body'], env, node['ret'])
            except ReturnEx as r:
                v = r.v
            return v
        finally:
            s.frames.pop()
            del s.points[np:]; del s.temps[nt:]

    def call(s, f, args, node=None, hint=None):
        f = s.deref(f)
        if isinstance(f, NFn): return f.fn(*args)
        if isinstance(f, FnRef): return s.call_fn(f.node, args, selfty=f.selfty)
        if isinstance(f, Ctor): return Adt(f.ty, f.var, list(args))
        if isinstance(f, Closure):
            n = f.node
            env = f.env + [{}]
            for p, a in zip(n['params'], args):
                if not s.bind(p, a, env): raise Unknown('closure pattern')
            s.frames.append({'fn': f.frame['fn'], 'env': env, 'selfty': f.frame['selfty'], 'ret': None, 'closure': True})
            np, nt = len(s.points), len(s.temps)
            s.points.append(id(n))
            try:
                try:
                    return s.val(n['body'], env)
                except ReturnEx as r:
                    return r.v
            finally:
                s.frames.pop(); del s.points[np:]; del s.temps[nt:]
        raise Unknown(f'call of {f!r}')

    # ------------------------------------------------------------ statements
    def block(s, b, env, hint=None):
        if b['k'] != 'Block':
            return s.ev(b, env, hint)
        env = env + [{}]
        if s.frames: s.frames[-1].setdefault('envs', []).append(env)
        np = len(s.points)
        items = [x for x in b['stmts'] if x['k'] == 'Item' and x['item']['k'] == 'Fn']
        for x in items:
            env[-1][x['item']['name']] = Cell(FnRef(dict(x['item'], file=s.frames[-1]['fn'].get('file', '')) if False else x['item'], s.frames[-1]['selfty']))
            x['item'].setdefault('file', s.frames[-1]['fn'].get('file', ''))
        try:
            val = UNIT
            n = len(b['stmts'])
            for i, st in enumerate(b['stmts']):
                val = UNIT
                s.points.append(id(st))
                k = st['k']
                if k == 'Let':
                    if st['e'] is None:
                        s.declare(st['pat'], env)
                    else:
                        h = st['pat'].get('t') if st['pat']['k'] == 'PType' else None
                        v = s.val(st['e'], env, h)
                        if h and type(v) is int and s.tyname(h) in s.INTB: v = s.typed(v, s.tyname(h))
                        nsc = {}
                        e2 = env[:-1] + [nsc]
                        if not s.bind(st['pat'], v, e2):
                            if st['else'] is None: raise Unknown('refutable let')
                            s.ev(st['else'], env)
                            raise Unknown('let-else falls through')
                        env[-1].update(nsc)
                elif k == 'Expr':
                    last_ = i == n - 1 and not st['semi']
                    v = s.val(st['e'], env, hint if last_ else None)
                    if last_: val = v
                s.points.pop()
            return val
        finally:
            if s.frames: s.frames[-1]['envs'].pop()
            del s.points[np:]

    def declare(s, p, env):
        if p['k'] == 'PType': p = p['p']
        if p['k'] == 'PIdent': env[-1][p['name']] = Cell(None); return
        if p['k'] == 'PTuple':
            for q in p['elems']: s.declare(q, env)
            return
        raise Unknown('declaration pattern')

    # ------------------------------------------------------------ patterns
    def bind(s, p, v, env):
        k = p['k']
        if k == 'PIdent':
            if p['sub']:
                if not s.bind(p['sub'], v, env): return False
            elif p['name'][0].isupper():
                dv = s.deref(v)
                if p['name'] == 'None': return isinstance(dv, Adt) and dv.var == 'None'
                if p['name'] in s.consts:
                    return s.truth(s.binop('==', s.const(p['name']), dv))
                for e in s.variants.get(p['name'], []):
                    if isinstance(dv, Adt) and dv.ty == e:
                        return dv.var == p['name']
            env[-1][p['name']] = Cell(v)
            return True
        if k in ('PWild', 'PRest'): return True
        if k == 'PType': return s.bind(p['p'], v, env)
        if k == 'PRef': return s.bind(p['p'], s.deref(v), env)
        if k == 'PLit':
            return s.truth(s.binop('==', s.deref(v), s.lit(p['e'])))
        if k == 'POr':
            return any(s.bind(q, v, env) for q in p['ps'])
        if k == 'PRange':
            v = s.deref(v)
            lo = s.ev(p['lo'], env) if p['lo'] else None
            hi = s.ev(p['hi'], env) if p['hi'] else None
            return s.in_range(v, lo, hi, p['incl'])
        if k == 'PTuple':
            v = s.deref(v)
            if not isinstance(v, tuple): raise Unknown(f'tuple pattern on {v!r}')
            return s.bind_seq(p['elems'], v, env)
        if k == 'PSlice':
            v = s.deref(v)
            if isinstance(v, list): return s.bind_seq(p['elems'], v, env)
            raise Unknown('slice pattern')
        if k == 'PPath':
            v = s.deref(v)
            nm = last(p['segs'])
            if isinstance(v, Adt):
                return v.var == nm
            c = s.path(p['segs'], env, p)
            return s.truth(s.binop('==', v, c))
        if k == 'PTupleStruct':
            v = s.deref(v)
            h = s.pat_hook(p, v)
            if h is not NotImplemented:
                if h is None: return False
                return s.bind_seq(p['elems'], h, env)
            if not isinstance(v, Adt):
                if isinstance(v, Top): raise Unknown(f'match on unknown {v.why}')
                raise Unknown(f'tuple struct pattern {last(p["segs"])} on {v!r}')
            if v.var != last(p['segs']) and not (v.var is None and v.ty == last(p['segs'])): return False
            return s.bind_seq(p['elems'], v.f, env)
        if k == 'PStruct':
            v = s.deref(v)
            if not isinstance(v, Adt): raise Unknown('struct pattern')
            nm = last(p['segs'])
            if nm not in ('Self', v.var, v.ty): return False
            if v.var is not None and nm != v.var: return False
            for fn, q in p['fields']:
                if not s.bind(q, s.field_place(v, fn), env): return False
            return True
        raise Unknown('pattern ' + k)

    def pat_hook(s, p, v): return NotImplemented

    def bind_seq(s, ps, vs, env):
        rest = [i for i, q in enumerate(ps) if q['k'] == 'PRest' or (q['k'] == 'PIdent' and q['sub'] and q['sub']['k'] == 'PRest')]
        if rest:
            i = rest[0]; tail = len(ps) - i - 1
            if len(vs) < len(ps) - 1: return False
            pairs = list(zip(ps[:i], vs[:i]))
            if tail: pairs += list(zip(ps[i + 1:], vs[-tail:]))
            if ps[i]['k'] == 'PIdent': env[-1][ps[i]['name']] = Cell(list(vs[i:len(vs) - tail]))
        else:
            if len(ps) != len(vs): return False
            pairs = list(zip(ps, vs))
        for q, x in pairs:
            if not s.bind(q, x, env): return False
        return True

    # ------------------------------------------------------------ literals
    def lit(s, e):
        if e['k'] == 'Unary' and e['op'] == '-': return -s.lit(e['e'])
        t = e['t']
        if t == 'int': return int(e['v'])
        if t == 'str': return e['v']
        if t == 'char': return CP(e['v'])
        if t == 'bool': return e['v']
        if t == 'bytes': return list(e['v'])
        raise Unknown('literal')

    def in_range(s, v, lo, hi, incl):
        def num(x):
            return x.c if isinstance(x, CP) else x
        l, h = num(lo) if lo is not None else None, num(hi) if hi is not None else None
        if h is not None and not incl: h -= 1
        if isinstance(v, ByteOf): v = s.byte_ch(v)
        if isinstance(v, Ch):
            return s.split_ch(v, ((l or 0, h if h is not None else 0x10FFFF),))
        if isinstance(v, Lin):
            return s.split_lin(v, ((l if l is not None else -(1 << 299), h if h is not None else 1 << 299),))
        if isinstance(v, (int, CP)):
            n = num(v)
            return (l is None or n >= l) and (h is None or n <= h)
        if isinstance(v, Top): return s.truth(v)
        raise Unknown(f'range test on {v!r}')

    def byte_ch(s, b):
        if s.split_ch(b.ch, ((0, 127),)): return b.ch
        return Top('byte of a non-ASCII character')

    # ------------------------------------------------------------ paths
    def const(s, name):
        c = s.consts[name]
        if '_val' not in c:
            s.frames.append({'fn': c, 'env': [{}], 'selfty': None, 'ret': None})
            try:
                c['_val'] = s.ev(c['e'], [{}], c['t'])
            finally:
                s.frames.pop()
        return c['_val']

    def resolve_alias(s, segs):
        f = s.frames[-1]['fn'].get('file', '') if s.frames else ''
        p = s.aliases.get(f, {}).get(segs[0][0])
        if p and (len(p) > 1 or p[0] != segs[0][0]):
            return [[x, []] for x in p] + segs[1:]
        return segs

    def path(s, segs, env, node, hint=None):
        nm = segs[-1][0]
        if len(segs) == 1:
            c = s.lookup(env, nm)
            if c is not None:
                return Place(lambda: c.v, lambda v: setattr(c, 'v', v))
            if nm == 'None': return NONE
            if nm == 'Some': return NFn(Some)
            if nm == 'Ok': return NFn(Ok)
            if nm == 'Err': return NFn(Err)
            f = s.frames[-1]['fn'].get('file', '') if s.frames else ''
            if (f, nm) in s.filefns: return FnRef(s.filefns[(f, nm)])
            if nm == 'Self': return Ctor(s.frames[-1]['selfty'], None)
        full = s.resolve_alias(segs)
        r = s.ext_path(full, node, hint)
        if r is not NotImplemented: return r
        if len(full) >= 2:
            ty = full[-2][0]
            if ty == 'Self': ty = s.frames[-1]['selfty']
            if ty in s.enums:
                for v in s.enums[ty]['variants']:
                    if v['name'] == nm:
                        return Ctor(ty, nm) if v['n'] and not v['named'] else Adt(ty, nm)
            if (ty, nm) in s.impls:
                m = s.impls[(ty, nm)]
                if isinstance(m, list):
                    return NFn(lambda a: s.call_from(ty, a))
                return FnRef(m, ty)
            if ty + '::' + nm in s.consts: return s.const(ty + '::' + nm)
            if ty in ('Option', 'Result'):
                return {'Some': NFn(Some), 'None': NONE, 'Ok': NFn(Ok), 'Err': NFn(Err)}[nm]
        if nm in s.consts: return s.const(nm)
        if nm in s.fns and (len(full) == 1 or not full[-2][0][0].isupper()):
            return FnRef(s.fns[nm])
        if nm in s.types: return Ctor(nm, None)
        b = s.builtin_path(full)
        if b is not None: return b
        if len(full) >= 2 and full[-2][0][0].isupper():
            return NFn(lambda *a: s.builtin_call(full, list(a), node, hint))
        return NFn(lambda *a: s.builtin_call(full, list(a), node, hint))

    def call_from(s, ty, a):
        for src, m in s.impls[(ty, 'from')]:
            if s.has_type(a, src): return s.call_fn(m, [a], selfty=ty)
        raise Unknown(f'{ty}::from')

    def has_type(s, v, t):
        v = s.deref(v)
        if isinstance(v, Adt): return v.ty == t
        if t in ('String', 'str'): return isinstance(v, (str, SymStr, InStr))
        return False

    INTB = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64, 'u128': 128, 'i128': 128}

    def builtin_path(s, segs):
        if len(segs) >= 2:
            t, n = segs[-2][0], segs[-1][0]
            if t in s.INTB:
                b, sg = s.INTB[t], t[0] == 'i'
                if n == 'MAX': return (1 << (b - sg)) - 1
                if n == 'MIN': return -(1 << (b - 1)) if sg else 0
                if n == 'BITS': return b
            if t == 'char' and n == 'MAX': return CP(0x10FFFF)
        return None

    # ------------------------------------------------------------ expressions
    def ev(s, e, env, hint=None):
        s.tick()
        np = len(s.points)
        s.points.append(id(e))
        try:
            return getattr(s, 'e_' + e['k'])(e, env, hint)
        finally:
            del s.points[np:]

    def rv(s, e, env, hint=None):
        """evaluate to a value (places dereferenced)"""
        return s.deref(s.ev(e, env, hint))

    def evs(s, es, env, hints=None):
        """evaluate several expressions left to right, keeping the pending ones visible"""
        nt = len(s.temps)
        out = []
        for i, x in enumerate(es):
            v = s.ev(x, env, hints[i] if hints and i < len(hints) else None)
            if isinstance(v, Place) and x['k'] in PLACEK: v = v.get()
            out.append(v); s.temps.append(v)
        del s.temps[nt:]
        return out

    def val(s, e, env, hint=None):
        v = s.ev(e, env, hint)
        if isinstance(v, Place) and e['k'] in PLACEK: v = v.get()
        return v

    def e_Unknown(s, e, env, h): raise Unknown('expression ' + e['s'][:60])
    def e_Lit(s, e, env, h): return s.lit(e)
    def e_Path(s, e, env, h): return s.path(e['segs'], env, e, h)
    def e_Block(s, e, env, h):
        try:
            return s.block(e, env, h)
        except BreakEx as b:
            if b.label and b.label == e.get('label'): return b.v
            raise

    def e_Tuple(s, e, env, h): return tuple(s.deref(x) for x in s.evs(e['es'], env))
    def e_Array(s, e, env, h):
        return [s.deref(x) for x in s.evs(e['es'], env)]

    def e_Repeat(s, e, env, h):
        v = s.rv(e['e'], env); n = s.rv(e['n'], env)
        if not isinstance(n, int): raise Unknown('array length')
        return [s.clone(v) for _ in range(n)]

    def e_Ref(s, e, env, h):
        v = s.ev(e['e'], env, h['t'] if h and h.get('k') == 'Ref' else h)
        if e['mut']:
            if isinstance(v, Place): return v
            c = Cell(v)
            return Place(lambda: c.v, lambda x: setattr(c, 'v', x))
        return s.deref(v)

    def e_Unary(s, e, env, h):
        if e['op'] == '*':
            v = s.ev(e['e'], env)
            if isinstance(v, Place):
                w = v.get()
                if isinstance(w, Place): return w
                return v
            return v
        v = s.rv(e['e'], env)
        if e['op'] == '!':
            if isinstance(v, bool): return not v
            if isinstance(v, Top): return not s.truth(v)
            if isinstance(v, U256v): return U256v(v.v ^ ((1 << 256) - 1))
            if isinstance(v, IW):
                b, sg = s.INTB[v.t], v.t[0] == 'i'
                return IW(~v if sg else ~v & ((1 << b) - 1), v.t)
            if isinstance(v, int): return NotI(~v)
            raise Unknown('! on non-bool')
        if e['op'] == '-':
            if isinstance(v, int): return -v
        raise Unknown('unary ' + e['op'])

    def e_Cast(s, e, env, h):
        v = s.rv(e['e'], env)
        t = s.tyname(e['t'])
        if t == 'char':
            if isinstance(v, int): return CP(v)
            if isinstance(v, Lin): return CharOf(v)
            if isinstance(v, ByteOf): return s.byte_ch(v)
        if t in s.INTB:
            b, sg = s.INTB[t], t[0] == 'i'
            if isinstance(v, bool): return int(v)
            if isinstance(v, CP): v = v.c
            if isinstance(v, int):
                v &= (1 << b) - 1
                if sg and v >> (b - 1): v -= 1 << b
                return IW(v, t)
            if isinstance(v, Lin):
                st = s.lin_set(v)
                if st and 0 <= st[0][0] and st[-1][1] < (1 << (b - sg)): return v
                return Top('truncated number')
            if isinstance(v, Ch):
                if v.set[-1][1] < (1 << (b - sg)): return Lin(0, [(('code', v), 1)])
                return Top('code of char')
            if isinstance(v, Adt) and v.ty in s.enums:
                for i, x in enumerate(s.enums[v.ty]['variants']):
                    if x['name'] == v.var: return i
            r = s.cast_hook(v, t)
            if r is not NotImplemented: return r
            if isinstance(v, (Top, Off)): return v if isinstance(v, Off) else Top(v.why)
        raise Unknown(f'cast of {v!r} to {t}')

    def cast_hook(s, v, t): return NotImplemented

    def typed(s, v, t):
        b, sg = s.INTB[t], t[0] == 'i'
        lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if sg else (0, (1 << b) - 1)
        if not lo <= v <= hi: raise Unknown(f'{v} in {t}')
        return IW(v, t)

    def e_LetC(s, e, env, h):
        v = s.ev(e['e'], env)
        return s.bind(e['pat'], v, env)

    def cond(s, c, env):
        """condition with let chains; bindings go to env[-1]"""
        if c['k'] == 'Binary' and c['op'] == '&&':
            return s.cond(c['a'], env) and s.cond(c['b'], env)
        return s.truth(s.ev(c, env))

    def e_If(s, e, env, h):
        env2 = env + [{}]
        s.frames[-1].setdefault('envs', []).append(env2)
        try:
            if s.cond(e['c'], env2):
                return s.val(e['t'], env2, h)
        finally:
            s.frames[-1]['envs'].pop()
        if e['f'] is not None: return s.val(e['f'], env, h)
        return UNIT

    def e_Match(s, e, env, h):
        v = s.ev(e['e'], env)
        if isinstance(v, Place) and not isinstance(v.get(), (Adt, list)):
            v = s.deref(v)
        s.temps.append(v)
        try:
            for arm in e['arms']:
                env2 = env + [{}]
                if not s.bind(arm['pat'], v, env2): continue
                if arm['guard'] is not None and not s.cond(arm['guard'], env2): continue
                s.frames[-1].setdefault('envs', []).append(env2)
                t = s.temps.pop()
                try:
                    return s.val(arm['body'], env2, h)
                finally:
                    s.temps.append(t); s.frames[-1]['envs'].pop()
            raise Unknown('no arm matches ' + repr(s.deref(v))[:80])
        finally:
            s.temps.pop()

    def loop_body(s, e, env):
        """returns True to leave the loop"""
        try:
            s.ev(e['b'], env)
        except ContinueEx as c:
            if c.label and c.label != e.get('label'): raise
        except BreakEx as b:
            if b.label and b.label != e.get('label'): raise
            return True, b.v
        return False, UNIT

    def e_While(s, e, env, h):
        while True:
            s.tick()
            env2 = env + [{}]
            s.frames[-1].setdefault('envs', []).append(env2)
            try:
                if not s.cond(e['c'], env2): return UNIT
                done, v = s.loop_body(e, env2)
            finally:
                s.frames[-1]['envs'].pop()
            if done: return UNIT

    def e_Loop(s, e, env, h):
        while True:
            s.tick()
            done, v = s.loop_body(e, env)
            if done: return v

    def e_For(s, e, env, h):
        src = s.rv(e['e'], env)
        it = s.iter_of(src)
        s.temps.append(it)
        try:
            while True:
                s.tick()
                x = it.next()
                if x is STOP: return UNIT
                env2 = env + [{}]
                if not s.bind(e['pat'], x, env2): raise Unknown('for pattern')
                s.frames[-1].setdefault('envs', []).append(env2)
                try:
                    done, v = s.loop_body(e, env2)
                finally:
                    s.frames[-1]['envs'].pop()
                if done: return UNIT
        finally:
            s.temps.pop()

    def e_Return(s, e, env, h):
        raise ReturnEx(s.deref(s.ev(e['e'], env, s.frames[-1]['ret'])) if e['e'] else UNIT)

    def e_Break(s, e, env, h):
        raise BreakEx(e['label'], s.deref(s.ev(e['e'], env)) if e['e'] else UNIT)

    def e_Continue(s, e, env, h): raise ContinueEx(e['label'])
    def e_Closure(s, e, env, h): return Closure(e, env, s.frames[-1])

    def e_Range(s, e, env, h):
        return RangeV(s.rv(e['lo'], env) if e['lo'] else None, s.rv(e['hi'], env) if e['hi'] else None, e['incl'])

    def e_Try(s, e, env, h):
        v = s.rv(e['e'], env)
        if isinstance(v, Adt):
            if v.var in ('Ok', 'Some'): return v.f[0]
            if v.var == 'None': raise ReturnEx(NONE)
            if v.var == 'Err': raise ReturnEx(Err(s.err_into(v.f[0])))
        raise Unknown(f'? on {v!r}')

    def err_into(s, v): return v

    def e_Struct(s, e, env, h):
        nm = last(e['segs'])
        ty, var = nm, None
        if nm == 'Self': ty = s.frames[-1]['selfty']
        elif len(e['segs']) >= 2 and e['segs'][-2][0] in s.enums: ty, var = e['segs'][-2][0], nm
        elif nm not in s.types and nm in s.variants: ty, var = s.variants[nm][0], nm
        f = {}
        ftypes = {x['name']: x['t'] for x in s.types[ty]['fields']} if ty in s.types else {}
        for n, x in e['fields']:
            f[n] = s.deref(s.ev(x, env, ftypes.get(n)))
            s.temps.append(f[n])
        for _ in e['fields']: s.temps.pop()
        if e['rest'] is not None:
            b = s.rv(e['rest'], env, {'k': 'Path', 'segs': [[ty, []]], 's': ty})
            for n, x in b.f.items():
                if n not in f: f[n] = s.clone(x)
        return Adt(ty, var, f)

    def field_place(s, b, n):
        if isinstance(b, Adt):
            if isinstance(b.f, dict):
                if n not in b.f: raise Unknown(f'field {n} of {b.ty}')
                return Place(lambda: b.f[n], lambda v: b.f.__setitem__(n, v))
            return Place(lambda: b.f[int(n)], lambda v: b.f.__setitem__(int(n), v))
        if isinstance(b, tuple): return b[int(n)]
        if isinstance(b, Native):
            r = getattr(b, 'field', lambda n: NotImplemented)(n)
            if r is not NotImplemented: return r
        if isinstance(b, Top): return Top(b.why + '.' + n)
        raise Unknown(f'field {n} of {b!r}')

    def e_Field(s, e, env, h):
        bp = s.ev(e['base'], env)
        b = s.deref(bp)
        if isinstance(b, tuple) and isinstance(bp, Place):
            i = int(e['name'])
            tp = bp
            while isinstance(tp.get(), Place): tp = tp.get()
            return Place(lambda: s.deref(bp)[i], lambda v: tp.set(s.deref(bp)[:i] + (v,) + s.deref(bp)[i + 1:]))
        return s.field_place(b, e['name'])

    def e_Assign(s, e, env, h):
        v = s.deref(s.ev(e['b'], env))
        s.assign(e['a'], v, env)
        return UNIT

    def assign(s, t, v, env):
        if t['k'] == 'Tuple':
            for q, x in zip(t['es'], v): s.assign(q, x, env)
            return
        if t['k'] == 'Path' and last(t['segs']) == '_': return
        p = s.ev(t, env)
        if not isinstance(p, Place): raise Unknown('assignment target')
        p.set(v)

    def e_Index(s, e, env, h):
        b = s.rv(e['base'], env)
        i = s.rv(e['idx'], env)
        r = s.index_hook(b, i)
        if r is not NotImplemented: return r
        if isinstance(i, RangeV): return s.slice(b, i)
        if isinstance(b, list):
            if isinstance(i, int):
                if not 0 <= i < len(b): raise Panic('index out of bounds')
                return Place(lambda: b[i], lambda v: b.__setitem__(i, v))
        if isinstance(b, dict):
            if i in b: return Place(lambda: b[i], lambda v: b.__setitem__(i, v))
            raise Panic('no such key')
        raise Unknown(f'index {b!r}[{i!r}]')

    def index_hook(s, b, i): return NotImplemented

    def slice(s, b, r):
        lo, hi = r.lo, r.hi
        if isinstance(b, (list, str)):
            n = len(b) if isinstance(b, list) else len(b.encode())
            lo = 0 if lo is None else lo
            hi = n if hi is None else hi + (1 if r.incl else 0)
            if isinstance(lo, int) and isinstance(hi, int):
                if lo > hi or hi > n: raise Panic('slice out of range')
                if isinstance(b, list): return View(b, lo, hi)
                return b.encode()[lo:hi].decode()
        if isinstance(b, InStr):
            a = b.a
            if lo is not None:
                if isinstance(lo, Off) and lo.base == b.a: a = lo.k
                elif isinstance(lo, int):
                    for q in range(lo):
                        c = b.inp.get(b.a + q)
                        if c is None: raise Panic('slice')
                        if not s.split_ch(c, ((0, 127),)): raise Unknown('byte slice inside a character')
                    a = b.a + lo
                else: raise Unknown('slice start')
            e_ = b.b
            if hi is not None:
                if isinstance(hi, Off) and hi.base == b.a: e_ = hi.k if hi.k is not None else b.b
                elif isinstance(hi, int):
                    for q in range(hi):
                        c = b.inp.get(b.a + q)
                        if c is None or (b.b is not None and b.a + q >= b.b): raise Panic('slice')
                        if not s.split_ch(c, ((0, 127),)): raise Unknown('byte slice inside a character')
                    e_ = b.a + hi
                else: raise Unknown('slice end')
            if a is None:
                if not b.inp.ended: raise Unknown('slice at the unread end')
                a = len(b.inp.cells)
            return InStr(b.inp, a, e_)
        if isinstance(b, SymStr):
            p = list(b.parts)
            if lo is not None:
                if isinstance(lo, int) and (lo == 0 or (p and isinstance(p[0], str) and len(p[0]) >= lo)):
                    if lo: p[0] = p[0][lo:]
                else: raise Unknown('slice of text')
            if hi is not None:
                k = None
                if isinstance(hi, Lin) and isinstance(s.symlen(b), Lin):
                    d = s.lin_add(s.symlen(b), hi, -1)
                    k = d if isinstance(d, int) else None
                if k is None or k < 0: raise Unknown('slice of text')
                if k:
                    if isinstance(p[-1], str) and len(p[-1]) >= k: p[-1] = p[-1][:-k]
                    else: raise Unknown('slice of text')
            return SymStr(p)
        raise Unknown(f'slice of {b!r}')

    def symlen(s, t):
        c, terms = 0, []
        for p in t.parts:
            if isinstance(p, str): c += len(p.encode())
            else: terms.append((('rng', 'len:' + p[0], p[2], p[3] or (1 << 40)), 1))
        return Lin(c, terms) if terms else c

    def lin_add(s, a, b, k=1):
        ca, ta = (a, ()) if isinstance(a, int) else (a.c, a.t)
        cb, tb = (b, ()) if isinstance(b, int) else (b.c, b.t)
        d = dict(ta)
        for x, q in tb: d[x] = d.get(x, 0) + k * q
        d = [(x, q) for x, q in d.items() if q]
        c = ca + k * cb
        return Lin(c, d) if d else c

    # ------------------------------------------------------------ operators
    def e_Binary(s, e, env, h):
        op = e['op']
        if op == '&&': return s.truth(s.ev(e['a'], env)) and s.truth(s.ev(e['b'], env))
        if op == '||': return s.truth(s.ev(e['a'], env)) or s.truth(s.ev(e['b'], env))
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            b = s.rv(e['b'], env)
            p = s.ev(e['a'], env)
            if not isinstance(p, Place): raise Unknown('compound assignment target')
            p.set(s.binop(op[:-1], p.get(), b))
            return UNIT
        a = s.rv(e['a'], env)
        s.temps.append(a)
        b = s.rv(e['b'], env)
        s.temps.pop()
        return s.binop(op, a, b)

    def binop(s, op, a, b):
        a, b = s.deref(a), s.deref(b)
        r = s.op_hook(op, a, b)
        if r is not NotImplemented: return r
        if op in ('==', '!='):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, ByteOf) and isinstance(y, int) and y < 128 and not s.split_ch(x.ch, ((0, 127),)): return op == '!='
        if isinstance(a, ByteOf): a = s.byte_ch(a)
        if isinstance(b, ByteOf): b = s.byte_ch(b)
        if op == '!=':
            return not s.truth(s.binop('==', a, b))
        if op == '==':
            return s.eq(a, b)
        if isinstance(a, U256v) or isinstance(b, U256v):
            x = a.v if isinstance(a, U256v) else a
            y = b.v if isinstance(b, U256v) else b
            if isinstance(x, int) and isinstance(y, int):
                M = (1 << 256) - 1
                if op == '<<': return U256v((x << y) & M if y < 256 else 0)
                if op == '>>': return U256v(x >> y)
                if op == '+':
                    if x + y > M: raise Panic('U256 overflow')
                    return U256v(x + y)
                if op == '-':
                    if x < y: raise Panic('U256 underflow')
                    return U256v(x - y)
                if op == '*':
                    if x * y > M: raise Panic('U256 overflow')
                    return U256v(x * y)
                if op == '&': return U256v(x & y)
                if op == '|': return U256v(x | y)
                if op == '^': return U256v(x ^ y)
                if op == '/':
                    if not y: raise Panic('division by zero')
                    return U256v(x // y)
                if op == '%':
                    if not y: raise Panic('division by zero')
                    return U256v(x % y)
                if op in ('<', '>', '<=', '>='): return s.icmp(op, x, y)
        num = lambda x: isinstance(x, int) and not isinstance(x, bool)
        if num(a) and num(b):
            if op not in ('<', '<=', '>', '>='):
                t = a.t if isinstance(a, IW) else b.t if isinstance(b, IW) and op not in ('<<', '>>') else None
                if t:
                    a, b, w = int(a), int(b), s.INTB[t]
                    if op == '<<' and 0 <= b < w and t[0] == 'u': return IW(a << b & ((1 << w) - 1), t)
                    if op in ('<<', '>>') and not 0 <= b < w: raise Unknown('shift by the width')
                    r = int(s.binop(op, a, b))
                    return IW(r & ((1 << w) - 1), t) if op in ('&', '|', '^') and t[0] == 'u' else s.typed(r, t)
                if isinstance(a, NotI) or isinstance(b, NotI):
                    if op != '&' or isinstance(a, NotI) and isinstance(b, NotI) or min(int(x) for x in (a, b) if not isinstance(x, NotI)) < 0: raise Unknown('complement')
            elif isinstance(a, NotI) or isinstance(b, NotI): raise Unknown('complement')
            if op == '+': return a + b
            if op == '-': return a - b
            if op == '*': return a * b
            if op == '/':
                if b == 0: raise Panic('division by zero')
                q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
            if op == '%':
                if b == 0: raise Panic('division by zero')
                r = abs(a) % abs(b); return r if a >= 0 else -r
            if op == '<<': return a << b
            if op == '>>': return a >> b
            if op == '&': return a & b
            if op == '|': return a | b
            if op == '^': return a ^ b
            return s.icmp(op, a, b)
        if isinstance(a, bool) and isinstance(b, bool):
            if op == '&': return a and b
            if op == '|': return a or b
            if op == '^': return a != b
        if isinstance(a, Lin) and (num(b) or isinstance(b, Lin)) or isinstance(b, Lin) and num(a):
            if op == '+': return s.lin_add(a, b)
            if op == '-': return s.lin_add(a, b, -1)
            if op == '*' and (num(a) or num(b)):
                if num(a): a, b = b, a
                return Lin(a.c * b, [(x, q * b) for x, q in a.t])
            if op == '<<' and num(b): return s.binop('*', a, 1 << b)
            if op == '|':
                # disjoint bit ranges add
                x, y = (a, b)
                for x, y in ((a, b), (b, a)):
                    ly = s.lin_set(y) if isinstance(y, Lin) else ((y, y),)
                    if isinstance(x, Lin) and ly[0][0] >= 0:
                        k = 1 << ly[-1][1].bit_length()
                        if x.c % k == 0 and all(q % k == 0 for _, q in x.t): return s.lin_add(x, y)
                return Top('or')
            if op in ('%', '&') and num(b) and isinstance(a, Lin):
                st = s.lin_set(a)
                if st and st[0][0] >= 0 and st[-1][1] < (b if op == '%' else b + 1) and (op == '%' or b & (b + 1) == 0): return a
            if op in ('<', '>', '<=', '>='):
                d = s.lin_add(a, b, -1)
                if isinstance(d, int): return s.icmp(op, d, 0)
                if num(b):
                    B = 1 << 299
                    st = {'<': ((-B, b - 1),), '<=': ((-B, b),), '>': ((b + 1, B),), '>=': ((b, B),)}[op]
                    return s.split_lin(a, st)
                if num(a):
                    return s.binop({'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op], b, a)
            return Top('arithmetic')
        if isinstance(a, (Ch, CP)) and isinstance(b, (Ch, CP)) and op in ('<', '>', '<=', '>='):
            if isinstance(a, CP) and isinstance(b, CP): return s.icmp(op, a.c, b.c)
            if isinstance(a, CP):
                a, b, op = b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
            if isinstance(b, CP):
                c = b.c
                st = {'<': ((0, c - 1),), '<=': ((0, c),), '>': ((c + 1, 0x10FFFF),), '>=': ((c, 0x10FFFF),)}[op]
                return s.split_ch(a, st)
        if isinstance(a, Ch) and num(b) and op in ('<', '>', '<=', '>='):
            return s.binop(op, a, CP(b))
        if isinstance(a, str) and isinstance(b, str) and op in ('<', '>', '<=', '>='):
            return s.icmp(op, a, b)
        if op == '+' and isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
            return s.scat(a, b)
        if isinstance(a, (Top, Off)) or isinstance(b, (Top, Off)):
            return Top('arithmetic')
        raise Unknown(f'{a!r} {op} {b!r}')

    def scat(s, a, b):
        if isinstance(a, str) and isinstance(b, str): return a + b
        pa = a.parts if isinstance(a, SymStr) else (a,)
        pb = b.parts if isinstance(b, SymStr) else (b,)
        return SymStr(pa + pb)

    def op_hook(s, op, a, b): return NotImplemented

    def icmp(s, op, a, b):
        return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]

    def eq(s, a, b):
        a, b = s.deref(a), s.deref(b)
        if isinstance(a, Top) or isinstance(b, Top): return Top('comparison')
        if isinstance(b, Ch) and not isinstance(a, Ch): a, b = b, a
        if isinstance(a, Ch):
            if isinstance(b, CP): return s.split_ch(a, ((b.c, b.c),))
            if isinstance(b, int): return s.split_ch(a, ((b, b),))
            if isinstance(b, Ch):
                if a is b: return True
                if single(a.set): return s.split_ch(b, a.set)
                if single(b.set): return s.split_ch(a, b.set)
                if not isect(a.set, b.set): return False
                raise Unknown('equality of two unknown characters')
            raise Unknown('char comparison')
        if isinstance(a, CP) and isinstance(b, CP): return a.c == b.c
        if isinstance(a, U256v) or isinstance(b, U256v):
            x = a.v if isinstance(a, U256v) else a
            y = b.v if isinstance(b, U256v) else b
            if isinstance(x, int) and isinstance(y, int): return x == y
        if isinstance(b, Lin) and not isinstance(a, Lin): a, b = b, a
        if isinstance(a, Lin):
            d = s.lin_add(a, b, -1)
            if isinstance(d, int): return d == 0
            if isinstance(b, int): return s.split_lin(a, ((b, b),))
            raise Unknown('equality of unknown numbers')
        if isinstance(a, Adt) and isinstance(b, Adt):
            if a.ty != b.ty and not (a.ty in ('Option', 'Result') and b.ty == a.ty):
                return False
            if a.var != b.var: return False
            if isinstance(a.f, dict):
                return all(s.truth(s.eq(a.f[k], b.f[k])) for k in a.f)
            return all(s.truth(s.eq(x, y)) for x, y in zip(a.f, b.f))
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return len(a) == len(b) and all(s.truth(s.eq(x, y)) for x, y in zip(a, b))
        if isinstance(a, (int, str, bool)) and isinstance(b, (int, str, bool)): return a == b
        if isinstance(a, SymStr) and isinstance(b, SymStr) and a == b: return True
        if isinstance(a, SymStr) or isinstance(b, SymStr): return s.symstr_eq(a, b)
        if a is b: return True
        raise Unknown(f'{a!r} == {b!r}')

    def symstr_eq(s, a, b): raise Unknown('equality of unknown texts')

    # ------------------------------------------------------------ calls
    def e_Call(s, e, env, h):
        f = e['f']
        if f['k'] == 'Path':
            fv = s.ev(f, env, h)
            node = s.deref(fv)
            hints = None
            if isinstance(node, FnRef):
                hints = [p.get('t') for p in node.node['params'] if not p['self']]
            args = s.evs(e['args'], env, hints)
            if isinstance(node, FnRef):
                ps = node.node['params']
                if ps and ps[0]['self']:
                    return s.call_fn(node.node, args[1:], args[0], node.selfty)
            return s.call(node, args, e, h)
        fv = s.rv(f, env)
        return s.call(fv, s.evs(e['args'], env), e, h)

    def e_Macro(s, e, env, h):
        n = e['name']
        r = s.macro_hook(n, e, env)
        if r is not NotImplemented: return r
        if n in ('format', 'println', 'eprintln', 'print', 'eprint', 'write', 'writeln', 'panic', 'unreachable', 'unimplemented', 'todo'):
            args = e['args']
            if args is None: raise Unknown('macro ' + n)
            if n in ('write', 'writeln'):
                dst = s.ev(args[0], env)
                s.write_to(dst, s.fmt(args[1:], env))
                return Ok(UNIT)
            if n == 'format': return s.fmt(args, env)
            if n in ('println', 'eprintln', 'print', 'eprint'):
                s.printed(n, s.fmt(args, env) if args else '')
                return UNIT
            raise Panic(n)
        if n in ('assert', 'debug_assert'):
            if not s.truth(s.ev(e['args'][0], env)): raise Panic('assertion')
            return UNIT
        if n in ('assert_eq', 'assert_ne', 'debug_assert_eq'):
            r = s.truth(s.eq(s.rv(e['args'][0], env), s.rv(e['args'][1], env)))
            if r == (n == 'assert_ne'): raise Panic('assertion')
            return UNIT
        if n == 'vec':
            return [s.deref(x) for x in s.evs(e['args'], env)]
        if n == 'cfg':
            return False
        raise Unknown('macro ' + n)

    def printed(s, n, t): pass

    def write_to(s, dst, t):
        d = s.deref(dst)
        while isinstance(dst, Place) and isinstance(dst.get(), Place): dst = dst.get()
        if isinstance(d, str):
            dst.set(d + t if isinstance(t, str) else s.scat(d, t)); return
        if isinstance(d, SymStr):
            dst.set(s.scat(d, t)); return
        raise Unknown('write!')

    def fmt(s, args, env):
        if args[0]['k'] != 'Lit': raise Unknown('format string')
        f = args[0]['v']
        vals = [s.rv(a, env) for a in args[1:]]
        named = {}
        out = ''
        i, ai = 0, 0
        while i < len(f):
            c = f[i]
            if c == '{':
                if f[i + 1] == '{': out = s.scat(out, '{'); i += 2; continue
                j = f.index('}', i)
                spec = f[i + 1:j]
                nm, _, fs = spec.partition(':')
                if nm == '':
                    v = vals[ai]; ai += 1
                elif nm.isdigit(): v = vals[int(nm)]
                else:
                    cell = s.lookup(env, nm)
                    v = s.deref(cell.v) if cell is not None else s.deref(s.path([[nm, []]], env, args[0]))
                out = s.scat(out, s.show(v, fs))
                i = j + 1
            elif c == '}':
                out = s.scat(out, '}'); i += 2
            else:
                out = s.scat(out, c); i += 1
        return out

    def show(s, v, fs=''):
        v = s.deref(v)
        if isinstance(v, str):
            return '"%s"' % v if '?' in fs else v
        if isinstance(v, SymStr): return v
        if isinstance(v, bool): return 'true' if v else 'false'
        if isinstance(v, int):
            if fs in ('', '?'): return str(v)
            if fs.strip('0123456789') in ('x',):
                t = '%x' % v; w = fs[:-1]
                if w: t = t.zfill(int(w)) if w[0] == '0' else t.rjust(int(w))
                return t
            if fs.isdigit(): return str(v).zfill(int(fs)) if fs[0] == '0' else str(v).rjust(int(fs))
        if isinstance(v, U256v): return str(v.v) if 'x' not in fs else '%x' % v.v
        if isinstance(v, Adt):
            if '?' in fs:
                if not v.f: return v.var or v.ty
                if isinstance(v.f, list): return f'{v.var}({", ".join(str(s.show(x, fs)) for x in v.f)})'
            m = s.impls.get((v.ty, 'fmt'))
            if m is not None and '?' not in fs:
                c = Cell('')
                s.call_fn(m, [Place(lambda: c.v, lambda x: setattr(c, 'v', x))], v, v.ty)
                return c.v
        if isinstance(v, CP): return chr(v.c)
        r = s.show_hook(v, fs)
        if r is not NotImplemented: return r
        return SymStr([('fmt:%s' % type(v).__name__, 'any', 0, None)])

    def show_hook(s, v, fs): return NotImplemented

    # ------------------------------------------------------------ clone / norm
    def clone(s, v):
        v = s.deref(v)
        if isinstance(v, list): return [s.clone(x) for x in v]
        if isinstance(v, tuple): return tuple(s.clone(x) for x in v)
        if isinstance(v, OrderedDict): return type(v)((k, s.clone(x)) for k, x in v.items())
        if isinstance(v, dict): return {k: s.clone(x) for k, x in v.items()}
        if isinstance(v, Adt):
            if isinstance(v.f, dict): return Adt(v.ty, v.var, {k: s.clone(x) for k, x in v.f.items()})
            return Adt(v.ty, v.var, [s.clone(x) for x in v.f]) if v.f else v
        if isinstance(v, It): return v.clone()
        if isinstance(v, set): return type(v)(v)
        return v



for _n in rsi_std.EXPORT:
    setattr(Interp, _n, getattr(rsi_std, _n))
