"""A small abstract interpreter for Python scripts.

Values are ordinary constants, or symbolic ones: texts are sequences of literal pieces and atoms (`STxt`), bytes are sequences
of named chunks (`SByt`), integers are named (`SInt`).  Library calls are models supplied by the caller; a construct outside
the model raises Unknown, so the run decides nothing.  Unknown outcomes go through choose(), and every sequence of choices is run.
"""
import ast


class Unknown(Exception): pass


class Exc(Exception):
    """a Python exception of the program: kind is the class name"""
    def __init__(s, kind, msg=None): super().__init__(kind); s.kind = kind; s.msg = msg


class Exit(Exception):
    def __init__(s, code): super().__init__(code); s.code = code


class _Ret(Exception):
    def __init__(s, v): s.v = v


class _Brk(Exception): pass
class _Cont(Exception): pass


BASES = {'FileNotFoundError': 'OSError', 'PermissionError': 'OSError', 'IsADirectoryError': 'OSError', 'OSError': 'Exception', 'IOError': 'OSError',
         'ValueError': 'Exception', 'TypeError': 'Exception', 'IndexError': 'LookupError', 'KeyError': 'LookupError', 'LookupError': 'Exception',
         'AttributeError': 'Exception', 'ParseError': 'ValueError', 'EncodingError': 'Exception', 'RuntimeError': 'Exception', 'Exception': 'BaseException',
         'AssertionError': 'Exception', 'UnicodeDecodeError': 'ValueError', 'UnicodeEncodeError': 'ValueError', 'OverflowError': 'ArithmeticError', 'ArithmeticError': 'Exception',
         'SystemExit': 'BaseException', 'StopIteration': 'Exception', 'BinasciiError': 'ValueError', 'NotImplementedError': 'RuntimeError'}


def is_a(k, base):
    while k:
        if k == base: return True
        k = BASES.get(k)
    return False


class Atom:
    """a piece of text no character of which is a comma, bracket or blank; kind says what it spells"""
    def __init__(s, kind, name, **kw): s.kind = kind; s.name = name; s.__dict__.update(kw)
    def __repr__(s): return f'<{s.name}>'


class STxt:
    def __init__(s, ps):
        out = []
        for p in ps:
            if isinstance(p, str):
                if not p: continue
                if out and isinstance(out[-1], str): out[-1] += p; continue
            out.append(p)
        s.ps = tuple(out)
    def __repr__(s): return ''.join(p if isinstance(p, str) else repr(p) for p in s.ps)
    def __eq__(s, o): return isinstance(o, STxt) and s.ps == o.ps
    def __hash__(s): return hash(s.ps)


def txt(v):
    """normalise: a text without atoms is a str"""
    if isinstance(v, STxt):
        if not v.ps: return ''
        if len(v.ps) == 1 and isinstance(v.ps[0], str): return v.ps[0]
    return v


def pieces(v): return v.ps if isinstance(v, STxt) else ((v,) if v else ())


class SInt:
    def __init__(s, name, f=None): s.name = name
    def __repr__(s): return s.name
    def __eq__(s, o): return isinstance(o, SInt) and s.name == o.name
    def __hash__(s): return hash(s.name)


class SByt:
    """bytes: a sequence of chunk names (hashable)"""
    def __init__(s, ps): s.ps = tuple(ps)
    def __repr__(s): return '+'.join(map(str, s.ps)) or "b''"
    def __eq__(s, o): return isinstance(o, SByt) and s.ps == o.ps
    def __hash__(s): return hash(s.ps)


class Nat:
    """a library object: attr(name) and call(args, kw)"""
    def __init__(s, name, attrs=None, call=None, enter=None): s.name = name; s.attrs = attrs or {}; s.fn = call; s.enter = enter
    def __repr__(s): return s.name


class Fn:
    def __init__(s, node, env, defaults, kwdefaults): s.node = node; s.env = env; s.defaults = defaults; s.kwdefaults = kwdefaults


class Env:
    def __init__(s, up=None): s.v = {}; s.up = up; s.glob = set(); s.nonloc = set()
    def get(s, n):
        e = s
        while e is not None:
            if n in e.v: return e.v[n]
            e = e.up
        raise KeyError(n)
    def set(s, n, v):
        if n in s.glob:
            e = s
            while e.up is not None: e = e.up
            e.v[n] = v; return
        if n in s.nonloc:
            e = s.up
            while e is not None:
                if n in e.v: e.v[n] = v; return
                e = e.up
        s.v[n] = v


class Run:
    """one replayable sequence of choices"""
    def __init__(s, pre): s.pre = pre; s.log = []
    def choose(s, n, what=''):
        i = len(s.log)
        c = s.pre[i][0] if i < len(s.pre) else 0
        s.log.append((c, n, what)); return c


def explore(f, limit=4000):
    """yield (run, result) for every sequence of choices of f(run)"""
    pre = []; n = 0
    while True:
        n += 1
        if n > limit: raise Unknown('too many paths')
        r = Run(pre)
        yield r, f(r)
        log = r.log
        while log and log[-1][0] + 1 >= log[-1][1]: log = log[:-1]
        if not log: return
        pre = log[:-1] + [(log[-1][0] + 1, log[-1][1], log[-1][2])]


class Interp:
    MAXSTEP = 40000

    def __init__(s, tree, run, libs, name='__main__'):
        s.run = run; s.libs = libs; s.steps = 0; s.glob = Env(); s.glob.v['__name__'] = name; s.tree = tree
        s.out = []                    # printed lines
        s.glob.v['__doc__'] = None; s.glob.v['__file__'] = 'script.py'

    def module(s): s.block(s.tree.body, s.glob)

    # ---- statements
    def block(s, body, env):
        for st in body: s.stmt(st, env)

    def stmt(s, n, env):
        s.steps += 1
        if s.steps > s.MAXSTEP: raise Unknown('too many steps')
        m = getattr(s, 's_' + type(n).__name__, None)
        if m is None: raise Unknown(f'statement {type(n).__name__}')
        m(n, env)

    def s_Expr(s, n, env): s.ev(n.value, env)
    def s_Pass(s, n, env): pass
    def s_Global(s, n, env): env.glob |= set(n.names)
    def s_Nonlocal(s, n, env): env.nonloc |= set(n.names)
    def s_Break(s, n, env): raise _Brk()
    def s_Continue(s, n, env): raise _Cont()
    def s_Return(s, n, env): raise _Ret(s.ev(n.value, env) if n.value else None)

    def s_Import(s, n, env):
        for a in n.names:
            m = s.lib(a.name)
            if a.asname: env.set(a.asname, m)
            else:
                top = a.name.split('.')[0]
                env.set(top, s.lib(top))

    def lib(s, name):
        if name in s.libs: return s.libs[name]
        if any(k.startswith(name + '.') for k in s.libs):
            return Nat(name, {k[len(name) + 1:].split('.')[0]: s.lib('.'.join(k.split('.')[:name.count('.') + 2])) for k in s.libs if k.startswith(name + '.')})
        return Nat(name)

    def s_ImportFrom(s, n, env):
        m = s.lib(n.module) if n.module != '__future__' else Nat('__future__')
        for a in n.names:
            env.set(a.asname or a.name, m.attrs[a.name] if a.name in m.attrs else Nat(f'{n.module}.{a.name}'))

    def s_FunctionDef(s, n, env):
        if n.decorator_list: raise Unknown('decorator')
        env.set(n.name, Fn(n, env, [s.ev(d, env) for d in n.args.defaults], [d and s.ev(d, env) for d in n.args.kw_defaults]))

    def s_Assign(s, n, env):
        v = s.ev(n.value, env)
        for t in n.targets: s.assign(t, v, env)

    def s_AnnAssign(s, n, env):
        if n.value is not None: s.assign(n.target, s.ev(n.value, env), env)

    def s_AugAssign(s, n, env):
        load = ast.copy_location(ast.fix_missing_locations(_load(n.target)), n.target)
        old = s.ev(load, env); v = s.ev(n.value, env)
        if isinstance(n.op, ast.Add) and isinstance(old, list): old.extend(s.iterate(v)); v = old
        else: v = s.binop(n.op, old, v)
        s.assign(n.target, v, env)

    def assign(s, t, v, env):
        if isinstance(t, ast.Name): env.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(s.iterate(v))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]; k = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1: raise Exc('ValueError')
                vs = vs[:i] + [vs[i:len(vs) - k]] + vs[len(vs) - k:]
            if len(vs) != len(t.elts): raise Exc('ValueError')
            for x, y in zip(t.elts, vs): s.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        elif isinstance(t, ast.Subscript):
            o = s.ev(t.value, env); k = s.ev(t.slice, env)
            if isinstance(o, (list, dict)) and not isinstance(k, slice):
                try: o[k] = v
                except IndexError: raise Exc('IndexError')
            else: raise Unknown('assignment to an element')
        else: raise Unknown('assignment target')

    def s_If(s, n, env):
        s.block(n.body if s.truth(s.ev(n.test, env)) else n.orelse, env)

    def s_While(s, n, env):
        while s.truth(s.ev(n.test, env)):
            s.steps += 1
            if s.steps > s.MAXSTEP: raise Unknown('loop')
            try: s.block(n.body, env)
            except _Brk: return
            except _Cont: pass
        s.block(n.orelse, env)

    def s_For(s, n, env):
        for v in s.iterate(s.ev(n.iter, env)):
            s.assign(n.target, v, env)
            try: s.block(n.body, env)
            except _Brk: return
            except _Cont: pass
        s.block(n.orelse, env)

    def s_Raise(s, n, env):
        if n.exc is None: raise env.get('$exc')
        v = s.ev(n.exc, env)
        if isinstance(v, Nat) and v.name == 'SystemExit': raise Exit(None)
        if isinstance(v, Nat): raise Exc(v.name)
        if isinstance(v, (Exc, Exit)): raise v
        raise Unknown('raise')

    def s_Assert(s, n, env):
        if not s.truth(s.ev(n.test, env)): raise Exc('AssertionError')

    def s_Try(s, n, env):
        try:
            try: s.block(n.body, env)
            except (Exc, Exit) as e:
                for h in n.handlers:
                    if h.type is None: ok = True
                    else:
                        t = s.ev(h.type, env)
                        ts = t if isinstance(t, tuple) else (t,)
                        k = e.kind if isinstance(e, Exc) else 'SystemExit'
                        ok = any(is_a(k, x.name.split('.')[-1] if x.name != 'binascii.Error' else 'BinasciiError') for x in ts)
                    if ok:
                        if h.name: env.set(h.name, e)
                        old = env.v.get('$exc'); env.v['$exc'] = e
                        try: s.block(h.body, env)
                        finally: env.v['$exc'] = old
                        break
                else: raise
            else: s.block(n.orelse, env)
        finally:
            s.block(n.finalbody, env)

    def s_With(s, n, env):
        exits = []
        for it in n.items:
            v = s.ev(it.context_expr, env)
            if not isinstance(v, Nat) or v.enter is None: raise Unknown('context manager')
            if it.optional_vars is not None: s.assign(it.optional_vars, v, env)
            exits.append(v)
        try: s.block(n.body, env)
        finally:
            for v in reversed(exits): v.enter()

    # ---- expressions
    def ev(s, n, env):
        s.steps += 1
        if s.steps > s.MAXSTEP: raise Unknown('too many steps')
        m = getattr(s, 'e_' + type(n).__name__, None)
        if m is None: raise Unknown(f'expression {type(n).__name__}')
        return m(n, env)

    def e_Constant(s, n, env): return n.value
    def e_Name(s, n, env):
        try: return env.get(n.id)
        except KeyError: pass
        if n.id in s.libs.get('', {}): return s.libs[''][n.id]
        if n.id in BUILTINS: return Nat(n.id)
        if n.id in BASES: return Nat(n.id)
        raise Unknown(f'name {n.id}')
    def e_Tuple(s, n, env): return tuple(s.elts(n, env))
    def e_List(s, n, env): return list(s.elts(n, env))
    def elts(s, n, env):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred): out += list(s.iterate(s.ev(x.value, env)))
            else: out.append(s.ev(x, env))
        return out
    def e_Set(s, n, env): return set(s.elts(n, env))
    def e_Dict(s, n, env): return {s.ev(k, env): s.ev(v, env) for k, v in zip(n.keys, n.values)}
    def e_NamedExpr(s, n, env):
        v = s.ev(n.value, env); env.set(n.target.id, v); return v
    def e_IfExp(s, n, env): return s.ev(n.body if s.truth(s.ev(n.test, env)) else n.orelse, env)
    def e_BoolOp(s, n, env):
        for x in n.values:
            v = s.ev(x, env)
            if x is n.values[-1]: return v
            if s.truth(v) == isinstance(n.op, ast.Or): return v
    def e_UnaryOp(s, n, env):
        v = s.ev(n.operand, env)
        if isinstance(n.op, ast.Not): return not s.truth(v)
        if isinstance(v, int):
            if isinstance(n.op, ast.USub): return -v
            if isinstance(n.op, ast.Invert): return ~v
            return v
        if isinstance(v, SInt) and isinstance(n.op, ast.USub): return SInt(v.name[1:] if v.name.startswith('-') else '-' + v.name)
        raise Unknown('unary operator')
    def e_Lambda(s, n, env): return Fn(n, env, [s.ev(d, env) for d in n.args.defaults], [d and s.ev(d, env) for d in n.args.kw_defaults])
    def e_JoinedStr(s, n, env):
        ps = []
        for x in n.values:
            if isinstance(x, ast.Constant): ps.append(x.value)
            else:
                v = s.ev(x.value, env)
                if x.format_spec is not None: raise Unknown('format specification')
                ps += pieces(s.str_(v)) if x.conversion in (-1, 115) else (str(v),)
        return txt(STxt(ps))
    def e_Compare(s, n, env):
        l = s.ev(n.left, env)
        for op, x in zip(n.ops, n.comparators):
            r = s.ev(x, env)
            if not s.compare(op, l, r): return False
            l = r
        return True

    def compare(s, op, l, r):
        sym = lambda v: isinstance(v, (STxt, SInt, SByt))
        if isinstance(op, ast.Is): return l is r or (not sym(l) and not sym(r) and isinstance(l, (int, str, type(None))) and l == r and type(l) is type(r))
        if isinstance(op, ast.IsNot): return not s.compare(ast.Is(), l, r)
        if isinstance(op, ast.In): return s.contains(r, l)
        if isinstance(op, ast.NotIn): return not s.contains(r, l)
        if isinstance(op, ast.NotEq): return not s.compare(ast.Eq(), l, r)
        if isinstance(op, ast.Eq):
            if sym(l) or sym(r): return s.equal(l, r)
            return l == r
        if sym(l) or sym(r) or not type(l) in (int, str, bool, float) or not type(r) in (int, str, bool, float): raise Unknown('comparison')
        return {'Lt': l < r, 'LtE': l <= r, 'Gt': l > r, 'GtE': l >= r}[type(op).__name__]

    def equal(s, l, r):
        if type(l) is type(r) and l == r: return True
        if isinstance(l, SByt) and isinstance(r, (bytes, SByt)) or isinstance(r, SByt) and isinstance(l, bytes):
            a, b = (l, r) if isinstance(l, SByt) else (r, l)
            if isinstance(b, bytes) and not b: return not a.ps
            raise Unknown('comparison of bytes')
        a, b = pieces(l) if isinstance(l, (str, STxt)) else None, pieces(r) if isinstance(r, (str, STxt)) else None
        if a is None or b is None:
            if isinstance(l, STxt) or isinstance(r, STxt): return False
            raise Unknown('comparison')
        # an atom is non-empty; a literal against an atom is decided by what the atom can spell
        if not a or not b: return not a and not b
        for x, y in ((a, b), (b, a)):
            if len(y) == 1 and isinstance(y[0], str):
                m = _fits(x, y[0])
                if m is False: return False
        raise Unknown('comparison of texts')

    def contains(s, c, x):
        if isinstance(c, (list, tuple, set, dict)): return any(s.compare(ast.Eq(), x, y) for y in c)
        if isinstance(c, (str, STxt)) and isinstance(x, str):
            if any(x in p for p in pieces(c) if isinstance(p, str)): return True
            if isinstance(c, str): return False
            if len(x) == 1 and all(_excludes(p, x) for p in c.ps if isinstance(p, Atom)): return False
            if any(all(_excludes(p, ch) for p in c.ps if isinstance(p, Atom)) for ch in x): 
                if all(ch not in ''.join(p for p in c.ps if isinstance(p, str)) for ch in x if all(_excludes(p, ch) for p in c.ps if isinstance(p, Atom))): return False
        raise Unknown('containment')

    def truth(s, v):
        if isinstance(v, STxt): return True
        if isinstance(v, SByt): return bool(v.ps)
        if isinstance(v, SInt):
            return bool(s.run.choose(2, f'{v.name} is zero') == 0)
        if isinstance(v, (Nat, Fn, Exc)): return True
        return bool(v)

    def e_BinOp(s, n, env): return s.binop(n.op, s.ev(n.left, env), s.ev(n.right, env))
    def binop(s, op, l, r):
        o = type(op).__name__
        if o == 'Add':
            if isinstance(l, (str, STxt)) and isinstance(r, (str, STxt)): return txt(STxt(pieces(l) + pieces(r)))
            if isinstance(l, (bytes, SByt)) and isinstance(r, (bytes, SByt)): return SByt(bps(l) + bps(r))
            if isinstance(l, (list, tuple)) and type(l) is type(r): return l + r
        if o == 'Mod' and isinstance(l, str):
            return s.percent(l, r if isinstance(r, tuple) else (r,))
        if o == 'Mult' and isinstance(l, (str, list)) and type(r) is int: return l * r
        if o == 'Div' and isinstance(l, Nat) and 'joinpath' in l.attrs: return l.attrs['joinpath'].fn([r], {})
        if type(l) in (int, bool) and type(r) in (int, bool):
            try:
                return {'Add': lambda: l + r, 'Sub': lambda: l - r, 'Mult': lambda: l * r, 'FloorDiv': lambda: l // r, 'Mod': lambda: l % r, 'BitAnd': lambda: l & r, 'BitOr': lambda: l | r,
                        'BitXor': lambda: l ^ r, 'LShift': lambda: l << r, 'RShift': lambda: l >> r, 'Pow': lambda: l ** r}[o]()
            except ZeroDivisionError: raise Exc('ArithmeticError')
            except KeyError: raise Unknown('operator')
        if o == 'BitOr' and isinstance(l, Nat): return Nat('type')
        if isinstance(l, SInt) and type(r) is int and o in ('Add', 'Sub', 'Mult', 'FloorDiv', 'LShift', 'RShift'):
            if r == (1 if o in ('Mult', 'FloorDiv') else 0): return l
            return SInt(f'({l!r} {o} {r!r})')
        if isinstance(l, (str, STxt)) != isinstance(r, (str, STxt)) and o == 'Add': raise Exc('TypeError')
        raise Unknown(f'operator {o}')

    def percent(s, f, args):
        ps = []; i = 0; args = list(args)
        while i < len(f):
            if f[i] == '%':
                if f[i + 1:i + 2] == '%': ps.append('%'); i += 2; continue
                if f[i + 1:i + 2] == 's': ps += pieces(s.str_(args.pop(0))); i += 2; continue
                raise Unknown('format')
            ps.append(f[i]); i += 1
        return txt(STxt(ps))

    def str_(s, v):
        if isinstance(v, (str, STxt)): return v
        if isinstance(v, (int, bool, type(None))): return str(v)
        if isinstance(v, SInt): return STxt([Atom('dec', v.name)])
        if isinstance(v, Exc): return STxt([Atom('msg', v.kind)])
        if isinstance(v, Nat) and 'path' in v.attrs: return v.attrs['path']
        return STxt([Atom('msg', repr(v))])

    def e_Starred(s, n, env): raise Unknown('star')

    def iterate(s, v):
        if isinstance(v, (list, tuple)): return list(v)
        if isinstance(v, (set, dict, range)): return list(v)
        if isinstance(v, str): return list(v)
        if isinstance(v, _It): return v.items
        if isinstance(v, _Lazy): return v
        raise Unknown(f'iteration over {v!r}')

    def comp(s, n, env, mk):
        out = []
        def go(i, e):
            if i == len(n.generators): out.append(mk(e)); return
            g = n.generators[i]
            for v in s.iterate(s.ev(g.iter, e)):
                e2 = Env(e); s.assign(g.target, v, e2)
                if all(s.truth(s.ev(c, e2)) for c in g.ifs): go(i + 1, e2)
        go(0, Env(env)); return out
    def e_ListComp(s, n, env): return s.comp(n, env, lambda e: s.ev(n.elt, e))
    def e_GeneratorExp(s, n, env): return s.comp(n, env, lambda e: s.ev(n.elt, e))
    def e_SetComp(s, n, env): return set(s.comp(n, env, lambda e: s.ev(n.elt, e)))
    def e_DictComp(s, n, env): return dict(s.comp(n, env, lambda e: (s.ev(n.key, e), s.ev(n.value, e))))

    def e_Slice(s, n, env): return slice(*(None if x is None else s.ev(x, env) for x in (n.lower, n.upper, n.step)))
    def e_Subscript(s, n, env):
        o = s.ev(n.value, env); k = s.ev(n.slice, env)
        if isinstance(o, (str, list, tuple, bytes)) and (type(k) is int or isinstance(k, slice) and all(type(x) in (int, type(None)) for x in (k.start, k.stop, k.step))):
            try: return o[k]
            except IndexError: raise Exc('IndexError')
        if isinstance(o, dict):
            if isinstance(k, (STxt, SInt, SByt)): raise Unknown('key')
            if k in o: return o[k]
            raise Exc('KeyError')
        if isinstance(o, STxt): return s.tslice(o, k)
        if isinstance(o, SByt): return s.bslice(o, k)
        if isinstance(o, Nat): return Nat('type')
        raise Unknown('subscript')

    def tslice(s, o, k):
        if isinstance(k, slice) and k.step in (None, 1):
            a = k.start or 0
            if a >= 0 and k.stop is None:
                if isinstance(o.ps[0], str) and len(o.ps[0]) >= a: return txt(STxt((o.ps[0][a:],) + o.ps[1:]))
                if a == 0: return o
                n = _len(o.ps[0]) if isinstance(o.ps[0], Atom) else None
                if n is not None and n >= a: return STxt((Atom('cut', f'{o.ps[0].name}[{a}:]'),) + o.ps[1:])
            if a == 0 and k.stop is not None and k.stop < 0 and isinstance(o.ps[-1], str) and len(o.ps[-1]) >= -k.stop: return txt(STxt(o.ps[:-1] + (o.ps[-1][:k.stop],)))
            if a == 0 and k.stop is not None and k.stop >= 0:
                if isinstance(o.ps[0], str) and len(o.ps[0]) >= k.stop: return o.ps[0][:k.stop]
                if isinstance(o.ps[0], Atom): return STxt((Atom('cut', f'{o.ps[0].name}[:{k.stop}]', of=o.ps[0]),))
        if type(k) is int:
            if k >= 0 and isinstance(o.ps[0], str) and len(o.ps[0]) > k: return o.ps[0][k]
            if k < 0 and isinstance(o.ps[-1], str) and len(o.ps[-1]) >= -k: return o.ps[-1][k]
        raise Unknown('slice of a text')

    def bslice(s, o, k):
        if isinstance(k, slice) and not o.ps: return o
        if isinstance(k, slice) and k.step in (None, 1) and (k.start in (0, None)) and type(k.stop) is int and len(o.ps) == 1 and isinstance(o.ps[0], tuple) and o.ps[0][0] == 'keccak':
            return SByt((('sel',) + o.ps[0][1:],) if k.stop == 4 else (('keccak', o.ps[0][1], 0, k.stop),))
        if isinstance(k, slice): return SByt((('slice', o.ps, k.start, k.stop, k.step),))
        raise Unknown('slice of bytes')

    def e_Attribute(s, n, env):
        o = s.ev(n.value, env); return s.attr(o, n.attr)

    def attr(s, o, a):
        if isinstance(o, Nat):
            if a in o.attrs: return o.attrs[a]
            return Nat(f'{o.name}.{a}')
        if isinstance(o, Exc) and a == 'args': return (o.msg,)
        return Nat('.' + a, call=lambda args, kw: s.method(o, a, args, kw))

    def e_Call(s, n, env):
        f = s.ev(n.func, env)
        args = []
        for x in n.args:
            if isinstance(x, ast.Starred): args += list(s.iterate(s.ev(x.value, env)))
            else: args.append(s.ev(x, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None: kw.update(s.ev(k.value, env))
            else: kw[k.arg] = s.ev(k.value, env)
        return s.call(f, args, kw)

    def call(s, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Fn): return s.apply(f, args, kw)
        if isinstance(f, Nat):
            if f.fn is not None: return f.fn(args, kw)
            if f.name in BASES: return Exc(f.name, args[0] if args else None) if f.name != 'SystemExit' else Exit(args[0] if args else None)
            if f.name in BUILTINS: return s.builtin(f.name, args, kw)
            raise Unknown(f'call of {f.name}')
        raise Unknown('call')

    def apply(s, f, args, kw):
        a = f.node.args; env = Env(f.env); names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and not a.vararg: raise Exc('TypeError')
        for nm, v in zip(names, args): env.v[nm] = v
        if a.vararg: env.v[a.vararg.arg] = tuple(args[len(names):])
        kws = [x.arg for x in a.kwonlyargs]; extra = {}
        for k, v in kw.items():
            if k in names or k in kws: env.v[k] = v
            elif a.kwarg: extra[k] = v
            else: raise Exc('TypeError')
        if a.kwarg: env.v[a.kwarg.arg] = extra
        for nm, d in zip(names[len(names) - len(f.defaults):], f.defaults): env.v.setdefault(nm, d)
        for nm, d in zip(kws, f.kwdefaults):
            if nm not in env.v: env.v[nm] = d
        if any(nm not in env.v for nm in names + kws): raise Exc('TypeError')
        if isinstance(f.node, ast.Lambda): return s.ev(f.node.body, env)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)): return s.generator(f, env)
        try: s.block(f.node.body, env)
        except _Ret as r: return r.v
        return None

    def generator(s, f, env):
        out = []
        env.v['$yield'] = out
        try: s.block(f.node.body, env)
        except _Ret: pass
        return out
    def e_Yield(s, n, env):
        env.get('$yield').append(s.ev(n.value, env) if n.value else None)
    def e_YieldFrom(s, n, env):
        env.get('$yield').extend(s.iterate(s.ev(n.value, env)))

    # ---- builtins
    def builtin(s, f, a, kw):
        if f == 'print':
            if set(kw) - {'file', 'end', 'sep', 'flush'}: raise Unknown('print')
            sep = kw.get('sep', ' '); ps = []
            for i, x in enumerate(a):
                if i: ps.append(sep)
                ps += pieces(s.str_(x))
            dst = kw.get('file')
            s.out.append(('err' if isinstance(dst, Nat) and dst.name == 'sys.stderr' else 'out' if dst is None or isinstance(dst, Nat) and dst.name == 'sys.stdout' else 'file', txt(STxt(ps)), kw.get('end', '\n')))
            if s.out[-1][0] == 'file': raise Unknown('print to a file')
            return None
        if f == 'len':
            if isinstance(a[0], (str, list, tuple, dict, set, bytes, range)): return len(a[0])
            n = s.length(a[0])
            return n
        if f == 'int':
            if not a: return 0
            return s.int_(a[0], (a[1] if len(a) > 1 else kw.get('base', 10)))
        if f == 'str': return s.str_(a[0]) if len(a) == 1 else s.method(a[0], 'decode', a[1:], kw) if a else ''
        if f == 'bool': return s.truth(a[0]) if a else False
        if f == 'list': return list(s.iterate(a[0])) if a else []
        if f == 'tuple': return tuple(s.iterate(a[0])) if a else ()
        if f == 'set': return set(s.iterate(a[0])) if a else set()
        if f == 'dict': return dict(s.iterate(a[0]), **kw) if a else dict(kw)
        if f == 'zip':
            ls = [list(s.iterate(x)) for x in a]
            if s.truth(kw.get('strict', False)) and len({len(l) for l in ls}) > 1: raise Exc('ValueError')
            return [tuple(t) for t in zip(*ls)]
        if f == 'enumerate': return [(i + (a[1] if len(a) > 1 else kw.get('start', 0)), x) for i, x in enumerate(s.iterate(a[0]))]
        if f == 'abs' and isinstance(a[0], SInt): return SInt(a[0].name.lstrip('-')) if a[0].name.lstrip('-').isalnum() else SInt(f'abs({a[0].name})')
        if f == 'abs' and type(a[0]) is int: return abs(a[0])
        if f == 'range' and all(type(x) is int for x in a): return range(*a)
        if f == 'map': return [s.call(a[0], list(t)) for t in zip(*[list(s.iterate(x)) for x in a[1:]])]
        if f == 'filter': return [x for x in s.iterate(a[1]) if s.truth(x if a[0] is None else s.call(a[0], [x]))]
        if f == 'reversed': return list(reversed(s.iterate(a[0])))
        if f == 'sorted':
            l = list(s.iterate(a[0]))
            if all(isinstance(x, (str, int)) for x in l) and not kw: return sorted(l)
            raise Unknown('sorted')
        if f in ('any', 'all'):
            vs = [s.truth(x) for x in s.iterate(a[0])]
            return any(vs) if f == 'any' else all(vs)
        if f == 'iter' and len(a) == 1: return _It(list(s.iterate(a[0])))
        if f == 'iter' and len(a) == 2: return _Lazy(s, a[0], a[1])
        if f == 'next':
            it = a[0]
            if isinstance(it, _It):
                if it.items: return it.items.pop(0)
                if len(a) > 1: return a[1]
                raise Exc('StopIteration')
        if f == 'isinstance':
            ts = a[1] if isinstance(a[1], tuple) else (a[1],)
            k = 'str' if isinstance(a[0], (str, STxt)) else 'bool' if isinstance(a[0], bool) else 'int' if isinstance(a[0], (int, SInt)) else 'bytes' if isinstance(a[0], (bytes, SByt)) else type(a[0]).__name__
            return any(t.name == k or (t.name == 'int' and k == 'bool') for t in ts)
        if f == 'bytes' and not a: return b''
        if f == 'bytes' and len(a) == 1 and isinstance(a[0], (bytes, SByt)): return a[0]
        if f == 'bytearray': return SByt(bps(a[0])) if a else SByt(())
        if f in ('min', 'max') and all(type(x) is int for x in a): return min(a) if f == 'min' else max(a)
        if f == 'repr': return STxt([Atom('msg', repr(a[0]))])
        if f in ('exit', 'quit'): raise Exit(a[0] if a else None)
        if f == 'sum': 
            t = a[1] if len(a) > 1 else 0
            for x in s.iterate(a[0]): t = s.binop(ast.Add(), t, x)
            return t
        if f == 'memoryview': return a[0]
        raise Unknown(f'builtin {f}')

    def length(s, v):
        if isinstance(v, STxt):
            n = 0
            for p in v.ps:
                k = len(p) if isinstance(p, str) else _len(p)
                if k is None: return SInt(f'len({v!r})')
                n += k
            return n
        return SInt(f'len({v!r})')

    def int_(s, v, base):
        if type(v) in (int, bool) or isinstance(v, SInt): return v
        if isinstance(v, str):
            try: return int(v, base)
            except ValueError: raise Exc('ValueError')
        if isinstance(v, STxt):
            ps = v.ps; neg = ''
            if isinstance(ps[0], str) and ps[0] in ('-', '+'): neg = ps[0].replace('+', ''); ps = ps[1:]
            if len(ps) == 1 and isinstance(ps[0], Atom) and ps[0].kind == 'dec' and base in (0, 10): return SInt(neg + ps[0].name)
            if len(ps) == 1 and isinstance(ps[0], Atom) and ps[0].kind == 'dec': return SInt(f'{neg}base{base}({ps[0].name})')
            if base == 10 and (any(isinstance(p, str) and p.strip('0123456789_ +-') for p in ps)): raise Exc('ValueError')
            if len(ps) == 2 and ps[0] in ('0x', '0X') and isinstance(ps[1], Atom) and ps[1].kind == 'hex' and base in (0, 16): return SInt(neg + 'hex:' + ps[1].name)
            if len(ps) == 1 and isinstance(ps[0], Atom) and ps[0].kind == 'hex' and base == 16: return SInt(neg + 'hex:' + ps[0].name)
            raise Unknown('int of a text')
        raise Exc('TypeError')

    def method(s, o, m, a, kw):
        if isinstance(o, (str, STxt)): return s.smethod(o, m, a, kw)
        if isinstance(o, (bytes, SByt)): return s.bmethod(o, m, a, kw)
        if isinstance(o, list):
            if m == 'append': o.append(a[0]); return None
            if m == 'extend': o.extend(s.iterate(a[0])); return None
            if m == 'insert': o.insert(a[0], a[1]); return None
            if m == 'reverse': o.reverse(); return None
            if m == 'copy': return list(o)
            if m == 'clear': o.clear(); return None
            if m == 'pop':
                try: return o.pop(*a)
                except IndexError: raise Exc('IndexError')
            if m in ('index', 'count'): raise Unknown(m)
        if isinstance(o, dict):
            if m == 'get':
                if isinstance(a[0], (STxt, SInt)): raise Unknown('key')
                return o.get(a[0], a[1] if len(a) > 1 else None)
            if m == 'items': return list(o.items())
            if m == 'keys': return list(o)
            if m == 'values': return list(o.values())
        if isinstance(o, set) and m == 'add': o.add(a[0]); return None
        if isinstance(o, int) and m == 'to_bytes': raise Unknown(m)
        raise Unknown(f'method {m}')

    def smethod(s, o, m, a, kw):
        if isinstance(o, str) and all(isinstance(x, (str, int, type(None))) for x in a) and not kw and m in (
                'find', 'rfind', 'index', 'rindex', 'split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'casefold', 'startswith', 'endswith', 'removeprefix', 'removesuffix', 'partition',
                'rpartition', 'replace', 'isdigit', 'isdecimal', 'isalpha', 'isalnum', 'isidentifier', 'count', 'title', 'capitalize', 'splitlines', 'isspace', 'zfill', 'islower', 'isupper', 'isnumeric', 'isascii'):
            try: return getattr(o, m)(*a)
            except ValueError: raise Exc('ValueError')
        if m in ('startswith', 'endswith') and isinstance(a[0], tuple): return any(s.smethod(o, m, [x], kw) for x in a[0])
        if m == 'join':
            ps = []
            for i, x in enumerate(s.iterate(a[0])):
                if i: ps += pieces(o)
                ps += pieces(x)
            return txt(STxt(ps))
        if m == 'format' and isinstance(o, str):
            ps = []; rest = o; i = 0
            while '{' in rest:
                pre, _, rest = rest.partition('{')
                ps.append(pre); f, _, rest = rest.partition('}')
                if f and not f.isdigit() and f not in kw: raise Unknown('format')
                ps += pieces(s.str_(a[int(f) if f else i] if f not in kw or f == '' or f.isdigit() else kw[f])); i += 1
            return txt(STxt(ps + [rest]))
        if m == 'encode': return SByt((('text', o),))
        ps = pieces(o)
        if not isinstance(o, STxt): raise Unknown(f'{m}')
        if m in ('strip', 'lstrip', 'rstrip'):
            cs = a[0] if a else ' \t\r\n'
            ps = list(ps)
            if m != 'rstrip':
                if isinstance(ps[0], str):
                    ps[0] = ps[0].lstrip(cs)
                    if not ps[0] and len(ps) > 1 and not all(_excludes(ps[1], c) for c in cs): raise Unknown('strip')
                elif not all(_excludes(ps[0], c) for c in cs): raise Unknown('strip')
            if m != 'lstrip':
                if isinstance(ps[-1], str):
                    ps[-1] = ps[-1].rstrip(cs)
                    if not ps[-1] and len(ps) > 1 and not all(_excludes(ps[-2], c) for c in cs): raise Unknown('strip')
                elif not all(_excludes(ps[-1], c) for c in cs): raise Unknown('strip')
            return txt(STxt(ps))
        if m in ('startswith', 'endswith'):
            x = a[0]; e = ps[0] if m == 'startswith' else ps[-1]
            if not isinstance(x, str): raise Unknown(m)
            if isinstance(e, str):
                if len(e) >= len(x): return getattr(e, m)(x)
                if not (x.startswith(e) if m == 'startswith' else x.endswith(e)): return False
                raise Unknown(m)
            ch = x[0] if m == 'startswith' else x[-1]
            if not x: return True
            if _excludes(e, ch): return False
            if m == 'startswith' and x in ('0x', '0X') and e.kind in ('dec', 'hex'): return False
            raise Unknown(m)
        if m == 'removeprefix' and isinstance(a[0], str):
            return s.tslice(o, slice(len(a[0]), None, None)) if s.smethod(o, 'startswith', a, {}) else o
        if m == 'removesuffix' and isinstance(a[0], str):
            return s.tslice(o, slice(None, -len(a[0]), None)) if s.smethod(o, 'endswith', a, {}) else o
        if m in ('split', 'rsplit') and len(a) == 1 and isinstance(a[0], str) and not kw and a[0]:
            sep = a[0]
            if not any(all(_excludes(p, c) for p in ps if isinstance(p, Atom)) for c in sep) : raise Unknown('split')
            out = [[]]
            for p in ps:
                if isinstance(p, Atom): out[-1].append(p)
                else:
                    bits = p.split(sep)
                    out[-1].append(bits[0])
                    for b in bits[1:]: out.append([b])
            return [txt(STxt(x)) for x in out]
        if m == 'replace' and len(a) == 2 and isinstance(a[0], str) and len(a[0]) >= 1:
            if any(all(_excludes(p, c) for p in ps if isinstance(p, Atom)) for c in a[0]):
                out = []
                for p in ps:
                    if isinstance(p, Atom): out.append(p)
                    else:
                        bits = p.split(a[0])
                        for i, b in enumerate(bits):
                            if i: out += pieces(a[1])
                            out.append(b)
                return txt(STxt(out))
            if all(isinstance(p, Atom) and p.kind in ('hex', 'dec') and a[0] in ('0x', '0X') or isinstance(p, str) for p in ps) :
                return txt(STxt([p.replace(a[0], a[1]) if isinstance(p, str) else p for p in ps]))
        if m in ('lower', 'upper', 'casefold'):
            m2 = 'lower' if m == 'casefold' else m
            return txt(STxt([getattr(p, m2)() if isinstance(p, str) else p if p.kind in ('dec',) else _case(p, m2) for p in ps]))
        if m in ('find', 'index') and isinstance(a[0], str) and len(a) == 1:
            if isinstance(ps[0], str) and a[0] in ps[0]: return ps[0].find(a[0])
            if not s.contains(o, a[0]):
                if m == 'index': raise Exc('ValueError')
                return -1
        if m in ('isdigit', 'isdecimal', 'isnumeric') and all(isinstance(p, str) and p.isdigit() or isinstance(p, Atom) and p.kind == 'dec' for p in ps): return True
        raise Unknown(f'text method {m}')

    def bmethod(s, o, m, a, kw):
        if m == 'hex' and not a and not kw: return hexof(o)
        if m == 'hex': return STxt([Atom('hexsep', f'{o!r} with separators')]) if bps(o) else ''
        if m == 'decode':
            if len(bps(o)) == 1 and isinstance(bps(o)[0], tuple) and bps(o)[0][0] in ('hexbytes', 'text'):
                k, v = bps(o)[0][:2]
                return v
            return STxt([Atom('decoded', f'decode({o!r})')])
        if m == 'join': 
            ps = []
            for i, x in enumerate(s.iterate(a[0])):
                if i: ps += bps(o)
                ps += bps(x)
            return SByt(ps)
        if m in ('strip', 'rstrip', 'lstrip', 'replace', 'lower', 'upper', 'removeprefix', 'removesuffix', 'ljust', 'rjust', 'zfill', 'lstrip', 'translate', 'splitlines', 'title'):
            if not bps(o) and m not in ('ljust', 'rjust', 'zfill'): return SByt(())
            return SByt(((m, bps(o), tuple(map(repr, a))),))
        if m == 'extend' : o.ps = o.ps + bps(a[0]); return None
        raise Unknown(f'bytes method {m}')


def _load(t):
    t = ast.parse(ast.unparse(t), mode='eval').body
    return t


def bps(v):
    if isinstance(v, SByt): return v.ps
    return (('lit', v.hex()),) if v else ()


def hexof(v):
    """the lower-case hex text of bytes, chunk by chunk"""
    return txt(STxt([Atom('hexof', ('hexof', p)) if not (isinstance(p, tuple) and p[0] == 'lit') else p[1] for p in bps(v)])) if bps(v) else ''


def _case(p, m):
    if p.kind == 'hexof': return p if m == 'lower' else Atom('upper', f'upper({p.name})')
    if p.kind == 'hex': return Atom('hex', p.name, cased=m)
    return Atom('cased', f'{m}({p.name})')


Atom.__eq__ = lambda s, o: isinstance(o, Atom) and (s.kind, s.name) == (o.kind, o.name)
Atom.__hash__ = lambda s: hash((s.kind, s.name))


def _excludes(p, c):
    """True when no character of the atom can be c"""
    if p.kind == 'dec': return c not in '0123456789'
    if p.kind in ('hex', 'hexof'): return c not in '0123456789abcdefABCDEF'
    if p.kind == 'word': return c in ', \t\r\n()[]"'
    return False


def _len(p):
    return getattr(p, 'len', None)


def _fits(ps, lit):
    """False when no text of the pieces equals the literal"""
    if all(isinstance(p, str) for p in ps): return ''.join(ps) == lit
    if isinstance(ps[0], str) and not lit.startswith(ps[0]): return False
    if isinstance(ps[-1], str) and not lit.endswith(ps[-1]): return False
    chars = set(lit)
    if len(ps) == 1 and isinstance(ps[0], Atom):
        if any(_excludes(ps[0], c) for c in chars): return False
        n = _len(ps[0])
        if n is not None and n != len(lit): return False
    return None


class _It:
    def __init__(s, items): s.items = items


class _Lazy:
    """iter(callable, sentinel)"""
    def __init__(s, it, f, stop): s.it = it; s.f = f; s.stop = stop
    def __iter__(s):
        while True:
            v = s.it.call(s.f, [])
            if s.it.compare(ast.Eq(), v, s.stop): return
            yield v


BUILTINS = {'print', 'len', 'int', 'str', 'bool', 'list', 'tuple', 'set', 'dict', 'zip', 'enumerate', 'range', 'map', 'filter', 'reversed', 'sorted', 'any', 'all', 'iter', 'next', 'isinstance', 'bytes',
            'bytearray', 'min', 'max', 'repr', 'exit', 'quit', 'sum', 'object', 'type', 'open', 'memoryview', 'float', 'abs'}
