"""G properties about generated code."""
import os, re, sys, time, multiprocessing, traceback
sys.setrecursionlimit(60000)
import report, cgrun, cgeval, yulast, inkm
from cgeval import *  # noqa
from rsi_core import Unknown, Panic

LE = 'enable_storage_load_store_little_endian'
ALL = 'enable_all_optimizers'
NONE_ = 'disable_all_optimizers'
MODES = {'default': {}, 'little-endian storage': {LE: True}, 'all optimisers': {ALL: True}, 'no optimisers': {NONE_: True}, 'all optimisers, little-endian storage': {ALL: True, LE: True}}
_trees = None


def trees():
    global _trees
    if _trees is None: _trees = cgrun.sources()
    return _trees


def find(out, name):
    """the generated function for a Yul function of the program"""
    c = [f for n, f in out.fns.items() if n == name or n.endswith('.' + name)]
    return c[0] if len(c) == 1 else None


def sym_args(fn, names):
    def mk(G):
        a = []
        for p, n in zip(fn.params, names):
            s = sym(256, n)
            if p.ty.kind == 'int': a.append(trunc(s, p.ty.bits) if p.ty.bits < 256 else s)
            else:
                c = Cell(32); c.whole = bswap(s)
                a.append(Ptr(c))
        return a
    return mk


def decode(fn):
    def d(G, v):
        t = fn.fty.a[0]
        def one(t, v):
            if t.kind == 'int': return zext(v, 256) if t.bits < 256 else v
            if t.kind == 'ptr': return G.B(v)
            raise Unknown('result type ' + str(t))
        if t.kind == 'void': return []
        if t.kind == 'struct': return [one(x, y) for x, y in zip(t.a[0], v)]
        return [one(t, v)]
    return d


class Item:
    """one Yul function whose generated code is compared with its text"""
    def __init__(s, key, body, params=('a', 'b', 'c'), rets=('r',), helpers='', limit=7, alt=None, ref=None):
        s.ref = ref     # text of the meaning to compare with, when it is not the body's own
        s.alt = alt     # (name, body, helpers): another meaning, that of a recorded finding
        s.key, s.limit, s.params, s.rets, s.helpers = key, limit, params, rets, helpers
        s.body = body


def helper_funs(text):
    return [x.strip() for x in re.split(r'(?=\bfunction )', text) if x.strip()]


def fname(text): return re.match(r'function\s+([\w$.]+)', text).group(1)


def program(items, ref=False):
    t = 'object "T" { code {\n'
    seen = set()
    for i, it in enumerate(items):
        for h in helper_funs(it.helpers):
            if h not in seen: seen.add(h); t += h + '\n'
        t += f'function tst{i}({", ".join(it.params)}) {"-> " + ", ".join(it.rets) if it.rets else ""} {{ {(ref and it.ref) or it.body} }}\n'
    return t + '}}'


def batches(items, size):
    """groups of items whose helper functions do not collide"""
    open_ = []
    for it in items:
        hs = {fname(h): h for h in helper_funs(it.helpers)}
        for b, names in open_:
            if all(names.get(n, h) == h for n, h in hs.items()):
                b.append(it); names.update(hs)
                if len(b) >= size: yield b; open_ = [x for x in open_ if x[0] is not b]
                break
        else: open_.append(([it], dict(hs)))
    for b, _ in open_: yield b


def judge(items, opts, seed=1, want=24):
    """[(key, status, detail...)] for a batch"""
    res = []
    txt = program(items)
    ast = yulast.parse(txt)
    try:
        out = cgrun.compile_obj(trees(), ast, **opts)
    except Unknown as e:
        if len(items) > 1: return split(items, opts, seed, want)
        return [(items[0].key, 'unknown', 'generator: ' + str(e))]
    own = {f'tst{i}' for i in range(len(items))}
    for kind, msg, fn, _ in out.problems:
        # a function of the generator's own, in every module alike: no need to ask each part of the program again
        if kind == 'no-terminator' and not any(fn == o or fn.endswith('.' + o) or fn.endswith('$' + o) for o in own):
            return [(items[0].key, 'ill-formed', msg)]
    if out.status != 'ok' or out.problems:
        if len(items) > 1: return split(items, opts, seed, want)
        if out.status != 'ok': return [(items[0].key, 'fails', f'{out.status}: {show_err(out)}')]
    funs = {x[1]: x for x in (yulast.parse(program(items, True)) if any(it.ref for it in items) else ast)[2] if x[0] == 'fun'}
    for i, it in enumerate(items):
        fn = find(out, f'tst{i}')
        if fn is None: res.append((it.key, 'unknown', 'no generated function found')); continue
        try:
            c = compare(ref_fun(funs, f'tst{i}', [sym(256, 'p_' + p) for p in it.params]),
                        gen_fun(out, fn, sym_args(fn, ['p_' + p for p in it.params]), decode(fn)), it.limit, want, seed)
        except Unknown as e:
            res.append((it.key, 'unknown', str(e))); continue
        probs = [p for p in out.problems]
        if probs: res.append((it.key, 'ill-formed', probs[0][1]))
        elif c.bad and it.alt and deviates(it, out, fn, want, seed): res.append((it.key, 'deviates', (it.alt[0],) + c.bad[0]))
        elif c.bad: res.append((it.key, 'differs', c.bad[0]))
        elif not c.pairs: res.append((it.key, 'unknown', 'no path compared'))
        else: res.append((it.key, 'ok', (c.pairs, c.proved, c.sampled + c.open, c.cut, c.skipped)))
    return res


def deviates(it, out, fn, want, seed):
    """the generated code has exactly the other meaning"""
    ast = yulast.parse(program([Item(it.key, it.alt[1], it.params, it.rets, it.alt[2])]))
    funs = {x[1]: x for x in ast[2] if x[0] == 'fun'}
    try: c = compare(ref_fun(funs, 'tst0', [sym(256, 'p_' + p) for p in it.params]), gen_fun(out, fn, sym_args(fn, ['p_' + p for p in it.params]), decode(fn)), it.limit, want, seed)
    except Unknown: return False
    return not c.bad and c.pairs > 0


def show_err(out):
    e = out.err
    if isinstance(e, str): return e
    try: return f'{e.var}({", ".join(str(x) for x in e.f)})'
    except Exception: return str(e)


def split(items, opts, seed, want):
    h = len(items) // 2
    return judge(items[:h], opts, seed, want) + judge(items[h:], opts, seed, want)


# ------------------------------------------------------------------ running program sets
_work = []


def _one(i):
    mode, items, seed, want = _work[i]
    try: return mode, judge(items, MODES[mode], seed, want)
    except Unknown as e: return mode, [(it.key, 'unknown', str(e)) for it in items]
    except RecursionError: return mode, [(it.key, 'unknown', 'too deep') for it in items]
    except Exception as e: return mode, [(it.key, 'unknown', f'{type(e).__name__}: {e} {traceback.format_exc()[-300:]}') for it in items]


def run_sets(jobs, seed=1, want=24, batch=40, procs=8):
    """jobs: [(mode, items)]; {(mode, key): (status, detail)}"""
    global _work
    trees()
    _work = []
    for mode, items in jobs:
        for b in batches(items, batch): _work.append((mode, b, seed, want))
    res = {}
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(procs, maxtasksperchild=6) as p:
        for mode, rs in p.imap_unordered(_one, range(len(_work))):
            for k, st, d in rs: res[mode, k] = (st, d)
    return res


def transfer(job):
    """is this transfer function replaced by the runtime's own? with its operands in place?"""
    import cgfail
    mode, name, txt, may = job
    try: out = cgfail.Rec(txt, MODES[mode], record=False).out
    except Unknown as e: return mode, name, 'unknown', str(e)
    except RecursionError: return mode, name, 'unknown', 'too deep'
    if out.status != 'ok': return mode, name, 'refused', show_err(out)
    if 'wrapper_optimized_erc20_fun_transfer' not in cgfail.called(out): return mode, name, 'kept', ''
    if not may or not (MODES[mode].get(ALL) and MODES[mode].get(LE)): return mode, name, 'replaced', ''
    return mode, name, 'fused', operands(out)


def operands(out):
    """what the replacement is called with"""
    import cgobj, cgeval
    seen, RT, n = [], cgeval.RT, 'wrapper_optimized_erc20_fun_transfer'
    old = RT[n]
    def rec(G, *a): seen.append([G.B(x) for x in a])
    RT[n] = rec
    try: cgeval.Gen(cgeval.World(cgobj._D()), out).run(cgobj.exported(out, 'deploy'), [])
    except cgeval.End: pass
    finally: RT[n] = old
    return [[repr(x) for x in a] for a in seen]
