"""G properties: the compiler (options, tables, scopes, code generation)."""
import os
import rsi
from rsi_core import *
import report

REPO = os.environ.get('VERIF_REPO', '/repo')
Y = REPO + '/src/yul2ir/'


def run(prop, tier, seed):
    r = report.Result(prop)
    try:
        globals()[prop](r, tier)
    except Unknown as u:
        r.unsure(f'analysis stopped: {u}')
    return r


# ---------------------------------------------------------------- G13
OPT_FIELD = {'verbose': 'verbose', 'ignore-unknown-linker-library': 'ignore_unknown_linker_library', 'disable-all-optimizers': 'disable_all_optimizers',
             'minify-wasm-size': 'minify_wasm_size', 'no-binaryen-optimize': 'no_binaryen_optimize', 'enable-all-optimizers': 'enable_all_optimizers',
             'enable-little-endian-storage-load-store': 'enable_storage_load_store_little_endian'}
DEFAULTS = {'verbose': (None, 'false'), 'debug': (None, 'false'), 'opt-level': ('default',), 'main-contract': (None,), 'symbol': (None,),
            'ignore-unknown-linker-library': (None, 'false'), 'no-binaryen-optimize': (None, 'false', 'true'), 'minify-wasm-size': (None, 'false'),
            'disable-all-optimizers': (None, 'false'), 'enable-all-optimizers': (None, 'false'), 'enable-little-endian-storage-load-store': (None, 'false'),
            'default_ret_type': ('u256', None)}


def G13(r, tier):
    from mainrun import runs, arg_options, FILES, LEVELS, Tok, Flag, PathV
    r.rule('main is interpreted over unknown option values: every option is an opaque value, every step that can fail both fails and succeeds; on each abstract run the settings handed to the code generator, the files written and the exit status are compared with the command line reference')
    try:
        _, opts = arg_options(dump([FILES[0]])[FILES[0]])
    except Unknown as u:
        r.unsure(str(u)); return
    longs = {v[0]: v for v in opts.values()}
    for o, ds in DEFAULTS.items():
        if o not in longs: r.violate(f'G13:option:{o}:missing', f'the option --{o} is gone'); continue
        d = longs[o][1]
        r.check(d in ds, f'G13:option:{o}:default', f'--{o} defaults to {d!r} instead of {ds[0]!r}')
        if o == 'symbol': r.check('Append' in longs[o][3] or 'Vec' in longs[o][2] and 'Set' not in longs[o][3], 'G13:option:symbol:repeat', '--symbol cannot be given several times')
    for o in ('input', 'output'): r.check(o in longs, f'G13:option:{o}:missing', f'the option --{o} is gone')
    RET = {None: 'U256', 'u256': 'U256', 'bytes32': 'Bytes32Pointer'}
    n = und = 0
    try:
        for run in runs(tier == 'thorough'):
            n += 1
            if run.taint: und += 1; continue
            failed = [k.n[1] for k, v in run.flags.items() if k.n[0] == 'ok' and not v]
            writes = [e for e in run.effects if e[0] == 'write']
            emits = [e for e in run.effects if e[0] == 'emit']
            bad = 'level' if run.level not in LEVELS else 'ret' if run.ret not in RET else None
            why = None
            if failed or bad:
                what = {'level': 'an unknown optimisation level', 'ret': 'an unknown default return type'}.get(bad) or step_name(failed[0])
                key = bad or (failed[0] if isinstance(failed[0], str) else failed[0][0])
                r.check(run.out == 'fail', f'G13:failure:{key}:status', f'{what} still ends with exit status 0')
                early = bad or failed[0] in ('reading the input', 'parsing', 'generating code')
                r.check(not (early and writes), f'G13:failure:{key}:writes', f'{what} still leaves an output file')
                continue
            missing = [k for k, v in run.flags.items() if k.n[0] == 'exists' and not v]
            r.check(run.out == 'exit 0', 'G13:success:status' + (':missing-directory' if missing else ''), 'a run in which no step fails ends with a failure' + (f' when the output directory does not exist ({getattr(run, "panic", "")})' if missing else f' ({getattr(run, "panic", "")})'))
            if run.out != 'exit 0': continue
            reads = [e for e in run.effects if e[0] == 'read']
            r.check([e[1] for e in reads] == [PathV('of', Tok('option', 'input'))], 'G13:input', 'the source is not read from --input')
            src = [e[1] for e in run.effects if e[0] == 'parse']
            r.check(len(src) == 1 and src[0].n[0] == 'uncommented' and src[0].n[1].n[0] == 'source', 'G13:source', 'what is parsed is not the source without its comments')
            if len(emits) != 1: r.check(False, 'G13:emit', f'code is generated {len(emits)} times'); continue
            _, f, cf, args = emits[0]
            dbg = run.flags.get(Flag('option', 'debug'))
            for o, fld in OPT_FIELD.items():
                if fld not in f: und += 1; continue
                w = run.flags.get(Flag('option', o), Flag('option', o))
                r.check(same(f[fld], w, run), f'G13:setting:{fld}', f'the setting {fld} becomes {f[fld]!r} where --{o} is {w!r}')
            lv = f.get('opt_level')
            if isinstance(lv, Adt):
                if dbg is None: r.check(lv.var == LEVELS[run.level], f'G13:level:{run.level}', f'--opt-level {run.level} selects {lv.var}')
                elif not dbg: r.check(lv.var == LEVELS[run.level], f'G13:level:{run.level}', f'--opt-level {run.level} selects {lv.var}')
                else: r.check(lv.var in ('None', LEVELS[run.level]), 'G13:debug:level', f'--debug selects the level {lv.var}')
            for fld in ('debug_mode',):
                w = dbg if dbg is not None else Flag('option', 'debug')
                if fld in f: r.check(same(f[fld], w, run), f'G13:debug:{fld}', f'the setting {fld} becomes {f[fld]!r} where --debug is {w!r}')
            want = run.mainname if run.main else run.objname
            r.check(f.get('main_contract_name') == want, 'G13:main-contract', f'the main contract is {f.get("main_contract_name")!r} instead of {want!r}')
            r.check(f.get('symbol2addr') == dict(run.syms), 'G13:symbol', f'--symbol {run.syms} gives the table {f.get("symbol2addr")!r}')
            rt = cf.get('default_ret_type')
            r.check(rt is None and RET[run.ret] == 'U256' or isinstance(rt, Adt) and rt.var == RET[run.ret], f'G13:ret:{run.ret}', f'--default_ret_type {run.ret} gives {rt!r}')
            r.check(any(e[1] == PathV('of', Tok('option', 'output')) for e in writes) or not any(e[1].p[0] == 'of' for e in writes), 'G13:output', 'the module is not written to --output')
    except Unknown as u: r.unsure(f'main: {u}')
    if und: r.unsure(f'{und} settings or runs not followed')
    r.count('abstract runs of main', n)
    r.samples.append(f'{n} abstract runs; options ' + ', '.join(sorted(longs)))


def step_name(k): return {'reading the input': 'an unreadable input', 'parsing': 'a parse error', 'generating code': 'a code generation error'}.get(k, f'a failure {k[0] if isinstance(k, tuple) else k}')


def same(got, want, run):
    if got is want or type(got) is type(want) and got == want: return True
    return isinstance(want, bool) and want in (True, False) and hasattr(got, 'n') and run.flags.get(got) == want


# ---------------------------------------------------------------- G16
class Foreign(rsi.Interp):
    """paths into crates that are not analysed become named values"""
    def __init__(s, trees):
        super().__init__(trees)
        s.ext_path = s.xp

    def xp(s, segs, node, hint):
        n = [x[0] for x in segs]
        if n[0] == 'inkwell' and n[-2:-1] == ['OptimizationLevel']: return Adt('inkwell::OptimizationLevel', n[-1])
        return NotImplemented


LEVEL_NAMES = {'none': ('None', 'O0'), 'less': ('Less', 'O1'), 'default': ('Default', 'O2'), 'aggressive': ('Aggressive', 'O3')}


def alltraces(I, f, limit=500):
    """results of f() under every sequence of decisions"""
    todo, out = [[]], []
    while todo:
        dec = todo.pop()
        I.decisions, I.dpos, I.alts = list(dec), 0, []
        I.points, I.temps, I.frames, I.cons, I.taint, I.fuel = [], [], [], {}, False, 400_000
        try: v = ('value', I.deref(f()))
        except Panic as p: v = ('panic', str(p))
        except Prune: v = None
        todo += I.alts
        if v: out.append(v + (list(I.decisions),))
        if len(out) > limit: raise Unknown('too many traces')
    return out


def G18(r, tier):
    import linkrun
    r.rule('link is interpreted on unknown object code, with every option and the outcome of every external step (temporary files, linker, optimiser, initialiser, module reader) left open; every run must end in a panic, or in the module the linker made of the object code, with its stack pointer set, followed only by optional steps that succeeded')
    r.assumptions.append('the linker commits its output in one step: a failing link leaves no output file; a failing optimiser may leave a partial one')
    r.trusted += ['the syn parse of the Rust sources and the abstract interpreter (rsi, linkrun)', 'wasm-ld, wasm-opt, wizer and parity_wasm preserve the module they are given when they report success']
    n = 0
    for rel in (False, True):
        for names in (('call', 'deploy'), ()) if not rel or tier == 'thorough' else (('call', 'deploy'),):
            tag = f"{'built-in' if rel else 'installed'} linker, {'exports listed' if names else 'no exports listed'}"
            bad, ok, did, seen = {}, 0, set(), set()
            try:
                for flags, (how, x), ran, taint in linkrun.runs(rel, names, 'Default'):
                    n += 1
                    seen |= {k.n[1] for k in flags if k.n[0] == 'option'}
                    if how == 'panic': continue
                    if taint: r.unsure(f'{tag}: a run depends on a value that is not modelled'); continue
                    ok += 1
                    did |= {y.n[0] for y in linkrun.split(x)[0]}
                    for k, t in linkrun.judge(flags, x, ran, names):
                        if k is None: r.unsure(f'{tag}: {t}')
                        else: bad.setdefault(k, (t, ', '.join(f'{a}: {b}' for a, b in flags.items() if not b)))
            except Unknown as u: r.unsure(f'{tag}: {u}'); continue
            for k in ('result', 'random', 'object', 'steps', 'init', 'optimiser', 'imports', 'entry', 'exports', 'stack', 'strip'):
                t = bad.get(k)
                r.check(t is None, f'G18:{k} [{tag}]', t and t[0], t and ('when ' + t[1][:400] if t[1] else 'in every run'))
            r.check(ok > 0, f'G18:never [{tag}]', 'no run of link returns a module')
            if ok:
                for k in ('optimised', 'initialised'): r.check(k in did, f'G18:{k} [{tag}]', f'no run returns an {k} module')
                for k in ('minify_wasm_size', 'no_binaryen_optimize', 'debug_mode'): r.check(k in seen, f'G18:option {k} [{tag}]', f'the option {k} has no effect on linking')
    r.count('abstract runs of link', n)


def G16(r, tier):
    r.rule('the level parser, its inverse and both conversions are interpreted on every level name, and the parser on a text equal to none of them; the composition from the command line text to LLVM and to the linker flag must be the named level')
    I = Foreign(dump([Y + 'config.rs', Y + 'wasm.rs']))
    fs = I.impls.get(('OptimizationLevel', 'from_str')); to = I.impls.get(('OptimizationLevel', 'to_inkwell_optimization_level')); cl = I.fns.get('clang_opt_level_string')
    if not isinstance(fs, dict): r.violate('G16:parser:missing', 'OptimizationLevel cannot be parsed any more'); return
    for t, (lv, fl) in LEVEL_NAMES.items():
        try:
            v = alltraces(I, lambda: I.call_fn(fs, [t], selfty='OptimizationLevel'))
            v = v[0][1] if len(v) == 1 and v[0][0] == 'value' else None
            ok = isinstance(v, Adt) and v.var == 'Ok' and isinstance(v.f[0], Adt)
            r.check(ok and v.f[0].var == lv, f'G16:parse:{t}', f'{t!r} is read as {v!r} instead of {lv}')
            if not ok: continue
            e = v.f[0]
            if isinstance(to, dict):
                w = alltraces(I, lambda: I.call_fn(to, [], e, 'OptimizationLevel'))[0][1]
                r.check(isinstance(w, Adt) and w.var == lv, f'G16:llvm:{t}', f'{t!r} selects the LLVM level {w!r}')
                if cl is not None and isinstance(w, Adt):
                    s = alltraces(I, lambda: I.call_fn(cl, [w]))[0][1]
                    if isinstance(s, str): r.check(s == fl, f'G16:linker:{t}', f'{t!r} is linked with -{s} instead of -{fl}')
                    else: r.unsure(f'linker flag {s!r}')
            else: r.unsure('no conversion to the LLVM level')
            try:
                s = alltraces(I, lambda: I.show(e))[0][1]
                if isinstance(s, str): r.check(s == t, f'G16:display:{t}', f'the level {lv} is displayed as {s!r}')
            except Unknown: pass
        except Unknown as u: r.unsure(f'{t}: {u}')
    for t in ('', 'o3', 'NONE', 'more', 'fast', ' default', 'default ', 'defaults', 'les', 'aggressive\n'):
        try:
            v = alltraces(I, lambda: I.call_fn(fs, [t], selfty='OptimizationLevel'))
            for k, x, _ in v: r.check(k == 'panic' or isinstance(x, Adt) and x.var == 'Err' or t == 'more' and isinstance(x, Adt) and x.var == 'Ok' or t.lower().strip() in LEVEL_NAMES and isinstance(x, Adt) and x.var == 'Ok' and x.f[0].var == LEVEL_NAMES[t.lower().strip()][0], 'G16:unknown', f'the unknown level {t!r} is accepted as {x!r}')
        except Unknown as u: r.unsure(f'{t!r}: {u}')
    try:
        d = I.default_of({'k': 'Path', 'segs': [['OptimizationLevel', []]], 's': 'OptimizationLevel'})
        r.check(d.var == 'Default', 'G16:default', f'the default level is {d.var}')
    except Unknown: pass
    # the options of a compilation pass their own level on
    for f, items in dump([Y + 'wasm.rs', Y + 'context.rs']).items():
        for owner, e in walk_calls(items, 'to_inkwell_optimization_level'):
            base = e['recv']
            ok = base['k'] == 'Field' and base['name'] == 'opt_level'
            if base['k'] in ('Field', 'Path'): r.check(ok or base['k'] == 'Path', f'G16:source:{owner}', f'{owner} converts {base.get("name")} instead of the opt_level setting')
    r.samples.append('level names ' + ', '.join(LEVEL_NAMES))


def walk_calls(x, m, owner=''):
    """method calls named m, with the function they occur in"""
    if isinstance(x, dict):
        if x.get('k') == 'Fn': owner = x.get('name', owner)
        if x.get('k') == 'MCall' and x.get('m') == m: yield owner, x
        for k, v in x.items():
            if isinstance(v, (dict, list)): yield from walk_calls(v, m, owner)
    elif isinstance(x, list):
        for v in x: yield from walk_calls(v, m, owner)


# ---------------------------------------------------------------- G01
BUILTINS = {n.lower(): n for n in '''Stop Add Sub Mul Div SDiv Mod SMod Exp Not Lt Gt SLt SGt Eq IsZero And Or Xor Byte Shl Shr Sar AddMod MulMod SignExtend Keccak256 Pop
 MLoad MStore MStore8 MCopy SLoad TLoad LoadImmutable SStore TStore SetImmutable MSize Gas Address Balance SelfBalance Caller CallValue CallDataLoad CallDataSize CallDataCopy
 CodeSize CodeCopy ExtCodeSize ExtCodeCopy DataCopy DataOffset DataSize ReturnDataSize ReturnDataCopy ExtCodeHash Create Create2 Call CallCode DelegateCall StaticCall Return
 Revert SelfDestruct Invalid Log0 Log1 Log2 Log3 Log4 ChainID BaseFee BlobBaseFee Origin GasPrice BlockHash BlobHash CoinBase TimeStamp Number Difficulty Prevrandao GasLimit
 MemoryGuard LinkerSymbol'''.split()}


class TextI(rsi.Interp):
    """texts known to differ from every literal of a set compare unequal to them"""
    def symstr_eq(s, a, b):
        o = b if isinstance(a, SymStr) else a
        u = a if isinstance(a, SymStr) else b
        if isinstance(o, str) and u.parts and u.parts[0][0] == 'other' and len(u.parts) == 1:
            return o == s.pick if s.pick is not None else False
        return super().symstr_eq(a, b)


def G01(r, tier):
    r.rule('the name table is interpreted on every builtin name of Yul and on an unknown text that equals none of the names compared with; names map one to one to the variant of the same name, and other texts to none')
    I = TextI(dump([Y + 'yul_instruction.rs']))
    I.pick = None
    f = I.fns.get('parse_intrinsic_func_name')
    if f is None: r.violate('G01:table:missing', 'parse_intrinsic_func_name is gone'); return
    got = {}
    names = dict(BUILTINS, debug_print='DebugPrint')
    vs = {v['name'] for v in I.enums['YulInstructionName']['variants']} if 'YulInstructionName' in I.enums else None
    if vs is None: raise Unknown('YulInstructionName')

    def ask(t):
        ts = alltraces(I, lambda: I.call_fn(f, [t]))
        if len(ts) != 1: raise Unknown('the table branches')
        return ts[0]
    for n, v in names.items():
        k, x, _ = ask(n)
        if n == 'debug_print' and isinstance(x, Adt) and x.var == 'None': continue
        ok = k == 'value' and isinstance(x, Adt) and x.var == 'Some' and isinstance(x.f[0], Adt)
        g = x.f[0].var if ok else None
        if ok and v in vs: r.check(g == v, f'G01:name:{n}', f'{n!r} is recognised as {g} instead of {v}')
        elif ok: r.check(g.lower() == v.lower(), f'G01:name:{n}', f'{n!r} is recognised as {g}')
        else: r.check(False, f'G01:name:{n}', f'the builtin {n!r} is not recognised ({x!r})')
        if ok:
            r.check(got.get(g, n) == n, f'G01:name:{n}:same', f'{n!r} and {got.get(g)!r} are the same operation {g}')
            got[g] = n
    # every other text
    k, x, _ = ask(SymStr([('other', 'any', 0, None)]))
    r.check(k == 'value' and isinstance(x, Adt) and x.var == 'None', 'G01:other', f'a name that is no builtin is taken for {x!r}')
    lits = {e for e in strings(f)}
    for t in sorted(lits - set(names)):
        k, x, _ = ask(t)
        if isinstance(x, Adt) and x.var == 'Some' and t not in ('pc', 'verbatim'): r.check(False, f'G01:extra:{t}', f'{t!r}, which is no builtin of Yul, is taken for {x.f[0]!r}')
    for t in ('Add', 'add ', 'fun_add', 'addmod_1', 'log5', 'create3', 'sha3', 'mstore32', 'abi_decode', 'usr$add', ''):
        k, x, _ = ask(t)
        r.check(k == 'value' and isinstance(x, Adt) and x.var == 'None', 'G01:other', f'{t!r}, which is no builtin, is taken for {x!r}')
    # the conversion used where the name is known to be a builtin
    im = I.impls.get(('YulInstructionName', 'from'))
    if isinstance(im, list):
        for n, v in BUILTINS.items():
            ts = alltraces(I, lambda: I.call_fn(im[0][1], [n], selfty='YulInstructionName'))
            x = ts[0][1]
            r.check(len(ts) == 1 and isinstance(x, Adt) and x.var.lower() == v.lower(), f'G01:from:{n}', f'converting {n!r} gives {x!r}')
    r.samples.append(f'{len(names)} names, {len(vs)} operations, {len(lits)} literals in the table')


def strings(x):
    if isinstance(x, dict):
        if x.get('k') == 'Lit' and x.get('t') == 'str': yield x['v']
        for v in x.values():
            if isinstance(v, (dict, list)): yield from strings(v)
    elif isinstance(x, list):
        for v in x: yield from strings(v)


from cgchecks import G02, G03, G04, G05, G06, G07, G08, G09, G10, G11, G12, G14, G15, G17
