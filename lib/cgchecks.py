"""The properties of generated code, decided on families of Yul programs (cgsets)."""
import os, re
from collections import OrderedDict
import cgrun, cgeval, cgprops, cgsets, yulast, inkm
from cgprops import MODES, run_sets, Item, LE, ALL, NONE_
from rsi_core import Unknown

METHOD = ('the generator\'s Rust source is interpreted on each program of the family (abstract model of the code generation library), giving the generated program as data; '
          'that program and the Yul text are both interpreted over abstract 256-bit words on every path, and effects, ending and results are compared: equal normal forms discharge the obligation, '
          'and a difference is reported only when a valuation satisfying the path\'s conditions tells the two terms apart')
TRUST = ['the syn parse of the Rust sources and the abstract interpreter (rsi, inkm)', 'the routine contracts of the runtime library (decided by the R properties)', 'Yul\'s semantics as written in cgeval', 'LLVM and the linker preserve the generated program']
ASSUME = ['offsets and sizes in memory, calldata and code are taken modulo 2^32 (wider ones are G02\'s wide-operand obligations)', 'sizes and counters reported by the host are not negative in its signed interface']


def uniq(items): return list(OrderedDict((i.key, i) for i in items).values())


def settle(r, prop, jobs, tier, seed=1, accept=None, what='programs'):
    """compare every program in every mode; one obligation each"""
    r.rule(METHOD)
    for t in TRUST:
        if t not in r.trusted: r.trusted.append(t)
    for a in ASSUME:
        if a not in r.assumptions: r.assumptions.append(a)
    res = run_sets(jobs, seed, want=24 if tier == 'quick' else 60)
    n = pairs = proved = sampled = cut = 0
    open_ = {}
    for (mode, key), (st, d) in sorted(res.items()):
        n += 1
        k = f'{prop}:{key}' + ('' if mode == 'default' else f' [{mode}]')
        if accept and accept(mode, key, st, d):
            r.check(True, k, ''); continue
        if st == 'ok':
            p, pr, sa, cu, sk = d
            pairs += p; proved += pr; sampled += sa; cut += cu
            if sa: open_.setdefault('equal at every point tried but not proved equal', []).append(k)
            else: r.check(True, k, '')
        elif st == 'unknown': open_.setdefault(str(d)[:120], []).append(k)
        elif st == 'deviates': r.check(False, f'{k}: {d[0]}', f'{key}: {d[0]}: {d[2]}', f'{mode} mode')
        elif st == 'differs': r.check(False, k, f'{key}: {d[1]}', f'{mode} mode, {d[2]}' if len(d) > 2 else mode)
        elif st == 'fails': r.check(False, k, f'{key}: a program the compiler supports is refused ({d})', mode)
        else: r.check(False, k, f'{key}: the generated code is ill-formed: {d}', mode)
    for why, ks in open_.items():
        for k in ks: r.unsure(f'{k}: {why}')
    r.count(what, n); r.count('pairs of paths compared', pairs); r.count('pairs proved equal', proved)
    r.count('pairs equal at every point tried', sampled); r.count('paths followed in part', cut)
    return res


def modes(tier, items, quick=('default', 'little-endian storage', 'all optimisers', 'no optimisers')):
    return [(m, items) for m in (MODES if tier == 'thorough' else quick)]


def family(r, prop, items, tier, quick=('default', 'little-endian storage', 'all optimisers', 'no optimisers'), accept=None):
    items = uniq(items)
    res = settle(r, prop, modes(tier, items, quick), tier, accept=accept)
    for it in items[:: max(1, len(items) // 8)][:8]: r.samples.append(f'{it.key}: {it.body}')
    return res


def loud_transfer(mode, key, st, d):
    """under all optimisers a three-parameter fun_transfer that is not the known one is refused, loudly"""
    return 'all optimisers' in mode and ' of three' in key and 'fun_' in key and 'transfer' in key and st == 'fails' and 'panic' in str(d)


def G05(r, tier): family(r, 'G05', cgsets.division(tier == 'thorough'), tier)
def G08(r, tier): family(r, 'G08', cgsets.zeros(), tier)
def G09(r, tier): family(r, 'G09', cgsets.widths(), tier)
def G10(r, tier): family(r, 'G10', cgsets.order(), tier)
def G11(r, tier):
    family(r, 'G11', cgsets.patterns(), tier, tuple(MODES), accept=loud_transfer)
    r.rule('a transfer function is generated under its standard text and under near misses of it: only the standard one, and only with all optimisers and little-endian storage, may become the runtime\'s own transfer, with sender, receiver and amount in place; anything else is generated from its text or refused')
    import cgfail
    ms_ = ('default', 'all optimisers', 'little-endian storage', 'all optimisers, little-endian storage')
    jobs = [(m, n, t, may) for n, t, may in cgsets.transfers() for m in ms_ if tier == 'thorough' or may or m in (ms_[0], ms_[3])]
    for mode, name, st, d in sorted(cgfail.pool(cgprops.transfer, jobs)):
        k = f'G11:transfer: {name}' + ('' if mode == ms_[3] else f' [{mode}]')
        if st == 'unknown': r.unsure(f'{k}: {d}')
        elif st == 'fused': r.check(d == [['caller', 'calldataload(4)', 'calldataload(36)']], k, f'the runtime\'s transfer is called with {d}')
        elif st == 'replaced': r.check(False, k, f'{name}: replaced by the runtime\'s standard transfer, which does something else', mode)
        elif st == 'refused' and name.startswith('the standard'): r.check(False, k, f'{name}: the standard transfer is refused ({d})', mode)
        elif st == 'refused' and 'all optimisers' not in mode: r.check(False, k, f'{name}: a program the compiler supports is refused ({d})', mode)
        else: r.check(True, k, '')
    r.count('transfer functions', len(jobs))


def G06(r, tier): family(r, 'G06', cgsets.control(600 if tier == 'thorough' else 60), tier, ('default', 'all optimisers', 'no optimisers'))
def G07(r, tier): family(r, 'G07', cgsets.scopes(), tier)


def objects(r, prop, jobs, key):
    """settle whole-object obligations; jobs: [(mode, name, judge_object arguments)]"""
    import cgobj
    r.rule(METHOD)
    for t in TRUST:
        if t not in r.trusted: r.trusted.append(t)
    n = 0
    for mode, name, rs in sorted(cgobj.run([(cgobj.judge_object, m, k, a) for m, k, a in jobs]), key=lambda x: x[:2]):
        n += 1
        for sub, st, d in rs:
            k = f'{prop}:{name}' + (f', {sub}' if sub else '') + ('' if mode == 'default' else f' [{mode}]')
            if st == 'ok':
                r.count('pairs of paths compared', d[0]); r.count('pairs proved equal', d[1])
                if d[2]: r.unsure(f'{k}: equal at every point tried but not proved equal')
                else: r.check(True, k, '')
            elif st == 'unknown': r.unsure(f'{k}: {d}')
            elif st == 'fails': r.check(False, k, f'{name}: a program the compiler supports is refused ({d})', mode)
            else: r.check(False, k, f'{name}, {sub}: {d}', mode)
    r.count(key, n)


def refusals(r, prop, jobs):
    """programs that must not compile: [(mode, name, refused arguments)]"""
    import cgobj
    for mode, name, (st, why) in sorted(cgobj.run([(cgobj.refused, m, k, a) for m, k, a in jobs]), key=lambda x: x[:2]):
        k = f'{prop}:{name} is refused' + ('' if mode == 'default' else f' [{mode}]')
        if st == 'unknown' or not isinstance(st, str) or isinstance(st, tuple): r.unsure(f'{k}: {why}')
        else: r.check(st == 'refused', k, f'{name}: compiles although it must not', mode)
    r.count('programs that must be refused', len(jobs))


QM = ('default', 'little-endian storage', 'all optimisers', 'no optimisers')
def ms(tier): return list(MODES) if tier == 'thorough' else QM


def G12(r, tier):
    import cgobj
    r.assumptions.append('a library symbol whose value is never read needs no address')
    objects(r, 'G12', [(m, k, (t, MODES[m], tuple(cgobj.SYMS.items()))) for m in ms(tier) for k, t in cgobj.symbol_programs()], 'programs')
    un = dict(MODES['default'], ignore_unknown_linker_library=True)
    for m in ms(tier):
        o = dict(MODES[m], ignore_unknown_linker_library=True)
        # an address that is given is used also when unknown ones are ignored
        objects(r, 'G12', [(m, k + ', unknown ones ignored', (t, o, tuple(cgobj.SYMS.items()))) for k, t in cgobj.symbol_programs()[::3]], 'programs')
    refusals(r, 'G12', [(m, f'symbol without address: {k}', (t, MODES[m], tuple(cgobj.SYMS.items()))) for m in ms(tier) for k, t in cgobj.SYM_MISSING.items()])
    import cgrun
    for k, t in cgobj.SYM_MISSING.items():
        st, why = cgobj.refused(t, un, tuple(cgobj.SYMS.items()))
        if st == 'unknown': r.unsure(f'G12:ignored: {k}: {why}')
        else: r.check(st == 'accepted', f'G12:ignored: {k}', f'{k}: refused although unknown libraries are to be ignored ({why})')


def G15(r, tier):
    import cgobj
    objects(r, 'G15', [(m, k, (t, MODES[m])) for m in ms(tier) for k, t in cgobj.data_programs()], 'objects')
    refusals(r, 'G15', [(m, f'{b} of {k}', (t % b, MODES[m])) for m in ms(tier) for k, t in cgobj.DATA_REFUSED.items() for b in ('dataoffset', 'datasize')])


def G17(r, tier):
    import cgobj
    objects(r, 'G17', [(m, k, (t, MODES[m])) for m in ms(tier) for k, t in cgobj.entry_programs(cgsets.CODES)], 'objects')


def immutables(r, prop, tier):
    """one key per name, the same wherever the immutable is set or read, and its value unchanged"""
    import cgobj
    how = [(h, w) for h in ('set', 'load') for w in ('creation', 'deployed')]
    res = cgobj.run([(cgobj.immutable_key, m, (n, h, w), (n, h, w, MODES[m])) for m in ms(tier) for n in cgobj.IMM for h, w in how])
    got = {}
    for m, (n, h, w), v in res:
        if isinstance(v, int): got.setdefault((m, n), {})[h, w] = v
        else: r.unsure(f'{prop}:key of immutable {n!r}: {v[0][2]}')
    keys = {}
    for (m, n), d in sorted(got.items()):
        keys.setdefault(m, {})[n] = next(iter(d.values()))
        r.check(len(set(d.values())) == 1, f'{prop}:immutable {n!r} has one key' + ('' if m == 'default' else f' [{m}]'), f'the immutable {n!r} is set under one key and read under another', str({k: hex(v) for k, v in d.items()}))
    for m, d in keys.items():
        inv = {}
        for n, k in d.items(): inv.setdefault(k, []).append(n)
        for k, ns in inv.items():
            r.check(len(ns) == 1, f'{prop}:immutables {" and ".join(map(repr, ns))} are told apart' + ('' if m == 'default' else f' [{m}]'), f'the immutables {", ".join(map(repr, ns))} share a key', hex(k))
    objects(r, prop, [(m, k, (t, MODES[m], (), keys.get(m, {}))) for m in ms(tier) for k, t in cgobj.immutable_programs()], 'objects with immutables')


def covering(tier, debug=True):
    """programs that between them reach the whole generator: [(name, text, mode, options, debug build)]"""
    import cgobj
    full = tier == 'thorough'   # the other option sets share most of the generator: they get a sample
    its = [('operands', cgsets.operands(full, full)), ('results', cgsets.results()), ('control', cgsets.control(60)), ('scopes', cgsets.scopes()), ('zeros', cgsets.zeros()),
           ('widths', cgsets.widths()), ('order', cgsets.order()), ('patterns', cgsets.patterns()), ('division', cgsets.division(False))]
    jobs = []
    for fam, xs in its:
        for n, m in enumerate(MODES):
            step = 1 if full else (1 if m == 'default' else 6)
            ys = xs[n % step::step]
            for i, b in enumerate(cgprops.batches(ys, 12)):
                jobs.append((f'{fam} {i}', cgprops.program(b), m, MODES[m], bool((i + n) % 2) and debug))
    for n, m in enumerate(MODES):
        ps = [(k, t) for k, t in cgobj.entry_programs(cgsets.CODES)] + [(k, t) for k, t in cgobj.data_programs()] + list(cgobj.immutable_programs())
        for i, (k, t) in enumerate(ps if full or m == 'default' else ps[n % 4::4]): jobs.append((k, t, m, MODES[m], bool((i + n) % 2) and debug))
        o = dict(MODES[m], symbol2addr=dict(cgobj.SYMS))
        for i, (k, t) in enumerate(cgobj.symbol_programs()[(0 if full else n % 4)::1 if full else 4]): jobs.append((k, t, m, o, bool(i % 2) and debug))
    for x, o in (('verbose', dict(verbose=True)), ('no inlining', dict(no_inline=True)), ('size', dict(minify_wasm_size=True)), ('llvm text', dict(generate_llvm_ir=True)), ('debugging', dict(debug_mode=True))):
        for k, t in list(cgobj.entry_programs(cgsets.CODES))[::7]: jobs.append((k, t, x, o, False))
    return jobs


def tag(mode): return '' if mode == 'default' else f' [{mode}]'


def G03(r, tier):
    import cgfail, cgrun
    r.rule('every routine the generator names, and every call in the code it generates for a family of programs, against the types the runtime library defines; host imports against the published interface')
    r.trusted.append('the model of inkwell (types of values, what the verifier rejects); clang -O0 for the types of the runtime routines; the published host interface (table in cgfail.py)')
    defined, declared = cgfail.interface()
    for n, ds in sorted(declared.items()):
        for ps, ret, mo, na, u in ds:
            if n in defined and any(defined[n] - {None}): continue
            r.count('host imports', 1)
            if n not in cgfail.HOST_SIG and cgfail.DEBUG_HOST.match(n): continue
            if mo is None and na is None and n not in cgfail.HOST_SIG:
                r.check(False, f'G03:{n} is defined', f'{n} is declared in unit {u}, is no host import, and no linked unit defines it'); continue
            r.check(mo == 'env' and na == n, f'G03:import of {n}', f'{n} is imported as {mo}.{na} instead of env.{n}', f'unit {u}')
            if n in cgfail.HOST_SIG: r.check(cgfail.HOST_SIG[n] == (ps, ret), f'G03:signature of {n}', f'{n} is declared ({", ".join(ps)}) -> {ret} but the host provides ({", ".join(cgfail.HOST_SIG[n][0])}) -> {cgfail.HOST_SIG[n][1]}', f'unit {u}')
            else: r.check(False, f'G03:import of {n}', f'{n} is not part of the host interface', f'unit {u}')
    for n, us in sorted(defined.items()):
        if len(us - {None}) > 1: r.check(False, f'G03:{n} is defined once', f'{n} is defined in several linked units', ', '.join(sorted(us - {None})))
    calls = cgfail.named_calls(cgprops.trees())
    units = {}
    for u in cgfail.linked_units(None):
        import os
        if os.path.exists(f'{cgfail.cfront.STD}/{u}.c'): units.update({k: v for k, v in cgrun.runtime_unit(u).items() if v[2]})
    r.count('places naming a routine', len(calls))
    for f, n, cnt, how in sorted(set(calls), key=str):
        ok = n in units and any(defined.get(n, set()) - {None})
        r.check(ok, f'G03:{f} names {n}', f'{f} asks for the runtime routine {n}, which ' + ('is not visible outside its unit' if n in defined else 'no linked unit defines'))
        if ok and cnt is not None: r.check(cnt == len(units[n][1]), f'G03:{f} calls {n} with {cnt} operands', f'{f} calls {n} with {cnt} operands; it takes {len(units[n][1])}')
        if ok and how == 'build_call': r.check(units[n][0] != 'void', f'G03:{f} uses the result of {n}', f'{f} uses the result of {n}, which returns nothing')
    names = {}
    for job, st, err, sites, probs, cs, unf in cgfail.pool(cgfail.generate, covering(tier)):
        key, txt, mode = job[:3]
        if st == 'unknown': r.unsure(f'{key}{tag(mode)}: {err}'); continue
        if st != 'ok': continue   # whether it may fail is decided by the properties about meaning
        r.count('programs generated', 1)
        for n, c in cs.items(): names[n] = names.get(n, 0) + c
        for kind, msg, k, where in probs:
            if kind == 'environment': continue
            r.check(False, f'G03:{kind}: {k or (where[-1] if where else "")}: {msg[:90]}', f'{msg} (generated by {" > ".join(where)})', f'{key}{tag(mode)}')
        for f, b in unf: r.check(False, f'G03:block without an end in {f}', f'block {b} of {f} does not end', f'{key}{tag(mode)}')
    for n, c in sorted(names.items()): r.check(n in units, f'G03:{n} is part of the library', f'generated code calls {n}, which no linked unit defines')
    r.count('calls of runtime routines checked', sum(names.values())); r.count('runtime routines called', len(names))
    missed = sorted({n for f, n, c, h in calls if n not in names})
    if missed: r.notes.append('named by the generator but not called by any program of the families (name and number of operands checked only): ' + ', '.join(missed))


def G04(r, tier):
    import cgfail
    r.rule('for each place in the generator that asks for an operation, directly or through others, an interpretation in which that operation fails must not end in success; programs that cannot be translated, wrong in each syntactic position, must not compile')
    r.trusted.append('the model of inkwell: an operation that fails returns an error and changes nothing')
    r.assumptions.append('a panic counts as a failed compilation')
    jobs = covering(tier, False)
    if tier != 'thorough': jobs = [j for i, j in enumerate(jobs) if j[2] != 'default' or i % 2 == 0]
    sites = {}
    for job, st, err, ss, probs, cs, unf in cgfail.pool(cgfail.record, jobs):
        if st != 'ok': continue
        r.count('programs generated', 1)
        for (m, chain), (k, where) in ss.items():
            old = sites.get((m, chain))
            if old is None or (len(job[1]), k) < (len(old[0][1]), old[1]): sites[m, chain] = (job, k, where)
    r.count('distinct places reaching an operation', len(sites))
    inj = cgfail.cover(sites, tier == 'thorough')
    import os, random
    if len(inj) > 6000: random.Random(int(os.environ.get('VERIF_SEED', '1'))).shuffle(inj); r.notes.append(f'{len(inj)} injections, 6000 explored'); inj = inj[:6000]
    j0 = {x[0][1:4] and x[0] for x in []}
    for (ij, st, err), (job, k, m, where) in zip(cgfail.pool(cgfail.inject, inj), inj):
        w = where[-1] if where else '?'
        r.count('failures injected', 1)
        key = f'G04:{m} failing in {w}' + (f' called by {where[-2]}' if len(where) > 1 else '') + tag(job[2])
        if st == 'unknown': r.unsure(f'{key}: {err}')
        else: r.check(st != 'ok', key, f'when {m} fails in {" > ".join(where)}, the failure is swallowed and compilation succeeds', f'{job[0]}{tag(job[2])}, operation {k}')
    libs = [('write_to_memory_buffer', 'object code is not written'), ('verify', 'the module is ill-formed'), ('link_in_module', 'the runtime library is not linked')]
    for m, opts in MODES.items():
        for lf, what in libs:
            for k, t in (('one object', 'object "T" { code { sstore(0, 1) } }'), ('deployed object', 'object "T" { code { } object "T_deployed" { code { sstore(0, 1) } } }'),
                         ('sub-object', 'object "T" { code { sstore(0, dataoffset("S")) } object "S" { code { } object "S_deployed" { code { stop() } } } }')):
                try: o = cgfail.Rec(t, opts, lib_fail=lf, record=False, emit=True).out
                except Unknown as e: r.unsure(f'{lf}: {e}'); continue
                if o.I.failed_op is None: continue
                r.count('library failures injected', 1)
                r.check(o.status != 'ok', f'G04:{lf} failing, {k}{tag(m)}', f'{what}, yet compilation succeeds')
    P = list(cgfail.wrong_programs())
    refusals(r, 'G04', [(m, k, (t, MODES[m])) for n, m in enumerate(ms(tier)) for i, (k, t) in enumerate(P) if tier == 'thorough' or m == 'default' or i % 5 == n])


def G14(r, tier):
    import cgfail
    r.rule('each program is generated under several iteration orders of every unordered collection: same modules, same link requests, same files; any reach for time, randomness or the environment while generating is reported')
    r.trusted.append('the model of inkwell: the library itself is deterministic')
    salts = (0, 1, 2, 3) if tier != 'thorough' else tuple(range(9))
    jobs = covering(tier, False)
    if tier != 'thorough': jobs = [j for i, j in enumerate(jobs) if not re.fullmatch(r'\w+ \d+', j[0]) and i % 2 == 0 or i % 10 == 0]
    jobs += [(f'many {k}', t, m, dict(MODES[m], symbol2addr=cgfail.SYMBOLS), False) for m in MODES for k, t in cgfail.many_programs()]
    seen = set()
    for job, st, ds, sn, n in cgfail.pool(cgfail.salted, [j[:4] + (salts,) for j in jobs]):
        key, mode = job[0], job[2]
        if st != 'ok': r.unsure(f'{key}{tag(mode)}: {ds}'); continue
        seen |= sn
        r.count('programs', 1); r.count('generations compared', n)
        r.check(True, key, '')
        for kind, what, where in ds:
            if kind == 'environment': r.check(False, f'G14:{what} in {where}', f'{where} uses {what} while generating code', f'{key}{tag(mode)}')
            else: r.check(False, f'G14:order of an unordered collection in {where}', f'what is emitted depends on the iteration order of an unordered collection ({where}): {what[:200]}', f'{key}{tag(mode)}')
    r.notes.append('unordered collections iterated in: ' + (', '.join(sorted(seen)) or 'none'))


def G02(r, tier):
    full = tier == 'thorough'
    family(r, 'G02', cgsets.operands(full, full) + cgsets.results(), tier, ('default', 'little-endian storage', 'all optimisers'))
    immutables(r, 'G02', tier)
    settle(r, 'G02', [('default', cgsets.wides())], tier, what='programs with wide operands')


