"""Deciding the R properties: implementation disjuncts against contracts."""
import time, random, os
from term import *
from absint import *
import absint, equiv, cfront, cspec, llir
from cspec import Spec, Stop, NeedSplit, Skip, SPECS, C32, ule

MAXOFF = 1 << 30

class Finding:
    def __init__(f, key, msg, witness=""): f.key, f.msg, f.witness = key, msg, witness

class Ctx:
    def __init__(C, seed=1, tier="quick"):
        C.mod, C.text = cfront.build()
        C.idiom = None
        C.rng = random.Random(seed); C.tier = tier
        C.violations = {}; C.undecided = []; C.obl = 0; C.ok = 0; C.done = []; C.hosts = set(); C.fns = set(); C.steps = 0; C.disjuncts = 0
        C.raw = []        # obligation reports
        C.sites = 0
        C._conf = {}; C._budget = {}
        C.gcache = {}
    def conf_left(C, nm): return C._budget.setdefault(nm, 40.0)
    def violation(C, key, msg, wit=""):
        if key not in C.violations: C.violations[key] = Finding(key, msg, wit)

def short(path): return os.path.basename(path or "")

def touching(mod):
    """function -> mutable globals it (transitively) touches"""
    import re
    direct = {}; calls = {}
    for n, f in mod.fns.items():
        g = set(); c = set()
        for b in f.order:
            for ins in f.blocks[b]:
                for x in _strings(ins[:-1]):
                    for y in re.findall(r"@([\w.$]+)", x):
                        if y in mod.globals and not mod.globals[y]["const"]: g.add(y)
                        if y in mod.fns: c.add(y)
        direct[n] = g; calls[n] = c
    ch = True
    while ch:
        ch = False
        for n in direct:
            for c in calls[n]:
                if not direct[c] <= direct[n]: direct[n] |= direct[c]; ch = True
    return direct
def _strings(x):
    if isinstance(x, str): yield x
    elif isinstance(x, (tuple, list)):
        for y in x: yield from _strings(y)

SUMMARY = {"evm_make_sure_memory", "evm_get_memory_addr"}

def summary_globals(mod):
    t = touching(mod); s = set()
    for n in ("__init_evm_heap", "evm_make_sure_memory", "evm_get_memory_addr"): s |= t.get(n, set())
    return s

OUT = {"result", "out", "memory_ptr", "buf", "r"}
def make_args(I, fn, params, st, variant=None, pin=None):
    """symbolic arguments; returns (arg terms, watch list)"""
    args = []; watch = []
    f = I.mod.fns[fn]
    if len(f.params) != len(params): raise Anchor(f"{fn} takes {len(f.params)} parameters, the contract has {len(params)}")
    for (nm, kind), (ty, _, _) in zip(params, f.params):
        w = I.width(ty)
        if pin and nm in pin:
            args.append(add_raw(cspec.EVM, const(32, pin[nm])) if kind == "mem" else const(w, pin[nm]))
        elif kind.startswith("p") and kind[1:].isdigit():
            n = int(kind[1:]); same = [w for w in watch if w[2] == n and nm not in OUT and w[0] not in OUT] if pin and "alias" in pin else []
            if same: args.append(same[0][1]); continue
            r = Region(nm, "param", n, None); b = st.add_region(r); args.append(b); watch.append((nm, b, n))
        elif kind == "eachptr":
            r = Region(nm, "param", 32, None); b = st.add_region(r); args.append(b); watch.append((nm, b, 32))
            Machine(st).write_bytes(b, bytes_of(const(256, variant)))
        elif kind == "mem":      # a pointer to memory of unspecified extent
            o = sym(32, nm); st.ival[o] = (0, MAXOFF); args.append(add_raw(cspec.EVM, o))
        elif kind == "each": args.append(const(w, variant))
        else:
            t = sym(w, nm)
            if kind in ("off", "len"): st.ival[t] = (0, MAXOFF)
            elif kind == "noff":
                st.ival[t] = ((1 << w) - (1 << 24), (1 << w) - 1); nof = t
                st.assume(ule(sym(w, params[-1][0]), neg(t)), True)   # embedded data lies below EVM memory
            elif kind == "u8" and w > 8: st.ival[t] = (0, 255)
            args.append(t)
    return args, watch

def reporter(C, entry):
    def rep(kind, msg, fn, loc, st=None, cond=None):
        C.raw.append((kind, msg, fn, loc, st, cond, entry))
    return rep

def confirm(C, st, cond, seconds=6):
    """a valuation under which the obligation fails, or None"""
    if st is None: return None
    end = time.time() + seconds
    for V in equiv.valuations(st, C.rng, tries=400, deadline=end):
        memo = {}
        ev = lambda t: evaluate(t, V, memo) if isinstance(t, T) else t
        if cond is None or cond(V, ev): return V
    return None

def entry_states(C, I, fn, need_globals, deploying=False):
    """abstract states of the library's statics in which fn can be entered"""
    if not need_globals: return [Entry("fresh", {}, {}, {}, False)]
    return reach_globals(C, I, fn, deploying)

# ---------------------------------------------------------------- reachable states of statics
class Entry:
    """an abstract state of the library's mutable statics in which a routine may be entered"""
    def __init__(e, label, gm, facts, iv, dep): e.label, e.gm, e.facts, e.iv, e.dep = label, gm, facts, iv, dep
    def load(e, st):
        for g, d in e.gm.items(): st.mem.setdefault("g:" + g, {}).update(d)
        st.facts.update(e.facts); st.ival.update(e.iv)
        if e.dep: st.ctr["#deploying"] = 1

def reach_globals(C, I, fn, deploying):
    """closure of the initial statics under every routine that touches them; states with the
    same statics are joined (facts intersected, intervals hulled)"""
    tg = touching(C.mod); skip = summary_globals(C.mod)
    G = tg[fn] - skip
    if not G and not deploying: return [Entry("fresh", {}, {}, {}, False)]
    users = [n for n in C.mod.fns if (tg[n] - skip) & G and not C.mod.fns[n].internal]
    if deploying and "set_is_deploying_tx" not in C.mod.fns: raise Anchor("set_is_deploying_tx is gone")
    if deploying and "set_is_deploying_tx" not in users: users.append("set_is_deploying_tx")
    ck = (tuple(sorted(G)), tuple(users))
    if ck in C.gcache: return C.gcache[ck]
    first = Entry("initial", {}, {}, {}, False)
    states = {((), False): first}
    work = [((), False)]; rounds = 0
    while work:
        rounds += 1
        if rounds > 60: raise Undecided("statics do not settle")
        e = states[work.pop(0)]
        for u in users:
            if u in NOT_REENTERED: continue
            J = Interp(C.mod, lambda *a: None, max_seconds=60)
            st = J.base_state(); e.load(st)
            f = C.mod.fns[u]; args = []
            for k, (ty, _, _) in enumerate(f.params):
                w = J.width(ty)
                if ty == "ptr": args.append(st.add_region(Region(f"{u}.{k}", "param", 32, None)))
                else: args.append(sym(w, f"{u}.{k}"))
            try: res = J.run(u, args, st)
            except (Undecided, Anchor): continue
            for s2, _ in res:
                if s2.outcome is not None: continue
                gm2 = {}
                for g in G:
                    d = {o: stable(b, g, o) for o, b in s2.mem.get("g:" + g, {}).items()}
                    init = C.mod.globals[g]["init"]
                    d = {o: b for o, b in d.items() if not (init is not None and is_const(b) and o < len(init) and init[o] == b.a)}
                    if d: gm2[g] = d
                f2 = {b: v for b, v in s2.facts.items() if only_cds(b)}
                i2 = {t: v for t, v in s2.ival.items() if only_cds(t)}
                dep = e.dep or u == "set_is_deploying_tx"
                key = (tuple(sorted((g, tuple(sorted((o, b.id) for o, b in d.items()))) for g, d in gm2.items())), dep)
                old = states.get(key)
                if old is None:
                    if len(states) > 40: raise Undecided("statics take too many states")
                    states[key] = Entry(f"after {u}", gm2, f2, i2, dep); work.append(key); continue
                nf = {b: v for b, v in old.facts.items() if f2.get(b) == v}
                ni = {}
                for t, (l, h) in old.iv.items():
                    if t in i2: ni[t] = (min(l, i2[t][0]), max(h, i2[t][1]))
                if nf != old.facts or ni != old.iv:
                    old.facts, old.iv = nf, ni
                    if key not in work: work.append(key)
    C.gcache[ck] = list(states.values())
    return C.gcache[ck]
NOT_REENTERED = set()

def only_cds(t):
    for x in subterms(t):
        if x.k == "sym" and x not in (CDS, CODESIZE): return False
        if x.k == "app" and x.a[0] != "cd": return False
    return True
def stable(b, g, o):
    return b if only_cds(b) else sym(8, f"static {g}[{o}]")
# ---------------------------------------------------------------- one contract
def run_contract(C, c, prop, want_obligations=True):
    variants = c.kw.get("each", [None])
    params = [(n, k) for n, k in c.params]
    nm = c.name
    if nm not in C.mod.fns: raise Anchor(f"runtime routine {nm} is gone")
    I0 = Interp(C.mod, lambda *a: None)
    gstates = entry_states(C, I0, nm, c.kw.get("globals"), c.kw.get("deploying"))
    t0 = time.time()
    for variant in variants:
        if time.time() - t0 > 45 and any(k.startswith(nm + ":") for k in C.violations): break     # shown wrong already
        for G in gstates: once(C, c, prop, variant, G.load, G.label)
    if len([n for n, k in params if k == "p32" and n not in OUT]) > 1:       # operands may be one and the same word
        once(C, c, prop, variants[0], gstates[0].load, "operands are one word", {"alias": True})
    if prop in c.props: histories(C, c, prop, variants)

def execute(C, c, variant, load, prefix="", pin=None):
    """(interpreter, entry state, argument terms, watch list, results) of one call; results None with the reason when not followed"""
    nm = c.name
    params = [(prefix + n, k) for n, k in c.params]
    for mod in (C.mod, "idiom"):
        nraw = len(C.raw)
        try:
            if mod == "idiom":
                if C.idiom is None: C.idiom, _ = cfront.build(cfront.IDIOM)
                mod = C.idiom
            I = Interp(mod, reporter(C, nm), max_seconds=100, accel=mod is C.idiom, summarise=not c.kw.get("primitive"), max_visits=400 if mod is C.idiom else 140)
            st = I.base_state(); st = load(st) or st
            args, watch = make_args(I, nm, params, st, variant, pin)
            if c.kw.get("pre"): c.kw["pre"](st, dict(zip([n for n, _ in c.params], args)))
            init = st.copy()
            return I, init, args, watch, I.run(nm, args, st)
        except Undecided as e:
            why = str(e); del C.raw[nraw:]
    return I, None, None, None, why

def once(C, c, prop, variant, load, label, pin=None):
    nm = c.name; n = len(C.undecided)
    I, init, args, watch, res = execute(C, c, variant, load, "", pin)
    C.steps += I.steps; C.hosts |= I.hosts; C.fns |= I.calls
    if init is None:
        C.obl += 1; C.undecided.append((nm, variant, res))
    else:
        for (s, rv) in res:
            C.disjuncts += 1
            address_operand(C, c, I, init, s, args)
            compare(C, c, prop, I, init, s, rv, args, watch, variant, label)
    if pin is None and len(C.undecided) > n: pinned(C, c, prop, variant, load, label)

# ---------------------------------------------------------------- where the general call is not followed
LENGTHS = list(range(18)) + [24, 31, 32, 33, 40, 63, 64, 65, 100, 255, 257]
CORNERS = [0, 1, 9, 10, 0x7f, 0x80, 0xff, 0x100, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff6, 99, 100, 0x10000, 1 << 63, (1 << 64) - 1, 1 << 32, 12345, 0x80000001]
def pinned(C, c, prop, variant, load, label):
    """the same comparison with lengths and scalars fixed: it can only add violations, never discharge"""
    lens = [n for n, k in c.params if k == "len"]; mems = [n for n, k in c.params if k == "mem"]
    nums = [n for n, k in c.params if k in ("u8", "u32", "u64")]
    if not lens and not nums: return
    cases = []
    if lens:
        for n in LENGTHS:
            cases.append({x: n for x in lens})
            if len(lens) > 1: cases += [dict({x: n for x in lens}, **{lens[-1]: n + 1}), dict({x: n for x in lens}, **{lens[-1]: max(0, n - 1)})]
    else: cases = [{x: v for x in nums} for v in CORNERS] + [{x: CORNERS[(i * 7 + j) % len(CORNERS)] for i, x in enumerate(nums)} for j in range(len(nums) > 1 and 20 or 0)]
    left = C._budget.setdefault("pin:" + c.name, 40.0); t0 = time.time()
    keep = (C.obl, C.ok, len(C.undecided), len(C.raw)); C.pinned = getattr(C, "pinned", 0)
    conf = C._budget.get(c.name); C._budget[c.name] = 30.0
    for k in cases:
        if time.time() - t0 > left: break
        for i, m in enumerate(mems): k[m] = 0x1000 * (3 * i + 1)
        C.pinned += 1
        once(C, c, prop, variant, load, label + " " + ",".join(f"{x}={v}" for x, v in k.items() if x not in mems), k)
    C._budget["pin:" + c.name] = left - (time.time() - t0)
    if conf is None: C._budget.pop(c.name, None)
    else: C._budget[c.name] = conf
    C.obl, C.ok = keep[0], keep[1]; del C.undecided[keep[2]:]; del C.raw[keep[3]:]

# ---------------------------------------------------------------- what an earlier call left in the statics
BETWEEN = [None, "wrapper_mstore_bytes32", "wrapper_call_contract", "wrapper_sstore_bytes32", "wrapper_sstore_u256"]

def carried(C, s, G):
    """statics holding something other than constants and the immutable calldata"""
    return any(not is_const(b) and not only_cds(b) for g in G for b in s.mem.get("g:" + g, {}).values())

def histories(C, c, prop, variants):
    """the routine entered after an earlier call of a routine that leaves values of its own in statics it
    shares with this one, and after a further call that changes memory, storage or the chain"""
    tg = touching(C.mod); skip = summary_globals(C.mod)
    G = tg.get(c.name, set()) - skip
    if not G: return
    end = time.time() + 90; nraw = len(C.raw)
    def calls(u, load, prefix):
        d = cspec.SPECS[u][0]
        I, init, args, watch, res = execute(C, d, d.kw.get("each", [None])[0], load, prefix)
        C.steps += I.steps
        return [] if init is None else [s for s, _ in res if s.outcome is None]
    for u in cspec.SPECS:
        if u not in C.mod.fns or not (tg[u] - skip) & G: continue
        for s in [x for x in calls(u, lambda st: None, "earlier.") if carried(C, x, G)][:6]:
            for v in BETWEEN:
                if time.time() > end: C.undecided.append((c.name, None, "histories: time")); del C.raw[nraw:]; return
                if v is None: mid = [s]
                elif v in C.mod.fns and v in cspec.SPECS and v != c.name: mid = calls(v, lambda st: s.copy(), "between.")[:4]
                else: continue
                for m in mid: once(C, c, prop, variants[0], lambda st: m.copy(), f"after {u}" + (f", {v}" if v else ""))
    del C.raw[nraw:]

def compare(C, c, prop, I, init, s, rv, args, watch, variant, glab):
    work = [[]]; nm = c.name
    n = 0
    while work:
        extra = work.pop(); n += 1
        if n > 400: C.obl += 1; C.undecided.append((nm, variant, "specification splits too often")); return
        ss = init.copy(); ss.facts = dict(s.facts); ss.ival = dict(s.ival)
        bad = False
        for b, v in extra:
            if not ss.assume(b, v): bad = True; break
        if bad: continue
        S = Spec(ss, args); S.kw_outcome = s.outcome; S.impl_last = s.events.e
        S.deploying = deploying(C, s, init)
        try: srv = c.fn(S, *args)
        except Stop: srv = None
        except Skip: continue
        except NeedSplit as e:
            work.append(extra + [(e.c, True)]); work.append(extra + [(e.c, False)]); continue
        if c.kw.get("retmem") and rv is not None and s.outcome is None:
            rv = from_bytes(Machine(s).read_bytes(rv, c.kw["retmem"]))
        C.obl += 1
        si = s.copy(); si.facts = dict(ss.facts); si.ival = dict(ss.ival)
        if srv is not None and rv is not None and srv.w != rv.w:
            srv = zext(srv, rv.w) if srv.w < rv.w else trunc(srv, rv.w)
        oi = equiv.observe(si, rv, watch); os_ = equiv.observe(ss, srv, watch, True)
        N = equiv.Norm(ss)
        ni, ns = equiv.nf(N, oi), equiv.nf(N, os_)
        d = [k for k in equiv.diff_terms(ni, ns) if not (k == "ret" and c_void(I, nm))]
        if ni["outcome"] != "returns" and ns["outcome"] == ni["outcome"]: d = [k for k in d if k in ("events", "outcome")]
        if d == ["*result"] or d == ["ret"]:     # wide sums carried by hand
            N = equiv.Norm(ss, True)
            if not equiv.diff_terms(equiv.nf(N, {k: oi.get(k) for k in d}), equiv.nf(N, {k: os_.get(k) for k in d})): d = []
        if not d: C.ok += 1; continue
        if c.kw.get("recorded"):       # the exact shape of a recorded finding
            label, alt = c.kw["recorded"]
            s2 = init.copy(); s2.facts = dict(s.facts); s2.ival = dict(s.ival)
            S2 = Spec(s2, args)
            try: a_rv = alt(S2, *args)
            except (Stop, Skip, NeedSplit): a_rv = None
            o2 = equiv.observe(s2, a_rv, watch, True)
            if not equiv.diff_terms(ni, equiv.nf(equiv.Norm(s2), o2)):
                C.violation(f"{nm}:{label}", f"{nm} ({short(I.mod.fns[nm].file)}): {label}"); continue
        # back off unless a valuation tells the two apart
        key = f"{nm}:" + ",".join(S.label)
        ck = (key, tuple(d))
        if ck in C._conf: 
            C.ok += 0; continue
        if C.conf_left(nm) <= 0: C.undecided.append((nm, variant, f"forms differ in {d} (search budget used up)")); continue
        wit = None; tried = 0; t0 = time.time(); end = t0 + min(8, C.conf_left(nm))
        for V in equiv.valuations(ss, C.rng, tries=300, deadline=end):
            tried += 1
            if ni["outcome"] != ns["outcome"]: wit = (V, "outcome", ni["outcome"], ns["outcome"]); break
            addrs = equiv.touched(V, [x["evm"] for x in (oi, os_) if x.get("evm") is not None])
            a = equiv.concrete(V, oi, d, addrs); b = equiv.concrete(V, os_, d, addrs)
            if a != b:
                k = [x for x in d if a[x] != b[x]][0]
                wit = (V, k, a[k], b[k]); break
            if tried > 60: break
        C._budget[nm] = C.conf_left(nm) - (time.time() - t0)
        if wit is None or relies_on_static(ni, ns, d):
            C.undecided.append((nm, variant, f"forms differ in {d} ({tried} valuations agree)", {k: (str(ni.get(k))[:200], str(ns.get(k))[:200]) for k in d})); continue
        C._conf[ck] = 1
        V, k, x, y = wit
        C.violation(key + ("|" if S.label else "") + k, f"{nm} ({short(I.mod.fns[nm].file)}): {describe(k, x, y)}" +
                    (f" when {' and '.join(S.label)}" if S.label else "") + (f" [{glab}]" if glab not in ("fresh", "initial") else ""),
                    ((f"operand={variant}; " if variant is not None else "") + equiv.shown(V, None)) or "any input")

def address_operand(C, c, I, init, s, args):
    """account operands reach the host as the last 20 bytes of the operand word"""
    i = [k for k, (n, _) in enumerate(c.params) if n in ("addr", "callee")]
    if not i: return
    st = init.copy(); m = Machine(st); m.spec = True
    want = from_bytes(m.read_bytes(add_raw(args[i[0]], C32(12)), 20))
    if not hasattr(C, "addr"): C.addr = []
    for host, cont, loc in s.addrlog:
        C.addr.append(host)
        ss = init.copy(); ss.facts = dict(s.facts); ss.ival = dict(s.ival)
        N = equiv.Norm(ss)
        got = cont[1] if cont[0] == "bytes" else None
        if got is not None and N.t(got) is N.t(want): continue
        for V in equiv.valuations(ss, C.rng, tries=60, deadline=time.time() + 3):
            memo = {}
            if got is None or evaluate(got, V, memo) != evaluate(want, V, memo):
                C.violation(f"{c.name}:{host}:address operand", f"{c.name} ({short(I.mod.fns[c.name].file)}) gives {host} an account other than the last 20 bytes of its operand", equiv.shown(V, None)); break

def relies_on_static(a, b, d):
    for k in d:
        for x in (a.get(k), b.get(k)):
            if isinstance(x, T) and any(y.k == "sym" and y.a.startswith("static ") for y in subterms(x)): return True
    return False

def c_void(I, n): return I.mod.fns[n].ret == "void"

def describe(k, x, y):
    if k == "evm":
        for (a, p), (_, q) in zip(x, y):
            if p != q: return f"EVM memory byte {a:#x} becomes {p:#x}, should be {q:#x}"
    if k == "events":
        for p, q in zip(x, y):
            if p != q: return f"effect {str(p)[:160]} where {str(q)[:160]} is due"
        return f"{len(x) - 1} effect(s) {[e[0] for e in x[1:]]} where {[e[0] for e in y[1:]]} are due"
    if k == "outcome": return f"the path ends in '{x}', should end in '{y}'"
    if isinstance(x, int) and isinstance(y, int): return f"{'result' if k == 'ret' else k} is {x:#x}, should be {y:#x}"
    return f"{k} is {x}, should be {y}"

def deploying(C, s, init):
    return bool(init.ctr.get("#deploying", 0))

# ---------------------------------------------------------------- obligations raised on the way
def settle(C, kinds, label):
    """confirm the reports of the given kinds; returns number of distinct obligations"""
    seen = {}
    for kind, msg, fn, loc, st, cond, entry in C.raw:
        if kind not in kinds: continue
        key = f"{entry}:{fn}:{kind}"
        if seen.get(key, 0) >= 6 or key in C.violations: continue
        seen[key] = seen.get(key, 0) + 1
        V = confirm(C, st, cond)
        if V is None: C.undecided.append((entry, fn, msg)); continue
        C.violation(key, f"{fn} ({short(loc[0])}:{loc[1]}), reached from {entry}: {msg}", equiv.shown(V, None))
