"""The R properties: the runtime library's IR, interpreted abstractly and compared with contracts."""
import os, re, multiprocessing as mp, random, time
import absint, rcheck, cspec, equiv, cfront, hist
from term import *
from absint import *
from report import Result

TRUST = ["clang-16 -O0 front end (C to LLVM IR) and the IR parser lib/llir.py", "transfer functions of lib/absint.py and simplification rules of lib/term.py",
         "the contracts in lib/cspec.py and the host interface table in lib/absint.py"]
ASSUME = ["EVM memory offsets and lengths below 2^30 (the VM runs out of gas long before)", "calldata and code sizes below 2^31",
          "the host honours the documented interface of its imports"]
RULE = ("abstract interpretation of every path of the routine (LLVM IR of the current sources; symbolic bytes with provenance, affine values, intervals, bulk copies; "
        "loops over ranges accelerated), each path's effect compared with the routine's contract")
KINDS = {"R04": {"evm"}, "R15": {"bounds", "bounds?", "uninit"}, "R05": {"calldata"}}
ALL = {"R04", "R15"}     # obligations raised in every routine

_C = None
def referenced(name):
    """is the routine named by the code generator?"""
    for d, _, fs in os.walk(cfront.REPO + "/src"):
        for f in fs:
            if f.endswith(".rs") and re.search(r"\b" + re.escape(name) + r"\b", open(os.path.join(d, f), errors="replace").read()): return True
    return False

def work(job):
    nm, i, prop, tier, seed, contracts_only = job
    C = _C; c = cspec.SPECS[nm][i]
    D = rcheck.Ctx.__new__(rcheck.Ctx); D.__dict__.update(C.__dict__)
    D.violations = {}; D.undecided = []; D.raw = []; D.obl = D.ok = D.steps = D.disjuncts = 0; D.hosts = set(); D.fns = set(); D._conf = {}; D._budget = {}
    D.rng = random.Random(seed); D.tier = tier; D.addr = []; D.gcache = {}
    out = dict(name=nm, viol={}, und=[], missing=None, samples=[])
    t0 = time.time(); absint.COUNT.clear()
    try:
        rcheck.run_contract(D, c, prop)
    except (Anchor, Undecided) as e: out["und"].append((nm, str(e)))
    out["obl"], out["ok"] = D.obl, D.ok
    contract_v = dict(D.violations)
    out["und"] += [u[:3] for u in D.undecided]; D.undecided = []
    addr_v = {k: v for k, v in contract_v.items() if k.endswith("address operand")}
    own = prop in c.props
    if own: out["viol"].update({k: (v.msg, v.witness) for k, v in contract_v.items() if k not in addr_v})
    else: out["und"] = []; out["obl"] = out["ok"] = 0
    if prop == "R01": out["viol"].update({k: (v.msg, v.witness) for k, v in addr_v.items()}); out["obl"] += len(D.addr); out["ok"] += len(D.addr) - len(addr_v)
    kinds = set(KINDS.get(prop, ())) | ({"bounds", "bounds?"} if own else set())
    if kinds and not c.kw.get("primitive"):
        D.violations = {}
        n = D.sites
        rcheck.settle(D, kinds, "")
        out["viol"].update({k: (v.msg, v.witness) for k, v in D.violations.items()}); out["und"] += [u[:3] for u in D.undecided]
        asked = [r for r in D.raw if r[0] in kinds]
        seen = sum(v for k, v in absint.COUNT.items() if k in kinds)
        out["obl"] += seen; out["ok"] += seen - min(seen, len(asked))
    out.update(steps=D.steps, disj=D.disjuncts, hosts=sorted(D.hosts), fns=sorted(D.fns), sec=round(time.time() - t0, 1))
    return out

def run(prop, tier, seed, procs=8):
    global _C
    R = Result(prop); R.trusted = list(TRUST); R.assumptions = list(ASSUME); R.rule(RULE)
    rcheck.Ctx.seed = seed
    _C = rcheck.Ctx(seed, tier)
    _C.idiom, _ = cfront.build(cfront.IDIOM)
    jobs = []
    for nm, cs in cspec.SPECS.items():
        for i, c in enumerate(cs):
            sel = prop in c.props or prop in ALL or (prop == "R01" and any(k in ("addr", "callee") for k, _ in c.params)) or (prop == "R05" and "R05" in c.props)
            if not sel: continue
            if nm not in _C.mod.fns:
                if referenced(nm): R.check(False, f"{nm}:missing", f"the code generator calls {nm}, which the runtime library no longer defines")
                else: R.notes.append(f"{nm} is not in the library and not called: nothing to check")
                continue
            jobs.append((nm, i, prop, tier, seed, False))
    jobs.sort(key=lambda j: -HEAVY.get(j[0], 0))
    with mp.get_context("fork").Pool(min(procs, max(1, len(jobs)))) as P:
        outs = list(P.imap_unordered(work, jobs))
    hosts = set(); fns = set()
    for o in sorted(outs, key=lambda o: o["name"]):
        R.obligations += o["obl"]; R.discharged += o["ok"]
        for k, (m, w) in o["viol"].items(): R.violate(k, m, w)
        R.undecided += o["und"]; R.count("abstract steps", o["steps"]); R.count("path disjuncts", o["disj"])
        hosts |= set(o["hosts"]); fns |= set(o["fns"])
        R.samples.append(f"{o['name']}: {o['disj']} disjuncts, {o['ok']}/{o['obl']} obligations, hosts {','.join(o['hosts'])}")
    R.analysed["routines under contract"] = len(outs); R.analysed["functions interpreted"] = len(fns); R.analysed["host imports reached"] = sorted(hosts)
    if prop == "R08": merge(R, lambda C: hist.r08(C), seed)
    if prop == "R03":
        merge(R, hist.memptr, seed); R.rule("the free memory pointer kept aside by the runtime reads as the value last written, zero before")
    if prop == "R14":
        merge(R, hist.allocator, seed)
        with mp.get_context("fork").Pool(3) as P:
            for o in P.imap_unordered(heap, [(m, 4 if tier == "thorough" else 3, seed) for m in hist.MODES]): add_out(R, o)
        R.rule("every history of at most 3 (thorough 4) scratch-page fills and EVM growths, page count symbolic, growth succeeding or failing: slots and EVM bytes lie in memory their owner obtained and never overlap")
    if prop in ("R04", "R15"): R.rule("every access and host buffer of every routine is checked where it happens")
    if R.obligations + R.analysed.get("abstract steps", 0) + len(R.undecided) == 0: R.violate("nothing analysed", "no routine of this property is left in the runtime library")
    return R
HEAVY = {"wrapper_exp": 100, "wrapper_codecopy": 30, "wrapper_calldata_copy": 20, "wrapper_u256_shl": 50, "wrapper_u256_shr": 50, "wrapper_bytes32_shl": 60, "wrapper_bytes32_shr": 50, "wrapper_mcopy": 60, "int32_to_str": 40}

def heap(job):
    m, depth, seed = job
    C = _C
    return collect(C, lambda D: hist.r14(D, [m], depth), seed)
def collect(C, f, seed):
    D = rcheck.Ctx.__new__(rcheck.Ctx); D.__dict__.update(C.__dict__)
    D.violations = {}; D.undecided = []; D.raw = []; D.obl = D.ok = D.steps = D.disjuncts = 0; D.hosts = set(); D.fns = set(); D._conf = {}; D._budget = {}; D.rng = random.Random(seed)
    extra = {}
    try:
        r = f(D)
        if isinstance(r, hist.R14): extra = {"histories": r.words, "calls interpreted": r.calls}
    except (Undecided, Anchor) as e: D.undecided.append(("history", str(e)))
    return dict(viol={k: (v.msg, v.witness) for k, v in D.violations.items()}, und=D.undecided, obl=D.obl, ok=D.ok, steps=D.steps, extra=extra)
def add_out(R, o):
    R.obligations += o["obl"]; R.discharged += o["ok"]; R.undecided += o["und"]; R.count("abstract steps", o["steps"])
    for k, v in o["extra"].items(): R.count(k, v)
    for k, (m, w) in o["viol"].items(): R.violate(k, m, w)
def merge(R, f, seed): add_out(R, collect(_C, f, seed))
