"""Histories of calls: properties that relate several calls of the runtime library.

R08  every history of at most two writes followed by a read of immutables
R14  histories of scratch allocation (A: words until a fresh page is taken) and EVM growth (E:
     to a given size), from every heap mode, with growth succeeding or failing at every step
"""
import itertools, re
from term import *
from absint import *
import rcheck, equiv
from cspec import C32

def events(st):
    out = []; n = st.events
    while n.e[0] != "root": out.append(n.e); n = n.prev
    return out[::-1]

# ------------------------------------------------------------------------------ R08
def r08(C):
    S, L = "wrapper_setimmutable", "wrapper_loadimmutable"
    for f in (S, L):
        if f not in C.mod.fns: raise Anchor(f"runtime routine {f} is gone")
    def word(st, nm, key):
        b = st.add_region(Region(nm, "param", 32, None))
        Machine(st).write_bytes(b, bytes_of(sym(256, key))); return b
    def call(st, f, *args):
        I = Interp(C.mod, rcheck.reporter(C, f), max_seconds=100)
        r = I.run(f, list(args), st); C.steps += I.steps; C.fns |= I.calls; C.hosts |= I.hosts; C.disjuncts += len(r)
        return r
    def start():
        return Interp(C.mod, lambda *a: None).base_state()
    def bad(key, msg): C.violation(f"{S}:{key}", msg)
    def ob(cond, key, msg, st=None):
        C.obl += 1
        if cond: C.ok += 1; return
        if st is not None and not feasible(C, st): C.ok += 1; C.infeasible = getattr(C, "infeasible", 0) + 1; return
        bad(key, msg)
    off = sym(32, "offset")
    base = start(); w1, v1 = word(base, "slot a", "slot:a"), word(base, "value v", "value:v")
    res = call(base, S, off, w1, v1)
    done = []
    for st, rv in res:
        ev = events(st)
        ss = [e for e in ev if e[0] == "sstore"]
        if st.outcome == "revert":
            ob(not ss, "stores before refusing", "a refused second write has already changed storage", st); continue
        ob(st.outcome is None, "ends abnormally", f"writing an immutable ends in {st.outcome}", st)
        if st.outcome is not None: continue
        ob(len(ss) == 2 and len(ev) == 2, "writes", f"a write performs {[e[0] for e in ev]}, expected the value and the written-mark", st)
        if len(ss) != 2: continue
        k0, k1 = ss[0][1], ss[1][1]
        ob(st.decide(eq(k0, k1)) is False, "mark key", "the written-mark shares the immutable's own storage key", st)
        ob(st.decide(eq(ss[1][2], const(256, 0))) is False or st.decide(eq(ss[0][2], const(256, 0))) is False, "mark value", "the written-mark is stored as zero", st)
        done.append(st)
    C.obl += 1
    if done: C.ok += 1
    else: bad("never writes", "no path of a write stores anything"); return
    # the first write of an immutable (untouched storage) is accepted
    st = start(); w, v = word(st, "slot a", "slot:a"), word(st, "value v", "value:v")
    for s2, _ in call(st, S, off, w, v):
        if s2.outcome is None: continue
        reads = [t for b in list(s2.facts) for t in subterms(b) if t.k == "app" and t.a[0] == "storage"]
        zero = s2.copy(); ok = True
        for t in dict.fromkeys(reads): ok = ok and zero.assume(eq(t, const(256, 0)), True)
        C.obl += 1
        if not ok or not feasible(C, zero): C.ok += 1
        else: bad("first write refused", f"the first write of an immutable ends in {s2.outcome} although storage holds zeros")
    for st in done:
        # read back
        a = st.copy(); r = a.add_region(Region("read", "param", 32, None))
        w = word(a, "slot a2", "slot:a")
        for s2, _ in call(a, L, w, r):
            got = s2.simp(from_bytes(Machine(s2).read_bytes(r, 32)))
            ob(s2.outcome is None and (got is sym(256, "value:v") or s2.decide(eq(got, sym(256, "value:v"))) is True), "read back",
               f"reading the immutable after writing it gives {str(got)[:80]}, not the value written", s2)
            ob(not [e for e in events(s2)[len(events(st)):] ], "read has effects", "reading an immutable has effects", s2)
        # second write of the same immutable, at the same or another code offset
        a = st.copy(); w, v = word(a, "slot a3", "slot:a"), word(a, "value w", "value:w")
        for s2, _ in call(a, S, sym(32, "offset2"), w, v):
            new = [e for e in events(s2)[len(events(st)):] if e[0] == "sstore"]
            ob(s2.outcome == "revert" and not new, "second write", "a second write of the same immutable is not refused" if s2.outcome is None else
               f"a second write ends in {s2.outcome}" + (" after storing" if new else ""), s2)
        # a write of another immutable leaves the first one readable
        a = st.copy(); w, v = word(a, "slot b", "slot:b"), word(a, "value w", "value:w")
        if not a.assume(eq(sym(256, "slot:a"), sym(256, "slot:b")), False): continue
        for s2, _ in call(a, S, sym(32, "offset2"), w, v):
            if s2.outcome is not None: continue
            new = [e for e in events(s2)[len(events(st)):] if e[0] == "sstore"]
            for ka in [e[1] for e in events(st) if e[0] == "sstore"]:
                for e in new: s2.assume(eq(ka, e[1]), False)      # slot names do not collide with marks
            x = s2.copy(); r = x.add_region(Region("read", "param", 32, None)); w = word(x, "slot a4", "slot:a")
            for s3, _ in call(x, L, w, r):
                got = s3.simp(from_bytes(Machine(s3).read_bytes(r, 32)))
                ob(got is sym(256, "value:v") or s3.decide(eq(got, sym(256, "value:v"))) is True, "other write disturbs",
                   f"after another immutable is written the first reads as {str(got)[:80]}", s3)

def feasible(C, st):
    import time
    for V in equiv.valuations(st, C.rng, tries=200, deadline=time.time() + 4): return True
    return False

# ------------------------------------------------------------------------------ R14
PAGE = 65536
SIZES = {"E1000": 1000, "E16384": 16384, "E16385": 16385, "E65536": 65536, "E65537": 65537, "E200000": 200000}
MODES = {"small module": (0, (1, 1)), "large module": (0, (2, 200)), "new page requested": (1, (1, 200))}

def subseq(a, b):
    it = iter(b); return all(x in it for x in a)

class R14:
    def __init__(s, C): s.C = C; s.words = 0; s.calls = 0; s.failed = {}
    def call(s, f, args, st):
        C = s.C
        if f not in C.mod.fns: raise Anchor(f"runtime routine {f} is gone")
        I = Interp(C.mod, rcheck.reporter(C, f), summarise=False, max_seconds=60)
        r = I.run(f, args, st); C.steps += I.steps; C.fns |= I.calls; s.calls += 1
        return r
    def fail(s, word, why, msg):
        mode, _, w = word.partition(": "); w = w.split(); mine = s.failed.setdefault((mode, why), [])
        if w and any(f[-1:] == w[-1:] and subseq(f, w) for f in mine): return    # a shorter history shows it already
        mine.append(w)
        s.C.violation(f"heap:{word}:{why}", f"after {word}: {msg}")
    def ob(s, cond, word, why, msg):
        s.C.obl += 1
        if cond: s.C.ok += 1
        else: s.fail(word, why, msg)
        return cond
    def settle(s, rs, word, want_ret=True):
        """the single surviving disjunct; failing growth must stop"""
        live = []
        for st, rv in rs:
            st.ctr.pop("#trap", None) if st.outcome is None else None
            failed = any(v is True and b.k == "sym" and str(b.a).startswith("growfail") for b, v in st.facts.items())
            if failed:
                s.ob(st.outcome == "trap" or st.outcome in ("revert", "invalid"), word, "failed growth", "memory growth fails and the routine " + ("has undefined behaviour" if st.outcome == "unreachable" else "hands out a pointer all the same"))
                continue
            if not s.ob(st.outcome is None, word, "stops", f"the routine ends in {st.outcome} although growth succeeds"): continue
            live.append((st, rv))
        return live
    def owned(s, st, lo, n, owner, pages):
        """is [lo, lo+n) inside pages of that owner?  lo affine over the page count"""
        spans = []
        for (b, k, who) in pages:
            if who != owner: continue
            k = s.num(st, k)
            if k is None: continue
            spans.append((mul(b, C32(PAGE)), k * PAGE))
        pos = lo; left = n; hops = 0
        while left > 0:
            for b, k in spans:
                d = s.num(st, sub(pos, b))
                if d is not None and 0 <= d < k:
                    take = min(k - d, left); pos = add(pos, C32(take)); left -= take; break
            else: return False
            hops += 1
            if hops > 50: return False
        return True
    def num(s, st, t):
        if isinstance(t, int): return t
        t = st.simp(t)
        if is_const(t): return t.a
        lo, hi = st.interval(t)
        return lo if lo == hi else None
    def norm(s, st, t):
        t = st.simp(t)
        lo, hi = st.interval(t)
        return C32(lo) if lo == hi else t
    def take_pages(s, st, pages, who):
        g = st.growlog[len(pages):]
        return pages + tuple((b, n, who) for b, n in g)
    def alloc(s, st, pages, slots, word):
        """one scratch word"""
        fn = "memory_alloca_bytes32" if len(slots) % 2 == 0 else "memory_alloca_u256"
        live = s.settle(s.call(fn, [], st), word)
        if len(live) != 1:
            if live: raise Undecided("scratch allocation has several outcomes")
            return None
        st, rv = live[0]
        pages = s.take_pages(st, pages, "scratch")
        r, sp, o = st.resolve(rv)
        rv = s.norm(st, rv)
        if r is not None and sp is None:
            ok = s.ob(r.kind == "global" and not r.const and 0 <= o and o + 32 <= r.size, word, "slot outside its buffer", f"a scratch word is handed out at {r.name}+{o}, a buffer of {r.size} bytes")
            ok = ok and s.ob(all(abs(o - o2) >= 32 for o2 in slots.get(r.name, ())), word, "slot reused", f"a scratch word at {r.name}+{o} overlaps one already handed out")
            slots.setdefault(r.name, set()).add(o); slots["#" + r.name] = True
        else:
            ok = s.ob(s.owned(st, rv, 32, "scratch", pages), word, "slot outside its pages", f"a scratch word is handed out at {show(rv)}, memory the allocator did not obtain")
            k = sub(rv, mul(sym(32, "pages"), C32(PAGE))); k = s.num(st, k)
            if k is None: raise Undecided("scratch address is not page-relative")
            ok = ok and s.ob(all(abs(k - o2) >= 32 for o2 in slots.get("pages", ())), word, "slot reused", "a scratch word overlaps one already handed out")
            slots.setdefault("pages", set()).add(k)
        return (st, pages) if ok else None
    def step(s, node, el, word):
        st, pages, slots, base, hi = node
        slots = {k: set(v) if isinstance(v, set) else v for k, v in slots.items()}
        st = st.copy()
        if el == "A":
            before = len(pages)
            for i in range(5000):
                r = s.alloc(st, pages, slots, word)
                if r is None: return None
                st, pages = r
                # the live set of bytes is disjoint from EVM memory
                if len(pages) > before: break
            else: return None
            # one more inside the page
            r = s.alloc(st, pages, slots, word)
            if r is None: return None
            st, pages = r
        else:
            size = SIZES[el]; hi = max(hi, size)
            live = s.settle(s.call("evm_make_sure_memory", [C32(size)], st), word)
            if len(live) != 1:
                if live: raise Undecided("memory growth has several outcomes")
                return None
            st, rv = live[0]
            pages = s.take_pages(st, pages, "evm")
            r, sp, o = st.resolve(rv)
            key = (r.name, o) if r is not None and sp is None else s.norm(st, rv)
            if not s.ob(base is None or base == key, word, "base moves", f"EVM memory moves from {base} to {key}"): return None
            base = key
        if base is not None:
            if isinstance(base, tuple):
                reg = [r for r in st.regions.values() if r.name == base[0]][0]
                if not s.ob(base[1] + hi <= reg.size, word, "EVM memory past its buffer", f"EVM memory of {hi} bytes lies in {base[0]}+{base[1]}, a buffer of {reg.size} bytes, and runs into whatever follows it"): return None
                if not s.ob(not slots.get(base[0]), word, "EVM memory over scratch words", "EVM memory and scratch words share a buffer"): return None
            else:
                own = s.owned(st, base, hi, "evm", pages)
                if not s.ob(own, word, "EVM memory not its own", f"EVM memory [{show(base)}, +{hi}) includes pages that EVM growth did not obtain: " +
                            ", ".join(f"{who} has {show(b)}+{show(n)}" for b, n, who in pages)): return None
            # get_memory_addr agrees with the base
            for o_ in (0, 31):
                q = st.copy()
                for q2, rv in s.call("evm_get_memory_addr", [C32(o_)], q):
                    r, sp, o = q2.resolve(rv)
                    got = (r.name, o - o_) if r is not None and sp is None else s.norm(q2, sub(rv, C32(o_)))
                    s.ob(got == base, word, "address of an offset", f"offset {o_} of EVM memory is at {got}, not at its base plus {o_}")
        if el != "A":
            for q, rv in s.call("evm_make_sure_memory", [C32(hi)], st.copy()):
                if q.outcome is None: s.ob(len(q.growlog) == len(st.growlog), word, "grown again", f"{hi} bytes of EVM memory are there already and asking for them obtains further pages")
            if " " not in word.partition(": ")[2]:
                for flag in (0, 1):        # set up once: asking for the heap again neither moves nor resets it
                    for q, _ in s.call("__init_evm_heap", [C32(flag)], st.copy()):
                        if q.outcome is not None: continue
                        for q2, rv in s.call("evm_make_sure_memory", [C32(hi)], q.copy()):
                            if q2.outcome is not None: continue
                            r, sp, o = q2.resolve(rv)
                            key = (r.name, o) if r is not None and sp is None else s.norm(q2, rv)
                            s.ob(key == base and len(q2.growlog) == len(st.growlog), word + " init", "set up again", f"setting the heap up a second time moves EVM memory from {base} to {key}" if key != base else "setting the heap up a second time obtains further pages")
        return (st, pages, slots, base, hi)
    def run(s, mode, depth):
        flag, (plo, phi) = MODES[mode]
        st = Interp(s.C.mod, lambda *a: None).base_state()
        st.ival[sym(32, "pages")] = (plo, phi)
        if plo == phi: pass
        live = s.settle(s.call("__init_evm_heap", [C32(flag)], st), mode)
        for st, _ in live: s.explore(mode, depth, (st, s.take_pages(st, (), "evm"), {}, None, 0))
    def explore(s, mode, depth, root):
        work = [((), root)]
        while work:
            w, node = work.pop(0)
            if len(w) >= depth: continue
            for el in ["A"] + list(SIZES):
                if el == "A" and w.count("A") >= 2: continue
                w2 = w + (el,); s.words += 1
                nx = s.step(node, el, mode + ": " + " ".join(w2))
                if nx is not None: work.append((w2, nx))

def r14(C, modes=None, depth=3):
    R = R14(C)
    for m in modes or MODES: R.run(m, depth)
    return R

# ------------------------------------------------------------------------------ R03: the free memory pointer kept aside
def memptr(C):
    """mstore(64, v) and mload(64) may be served by a variable of the runtime: reads give the last value written"""
    S, G, A = "wrapper_set_memptr_global", "wrapper_get_memptr_global", "wrapper_allocate_memory"
    if S not in C.mod.fns or G not in C.mod.fns: raise Anchor("the free memory pointer kept aside is gone")
    def call(st, f, *args):
        I = Interp(C.mod, rcheck.reporter(C, f), max_seconds=60)
        r = I.run(f, list(args), st); C.steps += I.steps; C.fns |= I.calls; C.hosts |= I.hosts; C.disjuncts += len(r)
        return r
    def ob(cond, fn, key, msg, st=None):
        C.obl += 1
        if cond or (st is not None and not feasible(C, st)): C.ok += 1
        else: C.violation(f"{fn}:{key}", msg)
    def same(st, got, want):
        if got is None: return False
        got = st.simp(got); want = st.simp(want)
        return got is want or st.decide(eq(got, want)) is True
    def quiet(st, n, fn):
        ob(st.outcome is None, fn, "ends abnormally", f"{fn} ends in {st.outcome}", st)
        ob(len(events(st)) == n, fn, "effects", f"{fn} has effects besides the pointer", st)
    v, w = sym(32, "pointer v"), sym(32, "pointer w")
    base = Interp(C.mod, lambda *a: None).base_state()
    for st, r in call(base.copy(), G):
        quiet(st, 0, G); ob(same(st, r, C32(0)), G, "fresh", "the pointer is not zero before it is first written", st)
    one = [s for s, _ in call(base.copy(), S, v)]
    two = []
    for st in one:
        quiet(st, 0, S)
        if st.outcome is None: two += [s for s, _ in call(st.copy(), S, w)]
    for hist_, want, states in (("one write", v, one), ("two writes", w, two)):
        for st in states:
            if st.outcome is not None: continue
            for s2, r in call(st.copy(), G):
                quiet(s2, 0, G)
                ob(same(s2, r, want), G, hist_, f"after {hist_} the pointer reads as {str(s2.simp(r))[:60] if r is not None else r}, not the value last written", s2)
                for s3, r3 in call(s2.copy(), G): ob(same(s3, r3, want), G, hist_ + " read twice", "reading the pointer changes it", s3)
    return base, call, ob, same

def allocator(C):
    """wrapper_allocate_memory hands out the old pointer and moves it past the region"""
    S, G, A = "wrapper_set_memptr_global", "wrapper_get_memptr_global", "wrapper_allocate_memory"
    if A not in C.mod.fns: return
    if S not in C.mod.fns or G not in C.mod.fns: raise Anchor("the free memory pointer kept aside is gone")
    def call(st, f, *args):
        I = Interp(C.mod, rcheck.reporter(C, f), max_seconds=60)
        r = I.run(f, list(args), st); C.steps += I.steps; C.fns |= I.calls
        return r
    def num(st, t):
        t = st.simp(t); return t.a[0] if t.k == "const" and isinstance(t.a, tuple) else (t.a if t.k == "const" else None)
    for p in (96, 128, 4096, 65536, 131040):
        for n in (0, 1, 4, 31, 32, 33, 63, 64, 65, 100, 65535, 65536, 1 << 20, 0xffffffc0, 0xffffffe0, 0xffffffe1, 0xffffffff):
            for st, _ in call(Interp(C.mod, lambda *a: None).base_state(), S, C32(p)):
                if st.outcome is not None: continue
                for s2, r in call(st, A, C32(n)):
                    C.obl += 1
                    if s2.outcome is not None:
                        if 0 < n < 1 << 24: C.violation(f"{A}:refused", f"a request for {n} bytes at {p} ends in {s2.outcome}")
                        else: C.ok += 1
                        continue
                    got = num(s2, r)
                    for s3, q in call(s2.copy(), G):
                        new = num(s3, q)
                        if got is None or new is None: C.undecided.append((A, "pointer not concrete")); continue
                        if got == p and new >= p + n and new % 32 == 0: C.ok += 1
                        else: C.violation(f"{A}:region", f"a request for {n} bytes at {p} is given {got} and leaves the pointer at {new}")
