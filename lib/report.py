"""Verdicts, known findings and evidence: the part every check shares."""
import json, os, re, time, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = VERIF + "/KNOWN_FINDINGS.txt"

class Result:
    """what one check found: violations {key: (message, witness)}, and what it covered"""
    def __init__(r, prop):
        r.prop = prop; r.violations = {}; r.undecided = []; r.obligations = 0; r.discharged = 0
        r.analysed = {}; r.samples = []; r.rules = []; r.trusted = []; r.assumptions = []; r.notes = []
    def check(r, cond, key, msg, wit=""):
        r.obligations += 1
        if cond: r.discharged += 1
        else: r.violate(key, msg, wit)
        return cond
    def violate(r, key, msg, wit=""):
        if key not in r.violations: r.violations[key] = (msg, wit)
    def unsure(r, what): r.obligations += 1; r.undecided.append(what)
    def count(r, name, n): r.analysed[name] = r.analysed.get(name, 0) + n
    def rule(r, *a):
        for x in a:
            if x not in r.rules: r.rules.append(x)

def known(prop):
    """keys of recorded findings of a property"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(.*?) \| (.*)$", l.strip())
            if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out

def finish(r, tier, seed, t0, level, checker_cmd):
    kn = known(r.prop); new = {}
    for k, (msg, wit) in r.violations.items():
        if k in kn: print(f"KNOWN-FINDING: property={r.prop} {kn[k]}")
        else: new[k] = (msg, wit)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    replay = f"{VERIF}/evidence/{r.prop}.violations.txt"
    if os.path.exists(replay): os.remove(replay)
    if new:
        with open(replay, "w") as f:
            f.write(f"property {r.prop}: {len(new)} violation(s); replay with: {checker_cmd}\n\n")
            for k, (msg, wit) in new.items(): f.write(f"{k}\n  {msg}\n" + (f"  witness: {wit}\n" if wit else "") + "\n")
        for k, (msg, wit) in list(new.items())[:20]: print(f"  {k}: {msg}"[:600])
    cov = dict(obligations=r.obligations, discharged=r.discharged, checker_cmd=checker_cmd,
               trusted_base=r.trusted or ["the checker itself"], rule="; ".join(r.rules) or "see DESIGN.md",
               explanation="; ".join(r.rules + r.notes) or "see DESIGN.md", analysed=r.analysed,
               undecided=[str(u)[:300] for u in r.undecided[:40]], undecided_count=len(r.undecided),
               known_findings=[k for k in r.violations if k in kn], samples=r.samples[:12])
    ev = dict(property=r.prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=r.assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(f"{VERIF}/evidence/{r.prop}.json", "w") as f: json.dump(ev, f, indent=1); f.write("\n")
    print(f"{r.prop}: {r.discharged}/{r.obligations} obligations discharged, {len(r.undecided)} undecided, {len(r.violations) - len(new)} known, {len(new)} new; {ev['wall_s']} s")
    if new:
        print(f"VIOLATION property={r.prop} replay={replay}")
        return 1
    return 0
