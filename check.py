#!/usr/bin/env python3
"""check.py <property> : decide one property of /repo's current tree by static analysis."""
import os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.setrecursionlimit(20000)
def main():
    prop = sys.argv[1]; t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    if "--thorough" in sys.argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import report
    if prop[0] not in "RFGSE": sys.exit("unknown property " + prop)
    M = None
    try:
        if prop[0] in "RE": import rprops as M
        elif prop[0] == "F": import fprops as M
        elif prop[0] == "G": import gprops as M
        elif prop[0] == "S": import sprops as M
        R = M.run(prop, tier, seed)
    except Exception as e:
        # code the machinery cannot follow decides nothing: said so, and recorded
        traceback.print_exc()
        R = report.Result(prop)
        R.unsure(f"the analysis stopped: {type(e).__name__}: {str(e)[:300]}")
        print(f"UNDECIDED: property={prop} the analysis stopped: {type(e).__name__}")
    sys.exit(report.finish(R, tier, seed, t0, "proof" if False else getattr(M, "LEVEL", "other"), f"cd /verif && VERIF_TIER={tier} VERIF_SEED={seed} python3 check.py {prop}"))
if __name__ == "__main__": main()
