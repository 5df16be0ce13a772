"""Writes MANIFEST.json from the table of claims below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the runtime library's LLVM IR against per-routine contracts"
NOTE_R = ("Covers every path of every routine under contract for all operand values (bytes, offsets and lengths symbolic; shift amounts, sign-extension widths and exponents by partition). "
          "Trusts clang's -O0 front end, the transfer functions and the host interface table; assumes EVM offsets below 2^30 and calldata/code below 2^31. "
          "A path whose normal form differs from the contract without a distinguishing valuation is recorded as undecided, not reported.")
C = {}
for p in ["R01", "R02", "R03", "R05", "R06", "R07", "R09", "R10", "R11", "R12", "R13", "R16", "R17", "R18"]: C[p] = (AI, NOTE_R)
C["R04"] = (AI + " with a must-have-grown dataflow fact at every EVM memory access", NOTE_R)
C["R08"] = (AI + ", composed over write/write/read histories", NOTE_R + " Histories of two writes and a read with symbolic slots and values; slot names are assumed not to collide with another slot's written-mark.")
C["R14"] = ("abstract interpretation of allocation and growth histories with ghost ownership of memory", "All histories of at most 3 (thorough: 4) steps over scratch-page fills and growth to page-boundary sizes, page count symbolic, growth succeeding or failing at each step. Longer histories are not covered.")
C["R15"] = (AI + " with buffer-extent and initialisation obligations at every host call", NOTE_R)
C["E03"] = (AI + ", exponents by partition", NOTE_R + " Exponents are sampled by partition (every single bit, small values, all-ones patterns); the base is fully symbolic.")
try:
    from claims import C2; C.update(C2)
except ImportError: C2 = {}
NA = {
 "E01": "whole-compiler semantic preservation quantifies over every program and execution; no static argument in reach bounds it (its parts are covered by the G and R properties)",
 "E02": "equivalence under LLVM's and binaryen's optimisation passes is a property of code outside this repository",
}
try:
    from claims import NA2; NA.update(NA2)
except ImportError: pass
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = [dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --thorough", technique=C[p][0], level="other", level_note=C[p][1]) for p in ids if p in C]
na = [dict(property=p, reason=NA.get(p, "no check built yet")) for p in ids if p not in C]
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="Static analysis only: every check reads /repo's current sources and decides without executing them."),
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not")
