#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed properties are those with a `property` item in specs/."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
claimed = set()
for f in glob.glob(os.path.join(root, "specs", "*.spec")):
    for l in open(f):
        m = re.match(r"property (C\d+)", l)
        if m: claimed.add(m.group(1))
NA = {
 "C10": "the path is a list of pairs built backwards; its cost needs a sum over a list of structs related to the accumulated costs, which was not brought under contract",
 "C11": "interpolation with division of positions by the shrink factor: the contracts of Interpolate and Resize (non-linear integer arithmetic over positions) were not completed",
 "C27": "a relation between all results ever handed out and all later writes; only its parts are proved, as freshness and frame clauses of C03, C06, C07, C14, C17, C18 and C24; user elements are values of an unknown type, whose sharing no contract within reach excludes",
 "C40": "liveness: termination under all fair schedules is outside what pre/postconditions, invariants and lemmas over partial correctness can state",
 "C41": "the rendezvous protocol over three unbuffered channels (one replaced at each run) is a property of interleavings of two goroutines and the scheduler; no function contract within reach expresses it",
 "C42": "statistical statement about the distribution of random sources; a contract can only say which draw selects which outcome (C13, C16, C19)",
 "C43": "wall-clock behaviour of the Go scheduler and of time.Sleep; no contract decides it",
 "C44": "floating-point error analysis needs relative-error bounds over unbounded vectors and sums; the verifier treats float64 as real numbers",
}
NOTE = ("Every obligation generated from the current source (ensures, loop invariants, frames, callee preconditions, "
        "index/nil/division safety, vacuity) is discharged by z3 or cvc5 for all inputs. float64 is treated as real and int as "
        "unbounded; partial correctness; assumed contracts (interfaces, external functions) are listed in the evidence.")
NOTES = {}
checks = []
na = []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
          "technique": "contract-based deductive verification (VC generation from Go SSA, SMT discharge); failing obligations replayed on the real code",
          "level": "proof", "level_note": NOTES.get(i, NOTE)})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo; the commits there are fix: commits recorded in known-findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
