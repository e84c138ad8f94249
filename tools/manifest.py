"""Writes MANIFEST.json from the property modules that exist."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, "/repo"]
NOTE = {
 "C01": "Every pair / scalar combination inside the bound is executed on the real operators and compared with the pointwise piece-table model.",
 "C02": "Every layering history inside the bound (scalar and vector calls, reads in between, every receiver form) is executed and compared after every call.",
 "C03": "Every function of the bound in every materialised form is read through every view, every evaluation shape and every read order.",
 "C04": "As C01, for the six relational operators.",
 "C05": "As C01, for the logical operators.",
 "C06": "Every function x every bound pair / masking function of the bound.",
 "C07": "Every function x every filler of the bound, incl. the transitions whose change is 0.",
 "C08": "Statistics are compared with exact rational arithmetic on every function of the bound, incl. restrictions and every query order.",
 "C09": "Distribution statistics compared with exact rationals at every breakpoint, between and outside.",
 "C10": "Every function x every window (breakpoints, midpoints, outside, unbounded) x four endpoint closures.",
 "C11": "Every function x every interval set of the bound; each slice statistic against the model of the restricted function.",
 "C12": "Every result of every public operation (to depth 2-3) is minimal and identical() agrees with model equality on all pairs.",
 "C13": "State = structural snapshot of all objects alive; every operation followed by every mutation; no object other than the mutated one may change.",
 "C14": "Explicit-state search over interleavings of statistic queries and layer calls; each query is compared with a fresh object's answer and the model.",
 "C15": "Every operation of the catalogue on every closed side; mismatching pairs must raise and nothing else.",
 "C16": "Every operation gives the same result on every reachable representation of the same function; programs of depth 2-3 never fail internally.",
 "C17": "Every operation and statistic replayed in all eight label domains and all scalar flavours; results must be images of one another.",
 "C18": "Every collection of the bound in every container; element-wise operators, tables and matrices against per-member calls and the model.",
 "C19": "Every pair x every window x lag x clip mode against exact rational moments.",
 "C20": "Every function x every shift / window of the bound against the exact translation / window mean.",
}
ASSUME = (" Assumes the bounded space (stated in the evidence file and DESIGN.md) is representative: labels on a small exact grid under eight affine label maps, "
          "values from a small dyadic alphabet. Trusts mc/model.py (pointwise definitions in exact arithmetic) and pandas/numpy as installed.")
checks = []
for i in range(1, 21):
    p = "C%02d" % i
    if not os.path.exists(os.path.join(ROOT, "mc/props/%s.py" % p.lower())):
        continue
    checks.append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": "bounded exhaustive explicit-state exploration of the real implementation in lockstep with an exact reference model",
                   "level": "model_checking", "level_note": NOTE[p] + ASSUME})
m = {"version": 1, "setup_cmd": "./check selftest", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the machinery drives the public API of the working tree. Replays: ./check replay FILE."}
have = {c["property"] for c in checks}
for i in range(1, 21):
    if "C%02d" % i not in have:
        m["not_applicable"].append({"property": "C%02d" % i, "reason": "check still being built"})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
