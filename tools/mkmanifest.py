#!/usr/bin/env python3
"""writes MANIFEST.json from props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE

NOTE = {
    "proof": "Every function under contract is checked by Verus for all inputs (no bound), from text lifted out of /repo on each run; "
             "machine floats are modelled as real numbers and the vector-traits operations by trusted contracts (verus/prelude). "
             "A bounded run of the real code validates those contracts and supplies failing inputs; it is never counted as proof. ",
    "other": "Mixed: the functions listed in the evidence are proved by Verus for all inputs, the rest of the property is decided by a bounded "
             "check of the real code with the stated bound (never counted as proved). ",
    "exploration": "Bounded only: no function of this property is under contract yet; the real code is run on the stated bounded input set against the property. ",
}
TECH = {
    "proof": "contract-based deductive verification (Verus) of functions extracted from /repo on every run",
    "other": "contract-based deductive verification (Verus) of the functions listed, plus a labelled bounded check of the rest",
    "exploration": "bounded stand-in for a contract (exhaustive small inputs plus seeded random inputs on the real code)",
}
m = {"version": 1,
     "setup_cmd": "python3 -m py_compile tools/check.py tools/vgen.py tools/rustx.py tools/ring.py && verus --version && cargo --version",
     "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()]}
for k, c in PROPS.items():
    m["checks"].append({
        "property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough",
        "technique": TECH[c["level"]], "level": c["level"], "level_note": NOTE[c["level"]] + c.get("note", "")})
json.dump(m, open(os.path.join(os.path.dirname(HERE), "MANIFEST.json"), "w"), indent=1)
