"""replay.py FILE: re-run a recorded failing input on the real code; exit 1 if it still fails"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import conc, api

if __name__ == "__main__":
    d = json.load(open(sys.argv[1]))
    conc.load_contracts(os.path.join(conc.HERE, "contracts", d["property"] + ".py"))
    c = [x for x in api.REGISTRY[d["property"]] if x.name == d["contract"]][0]
    inp = None if d.get("source") == "random" else d["inputs"]
    o, det, H = conc.run_one(c, d["rng_seed"], inp)
    print(o, det)
    sys.exit(1 if o == "fail" else 0)
