"""Executes contracts on the real bartpy with the real numpy (run with /opt/venv/bin/python).

usage: conc.py JOB.json   ->  one JSON object on stdout (last line)
job: {"contracts": dir, "prop": "C01", "contract": name, "replay": [inputs...], "seed": n, "time_s": t, "max_cases": n}
"""
import contextlib
import importlib.util
import io
import json
import os
import random
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, HERE]
warnings.simplefilter("ignore")

from pyvc import api  # noqa: E402


def load_contracts(path):
    d = os.path.dirname(path)
    if d not in sys.path:
        sys.path.insert(0, d)
    spec = importlib.util.spec_from_file_location("contract_file", path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def jsonable(v):
    import numpy as np
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, np.ndarray):
        return jsonable(v.tolist())
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, (int, float, str, bool, type(None))):
        return v
    return repr(v)[:200]


_consts = {}


def constants(functions):
    """numbers that occur in the modules of the functions under contract (a dictionary for the random inputs)"""
    import ast
    ints, reals = set(), set()
    for m in sorted({".".join(f.split(".")[:k]) for f in functions for k in range(2, f.count(".") + 1)}):
        path = os.path.join(REPO, *m.split(".")) + ".py"
        if path not in _consts:
            a, b = set(), set()
            try:
                for x in ast.walk(ast.parse(open(path).read())):
                    if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool):
                        v = x.value
                        if v == v and abs(v) < 1e9:
                            if v == int(v) and 2 <= v <= 250:
                                a.add(int(v))
                            if v not in (0, 1):
                                b.add(float(v))
            except (OSError, SyntaxError):
                pass
            _consts[path] = (a, b)
        ints |= _consts[path][0]
        reals |= _consts[path][1]
    return sorted(ints), sorted(reals)


def run_one(c, rng_seed, inputs):
    """(outcome, detail, H)   outcome in ok / skip / fail"""
    import numpy as np
    np.random.seed(rng_seed % (2 ** 32))
    random.seed(rng_seed)
    H = api.ConcH(random.Random(rng_seed), inputs)
    H.const_ints, H.const_reals = constants(c.functions)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), np.errstate(all="ignore"):
            c.fn(H)
        if not H.checked:
            return "skip", "nothing checked", H
        return "ok", "", H
    except api.Skip as s:
        return "skip", str(s), H
    except api.Failed as f:
        return "fail", "ensures %r violated %s" % (f.name, f.detail), H
    except Exception as ex:
        tb = traceback.format_exc()
        if not _blames_repo(ex):
            return "harness", repr(ex)[:300] + "\n" + tb[-1500:], H
        return "fail", "unexpected %s\n%s" % (repr(ex)[:300], tb[-1500:]), H
    finally:
        H.cleanup()


def _blames_repo(ex):
    """the exception passed through repository code (otherwise it is an error of the harness)"""
    t = ex.__traceback__
    while t is not None:
        f = os.path.realpath(t.tb_frame.f_code.co_filename)
        if f.startswith(os.path.realpath(REPO) + os.sep):
            return True
        t = t.tb_next
    return False


def main():
    job = json.load(open(sys.argv[1]))
    load_contracts(os.path.join(HERE, "contracts", job["prop"] + ".py"))
    c = [x for x in api.REGISTRY[job["prop"]] if x.name == job["contract"]][0]
    out = {"ran": 0, "skipped": 0, "failures": [], "harness": [], "samples": [], "replayed": 0, "distinct": 0}
    t0 = time.time()
    seeds = job.get("replay_seeds", 6)
    for inp in job.get("replay", []):
        for k in range(seeds):
            o, d, H = run_one(c, job["seed"] * 7919 + k, inp)
            out["replayed"] += 1
            if o == "fail":
                out["failures"].append({"inputs": jsonable(H.inputs), "rng_seed": job["seed"] * 7919 + k, "detail": d, "source": "replay"})
                break
            if o == "harness":
                out["harness"].append(d)
            if o == "skip" and k >= 1:
                break
        if out["failures"] or time.time() - t0 > job.get("replay_time_s", 60):
            break
    seen = set()
    t0 = time.time()
    i = 0
    while not out["failures"] and i < job.get("max_cases", 100) and time.time() - t0 < job.get("time_s", 5):
        s = job["seed"] * 1000003 + i
        i += 1
        o, d, H = run_one(c, s, None)
        if o == "ok":
            out["ran"] += 1
            key = json.dumps(jsonable(H.inputs), sort_keys=True, default=str)
            if key not in seen:
                seen.add(key)
                if len(out["samples"]) < 2:
                    out["samples"].append(jsonable(H.inputs))
        elif o == "skip":
            out["skipped"] += 1
        elif o == "harness":
            out["harness"].append(d)
            if len(out["harness"]) > 3:
                break
        else:
            out["failures"].append({"inputs": jsonable(H.inputs), "rng_seed": s, "detail": d, "source": "random"})
    out["distinct"] = len(seen)
    out["wall_s"] = time.time() - t0
    sys.stdout.write(json.dumps(out) + "\n")


if __name__ == "__main__":
    main()
