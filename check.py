#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   decide one property on /repo's current working tree.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the check itself failed.
"""
import argparse
import hashlib
import json
import multiprocessing
import os
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, os.path.join(HERE, "contracts")]
REPO = os.environ.get("VC_REPO", "/repo")
VENV = "/opt/venv/bin/python"
CMD = "python3-vt check.py %s --tier %s"

TRUSTED = [
    "pyvc: the verification-condition generator of /verif/pyvc (symbolic execution of the real code objects by CPython; loop, comprehension and frame rules of universe.py)",
    "pyvc/npf.py: the contracts assumed of numpy, math, copy.deepcopy, pandas.DataFrame.values, joblib.Parallel/delayed, tqdm and sklearn.base.clone",
    "pyvc/field.py: the algebraic back end (normal form of rational functions, indicators, sums)",
    "z3 4.x (Python bindings of python3-vt) and cvc5 1.1.2 as decision procedures",
    "CPython 3.12 semantics",
]
ASSUME = [
    "machine floating point is treated as mathematical reals (inf/-inf as bounds beyond every finite input, NaN excluded by preconditions)",
    "machine integers are unbounded (numpy int64 overflow excluded)",
    "finite sums obey linearity, congruence, monotonicity and point-update (axioms instantiated by core.sum_lemmas); log/exp/sqrt/pow obey the axioms listed in core.py",
    "random draws are demonic: a draw may be any value its distribution supports; distribution facts are contracts on numpy.random",
]


def _child(task, q):
    try:
        q.put(run_task(task))
    except BaseException as ex:
        q.put({"kind": task["kind"], "contract": task["contract"], "crash": repr(ex)[:300] + traceback.format_exc()[-1500:]})


def sym_run(prop, name, bounded, tier, budget, fixed):
    from pyvc import core, symh, api, conc
    conc.load_contracts(os.path.join(HERE, "contracts", prop + ".py"))
    c = [x for x in api.REGISTRY[prop] if x.name == name][0]
    cfg = {"deadline": time.time() + budget, "bounded": bounded, "unroll_while": 2 if bounded else None,
           "fork_ms": c.opts.get("fork_ms"),
           "prove_timeout_ms": c.opts.get("prove_ms", 12000 if tier == "quick" else 60000),
           "cvc5_timeout_s": c.opts.get("cvc5_s", 15 if tier == "quick" else 60),
           "max_paths": c.opts.get("max_paths", 4000),
           "stop_early": bounded or tier == "quick"}
    sizes = c.opts.get("sizes_" + tier, c.opts.get("sizes", {}))
    files = set()

    def run(ctx):
        H = symh.SymH(ctx, bounded, sizes)
        H.fixed = fixed
        H.deep = tier != "quick"
        try:
            c.fn(H)
        except api.Skip as s:
            raise core.PathDead()
        except api.Failed as f:
            ctx.prove(f.name, False)
        finally:
            files.update(H.U.loaded_files)
    t0 = time.time()
    res = core.explore(run, cfg)
    obs = {}
    for o in res.obligations:
        d = obs.setdefault((o.kind, o.name), {"n": 0, "proved": 0, "refuted": 0, "unknown": 0, "time": 0.0, "backends": {}, "max": 0.0})
        d["n"] += 1
        d[o.status] += 1
        d["time"] += o.time
        d["max"] = max(d["max"], o.time)
        if o.status == "proved":
            d["backends"][o.backend] = d["backends"].get(o.backend, 0) + 1
    ref = [{"name": o.name, "kind": o.kind, "inputs": o.inputs, "detail": o.detail} for o in res.obligations if o.status == "refuted"]
    unk = [{"name": o.name, "kind": o.kind, "detail": o.detail} for o in res.obligations if o.status == "unknown"]
    return {"kind": "bounded" if bounded else "proof", "contract": name, "paths": res.paths, "dead": res.dead,
            "obligations": [{"kind": k[0], "name": k[1], **v} for k, v in obs.items()],
            "refuted": ref[:6], "unknown": unk[:6], "unsupported": sorted(set(res.unsupported))[:5],
            "errors": [{"error": e[0], "inputs": e[1], "trace": e[2]} for e in res.errors[:4]],
            "truncated": res.truncated, "solver_s": res.solver_time, "wall_s": time.time() - t0,
            "feasible_paths": res.feasible, "notes": sorted(res.notes), "files": sorted(files)}


def conc_run(task):
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump({k: task[k] for k in ("prop", "contract", "replay", "seed", "time_s", "max_cases", "replay_seeds") if k in task}, f, default=str)
    try:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
        r = subprocess.run([VENV, os.path.join(HERE, "pyvc", "conc.py"), f.name], capture_output=True, text=True,
                           timeout=task["time_s"] * 4 + 150, env=env, cwd=tempfile.gettempdir())
        line = r.stdout.strip().split("\n")[-1] if r.stdout.strip() else ""
        d = json.loads(line) if line.startswith("{") else {"crash": (r.stdout + r.stderr)[-2500:]}
    except subprocess.TimeoutExpired:
        d = {"crash": "timeout of the concrete run", "timeout": True}
    finally:
        os.unlink(f.name)
    d["kind"], d["contract"] = "concrete", task["contract"]
    return d


def run_task(task):
    if task["kind"] == "concrete":
        return conc_run(task)
    return sym_run(task["prop"], task["contract"], task["kind"] == "bounded", task["tier"], task["budget"], task.get("fixed", {}))


def shards(task, c):
    """split the case analysis of a contract over the values of the named choices"""
    sh = c.opts.get("proof_shard", ()) if task["kind"] == "proof" and "proof_shard" in c.opts else c.opts.get("shard", ())
    out = [{}]
    for name, k in sh:
        out = [dict(d, **{name: v}) for d in out for v in range(k)]
    return [dict(task, fixed=d) for d in out]


def merge(rs):
    """the results of the shards of one task"""
    if len(rs) == 1:
        return rs[0]
    bad = [r for r in rs if "crash" in r]
    if bad:
        return bad[0]
    m = dict(rs[0])
    obs = {}
    for r in rs:
        for o in r["obligations"]:
            d = obs.setdefault((o["kind"], o["name"]), {"kind": o["kind"], "name": o["name"], "n": 0, "proved": 0, "refuted": 0, "unknown": 0, "time": 0.0, "backends": {}, "max": 0.0})
            for k in ("n", "proved", "refuted", "unknown", "time"):
                d[k] += o[k]
            d["max"] = max(d["max"], o["max"])
            for k, v in o["backends"].items():
                d["backends"][k] = d["backends"].get(k, 0) + v
    m["obligations"] = list(obs.values())
    for k in ("refuted", "unknown", "unsupported", "errors"):
        m[k] = [x for r in rs for x in r[k]][:8]
    for k in ("paths", "dead", "solver_s"):
        m[k] = sum(r[k] for r in rs)
    m["wall_s"] = max(r["wall_s"] for r in rs)
    m["feasible_paths"] = sum(r["feasible_paths"] for r in rs)
    m["truncated"] = any(r["truncated"] for r in rs)
    m["notes"] = sorted({x for r in rs for x in r["notes"]})
    m["files"] = sorted({x for r in rs for x in r["files"]})
    return m


def run_all(tasks, nproc, deadline):
    """run tasks in separate processes; whatever still runs at the deadline is stopped and counted as open"""
    from pyvc import api
    tasks = [q for t in tasks for q in (shards(t, [c for c in api.REGISTRY[t["prop"]] if c.name == t["contract"]][0]) if t["kind"] != "concrete" else [t])]
    got = {}
    for r in run_flat(tasks, nproc, deadline):
        got.setdefault((r["contract"], r["kind"]), []).append(r)
    return [merge(rs) for rs in got.values()]


def run_flat(tasks, nproc, deadline):
    out = []
    mp = multiprocessing.get_context("fork")
    todo = list(tasks)
    live = []
    while todo or live:
        while todo and len(live) < nproc:
            t = todo.pop(0)
            if time.time() > deadline - 5:
                out.append({"kind": t["kind"], "contract": t["contract"], "crash": "no time left", "timeout": True})
                continue
            q = mp.Queue()
            p = mp.Process(target=_child, args=(t, q))
            p.start()
            live.append((p, q, t, time.time()))
        nxt = []
        for p, q, t, s in live:
            try:
                r = q.get(timeout=0.02)
                out.append(r)
                p.join(5)
                if p.is_alive():
                    p.kill()
                continue
            except Exception:
                pass
            lim = t.get("budget", t.get("time_s", 60) * 4 + 200) * 1.5 + 60
            if not p.is_alive() and q.empty():
                out.append({"kind": t["kind"], "contract": t["contract"], "crash": "process died (exit %s)" % p.exitcode})
            elif time.time() - s > lim or time.time() > deadline:
                p.kill()
                out.append({"kind": t["kind"], "contract": t["contract"], "crash": "killed after %d s" % (time.time() - s), "timeout": True})
            else:
                nxt.append((p, q, t, s))
        live = nxt
    return out


def proved(r):
    if r is None or "crash" in r:
        return False
    obs = r["obligations"]
    return (not r["refuted"] and not r["unknown"] and not r["unsupported"] and not r["errors"] and not r["truncated"]
            and r["paths"] > 0 and r["feasible_paths"] > 0 and any(o["kind"] == "ensure" for o in obs))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--mode", default="")
    ap.add_argument("-j", type=int, default=0)
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if not os.path.exists(os.path.join(HERE, "contracts", a.prop + ".py")):
        print("no such property", a.prop)
        return 2
    from pyvc import api, conc
    conc.load_contracts(os.path.join(HERE, "contracts", a.prop + ".py"))
    cons = [c for c in api.REGISTRY.get(a.prop, []) if not a.only or c.name == a.only]
    if not cons:
        print("no contracts for", a.prop)
        return 2
    nproc = a.j or max(2, min(8, os.cpu_count() or 4))
    quick = tier == "quick"
    budget = 150 if quick else 1500
    conc_s = 6 if quick else 120
    tasks = []
    for c in cons:
        if "p" in c.modes and a.mode in ("", "p"):
            tasks.append({"kind": "proof", "prop": a.prop, "contract": c.name, "tier": tier, "budget": c.opts.get("budget", budget)})
    for c in cons:
        if "b" in c.modes and ("p" not in c.modes or not quick or a.mode == "b") and a.mode in ("", "b"):
            tasks.append({"kind": "bounded", "prop": a.prop, "contract": c.name, "tier": tier, "budget": c.opts.get("bbudget", budget)})
    for c in cons:
        if "c" in c.modes and a.mode in ("", "c"):
            tasks.append({"kind": "concrete", "prop": a.prop, "contract": c.name, "replay": [], "seed": seed,
                          "time_s": c.opts.get("conc_s", conc_s) if quick else conc_s, "max_cases": 150 if quick else 20000})
    wall = (lambda q, t: t0 + (q if quick else t))       # a quick check answers within its 900 s even when every round is needed
    res = run_all(tasks, nproc, wall(420, 9000))
    by = {}
    for r in res:
        by.setdefault(r["contract"], {})[r["kind"]] = r
    # a contract whose lemma is not proved is not proved either
    for c in cons:
        lemma = by.get(c.opts.get("lemma"), {}).get("proof") if not a.only else None
        p = by.get(c.name, {}).get("proof")
        if c.opts.get("lemma") and not a.only and p is not None and "crash" not in p and not proved(lemma):
            p["unsupported"].append("its lemma %s is not proved" % c.opts["lemma"])
    # second round: whatever the proof left open is decided by the bounded and concrete stand-ins
    second = []
    for c in cons:
        b = by.setdefault(c.name, {})
        p = b.get("proof")
        if p is not None and not proved(p):
            if "b" in c.modes and "bounded" not in b and not a.mode:
                second.append({"kind": "bounded", "prop": a.prop, "contract": c.name, "tier": tier, "budget": c.opts.get("bbudget", budget)})
    for r in run_all(second, nproc, wall(620, 14000)) if second else []:
        by[r["contract"]][r["kind"]] = r
    # third round: replay every counter-model on the real code
    third = []
    for c in cons:
        b = by[c.name]
        rep = []
        for k in ("proof", "bounded"):
            r = b.get(k)
            if r and "crash" not in r:
                rep += [x["inputs"] for x in r["refuted"] if x["inputs"]] + [x["inputs"] for x in r["errors"] if x["inputs"]]
        # the shape of a counter-model (sizes, choices) with other values: a sum is abstract to the solver, so its values may not add up
        rep = rep[:8]
        for x in list(rep):
            y = {k: v for k, v in x.items() if (isinstance(v, int) and not isinstance(v, bool)) or isinstance(v, bool) or
                 (isinstance(v, list) and v and all(isinstance(u, int) and not isinstance(u, bool) for u in v))}
            if y and y not in rep and len(rep) < 14:
                rep.append(y)
        undecided = any(b.get(k) is not None and not proved(b[k]) for k in ("proof", "bounded"))
        if (rep or undecided) and "c" in c.modes and not a.mode and not b.get("concrete", {}).get("failures"):
            third.append({"kind": "concrete", "prop": a.prop, "contract": c.name, "replay": rep, "seed": seed + 17,
                          "time_s": c.opts.get("conc_s", conc_s) * (4 if quick else 1), "max_cases": 1500 if quick else 20000, "replay_seeds": 12})
    for r in run_all(third, nproc, wall(820, 18000)) if third else []:
        by[r["contract"]]["replay"] = r
    return report(a, tier, seed, cons, by, t0)


def fn_sources(files):
    h = hashlib.sha256()
    for f in sorted(files):
        try:
            h.update(open(f, "rb").read())
        except OSError:
            pass
    return h.hexdigest()[:16]


def report(a, tier, seed, cons, by, t0):
    viol, nofail, undecided, crashed, lines = [], [], [], [], []
    n_ob = n_dis = b_ob = b_dis = 0
    solver = 0.0
    backends, functions, files = {}, set(), set()
    per = []
    evals = distinct = 0
    samples = []
    allproved = True
    for c in cons:
        b = by.get(c.name, {})
        p, bd, cc, rp = b.get("proof"), b.get("bounded"), b.get("concrete"), b.get("replay")
        functions.update(c.functions)
        info = {"contract": c.name, "functions": list(c.functions)}
        strong = None
        for r in (p, bd):
            if r is None:
                continue
            if "crash" in r:
                info[r["kind"]] = "crash: " + r["crash"][:300]
                if not r.get("timeout"):
                    crashed.append((c.name, r["kind"], r["crash"]))
                continue
            files.update(r["files"])
            solver += r["solver_s"]
            ok = proved(r)
            if ok and (strong is None):
                strong = r["kind"]
            info[r["kind"]] = {"status": "all obligations discharged" if ok else "open", "paths": r["paths"],
                               "obligations": sum(o["n"] for o in r["obligations"]), "discharged": sum(o["proved"] for o in r["obligations"]),
                               "wall_s": round(r["wall_s"], 2), "unsupported": r["unsupported"], "notes": r["notes"],
                               "refuted": [x["name"] for x in r["refuted"]], "unknown": [x["name"] for x in r["unknown"]],
                               "errors": [x["error"] for x in r["errors"]],
                               "named": [{"name": o["name"], "kind": o["kind"], "instances": o["n"], "discharged": o["proved"],
                                          "backends": o["backends"], "max_s": round(o["max"], 2)} for o in r["obligations"]]}
            if r["kind"] == "proof":
                n, m = sum(o["n"] for o in r["obligations"]), sum(o["proved"] for o in r["obligations"])
                if c.opts.get("bound"):
                    b_ob, b_dis = b_ob + n, b_dis + m
                else:
                    n_ob, n_dis = n_ob + n, n_dis + m
                for o in r["obligations"]:
                    for k, v in o["backends"].items():
                        backends[k] = backends.get(k, 0) + v
        fails = []
        for r in (cc, rp):
            if r is None:
                continue
            if "crash" in r:
                info["concrete"] = "crash: " + r["crash"][:300]
                if not r.get("timeout"):
                    crashed.append((c.name, "concrete", r["crash"]))
                continue
            fails += r["failures"]
            evals += r["ran"] + r["replayed"]
            distinct += r["distinct"]
            if len(samples) < 3:
                samples += [{"contract": c.name, "inputs": s} for s in r["samples"][:1]]
            info["concrete" if r is cc else "replay"] = {"ran": r["ran"], "distinct": r["distinct"], "skipped": r["skipped"], "replayed": r["replayed"],
                                                        "failures": len(r["failures"]), "harness": r["harness"][:2]}
        if c.opts.get("bound"):
            info["bound"] = c.opts["bound"]
        if c.opts.get("fallback") and strong != "proof":
            info["bound"] = c.opts["fallback"]      # of the stand-in, which runs where the proof is not complete
        level = ("bounded" if c.opts.get("bound") else "proved") if strong == "proof" else ("bounded" if strong == "bounded" else ("executed" if cc and "crash" not in cc and cc.get("ran") else "open"))
        if "p" in c.modes and level != "proved":
            allproved = False
        if "p" not in c.modes:
            info["bounded_only"] = True
        if fails:
            viol.append((c, fails[0], p, bd))
            level = "violated"
        elif level != "proved" and not (p is None and level == "bounded") and strong != "proof":
            # a refuted obligation whose counter-model could not be replayed
            ref = [(r["kind"], x) for r in (p, bd) if r and "crash" not in r for x in r["refuted"] if x["kind"] == "ensure"]
            solid = [x for k, x in ref if k == "bounded" or "b" not in c.modes]
            replayed = rp is not None and "crash" not in rp and rp["replayed"] > 0
            if solid and not replayed and c.opts.get("alarm_without_input", True):
                nofail.append((c, solid[0], p, bd))
                level = "refuted"
            elif level in ("open",):
                undecided.append(c.name)
        info["verdict"] = level
        per.append(info)
        lines.append("  %-46s %-9s %s" % (c.name, level, summary(info)))
    out_dir = os.path.join(HERE, "evidence")
    os.makedirs(out_dir, exist_ok=True)
    nv = len(viol) + len(nofail)
    counts = {}
    for i in per:
        counts[i["verdict"]] = counts.get(i["verdict"], 0) + 1
    fully = counts.get("proved", 0)
    is_proof = level_of(a.prop) == "proof"
    cov = {
        "obligations": n_ob, "discharged": n_dis, "obligations_under_a_bound": b_ob, "discharged_under_a_bound": b_dis, "checker_cmd": CMD % (a.prop, tier), "trusted_base": TRUSTED,
        "contracts": per, "contracts_total": len(per), "verdicts": counts,
        "functions_under_contract": sorted(functions), "backends": backends, "solver_s": round(solver, 2),
        "source_files": [os.path.relpath(f, REPO) for f in sorted(files)], "source_hash": fn_sources(files),
        "evaluations": evals, "distinct_nontrivial": distinct,
        "rule": "concrete cross-check: the same contracts executed on the real code (random inputs from VERIF_SEED plus every counter-model); counted distinct by the full input; runs whose precondition fails are not counted",
        "samples": samples,
        "explanation": "%d of %d contracts have every obligation discharged for all inputs; the others are discharged only within a stated bound (contracts[].bound, or small sizes with symbolic values) or checked by execution (labelled in contracts[].verdict)" % (fully, len(per)),
    }
    ev = {"property": a.prop, "tier": tier, "seed": seed, "level": "proof" if is_proof else "other", "coverage": cov,
          "assumptions": ASSUME + sorted({n for i in per for k in ("proof", "bounded") if isinstance(i.get(k), dict) for n in i[k]["notes"]}),
          "wall_s": round(time.time() - t0, 2), "violations": nv}
    if not a.only:
        with open(os.path.join(out_dir, a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d contracts %s, %d obligations, %d discharged, %d of %d under a bound, solver %.1f s, wall %.1f s, %d concrete runs" % (
        a.prop, tier, len(per), counts, n_ob, n_dis, b_dis, b_ob, solver, time.time() - t0, evals))
    print("\n".join(lines))
    if a.v:
        for c in cons:
            for k, r in by.get(c.name, {}).items():
                print("--", c.name, k, json.dumps({q: v for q, v in r.items() if q not in ("files", "samples")}, indent=1, default=str)[:6000])
    rc = 0
    for c, f, p, bd in viol:
        path = os.path.join(out_dir, "replay-%s-%s.json" % (a.prop, c.name))
        failed = [x["name"] for r in (p, bd) if r and "crash" not in r for x in r["refuted"] + r["unknown"]]
        json.dump({"property": a.prop, "contract": c.name, "functions": c.functions, "inputs": f["inputs"], "rng_seed": f["rng_seed"], "detail": f["detail"],
                   "source": f["source"], "failed_obligations": failed,
                   "replay_cmd": "%s %s/pyvc/replay.py %s" % (VENV, HERE, path)}, open(path, "w"), indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        print("   contract %s: %s" % (c.name, f["detail"].split("\n")[0]))
        rc = 1
    for c, x, p, bd in nofail:
        path = os.path.join(out_dir, "replay-%s-%s.json" % (a.prop, c.name))
        json.dump({"property": a.prop, "contract": c.name, "functions": c.functions, "failed_obligation": x["name"], "verifier_model": x["inputs"],
                   "goal": x["detail"], "note": "the verifier refutes this obligation; its counter-model could not be replayed on the real code"},
                  open(path, "w"), indent=1, default=str)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (a.prop, path))
        print("   contract %s: obligation %s" % (c.name, x["name"]))
        rc = 1
    if rc == 0 and crashed:
        for n, k, m in crashed[:3]:
            print("CRASH", n, k, m[-1200:])
        if len({n for n, k, m in crashed}) >= len(cons):
            return 2
    if rc == 0 and n_ob + b_ob == 0 and not evals and not a.mode:
        print("nothing was checked")
        return 2
    if undecided:
        print("UNDECIDED (reported in the evidence, not a violation): " + ", ".join(undecided))
    return rc


def level_of(prop):
    try:
        m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
        for c in m["checks"]:
            if c["property"] == prop:
                return c["level"]
    except Exception:
        pass
    return "proof"


def summary(i):
    out = []
    for k in ("proof", "bounded"):
        v = i.get(k)
        if isinstance(v, dict):
            out.append("%s%s: %d/%d on %d paths %.1fs%s" % (k, " [%s]" % i["bound"] if i.get("bound") and k == "proof" else "", v["discharged"], v["obligations"], v["paths"], v["wall_s"],
                       "" if v["status"].startswith("all") else " OPEN " + "; ".join((v["unsupported"] + ["refuted " + x for x in v["refuted"][:2]] + ["unknown " + x for x in v["unknown"][:2]] + v["errors"][:1])[:3])))
        elif v:
            out.append(k + " " + v[:80])
    for k in ("concrete", "replay"):
        v = i.get(k)
        if isinstance(v, dict):
            out.append("%s: %d runs%s" % (k, v["ran"] + v["replayed"], (" HARNESS " + v["harness"][0][:200]) if v["harness"] else ""))
        elif v:
            out.append(k + " " + v[:200])
    return " | ".join(out)


if __name__ == "__main__":
    sys.exit(main())
