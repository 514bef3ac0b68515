#!/usr/bin/env python3
"""Build /verif/seeded/<id>/ from tools/seeds.py: apply the edit in a scratch copy, run the stable tests, run the demo with and without the change."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(HERE, "tools", "seeds.py")).read(), ns)
only = sys.argv[1:]
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()[:7]
W = tempfile.mkdtemp(prefix="seedwork")
base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", json.load(open("/opt/vp/BASELINE.json")).get("stable", [])))


def sh(c, cwd, t=400):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))


try:
    R = W + "/repo"
    sh("cp -a /repo %s" % R, "/")
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        d = os.path.join(HERE, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        sh("git checkout -q -- . && git clean -fdq", R)
        open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nimport warnings; warnings.simplefilter('ignore')\n" + s["demo"].strip("\n") + "\n")
        open(d + "/demo.sh", "w").write("#!/bin/bash\n# exit 0 when the property holds on this input\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % d, R)
        ok = True
        for f, old, new in s["edits"]:
            t = open(os.path.join(R, f)).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT DOES NOT APPLY", t.count(old), f)
                ok = False
            open(os.path.join(R, f), "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git diff", R).stdout)
        for f, old, new in s["edits"]:
            head = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, text=True).stdout
            bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", f], capture_output=True, text=True).stdout.split("\n")
            dl = sh("git diff -U0 -- " + f, R).stdout
            import re
            for m in re.finditer(r"@@ -(\d+)(?:,(\d+))? ", dl):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for k in range(a, a + n):
                    if not bl[k - 1].startswith("^") and not bl[k - 1].startswith(BASE):
                        print(s["id"], "EDITS A FIX LINE", bl[k - 1])
        r1 = sh("bash %s/demo.sh" % d, R)
        rt = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -4", R)
        print(s["id"], s["property"], "ok" if ok and r0.returncode == 0 and r1.returncode != 0 and "50 passed" in rt.stdout else "BAD",
              "clean:", r0.returncode, "patched:", r1.returncode, rt.stdout.strip().split("\n")[-1])
        if r0.returncode:
            print(r0.stdout[-500:], r0.stderr[-800:])
        if "50 passed" not in rt.stdout:
            print(rt.stdout)
finally:
    shutil.rmtree(W)
