#!/usr/bin/env python3
"""Development helper: build and confirm planted changes from spec files (see tools/seeds/*.py).

seed.py SPEC.py [id ...]   -- writes seeded/<id>/, confirms demo (clean: 0, patched: != 0), stable tests, and runs the property's check
seed.py --rerun [id ...]   -- re-runs the checks on the existing seeded changes (scratch copy) and records tools/seed_results.json
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = f"/tmp/seedwt.{os.getpid()}"
RES = os.path.join(ROOT, "tools", "seed_results.json")
ENV = dict(os.environ, PYTHONPATH=W, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
           RUBIN_SIM_DATA_DIR="/opt/vp/rubin_sim_data", ASTROPY_CONFIG_DIR="/opt/vp/astropy_config", LC_ALL="C.UTF-8",
           USER="root", LOGNAME="root")


def sh(cmd, env=None, cwd=W, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)


def fresh():
    if os.path.exists(W):
        shutil.rmtree(W)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
    sh("git checkout -q -- . && git clean -fdq")


def check(pid):
    r = sh(f"python3 check.py {pid}", env=dict(os.environ, RSA_REPO=W, RSA_EVIDENCE=W + ".ev"), cwd=ROOT)
    caught = r.returncode == 1 and f"VIOLATION property={pid} " in r.stdout
    return caught, r


def tests():
    out = f"{W}.out.json"
    s = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {W}\nexport PYTHONPATH={W}")
    open(W + ".test.sh", "w").write(s)
    sh(f"bash {W}.test.sh {out}", env=dict(os.environ))
    b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    o = set(json.load(open(out))["passed"])
    return [t for t in b if t not in o]


def record(k, v):
    d = json.load(open(RES)) if os.path.exists(RES) else {}
    d[k] = v
    json.dump(d, open(RES, "w"), indent=1, sort_keys=True)


def main():
    try:
        if sys.argv[1] == "--rerun":
            fresh()
            ids = sys.argv[2:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
            for i in ids:
                d = os.path.join(ROOT, "seeded", i)
                meta = json.load(open(d + "/meta.json"))
                sh("git checkout -q -- .")
                a = sh(f"git apply {d}/patch.diff")
                if a.returncode:
                    print(i, "PATCH DOES NOT APPLY", a.stderr[:200])
                    continue
                ok, r = check(meta["property"])
                print(i, meta["property"], "caught" if ok else f"MISSED rc={r.returncode}", flush=True)
                record(i, "caught" if ok else "missed")
            return
        spec = runpy.run_path(sys.argv[1])["SEEDS"]
        only = set(sys.argv[2:])
        fresh()
        for s in spec:
            if only and s["id"] not in only:
                continue
            sh("git checkout -q -- .")
            for f, old, new in s["edits"]:
                p = os.path.join(W, f)
                t = open(p).read()
                n = t.count(old)
                if n != 1:
                    print(s["id"], "EDIT MATCHES", n, f, old[:60])
                    break
                open(p, "w").write(t.replace(old, new))
            else:
                d = os.path.join(ROOT, "seeded", s["id"])
                os.makedirs(d, exist_ok=True)
                open(d + "/patch.diff", "w").write(sh("git diff").stdout)
                open(d + "/demo.py", "w").write(s["demo"])
                open(d + "/demo.sh", "w").write(
                    '#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
                os.chmod(d + "/demo.sh", 0o755)
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                          open(d + "/meta.json", "w"), indent=1)
                r1 = sh(f"bash {d}/demo.sh", timeout=300)
                sh("git stash -q")
                r0 = sh(f"bash {d}/demo.sh", timeout=300)
                sh("git stash pop -q")
                ok, rc = check(s["property"])
                miss = tests() if "--notest" not in only else []
                good = r0.returncode == 0 and r1.returncode != 0 and not miss
                print(s["id"], "VALID" if good else "INVALID", "demo clean/patched", r0.returncode, r1.returncode,
                      "tests missing", miss[:3], "->", "caught" if ok else f"MISSED rc={rc.returncode}", flush=True)
                if r0.returncode:
                    print(r0.stdout[-600:], r0.stderr[-1200:])
                if r1.returncode:
                    print("   ", (r1.stdout + r1.stderr).strip().splitlines()[-1][:200])
                if ok:
                    print("   ", [x for x in rc.stdout.splitlines() if x.startswith("  ")][0][:220])
                record(s["id"], "caught" if ok else "missed")
                if not good:
                    shutil.rmtree(d)
    finally:
        for x in (W, W + ".ev"):
            shutil.rmtree(x, ignore_errors=True)
        for x in (W + ".out.json", W + ".test.sh"):
            if os.path.exists(x):
                os.unlink(x)


main()
