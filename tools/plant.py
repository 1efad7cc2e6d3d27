#!/usr/bin/env python3
"""plant.py SPEC.py...: creates seeded/<id>/ from specs; `plant.py --test [ids]` tests them.

A spec file defines SEEDS, a list of dicts: id, property, needs, breaks, edits
[(path under src/fairseq2, old, new)], demo (python source).
Testing applies each patch to a scratch copy of /repo, runs demo and check (and
the test suite with --suite) against it, and undoes it.
"""
import json, os, runpy, subprocess, sys, time
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
# A scratch copy, so that /repo itself is never touched.
REPO = Path(f"/tmp/plant.{os.getpid()}")
SEED = ROOT / "seeded"
PRE = '''import os, sys, shutil, tempfile
import fairseq2n
fairseq2n.DOC_MODE = True
import logging
logging.getLogger().setLevel(logging.ERROR)
import fairseq2
fairseq2.init_fairseq2()
import fairseq2.recipe
import torch
'''
SH = '#!/bin/bash\nexport OMP_NUM_THREADS=2\nexec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$(realpath "$0")")/demo.py"\n'


def git(*a, **k):
    return subprocess.run(["git", "-C", str(REPO), *a], capture_output=True, text=True, **k)


def make(s):
    assert not git("status", "--porcelain").stdout.strip(), "repo dirty"
    d = SEED / s["id"]
    d.mkdir(parents=True, exist_ok=True)
    try:
        for path, old, new in s["edits"]:
            p = REPO / "src/fairseq2" / path
            t = p.read_text()
            if t.count(old) != 1:
                raise SystemExit(f"{s['id']}: {path}: {t.count(old)} matches of {old!r}")
            p.write_text(t.replace(old, new))
        (d / "patch.diff").write_text(git("diff").stdout)
    finally:
        git("checkout", "--", ".")
    (d / "demo.py").write_text(PRE + s["demo"])
    (d / "demo.sh").write_text(SH)
    os.chmod(d / "demo.sh", 0o755)
    (d / "meta.json").write_text(
        json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n"
    )


def run(cmd, cwd, t):
    t0 = time.time()
    try:
        env = dict(os.environ, VERIF_SRC=f"{REPO}/src", PYTHONPATH=f"{REPO}/src", VERIF_OUT=f"{REPO}.out")
        r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=t, env=env)
        return r.returncode, r.stdout + r.stderr, time.time() - t0
    except subprocess.TimeoutExpired:
        return 124, "timeout", t


def test(i, suite):
    d = SEED / i
    prop = json.loads((d / "meta.json").read_text())["property"]
    rc0, o0, _ = run(["bash", str(d / "demo.sh")], REPO, 300)
    a = git("apply", str(d / "patch.diff"))
    if a.returncode:
        print(i, "PATCH FAILS", a.stderr)
        return
    try:
        rc1, o1, _ = run(["bash", str(d / "demo.sh")], REPO, 300)
        rcc, oc, tc = run(["./check.sh", prop, "quick"], ROOT, 900)
        ok = "-"
        if suite:
            sh = Path("/opt/vp/test.sh").read_text().replace("cd /repo\n", f"cd {REPO}\nexport PYTHONPATH={REPO}/src:$PYTHONPATH\n")
            Path(f"{REPO}.sh").write_text(sh)
            run(["bash", f"{REPO}.sh", f"{REPO}.json"], REPO, 900)
            got = set(json.load(open(f"{REPO}.json"))["passed"])
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            ok = "suite-ok" if base <= got else f"SUITE FAILS {sorted(base - got)[:3]}"
    finally:
        git("checkout", "--", ".")
    v = [x for x in oc.splitlines() if x.startswith("VIOLATION")]
    good = rc0 == 0 and rc1 not in (0, 124)
    print(
        f"{i} {prop} demo {rc0}/{rc1} {'ok' if good else 'BAD DEMO'} {ok} check rc={rcc} {tc:.0f}s "
        + ("CAUGHT" if rcc == 1 and v else "MISSED"),
        flush=True,
    )
    rf = ROOT / "tools" / "seed_results.json"
    res = json.loads(rf.read_text()) if rf.exists() else {}
    res = {k: v for k, v in res.items() if (SEED / k).exists()}
    res[i] = dict(rc=rcc if v or rcc != 1 else 0, demo=good)
    rf.write_text(json.dumps(res, indent=1, sort_keys=True) + "\n")
    if not good:
        print("   clean:", o0[-600:], "\n   patched:", o1[-300:])
    else:
        print("   patched demo:", o1.strip().splitlines()[-1][:200] if o1.strip() else "")
    if rcc == 1:
        print("   ", "\n    ".join(oc.strip().splitlines()[-3:])[:500])
    elif rcc != 0:
        print(oc[-1500:])


if __name__ == "__main__":
    import atexit, shutil

    def clean():
        shutil.rmtree(REPO, ignore_errors=True)
        shutil.rmtree(f"{REPO}.out", ignore_errors=True)
        for x in ("sh", "json"):
            Path(f"{REPO}.{x}").unlink(missing_ok=True)

    atexit.register(clean)
    subprocess.run(["cp", "-a", os.environ.get("PLANT_SRC", "/repo"), str(REPO)], check=True)
    a = sys.argv[1:]
    suite = "--suite" in a
    only = [x[7:].split(",") for x in a if x.startswith("--only=")]
    a = [x for x in a if not x.startswith("--") or x == "--test"]
    if a and a[0] == "--test":
        for i in a[1:] or sorted(p.name for p in SEED.iterdir()):
            test(i, suite)
    else:
        ids = []
        for f in a:
            for s in runpy.run_path(f)["SEEDS"]:
                if only and s["id"] not in only[0]:
                    continue
                make(s)
                ids.append(s["id"])
        for i in ids:
            test(i, suite)
