#!/usr/bin/env python3
"""plant.py ID...: try seeded changes in scratch copies of /repo (never in /repo itself).

For each: the patch applies and its changed lines are lines of the base commit, the tests pass, demo.sh passes
without and fails with it, and whether the property's quick check reports it.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, src=None, timeout=1200):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1")
    if src:
        env["PYTHONPATH"] = src
        env["VERIF_REPO_SRC"] = src
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def original(d, repo):
    """removed lines must be lines of the base commit"""
    base = sh("git rev-list --max-parents=0 HEAD", repo).stdout.split()[0]
    bad = []
    f = None
    for line in open(os.path.join(d, "patch.diff")):
        if line.startswith("--- a/"):
            f = line[6:].strip()
            old = set(sh(f"git show {base}:{f}", repo).stdout.split("\n"))
        elif line.startswith("-") and not line.startswith("---") and line[1:].rstrip("\n") not in old:
            bad.append(line.rstrip())
    return bad


def one(i):
    d = os.path.join(ROOT, "seeded", i)
    tmp = tempfile.mkdtemp(prefix="plant-")
    out = [i]
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".pytest_cache", "__pycache__"))
        src = os.path.join(repo, "src")
        meta = json.load(open(os.path.join(d, "meta.json")))
        demo = os.path.join(tmp, "d")
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        r = sh(f"bash {demo}/demo.sh", repo, src, 300)
        if r.returncode:
            out.append("DEMO FAILS ON CLEAN " + (r.stdout + r.stderr)[-400:])
        r = sh(f"git apply {d}/patch.diff", repo)
        if r.returncode:
            return out + ["PATCH " + r.stderr]
        if original(d, repo):
            out.append("NOT ORIGINAL LINES " + repr(original(d, repo)))
        r = sh(f"bash {demo}/demo.sh", repo, src, 300)
        if not r.returncode:
            out.append("DEMO PASSES WITH PATCH")
        r = sh(f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --basetemp={tmp}/pt -n 3 --timeout=300", repo, src)
        tail = r.stdout.strip().split("\n")[-1]
        if r.returncode:
            out.append("TESTS " + "; ".join(l for l in r.stdout.split("\n") if l.startswith("FAILED"))[:300])
        if "--nocheck" not in sys.argv:
            r = sh(f"python3-vt {ROOT}/run.py {meta['property']} --tier quick --jobs 3 --stop", ROOT, src)
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            out.append(f"check {meta['property']}: {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} (exit {r.returncode}, {len(v)} lines)")
            if r.returncode not in (0, 1):
                out.append(r.stdout[-600:])
        return out
    finally:
        shutil.rmtree(tmp)


ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
with cf.ThreadPoolExecutor(int(os.environ.get('PLANT_JOBS', '2'))) as ex:
    for o in ex.map(one, ids):
        print(" | ".join(o), flush=True)
