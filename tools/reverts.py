#!/usr/bin/env python3
"""reverts.py [COMMIT...]: does the check of each repaired defect report it again when the repair is taken back? (scratch copies)"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [re.match(r"fixed: property=(\S+) (\S+) (.*)", q).groups() for q in json.load(open(f"{ROOT}/known_findings.json"))["fixed"]]


def one(q):
    prop, h, what = q
    d = tempfile.mkdtemp(prefix="revert-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", f"{d}/r"], check=True)
        r = subprocess.run(["git", "-c", "user.name=x", "-c", "user.email=x", "revert", "-n", h], cwd=f"{d}/r", capture_output=True, text=True)
        if r.returncode:
            return h, prop, "CONFLICT"
        r = subprocess.run(["/opt/veriftools/pyvenv/bin/python", "-B", "run.py", prop, "--jobs", "2", "--stop"], cwd=ROOT, env=dict(os.environ, VERIF_REPO_SRC=f"{d}/r/src"),
                           capture_output=True, text=True)
        return h, prop, "reported" if r.returncode == 1 and "VIOLATION" in r.stdout else f"MISSED exit {r.returncode}"
    finally:
        shutil.rmtree(d)


with cf.ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, [q for q in FIXED if not sys.argv[1:] or q[1] in sys.argv[1:]]):
        print(*r, flush=True)
