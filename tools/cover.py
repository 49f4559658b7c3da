#!/opt/veriftools/pyvenv/bin/python
"""cover.py OUT [ID...]: lines of the package that the quick checks execute symbolically (and, given OUT only, those that none does)"""
import ast
import glob
import json
import multiprocessing as mp
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src") + "/pycba/"
hit = set()


def line(code, n):
    if code.co_filename.startswith(SRC):
        hit.add((code.co_filename[len(SRC):], n))
    return sys.monitoring.DISABLE


def job(a):
    prop, name = a
    from symex import check
    from symex.ctx import variants
    mod = check.load(prop)
    cfg = [c for c in variants(mod, "quick") if c["name"] == name][0]
    check.run_config(prop, mod, dict(cfg, budget=min(cfg.get("budget", 60), 60)), "quick", 1)
    return hit


def main():
    out = sys.argv[1]
    d = json.load(open(out)) if os.path.exists(out) else {}
    sys.monitoring.use_tool_id(4, "cover")
    sys.monitoring.register_callback(4, sys.monitoring.events.LINE, line)
    sys.monitoring.set_events(4, sys.monitoring.events.LINE)
    from symex import check
    from symex.ctx import variants
    for prop in sys.argv[2:]:
        mod = check.load(prop)
        work = [(prop, c["name"]) for c in variants(mod, "quick")]
        got = set()
        with mp.get_context("fork").Pool(int(os.environ.get("VERIF_JOBS", "3"))) as pool:
            for h in pool.imap_unordered(job, work):
                got |= h
        d[prop] = sorted(got)
        json.dump(d, open(out, "w"))
        print(prop, len(got), flush=True)
    allh = {tuple(q) for v in d.values() for q in v}
    for f in sorted(glob.glob(SRC + "*.py")):
        src = open(f).read()
        b = os.path.basename(f)
        miss = []
        doc = set()
        for n in ast.walk(ast.parse(src)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                doc |= set(range(n.lineno, n.end_lineno + 1))
        for n in ast.walk(ast.parse(src)):
            if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)) and n.lineno not in doc:
                if not any((b, k) in allh for k in range(n.lineno, (n.body[0].lineno if getattr(n, "body", None) else n.end_lineno + 1))):
                    miss.append(n.lineno)
        for k in sorted(set(miss)):
            print(f"{b}:{k}: {src.splitlines()[k - 1].strip()}")


main()
