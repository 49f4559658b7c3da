#!/opt/veriftools/pyvenv/bin/python
"""dims.py ID...: kinds and sizes of the arguments that the quick checks give to the public functions of the package (a development tool)"""
import collections
import multiprocessing as mp
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src") + "/pycba/"
seen = set()


def kind(v, deep=True):
    t = type(v).__name__
    if v is None or isinstance(v, (bool, str)):
        return repr(v)[:24]
    if isinstance(v, int):
        return f"int {v}" if abs(v) < 200 else "int"
    if hasattr(v, "shape") and hasattr(v, "ravel") and getattr(v, "ndim", 0):
        return f"array{tuple(v.shape)}"
    if isinstance(v, (list, tuple, dict)):
        return f"{t}[{len(v)}]" + (" of " + "/".join(sorted({kind(q, False) for q in (v.values() if isinstance(v, dict) else v)}))[:60] if deep and len(v) else "")
    return t


def start(code, off):
    if code.co_filename.startswith(SRC) and (not code.co_name.startswith("_") or code.co_name == "__init__"):
        f = sys._getframe(1)
        n = code.co_argcount + code.co_kwonlyargcount
        for q in code.co_varnames[:n]:
            if q not in ("self", "cls"):
                seen.add((code.co_qualname, q, kind(f.f_locals[q])))
        return None
    return sys.monitoring.DISABLE


def job(a):
    prop, name = a
    from symex import check
    from symex.ctx import variants
    mod = check.load(prop)
    cfg = [c for c in variants(mod, "quick") if c["name"] == name][0]
    check.run_config(prop, mod, dict(cfg, budget=min(cfg.get("budget", 60), 60), max_paths=4), "quick", 1)
    return seen


def main():
    sys.monitoring.use_tool_id(4, "dims")
    sys.monitoring.register_callback(4, sys.monitoring.events.PY_START, start)
    sys.monitoring.set_events(4, sys.monitoring.events.PY_START)
    from symex import check
    from symex.ctx import variants
    out = collections.defaultdict(set)
    for prop in sys.argv[1:]:
        mod = check.load(prop)
        with mp.get_context("fork").Pool(int(os.environ.get("VERIF_JOBS", "3"))) as pool:
            for h in pool.imap_unordered(job, [(prop, c["name"]) for c in variants(mod, "quick")]):
                for fn, q, k in h:
                    out[fn, q].add(k)
    for (fn, q), ks in sorted(out.items()):
        print(f"{fn}({q}): " + " | ".join(sorted(ks))[:700])


main()
