"""replays a harness on the real package at concrete values (JSON lines on stdin/stdout)"""
import importlib
import io
import json
import os
import sys
import traceback
import warnings
from fractions import Fraction as F

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("VERIF_REPO_SRC", "/repo/src"))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

from symex import canvas  # noqa: E402
from symex.ctx import AssumptionFailed, ConcreteCtx, variants  # noqa: E402

canvas.install()


def run(req):
    mod = importlib.import_module("harness." + req["harness"])
    cfg = [c for c in variants(mod, req["tier"]) if c["name"] == req["config"]][0]
    vals = {k: float(F(n) / F(d)) for k, (n, d) in req["values"].items()}
    c = ConcreteCtx(vals, req["choices"], req.get("tol", 1e-6), cfg.get("whole"))
    exc = None
    if os.environ.get("VERIF_COV"):
        import coverage
        cov = coverage.Coverage(data_file=os.environ["VERIF_COV"] + f".{os.getpid()}", data_suffix=False)
    try:
        cfg["fn"](c, **cfg.get("args", {}))
    except AssumptionFailed:
        return {"assumption_failed": True}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-3:]
        exc = [type(e).__name__, str(e)[:300], where]
    return {"failed": c.failed[:20], "count": c.count, "exception": exc, "observed": c.observed}


def main():
    out = sys.stdout
    sys.stdout = io.StringIO()
    for line in sys.stdin:
        req = json.loads(line)
        sys.stdout = io.StringIO()
        try:
            r = run(req)
        except Exception as e:
            r = {"worker_error": f"{type(e).__name__}: {e}", "trace": traceback.format_exc()[-1500:]}
        out.write(json.dumps(r) + "\n")
        out.flush()


def one(path):
    with open(path) as f:
        req = json.load(f)
    r = run(req)
    print(json.dumps({k: v for k, v in r.items() if k != "observed"}, indent=1))
    sys.exit(1 if r.get("failed") or r.get("exception") else 0)


if __name__ == "__main__":
    if len(sys.argv) > 1:
        one(sys.argv[1])
    else:
        main()
