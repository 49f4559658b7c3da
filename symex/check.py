"""runs the configurations of one property: symbolic exploration, solver
verdicts, replay on the real package, evidence."""
from __future__ import annotations
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction as F

import z3

from . import sym, loader, npshim
from . import poly as P
from .ctx import SymCtx, MARGIN
from .sym import SymReal, SymBool, Unsupported, PathLimit

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REAL_PY = os.environ.get("VERIF_REAL_PY", "/opt/venv/bin/python")
MAX_TERMS = 3000
MAX_WITNESS = 24


def load(prop):
    loader.install({"pycba": os.path.join(loader.REPO_SRC, "pycba"), "harness": os.path.join(ROOT, "harness")})
    e = sym.Engine()
    sym.set_engine(e)
    return importlib.import_module("harness." + prop)


# ------------------------------------------------------------------ replay
class Replayer:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.p = None
        self.runs = 0

    def start(self):
        env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
        env.pop("PYTHONPATH", None)
        self.p = subprocess.Popen([REAL_PY, "-B", os.path.join(ROOT, "symex", "replay_worker.py")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  text=True, env=env, cwd=ROOT)

    def request(self, cfg, values, choices):
        names = sym.ENGINE.names
        vals = {names[i]: [str(v.numerator), str(v.denominator)] for i, v in values.items() if "!" not in names[i]}
        return {"harness": self.prop, "tier": self.tier, "config": cfg["name"], "values": vals, "choices": choices}

    def run(self, req):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.runs += 1
        req = dict(req, values={k: [int(a), int(b)] for k, (a, b) in req["values"].items()})
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            self.p = None
            return {"worker_error": "replay process died"}
        return json.loads(line)

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(timeout=10)
            except Exception:
                self.p.kill()
            self.p = None


# ------------------------------------------------------------ obligations
def sides(e, a, b):
    """(L, R, kind): polynomials / z3 terms with a == b  <=>  L == R on the path"""
    a, b = SymReal.of(a), SymReal.of(b)
    if a.t is not None or b.t is not None:
        return a.z3(), b.z3(), "term"
    da, db = dict(a.d), dict(b.d)
    ma = tuple(sorted((f, x - da.get(f, 0)) for f, x in db.items() if x > da.get(f, 0)))
    mb = tuple(sorted((f, x - db.get(f, 0)) for f, x in da.items() if x > db.get(f, 0)))
    L = P.scale(P.mul(a.n, sym.expand(ma)) if ma else a.n, b.c)
    R = P.scale(P.mul(b.n, sym.expand(mb)) if mb else b.n, a.c)
    if e.subs and L != R:
        D = e.apply_subs(P.add(L, R, 1, -1))
        return D, {}, "poly"
    return L, R, "poly"


def num(x):
    return isinstance(x, SymReal) or sym.as_fraction(x) is not None


class Decider:
    def __init__(self, e, ctx, stats):
        self.e, self.ctx, self.stats = e, ctx, stats

    def prepare(self):
        """-> list of (label, bad z3 | False | True, evaluator(model)->(violated, margin_ok), obligation)"""
        e, out = self.e, []
        for lab, kind, pay, scale in self.ctx.obls:
            self.stats["obligations"] += 1
            if kind == "eq":
                a, b = pay
                if isinstance(a, SymBool):
                    a = bool(a)
                if isinstance(b, SymBool):
                    b = bool(b)
                try:
                    na, nb = num(a), num(b)
                except Unsupported:      # nan / inf
                    na = nb = False
                if not (na and nb):
                    same = a is b or (type(a) is type(b) and a == b)
                    if not same:
                        out.append((lab, True, None, None))
                    continue
                L, R, k = sides(e, a, b)
                if e.rounded and k == "poly" and L != R:
                    # constants were rounded to 2^-512: agreement to 2^-100 is equality
                    x = SymReal.of(a) - SymReal.of(b)
                    if not x.d and all(abs(v) << 100 < x.c for v in x.n.values()):
                        self.stats["rounded"] += 1
                        continue
                if k == "poly":
                    if L == R and len(L) > MAX_TERMS:
                        self.stats["by_normal_form"] += 1
                        continue
                    if not R and P.is_const(L):
                        if L.get(0, 0) != 0:
                            out.append((lab, True, None, (a, b, scale)))
                        else:
                            self.stats["const"] += 1
                        continue
                    if P.is_const(L) and P.is_const(R):
                        if L != R:
                            out.append((lab, True, None, (a, b, scale)))
                        else:
                            self.stats["const"] += 1
                        continue
                    bad = e.poly_z3(L) != e.poly_z3(R)
                else:
                    bad = L != R
                out.append((lab, bad, None, (a, b, scale)))
            elif kind == "le":
                a, b = pay
                c = sym.compare(SymReal.of(a), SymReal.of(b), "<=")
                if c is True:
                    self.stats["const"] += 1
                    continue
                out.append((lab, True if c is False else c.negate().z3(), c, (a, b, scale)))
            else:
                c = pay
                if hasattr(c, "dtype") and getattr(c, "ndim", 0) == 0 and hasattr(c, "item"):
                    c = c.item()
                if not isinstance(c, SymBool):
                    if bool(c):
                        self.stats["const"] += 1
                        continue
                    out.append((lab, True, None, None))
                    continue
                out.append((lab, c.negate().z3(), c, None))
        return out

    def holds_at(self, ob, m):
        """exact truth of the obligation at a model; None if it cannot be evaluated"""
        lab, bad, c, ab = ob
        try:
            if ab is not None:
                d = SymReal.of(ab[0]).value(m) - SymReal.of(ab[1]).value(m)
                if c is None:
                    return d == 0
                return d <= 0
            if c is not None:
                return bool(c.value(m))
            return False if bad is True else None
        except (ZeroDivisionError, KeyError):
            return None

    def gap(self, ob, m):
        lab, bad, c, ab = ob
        if ab is None:
            return None
        try:
            l, r = SymReal.of(ab[0]).value(m), SymReal.of(ab[1]).value(m)
        except (ZeroDivisionError, KeyError):
            return None
        return abs(l - r) / max(F(1), F(ab[2]) if not isinstance(ab[2], SymReal) else F(1), abs(l), abs(r))

    def margin_z3(self, ob):
        lab, bad, c, ab = ob
        a, b = SymReal.of(ab[0]), SymReal.of(ab[1])
        s = MARGIN * max(F(1), F(ab[2]) if not isinstance(ab[2], SymReal) else F(1))
        if a.t is None and b.t is None:
            hi = sym.compare(b + s, a, "<")
            lo = sym.compare(a + s, b, "<")
        else:
            hi = SymBool("z3", a.z3() - b.z3() > z3.RealVal(s), lambda m: a.value(m) - b.value(m) > s)
            lo = SymBool("z3", b.z3() - a.z3() > z3.RealVal(s), lambda m: b.value(m) - a.value(m) > s)
        if c is not None:
            return hi
        return sym.sym_or(hi, lo)

    def decide(self):
        """-> list of (label, verdict, model); verdict 'violated' | 'unknown' | 'tolerance'"""
        e = self.e
        obs = self.prepare()
        res = []
        if not obs:
            return res
        hard = [o for o in obs if o[1] is not True]
        certain = [o for o in obs if o[1] is True]
        m = e.model
        easy = []
        if m is not None:
            still = []
            for o in hard:
                h = self.holds_at(o, m)
                if h is False:
                    g = self.gap(o, m)
                    if g is None or g > MARGIN:
                        easy.append((o, m))
                        continue
                still.append(o)
            hard = still
        for o, mm in easy:
            res.append((o[0], "violated", mm))
        for o in certain:
            mm = m
            if mm is None:
                r, mm = e.check([], "obligation")
                if r == z3.unsat:
                    continue
                if mm is not None:
                    mm = e.nicify(mm, e.path) or mm
            g = self.gap(o, mm) if mm is not None else None
            if g is not None and g <= MARGIN / 100:
                res.append((o[0], "tolerance", None))
                continue
            res.append((o[0], "violated" if mm is not None else "unknown", mm))
        CH = 60
        for i in range(0, len(hard), CH):
            chunk = hard[i:i + CH]
            r, mm = e.check([z3.Or([o[1] for o in chunk])], "obligation",
                            timeout=e.query_timeout if len(chunk) == 1 else e.query_timeout // 2)
            if r == z3.unsat:
                continue
            if len(res) > 40:
                break
            todo = chunk if len(chunk) > 1 or True else chunk
            for o in todo:
                if len(chunk) == 1:
                    r1, m1 = r, mm
                else:
                    r1, m1 = e.check([o[1]], "obligation")
                if r1 == z3.unsat:
                    continue
                g = None
                if r1 == z3.sat and m1 is not None:
                    m2 = e.nicify(m1, e.path)
                    if m2 is not None and self.holds_at(o, m2) is False:
                        m1 = m2
                    g = self.gap(o, m1)
                    if g is None or g > MARGIN:
                        res.append((o[0], "violated", m1))
                        continue
                if o[3] is None:
                    res.append((o[0], "unknown", None))
                    continue
                mz = self.margin_z3(o)
                if mz is False:
                    res.append((o[0], "tolerance", None))
                    continue
                if mz is True:
                    res.append((o[0], "violated", m1))
                    continue
                r3, m3 = e.check([mz.z3()], "obligation")
                if r3 == z3.unsat:
                    res.append((o[0], "tolerance", None))
                elif r3 == z3.sat and m3 is not None:
                    m4 = e.nicify(m3, e.path + [mz])
                    res.append((o[0], "violated", m4 or m3))
                else:
                    res.append((o[0], "unknown", None))
        return res


# ---------------------------------------------------------------- coverage
class Tracer:
    def __init__(self):
        self.seen = set()
        self.on = False

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(3, "symex")
        except ValueError:
            return
        self.on = True
        prefix = os.path.join(loader.REPO_SRC, "pycba")

        def cb(code, off):
            if code.co_filename.startswith(prefix):
                self.seen.add(f"{os.path.basename(code.co_filename)}:{code.co_qualname}")
            return mon.DISABLE
        mon.register_callback(3, mon.events.PY_START, cb)
        mon.restart_events()
        mon.set_events(3, mon.events.PY_START)

    def stop(self):
        if self.on:
            sys.monitoring.set_events(3, 0)
            sys.monitoring.free_tool_id(3)
            self.on = False


def reset_caches():
    sym.FACTORS.clear()
    sym.FKEY.clear()
    sym.FVAR.clear()
    sym._expand_cache.clear()


def on_alarm(*a):
    raise PathLimit("time budget of the configuration")


_replayers = {}


def run_config(prop, mod, cfg, tier, seed):
    t0 = time.time()
    reset_caches()
    npshim.reset()
    budget = cfg.get("budget", 60 if tier == "quick" else 600)
    e = sym.Engine(seed=seed, query_timeout_ms=cfg.get("query_timeout", 10000 if tier == "quick" else 60000),
                   max_paths=cfg.get("max_paths", 400 if tier == "quick" else 4000),
                   merge=cfg.get("merge", False), deadline=t0 + budget)
    rp = _replayers.get((prop, tier))
    if rp is None:
        rp = _replayers[(prop, tier)] = Replayer(prop, tier)
    st = dict(obligations=0, by_normal_form=0, const=0, rounded=0)
    out = dict(name=cfg["name"], violations=[], inconclusive=[], tolerance=[], witnesses=0, witness_ok=0, samples=[],
               unreproduced=[], errors=[], bounds=cfg.get("bounds", ""), vacuous=False)
    ctx_box = {}
    runs0 = rp.runs

    def fn():
        npshim.reset()
        c = ctx_box["c"] = SymCtx(e, cfg.get("whole"))
        cfg["fn"](c, **cfg.get("args", {}))

    def report(label, req, rr, how):
        if len(out["violations"]) < 8:
            out["violations"].append(dict(label=label, how=how, req=req, failed=rr.get("failed"),
                                          exception=rr.get("exception")))

    def path_model():
        m = e.model
        if m is None:
            r, m = e.check([], "witness")
            if r == z3.unsat:
                return "infeasible"
            if m is not None:
                m = e.nicify(m, e.path) or m
            e.model = m
        else:
            try:
                if not all(b.value(m) for b in e.path):
                    r, m = e.check([], "witness")
                    if r == z3.unsat:
                        return "infeasible"
                    if m is not None:
                        m = e.nicify(m, e.path) or m
                    e.model = m
            except (ZeroDivisionError, KeyError):
                pass
        return m

    def on_path(kind, payload):
        c = ctx_box["c"]
        if kind == "unsupported":
            out["inconclusive"].append(f"not encodable: {payload}")
            return
        m = path_model()
        if m == "infeasible":
            e.stats["paths"] -= 1
            e.stats["infeasible"] += 1
            return
        if m is None:
            if kind == "exception":
                out["inconclusive"].append(f"{type(payload).__name__}: {payload} on a path without a model")
                return
        req = rp.request(cfg, m, c.choices) if m is not None else None
        if kind == "exception":
            tb = traceback.extract_tb(payload.__traceback__)
            where = " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-4:]))
            rr = rp.run(req)
            if rr.get("exception") or rr.get("failed"):
                report(f"exception {type(payload).__name__}: {str(payload)[:120]}", req, rr, "exception on a feasible path")
            elif e.boundary:
                out["inconclusive"].append(f"exception on a boundary path: {type(payload).__name__}: {payload}")
            else:
                out["unreproduced"].append(f"{type(payload).__name__}: {payload} at {where}; replay {str(rr)[:300]}")
            return
        if len(out["samples"]) < 3 and req is not None:
            out["samples"].append(dict(config=cfg["name"], path_conditions=len(e.path), obligations=len(c.obls),
                                       witness={k: f"{a}/{b}" for k, (a, b) in req["values"].items()}, choices=c.choices))
        # the solver's verdict on the obligations of this path
        verdicts = Decider(e, c, st).decide()
        tried = 0
        bad_labels = set()
        for lab, v, mm in verdicts:
            if v == "tolerance":
                out["tolerance"].append(lab)
            elif v == "unknown":
                out["inconclusive"].append(f"solver unknown on '{lab}'")
            else:
                bad_labels.add(lab)
                if tried >= 6 or len(out["violations"]) >= 8:
                    continue
                tried += 1
                q = rp.request(cfg, mm, c.choices)
                rr = rp.run(q)
                if rr.get("failed") or rr.get("exception"):
                    report(lab, q, rr, "solver counterexample, replayed")
                elif e.boundary:
                    out["inconclusive"].append(f"boundary counterexample to '{lab}' not reproduced on floats")
                else:
                    out["unreproduced"].append(f"'{lab}' at {q['values']}: replay says {str(rr)[:200]}")
        # one witness of the path through the real package
        if req is not None and all(v == "tolerance" for _, v, _ in verdicts) and out["witnesses"] < MAX_WITNESS:
            rr = rp.run(req)
            out["witnesses"] += 1
            if e.boundary:
                if not rr.get("failed") and not rr.get("exception") and not rr.get("worker_error"):
                    out["witness_ok"] += 1
                return
            if rr.get("worker_error") or rr.get("assumption_failed"):
                out["errors"].append(f"witness: {str(rr)[:400]}")
                return
            if rr.get("failed") or rr.get("exception"):
                report("witness", req, rr, "path witness fails on the real code although the encoding proves it")
                return
            # fidelity: what the encoding computed equals what the code computes
            # (not where it went on from an arbitrary answer of the eigenproblem solver)
            n = 0
            if npshim.EIGH:
                out["witness_ok"] += 1
                return
            for lab, kd, pay, scale in c.obls:
                if kd != "eq" or lab not in rr["observed"] or n > 400:
                    continue
                try:
                    sv = float(SymReal.of(pay[0]).value(m))
                except Exception:
                    continue
                n += 1
                rv = rr["observed"][lab]
                if not abs(sv - rv) <= 1e-5 * max(1.0, abs(sv), abs(rv), float(scale) if not isinstance(scale, SymReal) else 1.0):
                    out["errors"].append(f"encoding mismatch on '{lab}': encoding {sv}, code {rv} at {req['values']}")
                    return
            for lab, x in c.observed.items():
                if lab in rr["observed"]:
                    try:
                        sv = float(SymReal.of(x).value(m))
                    except Exception:
                        continue
                    rv = rr["observed"][lab]
                    n += 1
                    if not abs(sv - rv) <= 1e-5 * max(1.0, abs(sv), abs(rv)):
                        out["errors"].append(f"encoding mismatch on obs '{lab}': encoding {sv}, code {rv}")
                        return
            out["witness_ok"] += 1
            out["compared"] = out.get("compared", 0) + n

    tr = Tracer()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(budget) + 20)
    try:
        tr.start()
        e.explore(fn, on_path)
    except PathLimit as ex:
        out["inconclusive"].append(f"cut: {ex}")
    except Exception as ex:
        out["errors"].append(f"engine: {type(ex).__name__}: {ex}: {traceback.format_exc()[-800:]}")
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        tr.stop()
    out["inconclusive"] += e.inconclusive
    out["stats"] = {**e.stats, **{k: v for k, v in st.items()}}
    out["functions"] = sorted(tr.seen)
    out["replays"] = rp.runs - runs0
    out["wall"] = time.time() - t0
    out["variables"] = {n: [None if a is None else str(a), None if b is None else str(b)]
                        for n, a, b in zip(e.names, e.lo, e.hi) if "!" not in n}
    return out
