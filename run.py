#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--config NAME ...] [--jobs N]

exit 0: the property held on everything explored; exit 1 with a VIOLATION line:
it is broken (counterexample replayed on the real package); exit 2: no answer.
"""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv") and os.path.exists(VT) \
        and not os.environ.get("VERIF_REEXEC"):
    os.environ["VERIF_REEXEC"] = "1"
    os.execv(VT, [VT, "-B", os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")

from symex.ctx import variants  # noqa: E402

_mod = None


FREE, ALL = 330, 720     # quick: seconds after which the configurations left share what remains, and after which none begins


def task(a):
    prop, name, tier, seed, left, jobs, t0 = a
    from symex import check
    cfg = [c for c in variants(_mod, tier) if c["name"] == name][0]
    gone = time.time() - t0
    if tier == "quick" and gone > FREE:
        cfg = dict(cfg, budget=min(cfg.get("budget", 60), 3 + max(0, ALL - 60 - gone) * jobs / left) if gone < ALL else 0)
    return check.run_config(prop, _mod, cfg, tier, seed)


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def matches(k, prop, cfg, v):
    """a listed finding is one property + one configuration + one obligation prefix"""
    return (k["property"] == prop and v["config"] == k["config"]
            and all(any(f[0].startswith(l) for l in k["labels"]) for f in (v["failed"] or []))
            and (bool(v["failed"]) or (v["exception"] and k.get("exception") == v["exception"][0])))


def main():
    global _mod
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--config", action="append")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--stop", action="store_true", help="stop at the first violation; write no evidence")
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from symex import check, loader
    try:
        _mod = check.load(prop)
    except BaseException as ex:
        import traceback
        traceback.print_exc()
        print(f"ERROR property={prop} the package could not be loaded: {type(ex).__name__}: {ex}")
        sys.exit(2)
    cfgs = variants(_mod, tier)
    names = [c["name"] for c in cfgs]
    assert len(set(names)) == len(names), "duplicate configuration names"
    if a.config:
        names = [n for n in names if any(x in n for x in a.config)]
    order = {c["name"]: c.get("cost", 1) for c in cfgs}
    names.sort(key=lambda n: -order[n])
    work = [(prop, n, tier, seed, len(names) - i, a.jobs, t0) for i, n in enumerate(names)]
    results = []
    if not work:
        sys.exit("no such configuration")
    if a.jobs <= 1 or len(work) == 1:
        for w in work:
            results.append(task(w))
            if a.stop and results[-1]["violations"]:
                break
    else:
        with mp.get_context("fork").Pool(min(a.jobs, len(work))) as pool:
            for r in pool.imap_unordered(task, work):
                results.append(r)
                if a.verbose:
                    s = r["stats"]
                    print(f"  {r['name']}: {r['wall']:.1f}s paths {s['paths']} obl {s['obligations']} "
                          f"viol {len(r['violations'])} inc {len(r['inconclusive'])} err {len(r['errors'])}", flush=True)
                if a.stop and r["violations"]:
                    pool.terminate()
                    break
    results.sort(key=lambda r: r["name"])

    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    funcs = sorted({f for r in results for f in r["functions"]})
    incon = [(r["name"], x) for r in results for x in r["inconclusive"]]
    errs = [(r["name"], x) for r in results for x in r["errors"] + r["unreproduced"]]
    viols = [dict(v, config=r["name"]) for r in results for v in r["violations"]]
    vac = [r["name"] for r in results if not r["violations"] and not r["inconclusive"]
           and (r["stats"]["paths"] == 0 or r["stats"]["obligations"] == 0)]
    decided = [r["name"] for r in results if r["stats"]["obligations"] > 0 and not r["inconclusive"]]

    rc = 0
    kf = known_findings()
    seen_known, fresh = set(), []
    for v in viols:
        k = next((i for i, k in enumerate(kf) if matches(k, prop, v["config"], v)), None)
        if k is None:
            fresh.append(v)
        else:
            seen_known.add(k)
    for k in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {kf[k]['what']}")
    if fresh:
        rc = 1
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for v in fresh[:10]:
            h = hashlib.sha256(json.dumps(v["req"], sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(rdir, f"{prop}-{v['config']}-{h}.json".replace("/", "_").replace(" ", "_"))
            req = dict(v["req"], values={k: [int(x), int(y)] for k, (x, y) in v["req"]["values"].items()})
            with open(path, "w") as f:
                json.dump(req, f, indent=1)
            print(f"  config {v['config']}: {v['label']} [{v['how']}]")
            print(f"    inputs { {k: float(int(x)) / float(int(y)) for k, (x, y) in v['req']['values'].items()} } {v['req']['choices'] or ''}")
            for x in (v["failed"] or [])[:3]:
                print(f"    real code: {x[0]}: {x[1]} expected {x[2]}")
            if v["exception"]:
                print(f"    real code raised {v['exception']}")
            print(f"VIOLATION property={prop} replay={path}")
    for n, x in errs[:10]:
        print(f"ERROR config {n}: {x}")
    vac = [n for n in vac if not n.startswith("whole")]      # no whole numbers satisfy its assumptions
    for n in vac:
        print(f"ERROR config {n}: vacuous (no completed path or no obligation)")
    for n, x in incon[:20]:
        print(f"INCONCLUSIVE config {n}: {x}")
    if rc == 0 and (errs or vac or not decided):
        rc = 2
    wall = time.time() - t0
    replays = sum(r["witness_ok"] for r in results)
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 2), violations=len(fresh),
        coverage=dict(
            states=tot.get("paths", 0),
            transitions=tot.get("branch_queries", 0) + tot.get("branch_decided_syntactic", 0) + tot.get("forks", 0),
            traces_validated_against_impl=replays,
            samples=[s for r in results for s in r["samples"][:1]][:6],
            exhaustive=False,
            meaning="states = program paths explored symbolically to completion (each stands for all inputs that take it); "
                    "transitions = branch decisions made on symbolic conditions",
            configurations=len(results), configurations_decided=len(decided),
            obligations=tot.get("obligations", 0),
            obligations_constant=tot.get("const", 0),
            obligations_equal_within_rounding=tot.get("rounded", 0),
            obligations_by_polynomial_identity_only=tot.get("by_normal_form", 0),
            solver=dict(name="z3", branch_queries=tot.get("branch_queries", 0),
                        branch_seconds=round(tot.get("branch_time", 0), 2),
                        obligation_queries=tot.get("obligation_queries", 0),
                        obligation_seconds=round(tot.get("obligation_time", 0), 2),
                        witness_queries=tot.get("witness_queries", 0), unknown=tot.get("unknown", 0)),
            infeasible_paths=tot.get("infeasible", 0),
            replays_on_real_code=sum(r["replays"] for r in results),
            values_compared_encoding_vs_code=sum(r.get("compared", 0) for r in results),
            held_to_tolerance=sorted({x for r in results for x in r["tolerance"]})[:30],
            inconclusive=[f"{n}: {x}" for n, x in incon][:60],
            functions_encoded=funcs,
            bounds={r["name"]: dict(variables=r["variables"], note=r["bounds"], paths=r["stats"]["paths"],
                                    seconds=round(r["wall"], 2)) for r in results},
            source_sha256={os.path.basename(p): hashlib.sha256(open(p, "rb").read()).hexdigest()[:16]
                           for p in sorted(loader.SOURCES.values()) if "/pycba/" in p},
        ),
        assumptions=list(getattr(_mod, "ASSUMPTIONS", [])) + [
            "arithmetic is exact over the reals: floating-point rounding is outside the claim (replays run on floats with tolerance 1e-6)",
            "numpy, scipy, math and pandas calls are replaced by the exact stand-ins of symex/npshim.py; matplotlib and plotly by a stand-in that records what is drawn",
            "symbolic inputs range over the closed boxes listed under bounds; topology, counts and npts are the enumerated configurations",
        ])
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not a.config and not a.stop:
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {len(decided)}/{len(results)} configurations decided, {tot.get('paths', 0)} paths, "
          f"{tot.get('obligations', 0)} obligations, {tot.get('branch_queries', 0)}+{tot.get('obligation_queries', 0)} queries, "
          f"solver {tot.get('branch_time', 0) + tot.get('obligation_time', 0):.1f}s, {replays} witnesses replayed, wall {wall:.1f}s, exit {rc}")
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
