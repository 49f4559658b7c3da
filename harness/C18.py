"""patterns of dead and live load with their largest and smallest factors"""
import numpy as np
import pycba as cba
from harness.scen import rests
from harness.C13 import check
from harness.C17 import direct, same

BEAMS = {
    "one": dict(L=[3.0], EI=[2.0], R="fp"),
    "two": dict(L=[3.0, 4.0], EI=[2.0, 3.0], R="ppp"),
    "three": dict(L=[3.0, 4.0, 2.0], EI=[2.0, 3.0, 1.0], R="pppp"),
    "hinge": dict(L=[4.0, 3.0, 2.0], EI=[2.0, 3.0, 1.0], R="fppp", eletype=[2, 1, 1]),
    "four": dict(L=[3.0, 4.0, 2.0, 3.0], EI=[2.0, 3.0, 1.0, 2.0], R="ppspf"),
    "five": dict(L=[3.0, 4.0, 2.0, 3.0, 1.0], EI=[2.0] * 5, R="pppppp"),
    "shear": dict(L=[3.0, 4.0], EI=[2.0, 3.0], R="pfp", GAv=[5.0, None]),
    "ground": dict(L=[3.0, 4.0], EI=[2.0, 3.0], R="hpp", kf=[1.5, None]),
    "settle": dict(L=[3.0, 4.0], EI=[2.0, 3.0], R="ppp", D=[None, None, -0.25, None, None, None]),
}
KINDS = {"udl": lambda i, w, u: [i, 1, w], "pl": lambda i, w, u: [i, 2, w, 0.75], "pudl": lambda i, w, u: [i, 3, w, 0.25, 0.5],
         "ml": lambda i, w, u: [i, 4, w, 0.25], "trap": lambda i, w, u: [i, 5, w, u], "trapp": lambda i, w, u: [i, 5, w, u, 0.25, 0.5],
         "ic": lambda i, w, u: [i, 6, w, u]}


def times(row, g):
    """the same load, g times as large"""
    n = {1: 1, 2: 1, 3: 1, 4: 1, 5: 2, 6: len(row) - 2}[row[1]]
    return row[:2] + [g * v for v in row[2:2 + n]] + row[2 + n:]


def patterns(n):
    out = [(i, i + 1) for i in range(1, n)]
    return out + [tuple(range(1, n + 1, 2)), tuple(range(2, n + 1, 2)), tuple(range(1, n + 1))]


def model(c, name):
    b = BEAMS[name]
    R = [c.real(f"k{j}", 1, 9) if v == "k" else v for j, v in enumerate(rests(b["R"]))]
    kw = {k: list(b[k]) for k in ("eletype", "GAv", "kf", "D") if k in b}

    def make(LM):
        return cba.BeamAnalysis(list(b["L"]), list(b["EI"]), list(R), LM, **{k: list(v) for k, v in kw.items()})
    return len(b["L"]), make


def loads(c, dead, live, fixed=False):
    out = []
    for tag, rows in (("g", dead), ("q", live)):
        if fixed:
            out.append([KINDS[k](i, 1.5 + j, -0.5 * j) for j, (k, i) in enumerate(rows)])
            continue
        out.append([KINDS[k](i, c.real(f"w{tag}{j}", -4, 4), c.real(f"u{tag}{j}", -4, 4)) for j, (k, i) in enumerate(rows)])
    return out


def expected(g, q, fac, n):
    gx, gn, qx, qn = fac
    out = []
    for s in patterns(n):
        out.append([times(r, gx if r[0] in s else gn) for r in g] + [times(r, qx if r[0] in s else qn) for r in q])
    return out


def pattern(c, name, dead, live, how="list", diagrams=True, numeric=False, again=True):
    n, make = model(c, name)
    ba = make([])
    g, q = loads(c, dead, live, numeric == "loads")
    fac = (1.35, 1.0, 1.5, 0.0) if numeric == "factors" else [c.real(f"f{i}", 0, 2) for i in range(4)]
    keep = [[list(r) for r in m] for m in (g, q)]
    lp = cba.LoadPattern(ba)
    c.raises("nothing set", ValueError, lp.to_load_cases)
    if how == "case":
        lp.set_dead_loads(cba.LoadCase("g", g), fac[0], fac[1])
    else:
        lp.set_dead_loads(g, fac[0], fac[1])
    c.raises("no live load", ValueError, lp.to_LM)
    if how == "case":
        lp.set_live_loads({"name": "q", "loads": q}, gamma_min=fac[3], gamma_max=fac[2])
    else:
        lp.set_live_loads(q, fac[2], fac[3])
    want = expected(g, q, fac, n)

    def rows(label, got):
        got = list(got)
        c.true(f"{label}: number", len(got) == len(want))
        for i, (a, b) in enumerate(zip(got, want)):
            c.true(f"{label} {i}: loads", len(a) == len(b))
            for j, (x, y) in enumerate(zip(a, b)):
                c.eq(f"{label} {i} {j}", x, y)
    lcs = lp.to_load_cases()
    rows("cases", [lc.loads for lc in lcs])
    rows("tables", lp.to_LM().values())
    for i, s in enumerate(patterns(n)):
        c.true(f"spans {i}", tuple(lcs[i].metadata["max_spans"]) == s and tuple(lcs[i].loaded_spans) == tuple(k - 1 for k in s))
    if diagrams:
        env = lp.analyze(4)
        res = [direct(make, r) for r in want]
        check(c, env, [res])
        c.true("results", len(env.vResults) == len(res))
        for i, (a, b) in enumerate(zip(env.vResults, res)):
            same(c, f"pattern {i}", a, b)
        env = lp.analyze(4) if again else lcs.envelope(4)
        for i, (a, b) in enumerate(zip(env.vResults, res)):
            same(c, f"again {i}", a, b)
    for tag, m, k in (("dead", g, keep[0]), ("live", q, keep[1])):
        for i, (a, b) in enumerate(zip(m, k)):
            c.eq(f"{tag} load {i} as given", a, b)


def configs(tier):
    out = []

    def add(tag, fn, **kw):
        cost = kw.pop("cost", 3)
        out.append(dict(name=f"{fn.__name__}-{tag}", fn=fn, args=kw, cost=cost, merge=True, max_paths=4000))
    for k in KINDS:
        add(f"kind-{k}", pattern, name="two", dead=[("udl", 1), (k, 2)], live=[(k, 1), ("udl", 2)], diagrams=False)
    for b, n in (("one", 1), ("two", 2), ("three", 3), ("hinge", 3), ("four", 4), ("five", 5), ("shear", 2), ("settle", 2)):
        d = [("udl", i + 1) for i in range(n)]
        add(f"rows-{b}", pattern, name=b, dead=d + [("pl", n)], live=[("pl", 1)] + d, how="case", diagrams=False)
        if n < 4:
            add(f"numbers-{b}", pattern, name=b, dead=[("udl", n)], live=[("pl", 1)] if n < 3 else [("udl", 2)], again=n == 2, numeric="factors", cost=9)
    add("two", pattern, name="two", dead=[("udl", 1)], live=[("udl", 2)], numeric="loads", cost=9)
    add("one", pattern, name="one", dead=[("udl", 1)], live=[("trap", 1)], numeric="loads", again=False)
    add("ground", pattern, name="ground", dead=[("udl", 1)], live=[("udl", 2)], numeric="factors", diagrams=False)
    add("unsorted", pattern, name="three", dead=[("udl", 3), ("pl", 1), ("udl", 1)], live=[("pl", 2), ("udl", 3), ("pl", 2)], diagrams=False)
    add("empty", pattern, name="three", dead=[], live=[("pl", 2)], diagrams=False)
    if tier == "thorough":
        for b, n in (("four", 4), ("five", 5)):
            add(f"t-{b}", pattern, name=b, dead=[("udl", n)], live=[("udl", 1), ("pl", n)], numeric="factors", cost=12)
        add("t-three", pattern, name="three", dead=[("udl", 1)], live=[("udl", 2), ("pl", 3)], cost=15)
    return out
