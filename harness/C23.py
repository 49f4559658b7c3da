"""what is asked of the results is what was computed: values at a place, per span, curves and exported tables"""
import io
import os
import tempfile
from fractions import Fraction as F
import numpy as np
import pycba as cba
from pycba.results import Envelopes
from harness.scen import rests

BEAMS = {
    "one": ([4], [2], "fp", [1]),
    "two": ([3, 4], [2, 3], "ppp", [1, 1]),
    "cant": ([3, 2], [2, 3], "fph", [1, 1]),
    "hinge": ([3, 2, 4], [2, 3, 2], "fhpp", [2, 1, 1]),
    "settle": ([3, 4], [2, 3], "ppp", [1, 1]),
}
ATTRS = ("M", "V", "R", "D")
EATTRS = ("Mmax", "Mmin", "Vmax", "Vmin")


def analysis(c, beam, tag="", npts=4, fixed=False):
    Ls, EI, sup, et = BEAMS[beam]
    k = c.const
    rows = []
    for s in range(len(Ls)):
        w = k(1) if fixed else c.real(f"w{tag}{s}", -4, 4)
        rows.append([s + 1, 1, w] if s % 2 else [s + 1, 2, w, k(F(13, 10))])
    D = None
    if beam == "settle" and not fixed:
        D = [None, None, c.real(f"d{tag}", -1, 1), None, None, None]
    ba = cba.BeamAnalysis([k(v) for v in Ls], [k(v) for v in EI], rests(sup), rows, eletype=et, D=D)
    ba.analyze(npts)
    return ba


def cuts(Ls, npts):
    """stations of each span and the spans' ends"""
    out, x0 = [], F(0)
    for L in Ls:
        out.append([x0 + F(L) * j / npts for j in range(npts + 1)])
        x0 += L
    return out


def lookup(c, x, grid, vals):
    """interpolate on the span that holds x (the left one at a joint); vals per span on its stations"""
    for s, g in enumerate(grid):
        if s == len(grid) - 1 or c.fork(x <= c.const(g[-1])):
            for j in range(len(g) - 1):
                if j == len(g) - 2 or c.fork(x <= c.const(g[j + 1])):
                    t = (x - c.const(g[j])) / c.const(g[j + 1] - g[j])
                    return [v[s][j] * (1 - t) + v[s][j + 1] * t for v in vals]


def spans(values, n, npts):
    """station values by span, without the two stations that close the diagram"""
    m = npts + 3
    return [list(values[i * m + 1:(i + 1) * m - 1]) for i in range(n)]


def at(c, beam, npts):
    Ls = BEAMS[beam][0]
    ba = analysis(c, beam, npts=npts)
    x = c.real("x", 0, float(sum(Ls)))
    r = ba.beam_results
    grid = cuts(Ls, npts)
    c.eq("stations", [spans(r.results.x, len(Ls), npts)], [[[c.const(v) for v in g] for g in grid]])
    got = ba.at(x)
    c.true("what is given", sorted(got) == sorted(ATTRS))
    want = lookup(c, x, grid, [spans(getattr(r.results, a), len(Ls), npts) for a in ATTRS])
    for a, w in zip(ATTRS, want):
        c.eq(f"{a} at x", got[a], w)
    one = c.pick("alone", ["M", "V", "R", "D"])
    got = r.at(x, (one,))
    c.true("just what was asked", list(got) == [one])
    c.eq("the same", got[one], want[ATTRS.index(one)])


def joints(c, beam, npts):
    """at a support: the value just left of it; nodes move as the solution says"""
    Ls, EI, sup, et = BEAMS[beam]
    ba = analysis(c, beam, npts=npts)
    r = ba.beam_results
    x = F(0)
    for j in range(len(Ls) + 1):
        got = ba.at(c.const(x))
        m, i = (r.vRes[j - 1], -2) if j else (r.vRes[0], 1)
        for a in ATTRS:
            c.eq(f"{a} at node {j}", got[a], getattr(m, a)[i])
        if j < len(Ls):
            x += Ls[j]
    c.eq("left end", ba.at(c.const(0))["D"], r.D[0])


def curve(c, beam, npts):
    """deflection curve: every station once, nothing closing the diagram"""
    Ls = BEAMS[beam][0]
    ba = analysis(c, beam, npts=npts)
    r = ba.beam_results
    x, d = r.deflection_curve()
    c.eq("stations", list(x), [c.const(v) for g in cuts(Ls, npts) for v in g])
    c.eq("deflections", list(d), [v for s in spans(r.results.D, len(Ls), npts) for v in s])
    for s in range(len(Ls)):
        c.eq(f"span {s} starts where its node is", d[s * (npts + 1)], r.D[2 * s])
    for s, m in enumerate(r.vRes):
        for q in "xMVRD":
            c.eq(f"{q} of member {s}", getattr(m, q), getattr(r.results, q)[s * (npts + 3):(s + 1) * (npts + 3)])
        c.eq(f"member {s} closes", [m.M[0], m.M[-1], m.V[0], m.V[-1]], 0)
        c.true(f"member {s} length", len(m.x) == npts + 3)


def filled(c, beam, npts):
    """an envelope that holds any values"""
    ba = analysis(c, beam, npts=npts, fixed=True)
    env = Envelopes([ba.beam_results])
    n = len(env.x)
    for a in EATTRS + ("Vco_Mmax", "Vco_Mmin", "Mco_Vmax", "Mco_Vmin"):
        setattr(env, a, np.array([c.real(f"{a}{i}", -9, 9) for i in range(n)]))
    return env


def read(text, delimiter):
    lines = text.split("\n")
    return lines[0], [[float(v) for v in ln.split(delimiter)] for ln in lines[1:] if ln]


def table(c, beam, npts, what):
    """exports hold the results, column by column"""
    Ls = BEAMS[beam][0]
    ba = None if what == "envelope" else analysis(c, beam, npts=npts)
    if what == "envelope":
        src = filled(c, beam, npts)
        cols = c.pick("cols", [None, ("Mmax",), ("Vmin", "Mmax"), ("Vco_Mmax", "Mco_Vmin")])
        kw = {} if cols is None else {"attrs": cols}
        names = ["x"] + list(cols or EATTRS)
        val = lambda n: getattr(src, n)
    else:
        src = c.pick("from", [ba, ba.beam_results])
        kw, names = {}, ["x", "M", "V", "R", "D"]
        val = lambda n: getattr(ba.beam_results.results, n)
    df = src.to_dataframe(**kw)
    c.true("columns", list(df.columns) == names)
    for n in names:
        c.eq(f"column {n}", list(df[n].values), list(val(n)))
    f = io.StringIO()
    back = src.to_csv(f, **kw)
    c.true("says where", back is f)
    head, rows = read(f.getvalue(), ",")
    c.true("header", head == ",".join(names))
    c.eq("table", rows, [list(v) for v in zip(*[list(val(n)) for n in names])])
    c.eq("to the last digit", [(a - b) * 10 ** 9 for r, t in zip(rows, zip(*[list(val(n)) for n in names])) for a, b in zip(r, t)], 0)
    f = io.StringIO()
    src.to_csv(f, delimiter=";", header="a;b", comments="%", **kw)
    head, rows = read(f.getvalue(), ";")
    c.true("header given", head == "%a;b")
    c.eq("table with another separator", rows, [list(v) for v in zip(*[list(val(n)) for n in names])])


def envelope(c, beam, npts):
    Ls = BEAMS[beam][0]
    env = filled(c, beam, npts)
    n = len(Ls)
    j = c.choice("cell", n * npts)
    g = cuts(Ls, npts)
    s, k = divmod(j, npts)
    x = c.real("t", 0, 1)
    if s > 0 and k == 0:
        c.assume(x > 0)
    q = c.const(g[s][k]) + x * c.const(g[s][k + 1] - g[s][k])
    got = env.at(q)
    c.true("what is given", sorted(got) == sorted(EATTRS))
    for a in EATTRS:
        v = spans(getattr(env, a), n, npts)[s]
        c.eq(f"{a} at x", got[a], v[k] * (1 - x) + v[k + 1] * x)
    a = c.pick("other", ["Vco_Mmax", "Mco_Vmin"])
    v = spans(getattr(env, a), n, npts)[s]
    c.eq(f"{a} at x", env.at(q, (a,))[a], v[k] * (1 - x) + v[k + 1] * x)


def perspan(c, beam, npts):
    Ls = BEAMS[beam][0]
    n = len(Ls)
    env = filled(c, beam, npts)
    for a in EATTRS + ("Vco_Mmax",):
        raw = [list(getattr(env, a)[i * (npts + 3):(i + 1) * (npts + 3)]) for i in range(n)]
        got = env.per_span(a, reduce="none")
        c.true(f"{a}: chunks", len(got) == n)
        for i in range(n):
            c.eq(f"{a}: chunk {i}", list(got[i]), raw[i])
        for red in ("auto", "max", "min"):
            r = env.per_span(a, reduce=red)
            low = red == "min" or (red == "auto" and a.endswith("min"))
            c.true(f"{a} {red}: one each", len(r) == n)
            for i in range(n):
                for v in raw[i]:
                    if low:
                        c.le(f"{a} {red}: bound {i}", r[i], v)
                    else:
                        c.le(f"{a} {red}: bound {i}", v, r[i])
                hit = False
                for v in raw[i]:
                    hit = (v == r[i]) | hit
                c.true(f"{a} {red}: attained {i}", hit)
    c.eq("default", list(env.per_span()), list(env.per_span("Mmax", "max")))
    for bad in ("mean", "", "Max", None):
        c.raises(f"refuses {bad!r}", ValueError, env.per_span, "Mmax", bad)


def uneven(c):
    """members with different numbers of stations (a shear point asked for on one of them)"""
    k = c.const
    s = c.choice("span with more", 3)
    x = k(F([1, 4, 9][s]) + F(1, 3))
    Ls = [3, 4, 5]
    ba = cba.BeamAnalysis([k(v) for v in Ls], [k(2)] * 3, rests("pppp"), [[1, 1, k(1)], [3, 2, k(2), k(2)]])
    ba.analyze(4)
    br = cba.BridgeAnalysis(ba, cba.Vehicle(np.array([]), np.array([10])))
    env = br.run_vehicle(3, shear_points=[x])
    for a in EATTRS:
        setattr(env, a, np.array([c.real(f"{a}{i}", -9, 9) for i in range(len(env.x))]))
    # each span begins and ends at its supports, closing stations included
    ends = [0]
    for L in Ls:
        ends.append(ends[-1] + L)
    groups, i = [], 0
    for g in range(3):
        a = i
        i += 2
        while not (bool(env.x[i] == k(ends[g + 1])) and bool(env.x[i + 1] == k(ends[g + 1]))):
            i += 1
        i += 2
        groups.append((a, i))
    c.true("all stations", i == len(env.x))
    c.true("one span has more", len({b - a for a, b in groups}) > 1)
    for a in EATTRS:
        got = env.per_span(a, reduce="none")
        c.true(f"{a}: chunks", len(got) == 3)
        for g, (u, v) in enumerate(groups):
            c.eq(f"{a}: span {g}", list(got[g]), list(getattr(env, a)[u:v]))


def before(c):
    """asked before there are results"""
    k = c.const
    ba = cba.BeamAnalysis([k(4)], [k(2)], [-1, 0, -1, 0], [[1, 1, c.real("w", -1, 1)]])
    c.true("no results", ba.beam_results is None and ba.at(k(1)) is None and ba.to_dataframe() is None and ba.to_csv("nowhere") is None)
    c.true("fine", ba.analyze() == 0)
    c.true("default stations", len(ba.beam_results.results.x) == 103)
    ba.analyze(2)
    c.true("too few stations are not taken", len(ba.beam_results.results.x) == 103)
    ba.analyze(5)
    c.true("as asked", len(ba.beam_results.results.x) == 8)
    ba.analyze()
    c.true("kept", len(ba.beam_results.results.x) == 8)


def configs(tier):
    out = []

    def add(tag, fn, **kw):
        out.append(dict(name=f"{fn.__name__}-{tag}", fn=fn, args=kw, cost=2, merge=fn is perspan))
    big = tier != "quick"
    for b in BEAMS:
        for n in (4, 5) + ((8, 11) if big else ()):
            add(f"{b}-{n}", at, beam=b, npts=n)
            add(f"{b}-{n}", joints, beam=b, npts=n)
            add(f"{b}-{n}", curve, beam=b, npts=n)
            for w in ("results", "envelope"):
                add(f"{b}-{n}-{w}", table, beam=b, npts=n, what=w)
        add(b, envelope, beam=b, npts=4)
        add(b, perspan, beam=b, npts=4)
    add("0", before)
    add("3", uneven)
    return out
