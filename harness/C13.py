"""envelopes bound every analysis, are attained, and carry the coincident effect of the analysis that governs"""
import numpy as np
import pycba as cba
from pycba.results import Envelopes
from harness.scen import rests

FX = ("Mmax", "Mmin", "Vmax", "Vmin")
CO = {"Mmax": "Vco_Mmax", "Mmin": "Vco_Mmin", "Vmax": "Mco_Vmax", "Vmin": "Mco_Vmin"}
BEAMS = {
    "two": ([3.0, 4.0], [2.0, 3.0], "ppp"),
    "one": ([4.0], [2.0], "fp"),
    "cant": ([3.0, 2.0], [2.0, 3.0], "fph"),
}


def results(c, beam, n, tag="", npts=4, loads=None):
    Ls, EI, sup = BEAMS[beam]
    out = []
    for i in range(n):
        rows = []
        for s in range(len(Ls)):
            w = c.real(f"w{tag}{i}{s}", -4, 4)
            rows.append([s + 1, 1, w] if (i + s) % 2 else [s + 1, 2, w, 1.3])
        ba = cba.BeamAnalysis(Ls, EI, rests(sup), rows)
        ba.analyze(npts)
        out.append(ba.beam_results)
    return out


def anyof(conds):
    r = False
    for q in conds:
        r = q | r
    return r


def both(a, b):
    return a & b


def check(c, env, groups, tag=""):
    """env is the envelope of all results of all groups (and of the unloaded state)"""
    res = [r for g in groups for r in g]
    n = len(res[0].results.x)
    c.eq(f"{tag}stations", env.x, res[0].results.x)
    for k in range(n):
        for f in FX:
            v, o = getattr(env, f)[k], getattr(env, CO[f])[k]
            own = [(r.results.M if f[0] == "M" else r.results.V)[k] for r in res] + [0]
            oth = [(r.results.V if f[0] == "M" else r.results.M)[k] for r in res] + [0]
            for i, q in enumerate(own):
                if f.endswith("max"):
                    c.le(f"{tag}{f} at {k} is no less than analysis {i}", q, v)
                else:
                    c.le(f"{tag}{f} at {k} is no more than analysis {i}", v, q)
            c.true(f"{tag}{f} at {k} comes with its coincident value", anyof([both(q == v, t == o) for q, t in zip(own, oth)]))
    for j in range(len(res[0].R)):
        own = [r.R[j] for r in res] + [0]
        hi, lo = env.Rmaxval[j], env.Rminval[j]
        for i, q in enumerate(own):
            c.le(f"{tag}largest reaction {j} is no less than analysis {i}", q, hi)
            c.le(f"{tag}smallest reaction {j} is no more than analysis {i}", lo, q)
        c.true(f"{tag}largest reaction {j} occurs", anyof([q == hi for q in own]))
        c.true(f"{tag}smallest reaction {j} occurs", anyof([q == lo for q in own]))


def history(c, env, res, tag=""):
    for i, r in enumerate(res):
        for j in range(len(r.R)):
            c.eq(f"{tag}reaction {j} in analysis {i}", env.Rmax[j, i] + env.Rmin[j, i], r.R[j])
            c.le(f"{tag}positive part {j} {i}", 0, env.Rmax[j, i])
            c.le(f"{tag}negative part {j} {i}", env.Rmin[j, i], 0)
            c.true(f"{tag}one of them zero {j} {i}", (env.Rmax[j, i] == 0) | (env.Rmin[j, i] == 0))


def single(c, beam, n):
    res = results(c, beam, n)
    env = Envelopes(res)
    check(c, env, [res])
    history(c, env, res)


def same(c, label, a, b):
    """compared as differences: where the governing value is zero, rounding decides which coincident value is kept"""
    c.eq(label, np.array(a) - np.array(b), 0)


def snap(e):
    return {k: np.array(v) for k, v in vars(e).items() if isinstance(v, np.ndarray)}


def unchanged(c, label, e, s):
    for k, v in s.items():
        same(c, f"{label} {k} unchanged", getattr(e, k), v)


def merged(c, beam, na, nb, how):
    A, B = results(c, beam, na, "a"), results(c, beam, nb, "b")
    a, b = Envelopes(A), Envelopes(B)
    sa, sb = snap(a), snap(b)
    if how == "augment":
        e = a
        e.augment(b)
    elif how == "or":
        e = a | b
    else:
        e = Envelopes.combine([a, b] if how == "combine" else iter([b, a]), "envelope")
    check(c, e, [A, B])
    if how != "augment":
        unchanged(c, "first", a, sa)
    unchanged(c, "second", b, sb)


def summed(c, beam, na, nb, how):
    A, B = results(c, beam, na, "a"), results(c, beam, nb, "b")
    a, b = Envelopes(A), Envelopes(B)
    sa, sb = snap(a), snap(b)
    if how == "sum":
        e = Envelopes(A)
        e.sum(b)
    elif how == "add":
        e = a + b
    else:
        e = Envelopes.combine([b, a], mode="sum")
    for f in FX + tuple(CO.values()) + ("Rmaxval", "Rminval"):
        same(c, f"{f} of the sum", getattr(e, f), sa[f] + sb[f])
    if na == nb:
        same(c, "reaction history", e.Rmax, sa["Rmax"] + sb["Rmax"])
        same(c, "negative reaction history", e.Rmin, sa["Rmin"] + sb["Rmin"])
    unchanged(c, "first", a, sa)
    unchanged(c, "second", b, sb)


def extras(c, beam):
    res = results(c, beam, 2)
    env = Envelopes(res)
    s = snap(env)
    z = Envelopes.zero_like(env)
    for k in FX + tuple(CO.values()) + ("Rmax", "Rmin", "Rmaxval", "Rminval"):
        c.eq(f"zero {k}", getattr(z, k), 0 * s[k])
    z.augment(env)
    unchanged(c, "original", env, s)
    for k in FX + tuple(CO.values()) + ("Rmaxval", "Rminval"):
        same(c, f"nothing but {k}", getattr(Envelopes.combine([env]), k), s[k])
        same(c, f"nothing added to {k}", getattr(Envelopes.combine([env], mode="sum"), k), s[k])
        same(c, f"twice {k}", getattr(env | env, k), s[k])
    Ls = BEAMS[beam][0]
    m = len(env.x) // len(Ls)
    for a in FX:
        ch = env.per_span(a, "none")
        for i in range(len(Ls)):
            c.eq(f"{a} of span {i}", ch[i], getattr(env, a)[m * i:m * (i + 1)])
        for red in ("auto", "max", "min"):
            v = env.per_span(a, red)
            lo = red == "min" or (red == "auto" and a.endswith("min"))
            for i in range(len(Ls)):
                for k in range(m * i, m * (i + 1)):
                    q = getattr(env, a)[k]
                    c.le(f"{red} {a} of span {i} bounds station {k}", *((v[i], q) if lo else (q, v[i])))
                c.true(f"{red} {a} of span {i} occurs", anyof([v[i] == getattr(env, a)[k] for k in range(m * i, m * (i + 1))]))
    ba = cba.BeamAnalysis(*BEAMS[beam][:2], rests(BEAMS[beam][2]), [[1, 1, c.real("w", -4, 4)]])
    c.raises("nothing analysed yet", ValueError, Envelopes.from_beam_analysis, ba)
    ba.analyze(4)
    one = Envelopes.from_beam_analysis(ba)
    c.eq("one analysis", one.Mmax + one.Mmin, ba.beam_results.results.M)
    c.eq("one analysis shear", one.Vmax + one.Vmin, ba.beam_results.results.V)
    other = cba.BeamAnalysis(*BEAMS[beam][:2], rests(BEAMS[beam][2]), [[1, 1, 1.0]])
    other.analyze(5)
    o = Envelopes.from_beam_analysis(other)
    c.raises("different stations", ValueError, one.augment, o)
    c.raises("different stations summed", ValueError, one.sum, o)
    c.raises("different stations merged", ValueError, lambda: one | o)
    c.raises("nothing to merge", ValueError, Envelopes.combine, [])
    c.raises("unknown mode", ValueError, Envelopes.combine, [one], "max")
    c.raises("unknown reduction", ValueError, one.per_span, "Mmax", "mean")


def three(c, beam):
    """merging does not depend on order or grouping"""
    A, B, C = results(c, beam, 1, "a"), results(c, beam, 2, "b"), results(c, beam, 1, "c")
    a, b, d = Envelopes(A), Envelopes(B), Envelopes(C)
    check(c, Envelopes.combine([a, b, d]), [A, B, C])
    e1, e2 = (a | b) | d, d | (b | a)
    f1, f2 = (a + b) + d, d + (b + a)
    for k in FX + ("Rmaxval", "Rminval"):
        c.eq(f"{k} in any order", getattr(e1, k), getattr(e2, k))
        c.eq(f"{k} summed in any order", getattr(f1, k), getattr(f2, k))


def configs(tier):
    out = []

    def add(fn, name, **kw):
        out.append(dict(name=f"{fn.__name__}-{name}", fn=fn, args=kw, cost=kw.get("cost", 3), merge=True))
    for b in BEAMS:
        for n in (1, 2, 3):
            add(single, f"{b}-{n}", beam=b, n=n)
        for how in ("augment", "or", "combine", "swap"):
            add(merged, f"{b}-{how}", beam=b, na=1, nb=1, how=how)
        for how in ("sum", "add", "combine"):
            add(summed, f"{b}-{how}", beam=b, na=1, nb=2, how=how)
        add(summed, f"{b}-same", beam=b, na=2, nb=2, how="sum")
        add(extras, b, beam=b)
    add(merged, "uneven", beam="two", na=2, nb=1, how="augment")
    add(merged, "uneven2", beam="one", na=1, nb=2, how="or")
    add(three, "one", beam="one")
    if tier == "thorough":
        for b in BEAMS:
            for n in (4, 5):
                add(single, f"t-{b}-{n}", beam=b, n=n)
            for how in ("augment", "or", "combine", "swap"):
                add(merged, f"t-{b}-{how}", beam=b, na=2, nb=2, how=how)
            add(three, f"t-{b}", beam=b)
    return out
