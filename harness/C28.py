"""crossings, influence lines, load cases, patterns, tendons and plastic redistribution come out the same in any units.

The same piece of work is done twice, with every length, force and what is made of them given in other units the second time;
each number must be the same but for its units."""
from fractions import Fraction as F
import numpy as np
import pycba as cba
from pycba import prestress as ps
from pycba.nonlinear import NonlinearBeamAnalysis
from harness.scen import rests

#            lengths, supports, types, further
BEAMS = {
    "one": ([6], "pp", [1], {}),
    "two": ([4, 2], "ppf", [1, 1], {}),
    "hinge": ([4, 4, 2], "fhpp", [2, 1, 1], {}),
    "spring": ([4, 2], "psf", [1, 1], {}),
    "shear": ([4, 2], "ppf", [1, 1], {"GAv": [5, None]}),
    "ground": ([4, 2], "hpp", [1, 1], {"kf": [1.25, None]}),
    "cant": ([4, 2], "ppx", [1, 1], {}),
}
SCALES = [(1000, 1000), (F(1, 1000), F(1, 1000)), (1, 10 ** 9), (1, F(1, 10 ** 9)), (10 ** 5, 1), (F(1, 10 ** 5), 1), (304, F(1, 10 ** 6))]
NPTS = 4


class World:
    def __init__(self, c, beam, v, l=None, f=None, GAv=True):
        self.c, self.v, self.l, self.f = c, v, l, f
        Ls, sup, et, more = BEAMS[beam]
        self.Ls, self.n = Ls, len(Ls)
        k = self.k
        self.L = [k(q, 1) for q in Ls]
        self.EI = [k(q, 2, 1) for q in (6, 5, 4)[:self.n]]
        self.R = []
        for j, r in enumerate(rests(sup.replace("x", "h"))):
            self.R.append((k(3, -1, 1) if j % 2 == 0 else k(7, 1, 1)) if r == "k" else r)
        self.et = et
        kw = {}
        if "GAv" in more:
            kw["GAv"] = [None if q is None else k(q, 0, 1) for q in more["GAv"]]
        if "kf" in more:
            kw["kf"] = [None if q is None else k(q, -2, 1) for q in more["kf"]]
        self.kw = kw

    def k(self, value, l=0, f=0):
        """a number given, in these units"""
        return self.unit(self.c.const(value), l, f)

    def unit(self, x, l=0, f=0):
        for e, s in ((l, self.l), (f, self.f)):
            if s is not None and e:
                if isinstance(s, (int, F)):
                    x = x * self.c.const(F(s) ** e)
                else:
                    for _ in range(abs(e)):
                        x = x * s if e > 0 else x / s
        return x

    def back(self, x, l=0, f=0):
        """a number found, in the first units"""
        return self.unit(x, -l, -f)

    def beam(self, LM=None):
        b = cba.BeamAnalysis(self.L, self.EI, self.R, LM, eletype=self.et, **self.kw)
        b.npts = NPTS
        return b

    def point(self, i, a, j=0):
        return [i, 2, self.unit(self.v[j], 0, 1), self.k(a, 1)]

    def udl(self, i, j=0):
        return [i, 1, self.unit(self.v[j], -1, 1)]

    def part(self, i, a, b, j=0):
        return [i, 3, self.unit(self.v[j], -1, 1), self.k(a, 1), self.k(b, 1)]


def effects(r, tag=""):
    q = r.results
    return [(f"{tag}M", q.M, (1, 1)), (f"{tag}V", q.V, (0, 1)), (f"{tag}D", q.D, (1, 0)), (f"{tag}rotation", q.R, (0, 0)), (f"{tag}x", q.x, (1, 0))]


def kinds(W):
    """what each reaction is: a force or a couple"""
    return [(j % 2, 1) for j, r in enumerate(W.R) if isinstance(r, int) and r == -1]


def bounds(W, e, tag=""):
    out = [(f"{tag}{q}", getattr(e, q), (1 if q[0] == "M" else 0, 1)) for q in ("Mmax", "Mmin", "Vmax", "Vmin")]
    for q in ("Rmax", "Rmin", "Rmaxval", "Rminval"):
        v = getattr(e, q)
        out += [(f"{tag}{q} how many", len(v), (0, 0))] + [(f"{tag}{q} {j}", v[j], d) for j, d in enumerate(kinds(W))]
    return out + [(f"{tag}x", e.x, (1, 0))]


# -- the pieces of work: lists of (what, numbers, (length, force))
def standing(W):
    br = cba.BridgeAnalysis(W.beam([W.udl(1, 1)]), cba.Vehicle(np.array([W.k(1, 1), W.k(F(3, 2), 1)]), np.array([W.unit(W.v[0], 0, 1), W.k(2, 0, 1), W.k(3, 0, 1)])))
    out = []
    for p in (F(1, 2), F(17, 5), sum(W.Ls) - F(1, 10), sum(W.Ls) + F(9, 10)):
        r = br.static_vehicle(W.k(p, 1))
        out += effects(r, f"at {p} ") + [(f"loads at {p}", [q[2] for q in br.ba.beam.loads], None)]
    r = br.static_vehicle(W.k(3, 1), shear_points=[W.k(F(5, 4), 1)])
    return [q for q in out if q[2] is not None] + effects(r, "shear point ")


def crossing(W):
    br = cba.BridgeAnalysis(W.beam([W.udl(1, 1)]), cba.Vehicle(np.array([W.k(1, 1)]), np.array([W.unit(W.v[0], 0, 1), W.k(2, 0, 1)])))
    e = br.run_vehicle(W.k(F(217, 100), 1))
    return bounds(W, e) + [("places", br.pos, (1, 0))]


def lane(W):
    br = cba.BridgeAnalysis(W.beam(), cba.Vehicle(np.array([W.k(1, 1)]), np.array([W.k(3, 0, 1), W.k(2, 0, 1)])))
    e = br.run_load_model(W.k(F(217, 100), 1), W.unit(W.v[0], -1, 1), clearances=(W.k(F(1, 2), 1), W.k(F(1, 4), 1)), shear_points=[W.k(3, 1)] if "kf" not in W.kw else None)
    return bounds(W, e) + [("places", br.pos, (1, 0))] + [w for i, r in enumerate(br.vResults) for w in effects(r, f"{i} ")[:2]]


def worst(W):
    br = cba.BridgeAnalysis(W.beam(), cba.Vehicle(np.array([W.k(1, 1)]), np.array([W.unit(W.v[0], 0, 1), W.k(F(23, 10), 0, 1)])))
    e = br.run_vehicle(W.k(F(217, 100), 1))
    cv = br.critical_values(e)
    out = []
    for q in ("Mmax", "Mmin", "Vmax", "Vmin"):
        d = (1 if q[0] == "M" else 0, 1)
        out += [(f"{q}", cv[q]["val"], d)]
        peaks = [getattr(r.results, q[0]) for r in br.vResults]
        peaks = [W.back(max(p) if q[1:] == "max" else min(p), *d) for p in peaks]
        top = W.back(cv[q]["val"], *d)
        # where and when is a matter of rounding for no effect at all, and for effects that differ by a hair
        if W.c.fork(abs(top) < F(1, 1000)):
            continue
        gaps = [abs(p - top) / abs(top) for p in peaks]
        if any(W.c.fork(g > F(1, 10 ** 7)) and W.c.fork(g < F(1, 1000)) for g in gaps):
            continue
        out += [(f"{q} positions", list(cv[q]["pos"]), (1, 0))]
        line = [W.back(v, *d) for v in getattr(e, q)]
        if all(not W.c.fork(abs(a - top) < abs(top) * F(1, 1000)) or i == int(np.argmax(line) if q[1:] == "max" else np.argmin(line)) for i, a in enumerate(line)):
            out += [(f"{q} at", cv[q]["at"], (1, 0))]
    out += [("supports", cv["nsup"], (0, 0))]
    for j, d in enumerate(kinds(W)):
        out += [(f"R{j}", [cv[f"Rmax{j}"]["val"], cv[f"Rmin{j}"]["val"]], d)]
    return out


def influence(W):
    il = cba.InfluenceLines(W.L, W.EI, W.R, eletype=W.et)
    il.ba.npts = NPTS
    il.create_ils(step=W.k(1, 1))
    out = [("places", il.pos, (1, 0))]
    for p in (1, 3):
        for q, d in (("M", (1, 0)), ("V", (0, 0))):
            a = il.get_il(W.k(p, 1), q)
            out += [(f"{q} at {p}", a[1], d), (f"{q} at {p} places", a[0], (1, 0))]
    out += [("reaction", il.get_il(W.L[0], "R")[1], (0, 0))]
    return out


def cases(W):
    b = W.beam()
    lc = cba.LoadCases(b)
    lc.add("a", [W.udl(1)])
    lc.add("b", [W.point(W.n, 1, 1)])
    lc.add_case("c", [W.part(1, F(1, 2), 2, 1)])
    lc.add("d", [])
    lc.add_segment_udl("d", W.k(F(3, 2), 1), W.k(min(sum(W.Ls), 5), 1), W.unit(W.v[1], -1, 1))
    x, B = lc.response_matrix("M")
    x2, B2 = lc.response_matrix("V")
    e = lc.envelope()
    r = lc.analyze_combination({"a": W.c.const(F(3, 2)), "d": W.c.const(F(-1, 2))}).beam_results
    k = [len(q.loads) for q in lc]
    return [("x", x, (1, 0)), ("M", B, (1, 1)), ("V", B2, (0, 1)), ("rows", k, (0, 0))] + bounds(W, e) + effects(r, "combined ")


def target(W):
    b = W.beam()
    lc = cba.make_patterned_udl(b, W.unit(W.v[0], -1, 1), n_segments=2)
    m = lc.target_combination("t", W.k(1, 1), sense="max", response="M")
    fs = m.factor_vector(lc)
    r = m.analyze(lc).beam_results
    return [("factors", list(fs), (0, 0))] + effects(r)


def patterns(W):
    lp = cba.LoadPattern(W.beam())
    lp.set_dead_loads([W.udl(i + 1) for i in range(W.n)], W.c.const(F(5, 4)), W.c.const(1))
    lp.set_live_loads([W.point(1, 1, 1), W.part(W.n, F(1, 2), 1, 1)], W.c.const(F(3, 2)), W.c.const(0))
    return bounds(W, lp.analyze())


def tendon(W):
    k = W.k
    s = lambda q: k(F(q), 1)  # shallow: the curvature counts even where it is a small number
    p = {1: [ps.Parabola(s(0), s(F(1, 50)), s(F(-1, 200)))],
         2: [ps.CompoundParabola(s(0), s(F(1, 50)), s(F(-1, 100)), s(F(1, 2)), s(F(3, 4)), s(F(3, 2))), ps.Harp(s(F(-1, 100)), s(F(1, 50)), s(0), s(F(1, 2)))],
         3: [ps.Parabola(s(0), s(F(1, 50)), s(F(-1, 100))), ps.Harp(s(F(-1, 100)), s(F(1, 100)), s(F(-1, 200)), s(F(1, 2))), None]}[W.n]
    LM = ps.equivalent_loads(W.beam(), W.unit(W.v[0], 0, 1), p)
    out = [("rows", [[q[0], q[1], len(q)] for q in LM], (0, 0))]
    for i, q in enumerate(LM):
        d = {1: [(-1, 1)], 2: [(0, 1), (1, 0)], 3: [(-1, 1), (1, 0), (1, 0)], 4: [(1, 1), (1, 0)], 5: [(-1, 1), (-1, 1), (1, 0), (1, 0)]}[q[1]]
        for j, (val, dim) in enumerate(zip(q[2:], d)):
            out.append((f"row {i} {j}", val, dim))
    b = W.beam(LM)
    b.analyze()
    return out + effects(b.beam_results)


def read(W):
    b = W.beam([W.udl(1), W.point(W.n, 1, 1)])
    b.analyze()
    e = cba.Envelopes.from_beam_analysis(b)
    out = []
    for p in (0, F(1, 3), 1, F(7, 2), 4, F(19, 4), sum(W.Ls)):
        if p > sum(W.Ls):
            continue
        a = b.at(W.k(p, 1))
        out += [(f"{q} at {p}", a[q], d) for q, d in (("M", (1, 1)), ("V", (0, 1)), ("R", (0, 0)), ("D", (1, 0)))]
        g = e.at(W.k(p, 1))
        out += [(f"{q} at {p}", g[q], (1 if q[0] == "M" else 0, 1)) for q in ("Mmax", "Mmin", "Vmax", "Vmin")]
    return out


def collapse(W):
    """Clough steps of a beam loaded to collapse"""
    k = W.k
    nb = NonlinearBeamAnalysis(W.L, W.EI, W.R, k(10, 1, 1), k(9, 1, 1), W.c.const(F(1, 4)), k(1, 1))
    r = nb.analyze([W.point(1, F(12, 5) if W.n == 1 else 2)], lambda_max=W.c.const(5))
    out = [("factor", r.collapse_lambda, (0, 0)), ("collapsed", int(bool(r.collapsed)), (0, 0)), ("M", r.final_moments, (1, 1)), ("R", r.final_R, (0, 0)),
           ("hinges", [h.location for h in r.hinge_events], (1, 0)), ("when", [h.load_factor for h in r.hinge_events], (0, 0))]
    return out


OPS = {f.__name__: f for f in (standing, crossing, lane, worst, influence, cases, target, patterns, tendon, read, collapse)}


def same(c, beam, what, l, f):
    box = {"worst": (1, 4), "collapse": (15, 20)}.get(what, (1, 5))
    v = [c.real(f"v{i}", *box) for i in range(1 if what in ("worst", "collapse") else 2)]
    if l == "any":
        l, f = c.real("lam", 0.01, 100), c.real("mu", 0.01, 100)
    A = World(c, beam, v)
    B = World(c, beam, v, l, f)
    a, b = OPS[what](A), OPS[what](B)
    c.true("the same answers", [q[0] for q in a] == [q[0] for q in b])
    for i, ((lab, x, d), (_, y, _)) in enumerate(zip(a, b)):
        x, y = np.asarray(x), np.asarray(y)
        c.true(f"{i} {lab}: as many", x.shape == y.shape)
        if x.shape == y.shape and x.size:
            if d == (0, 0):
                c.eq(f"{i} {lab}", y, x)
            else:
                c.eq(f"{i} {lab}", np.array([B.back(q, *d) for q in y.ravel()]), x.ravel())


NOT = {"ground": {"worst", "influence", "tendon", "collapse", "read"}, "hinge": {"collapse"}, "spring": {"collapse"}, "shear": {"influence", "collapse"}, "cant": {"collapse", "worst"},
       "one": set(), "two": set()}


def configs(tier):
    out = []
    for i, what in enumerate(OPS):
        for b in BEAMS:
            if what in NOT[b]:
                continue
            slow = b == "ground" and what in ("crossing", "lane", "cases")
            for j, (l, f) in enumerate(SCALES):
                if tier == "quick" and slow and j not in (0, 3):
                    continue
                if tier == "thorough" or j < 4 or (i + j) % 3 == 0:
                    out.append(dict(name=f"{what}-{b}-{j}", fn=same, args=dict(beam=b, what=what, l=l, f=f), cost=5 if slow else 1, budget=(120 if tier == "quick" else 600), merge=what not in ("worst", "collapse", "target")))
            if b in ("one", "two", "cant"):
                out.append(dict(name=f"{what}-{b}-any", fn=same, args=dict(beam=b, what=what, l="any", f="any"), cost=2, merge=what not in ("worst", "collapse", "target")))
    return out
