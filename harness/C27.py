"""analyses do not disturb one another, the results handed out, or the data given to them.

A piece of work (Ops) is done first on the very objects and lists a second one then uses; the second must answer as it does
alone on objects of its own, the first one's answer and the data given must be as they were."""
from fractions import Fraction as F
import numpy as np
import pycba as cba
from harness.scen import rests

#            lengths, supports, types, further
BEAMS = {
    "two": ([4, 2], "ppp", [1, 1], {}),
    "hinge": ([4, 4, 2], "fhpp", [2, 1, 1], {}),
    "spring": ([4, 2], "psf", [1, 1], {}),
    "settle": ([4, 2], "fpp", [1, 1], {"D": 2}),
    "shear": ([4, 2], "ppf", [1, 1], {"GAv": [5, None]}),
    "ground": ([4, 2], "hpp", [1, 1], {"kf": [F(3, 2), None]}),
    "vary": ([4, 4], "ppp", [1, 1], {"section": True}),
}
NPTS = 4


class Given:
    """the data of one user: made anew each time, with the same numbers"""

    def __init__(self, c, beam):
        Ls, sup, et, more = BEAMS[beam]
        k = c.const
        n = len(Ls)
        self.c, self.n, self.beam = c, n, beam
        self.L = [k(v) for v in Ls]
        self.EI = [k(v) for v in (6, 5, 4)[:n]]
        if "section" in more:
            s = cba.SectionEI()
            s.add_segment("const", [k(0), k(1)], k(6))
            s.add_segment("const", [k(1), k(4)], k(3))
            self.EI = [s, s]
        self.R = [k(3) if v == "k" else v for v in rests(sup)]
        self.et = list(et)
        v = [c.real(f"v{i}", 1, 5) for i in range(4)]
        self.v = v
        ground = "kf" in more
        self.LM = [[1, 2, v[0], k(1)], [n, 1, v[1]], [1, 3, v[2], k(F(1, 2)), k(F(3, 2))]] + ([] if ground else [[n, 4, v[3], k(F(3, 2))]])
        self.more = [[1, 1, v[3]], [n, 2, v[0], k(F(1, 2))]]
        self.D0 = [None] * len(self.R)
        if "D" in more:
            self.D0[more["D"]] = k(F(-1, 4))
        self.D = [k(F(1, 8)) if r == -1 and j == 2 * n else None for j, r in enumerate(self.R)]
        self.R2 = [-1 if j == 1 else r for j, r in enumerate(self.R)]
        self.R3 = [0] * len(self.R)
        self.GAv = [None if q is None else k(q) for q in more["GAv"]] if "GAv" in more else None
        self.kf = [None if q is None else k(q) for q in more["kf"]] if "kf" in more else None
        self.spac, self.ws = np.array([k(1)]), np.array([v[0], v[1]])
        self.factors = {"a": v[2], "b": v[3]}
        self.pts = [k(1)]
        self.veh = cba.Vehicle(self.spac, self.ws)
        self.ba = self.make(self.LM)
        self.cases = cba.LoadCases(self.ba)
        self.cases.add("a", self.LM[:1])
        self.cases.add("b", self.more[:1])
        self.bridge = cba.BridgeAnalysis(self.make(self.LM[:1]), self.veh)

    def make(self, LM=None):
        kw = {q: getattr(self, q) for q in ("GAv", "kf") if getattr(self, q) is not None}
        if "D" in BEAMS[self.beam][3]:
            kw["D"] = self.D0
        b = cba.BeamAnalysis(self.L, self.EI, self.R, LM, eletype=self.et, **kw)
        b.npts = NPTS
        return b

    def data(self):
        """what was given, by value"""
        out = {q: copied(getattr(self, q)) for q in ("L", "EI", "R", "et", "LM", "more", "D0", "D", "R2", "R3", "GAv", "kf", "spac", "ws", "factors", "pts")}
        out["vehicle"] = copied([self.veh.axs, self.veh.axw, self.veh.axle_coords, self.veh.L, self.veh.W])
        out["cases"] = copied([[q.name, q.loads] for q in self.cases])
        return out


def copied(v):
    if isinstance(v, np.ndarray):
        return np.array(v)
    if isinstance(v, (list, tuple)):
        return [copied(q) for q in v]
    if isinstance(v, dict):
        return {q: copied(w) for q, w in v.items()}
    if isinstance(v, cba.SectionEI):
        return [np.array(v.breakpoints), v.length, [v(q) for q in v.breakpoints], v.is_constant]
    return v


def flat(v, at=""):
    if isinstance(v, np.ndarray):
        if v.dtype == object and v.ndim == 1 and any(isinstance(q, (list, np.ndarray)) or q is None for q in v):
            yield from flat(list(v), at)
        else:
            yield at, v
    elif isinstance(v, dict):
        for q in v:
            yield from flat(v[q], f"{at} {q}")
    elif isinstance(v, (list, tuple)):
        if v and all(not isinstance(q, (list, tuple, dict, str, np.ndarray, bool)) and q is not None for q in v):
            yield at, np.array(list(v))
        else:
            yield at + " count", len(v)
            for i, q in enumerate(v):
                yield from flat(q, f"{at} {i}")
    else:
        yield at, v


def equal(c, lab, a, b):
    a, b = list(flat(a)), list(flat(b))
    c.true(f"{lab}: the same parts", [q for q, _ in a] == [q for q, _ in b])
    for (q, x), (_, y) in zip(a, b):
        if x is None or y is None or isinstance(x, (str, bool)) or isinstance(y, (str, bool)):
            c.true(f"{lab}:{q}", (x is None and y is None) or (x is not None and y is not None and x == y))
        else:
            c.true(f"{lab}:{q} size", np.shape(x) == np.shape(y))
            c.eq(f"{lab}:{q}", x, y)


class Answer:
    """what was handed out: read when called"""

    def __init__(self, read):
        self.read = read

    def __call__(self):
        return copied(self.read())


def results(r):
    def read():
        return copied({"M": r.results.M, "V": r.results.V, "R": r.results.R, "D": r.results.D, "x": r.results.x, "reactions": r.R, "springs": r.Rs, "displacements": r.D,
                "first span": [getattr(r.vRes[0], q) for q in "xMVRD"]})
    return read


def several(rs):
    rs = list(rs)
    return lambda: [results(r)() for r in rs]


def envelope(e):
    return lambda: copied({q: getattr(e, q) for q in ("x", "Mmax", "Mmin", "Vmax", "Vmin", "Rmax", "Rmin", "Rmaxval", "Rminval")
                           if hasattr(e, q)})


def coincident(e):
    return {q: np.array(getattr(e, q)) for q in ("Vco_Mmax", "Vco_Mmin", "Mco_Vmax", "Mco_Vmin")}


# -- the pieces of work; each says what it needs of the objects it is given
def loads(c, S):
    S.ba.set_loads(S.LM)
    S.ba.analyze()
    return Answer(results(S.ba.beam_results))


def added(c, S):
    S.ba.set_loads(S.LM)
    S.ba.add_udl(1, S.v[0])
    S.ba.add_pl(S.n, S.v[1], c.const(1))
    S.ba.analyze()
    return Answer(results(S.ba.beam_results))


def own(c, S):
    b = S.make(S.LM)
    b.add_udl(1, S.v[0])
    if S.kf is None:
        b.add_ml(S.n, S.v[1], c.const(1))
        b.add_trap(1, S.v[2], S.v[0])
    b.add_pudl(1, S.v[2], c.const(1), c.const(F(1, 2)))
    b.analyze()
    return Answer(results(b.beam_results))


def settled(c, S):
    b = S.ba
    b.set_loads(S.LM)
    b.beam.prescribed_displacements = S.D
    b.analyze()
    b.beam.prescribed_displacements = S.D0
    return Answer(results(b.beam_results))


def fixed(c, S):
    b = S.ba
    b.set_loads(S.LM)
    b.beam.restraints = S.R2
    b.analyze()
    b.beam.restraints = S.R
    return Answer(results(b.beam_results))


def unstable(c, S):
    b = S.ba
    b.set_loads(S.LM)
    if "kf" in BEAMS[S.beam][3]:
        return Answer(lambda: None)
    b.beam.restraints = S.R3
    c.raises("a beam without supports", ValueError, b.analyze)
    b.beam.restraints = S.R
    return Answer(lambda: None)


def influence(c, S):
    il = cba.InfluenceLines(S.L, S.EI, S.R, eletype=S.et)
    il.ba.npts = NPTS
    il.create_ils(step=c.const(2))
    out = [il.get_il(c.const(1), "M"), il.get_il(c.const(3), "V"), il.get_il(S.L[0], "R")]
    return Answer(lambda: {"lines": [list(q) for q in out], "positions": list(il.pos), "results": several(il.vResults)()})


def standing(c, S):
    r, LM = S.bridge.static_vehicle(c.const(3)), copied(S.bridge.ba.beam.loads)
    return Answer(lambda: [results(r)(), LM])


def crossing(c, S):
    e = S.bridge.run_vehicle(c.const(2), pos_start=c.const(1), pos_end=c.const(3))
    rs, pos = S.bridge.vResults, S.bridge.pos
    return Answer(lambda: {"each": several(rs)(), "envelope": envelope(e)(), "places": list(pos)})


def lane(c, S):
    e = S.bridge.run_load_model(c.const(2), S.v[2], clearances=(c.const(F(1, 2)), c.const(F(1, 2))), pos_start=c.const(1), pos_end=c.const(3), shear_points=S.pts)
    rs = S.bridge.vResults
    return Answer(lambda: {"each": several(rs)(), "x": e.x})


def turned(c, S):
    back = S.veh.reverse(in_place=False)
    b = cba.BridgeAnalysis(S.bridge.ba, back)
    r = b.static_vehicle(c.const(3))
    train = cba.make_train([S.veh, back, S.veh], np.array([c.const(2)]))
    S.veh.reverse()
    r2 = S.bridge.static_vehicle(c.const(3))
    S.veh.reverse()
    return Answer(lambda: [results(r)(), results(r2)(), train.axle_coords, train.axw])


def cases(c, S):
    x, B = S.cases.response_matrix("M")
    m = cba.build_pycba_model(S.ba, S.cases[1])
    m.analyze()
    return Answer(lambda: [x, B, results(m.beam_results)()])


def combined(c, S):
    m = S.cases.analyze_combination(S.factors)
    LM = S.cases.combined_loads(S.factors)
    return Answer(lambda: [results(m.beam_results)(), LM])


def spans(c, S):
    lc = cba.LoadCases(S.ba)
    lc.add_span_udl(S.v[0])
    lc.append(S.cases[0])
    lc.add_pl("a", 1, S.v[1], c.const(2))
    e = lc.envelope()
    rs = e.vResults
    return Answer(lambda: {"loads": [q.loads for q in lc], "each": several(rs)()})


def patterns(c, S):
    lp = cba.LoadPattern(S.ba)
    lp.set_dead_loads(S.LM, c.const(F(5, 4)), c.const(1))
    lp.set_live_loads(S.more, c.const(F(3, 2)), c.const(0))
    out = lp.to_LM()
    e = lp.analyze()
    rs = e.vResults
    return Answer(lambda: {"loads": out, "each": several(rs)()})


def envelopes(c, S):
    out = []
    for LM in (S.LM, S.more):
        S.ba.set_loads(LM)
        S.ba.analyze()
        out.append(S.ba.beam_results)
    e, f = cba.Envelopes(out), cba.Envelopes(out[:1])
    z = cba.Envelopes.zero_like(f)
    z.augment(e)
    z.sum(f)
    return Answer(lambda: [several(out)(), envelope(e)(), envelope(f)(), envelope(z)()])


def tendon(c, S):
    from pycba import prestress as ps
    if not hasattr(S, "profiles"):
        k = c.const
        S.profiles = [ps.Parabola(k(0), k(F(1, 2)), k(F(-1, 4)))] + [None] * (S.n - 1)
    LM = ps.equivalent_loads(S.ba, S.v[0], S.profiles)
    p = S.profiles[0]
    return Answer(lambda: {"loads": LM, "profile": [getattr(p, q) for q in sorted(vars(p)) if not q.startswith("_")]})


def vibration(c, S):
    c.option("EIGH_MODES", 1)
    m = [c.const(2)] * S.n
    r = S.ba.modal(m, n_modes=1, nseg=1)
    return Answer(lambda: [r.x, len(r.omega)])


def redistribution(c, S):
    from pycba.nonlinear import NonlinearBeamAnalysis
    nb = NonlinearBeamAnalysis(S.L, S.EI, S.R, c.const(900), None, c.const(F(1, 4)), c.const(2))
    LM = [[1, 1, S.v[0]], [S.n, 2, S.v[1], c.const(2)]]
    r = nb.analyze(LM, lambda_max=c.const(F(1, 5)))
    return Answer(lambda: [LM, r.final_moments, r.final_R, r.final_displacements])


def pictures(c, S):
    c.record()
    S.ba.set_loads(S.LM)
    S.ba.analyze()
    S.ba.plot_sfd()
    S.ba.plot_dsd()
    S.ba.plot_bmd()
    S.ba.plot_beam()
    S.ba.beam.plot()
    tex = S.ba.beam.to_tikz()
    r, LM = S.ba.beam_results, copied(S.ba.beam.loads)
    return Answer(lambda: [results(r)(), tex.count("\\load"), LM])


def readings(c, S):
    S.ba.set_loads(S.LM)
    S.ba.analyze()
    r = S.ba.beam_results
    a = S.ba.at(c.const(F(7, 3)))
    d = S.ba.beam_results.deflection_curve()
    f = S.ba.to_dataframe()
    return Answer(lambda: [{q: a[q] for q in a}, list(d), {q: np.array(f[q].to_numpy()) for q in ("x", "M", "V")}, results(r)()])


OPS = [loads, added, own, settled, fixed, unstable, influence, standing, crossing, lane, turned, cases, combined, spans, patterns, envelopes, tendon, vibration, redistribution,
       pictures, readings]
NAMED = {f.__name__: f for f in OPS}
NOT = {"hinge": {"vibration", "redistribution"}, "spring": set(), "settle": {"vibration", "redistribution", "influence"},
       "shear": {"vibration", "redistribution", "influence"}, "ground": {"vibration", "redistribution", "influence", "pictures", "lane", "own", "fixed"},
       "vary": {"vibration", "redistribution", "pictures", "patterns", "lane", "influence", "envelopes", "spans", "crossing", "turned", "readings"}}


def pair(c, beam, first, then):
    S = Given(c, beam)
    was = S.data()
    a = NAMED[first](c, S)
    kept = a()
    then_ = [then] if isinstance(then, str) else then
    for t in then_:
        b = NAMED[t](c, S)
        equal(c, f"{t} after {first}", b(), NAMED[t](c, Given(c, beam))())
        equal(c, f"answer of {first} after {t}", a(), kept)
    now = S.data()
    for q in was:
        equal(c, f"given: {q}", now[q], was[q])


def interleaved(c, beam):
    """two beams of the same data, loaded and analysed by turns"""
    S = Given(c, beam)
    was = S.data()
    a, b = S.make(S.LM), S.make(S.LM)
    d = S.make()
    d.set_loads(S.LM)
    k = c.const
    want = []
    for q in (a, b, d):
        q.analyze()
    first = [results(q.beam_results)() for q in (a, b, d)]
    a.add_udl(1, S.v[0])
    b.add_pl(S.n, S.v[1], k(1))
    d.add_pudl(1, S.v[2], k(1), k(1))
    held = [q.beam_results for q in (a, b, d)]
    for q in (d, a, b):
        q.analyze()
    for q, row in ((a, [1, 1, S.v[0]]), (b, [S.n, 2, S.v[1], k(1)]), (d, [1, 3, S.v[2], k(1), k(1)])):
        T = Given(c, beam)
        w = T.make(T.LM + [row])
        w.analyze()
        want.append(results(w.beam_results)())
    for i, q in enumerate((a, b, d)):
        equal(c, f"beam {i}", results(q.beam_results)(), want[i])
        equal(c, f"beam {i} before", results(held[i])(), first[i])
        q.set_loads(S.LM)
        q.analyze()
        equal(c, f"beam {i} loads replaced", results(q.beam_results)(), first[i])
    now = S.data()
    for q in was:
        equal(c, f"given: {q}", now[q], was[q])


def late(c, beam):
    """loads put on the deck count with the vehicle from then on, whether it has crossed before or not"""
    k = c.const
    row = lambda S: (S.n, S.v[3], k(F(1, 2)))
    S = Given(c, beam)
    S.bridge.ba.add_pl(*row(S))
    want = results(S.bridge.static_vehicle(k(3)))()
    T = Given(c, beam)
    plain = results(T.bridge.static_vehicle(k(3)))()
    T.bridge.ba.add_pl(*row(T))
    equal(c, "after a crossing", results(T.bridge.static_vehicle(k(3)))(), want)
    e = T.bridge.run_load_model(k(2), k(0), pos_start=k(3), pos_end=k(3))
    equal(c, "in a lane run", results(e.vResults[0])(), want)
    T.bridge.ba.set_loads(T.LM[:1])
    T.bridge.set_bridge(T.bridge.ba)
    equal(c, "bridge set anew", results(T.bridge.static_vehicle(k(3)))(), plain)
    U = Given(c, beam)
    m = [U.LM[0], [U.n, 2, U.v[3], k(F(1, 2))]]
    b = cba.BridgeAnalysis(U.make(m), U.veh)
    equal(c, "from the start", results(b.static_vehicle(k(3)))(), want)


def derived(c, beam, how):
    """envelopes made of others: those stay as they were, before and after the new ones are added to"""
    S = Given(c, beam)
    rs = []
    for LM in (S.LM, S.more, S.LM[:1]):
        S.ba.set_loads(LM)
        S.ba.analyze()
        rs.append(S.ba.beam_results)
    E = cba.Envelopes
    e, f = E(rs[:2]), E(rs[1:])
    was = [envelope(q)() for q in (e, f)]
    co = [coincident(q) for q in (e, f)]
    held = [results(q)() for q in rs]
    made = {"zero": lambda: E.zero_like(e), "combine": lambda: E.combine([e, f]), "add up": lambda: E.combine([e, f], mode="sum"), "or": lambda: e | f, "plus": lambda: e + f,
            "one": lambda: E.combine([e]), "from": lambda: E.from_beam_analysis(S.ba)}[how]
    g = made()
    got = envelope(g)()
    for q, w, n in ((e, was[0], "first"), (f, was[1], "second")):
        equal(c, f"{n} after {how}", envelope(q)(), w)
    h = made()
    h.augment(f)
    h.sum(e)
    for i in range(len(h.Rmax)):
        h.Rmax[i, 0] = h.Rmax[i, 0] + 1
    h.Mmax[0] = h.Mmax[0] + 1
    for q, w, n in ((e, was[0], "first"), (f, was[1], "second"), (g, got, "made before")):
        equal(c, f"{n} after more", envelope(q)(), w)
    for q, w, n in ((e, co[0], "first"), (f, co[1], "second")):
        for v in w:         # as differences: which place goes with nothing is for rounding to decide
            c.eq(f"{n}: {v}", getattr(q, v) - w[v], 0)
    for i, q in enumerate(rs):
        equal(c, f"results {i}", results(q)(), held[i])


def configs(tier):
    out = []
    for i, how in enumerate(("zero", "combine", "add up", "or", "plus", "one", "from")):
        for j, b in enumerate(("two", "spring", "hinge", "settle")):
            if tier == "thorough" or j % 2 == i % 2:
                out.append(dict(name=f"derived-{b}-{how.replace(' ', '-')}", fn=derived, args=dict(beam=b, how=how), cost=1, merge=True, max_paths=60))
    for b in BEAMS:
        if b != "ground":
            out.append(dict(name=f"{b}-interleaved", fn=interleaved, args=dict(beam=b), cost=90 if b == "vary" else 1, merge=True, **({"budget": 400} if b == "vary" else {})))
        out.append(dict(name=f"{b}-late", fn=late, args=dict(beam=b), cost=1, merge=True))
    names = [f.__name__ for f in OPS]
    for b in BEAMS:
        ok = [q for q in names if q not in NOT.get(b, ())]
        for f in ok:
            for t in ok:
                if tier == "quick" and b != "two" and (ok.index(f) + 2 * ok.index(t)) % 7:
                    continue
                then = t
                if tier == "thorough":
                    then = [t, ok[(ok.index(t) * 3 + ok.index(f) * 5 + 1) % len(ok)]]
                out.append(dict(name=f"{b}-{f}-{t}", fn=pair, args=dict(beam=b, first=f, then=then), cost=1, merge=True, **({"max_paths": 80} if tier == "quick" else {})))
    return out
