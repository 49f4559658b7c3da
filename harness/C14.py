"""a vehicle crossing the bridge: every position is the static analysis of its axles, against Betti shapes and statics"""
import numpy as np
import pycba as cba
from harness.scen import rests
from harness.C12 import shape
from harness.C13 import check, history

BEAMS = {
    "one": ([5.0], "pp", None),
    "fixed": ([5.0], "fp", None),
    "cant": ([5.0], "fh", None),
    "two": ([3.0, 5.0], "ppp", None),
    "end": ([3.0, 4.0], "fph", None),
    "hinge": ([3.0, 4.0], "fhp", [2, 1]),
    "three": ([3.0, 2.0, 4.0], "pppp", None),
}


def axles(pos, coords):
    return [pos - q for q in coords]


def expect(c, Ls, EI, R, ety, xs, ws, static=()):
    """reactions at the fixed restraints: load times Betti shape, for the axles that are on the deck"""
    T = sum(Ls)
    out = []
    for dof, r in enumerate(R):
        if r == -1:
            f = shape(c, Ls, EI, R, ety, dof)
            t = 0
            for x, w in zip(xs, ws):
                if x >= 0 and x <= T:
                    t = t + w * f(x)
            for x, w in static:
                t = t + w * f(x)
            out.append(t)
    return out


def local(Ls, x):
    a = 0
    for i, L in enumerate(Ls):
        if x < a + L or (i == len(Ls) - 1 and x <= a + L):
            return i, x - a
        a = a + L


def plain(c, Ls, EI, R, ety, xs, ws, npts, static=()):
    T = sum(Ls)
    rows = [list(s) for s in static]
    for x, w in zip(xs, ws):
        if x >= 0 and x <= T:
            i, a = local(Ls, x)
            rows.append([i + 1, 2, w, a])
    ba = cba.BeamAnalysis(Ls, EI, R, rows, eletype=ety)
    ba.analyze(npts)
    return ba.beam_results


def cells(c, x, cuts):
    """one case per interval between consecutive cuts, each strictly inside it"""
    k = c.choice("cell", len(cuts) - 1)
    c.assume(x > cuts[k])
    c.assume(x < cuts[k + 1])


def position(c, beam, coords, npts=4, static=False, how="new", full=True, sym=False):
    """one static position, the front axle anywhere from before the deck to past it"""
    Ls, sup, ety = BEAMS[beam]
    N = len(Ls)
    EI = [c.real(f"EI{i}", 1, 10) if sym else [3.0, 5.0, 2.0][i] for i in range(N)]
    R = rests(sup)
    T = sum(Ls)
    ws = [c.real(f"P{i}", -4, 4) for i in range(len(coords))]
    pos = c.real("pos", -1, T + coords[-1] + 1)
    stations = sorted({float(sum(Ls[:i]) + Ls[i] * j / npts) for i in range(N) for j in range(npts + 1)})
    cuts = sorted({-1.0, float(T + coords[-1] + 1)} | {s + float(q) for s in stations for q in coords})
    cells(c, pos, [c.const(repr(q)) for q in cuts])
    spac = [b - a for a, b in zip(coords[:-1], coords[1:])]
    st, stx = [], []
    if static:
        st = [[1, 2, c.real("S", -4, 4), 1.7], [N, 2, c.real("S2", -4, 4), 0.7]]
        stx = [(1.7, st[0][2]), (sum(Ls[:-1]) + 0.7, st[1][2])]
    ba = cba.BeamAnalysis(Ls, EI, R, [list(r) for r in st], eletype=ety)
    ba.npts = npts
    if how == "new":
        br = cba.BridgeAnalysis(ba, cba.Vehicle(np.array(spac), np.array(ws)))
    elif how == "set":
        br = cba.BridgeAnalysis()
        br.set_bridge(ba)
        br.set_vehicle(cba.Vehicle(np.array(spac), np.array(ws)))
    else:
        br = cba.BridgeAnalysis()
        b2 = br.add_bridge(Ls, EI, R, eletype=ety)
        b2.npts = npts
        br.add_vehicle(np.array(spac), np.array(ws))
    r = br.static_vehicle(pos)
    xs = axles(pos, coords)
    c.eq("reactions", r.R, expect(c, Ls, EI, R, ety, xs, ws, stx))
    if full:
        p = plain(c, Ls, EI, R, ety, xs, ws, npts, st)
        c.eq("bending moment", r.results.M, p.results.M)
        c.eq("shear", r.results.V, p.results.V)
        c.eq("displacements", r.D, p.D)


def traverse(c, beam, coords, step, start=None, end=None, npts=4, static=False, crit=False, sym=True):
    """a run is the sequence of static positions, its envelope bounds them, and the bridge is left as it was"""
    Ls, sup, ety = BEAMS[beam]
    N, T = len(Ls), sum(Ls)
    EI = [3.0, 5.0, 2.0][:N]
    R = rests(sup)
    ws = [c.real("P0", 1, 4)] + [c.const("2.3")] * (len(coords) - 1) if not sym else [c.real(f"P{i}", -4, 4) for i in range(len(coords))]
    spac = [b - a for a, b in zip(coords[:-1], coords[1:])]
    veh = cba.Vehicle(np.array(spac), np.array(ws))
    st = [[1, 2, c.real("S", -4, 4), 1.7]] if static else []
    ba = cba.BeamAnalysis(Ls, EI, R, [list(r) for r in st], eletype=ety)
    ba.npts = npts
    br = cba.BridgeAnalysis(ba, veh)
    kw = {}
    if start is not None:
        kw["pos_start"] = start
    if end is not None:
        kw["pos_end"] = end
    env = br.run_vehicle(step, **kw)
    a = 0.0 if start is None else start
    b = T + coords[-1] if end is None else end
    n = int(round((b - a) / step)) + 1
    c.true("number of positions", len(br.pos) == n and len(br.vResults) == n)
    want = []
    for i in range(n):
        p = a + i * step
        c.eq(f"position {i}", br.pos[i], p)
        q = plain(c, Ls, EI, R, ety, axles(p, coords), ws, npts, st)
        want.append(q)
        r = br.vResults[i]
        c.eq(f"moment at position {i}", r.results.M, q.results.M)
        c.eq(f"shear at position {i}", r.results.V, q.results.V)
        c.eq(f"reactions at position {i}", r.R, q.R)
    check(c, env, [want])
    history(c, env, want)
    # the vehicle leaves nothing on the bridge: another crossing of it is the same
    again = cba.BridgeAnalysis(ba, veh)
    p = a + step
    r2 = again.static_vehicle(p)
    c.eq("a later analysis of the same bridge", r2.R, want[1].R)
    c.eq("a later analysis of the same bridge, moments", r2.results.M, want[1].results.M)


def critical(c, beam, coords, step, npts=4, start=None, end=None):
    """the reported critical values are the extremes, where and when they occur"""
    Ls, sup, ety = BEAMS[beam]
    N, T = len(Ls), sum(Ls)
    EI = [3.0, 5.0, 2.0][:N]
    R = rests(sup)
    P0 = c.real("P0", 1, 4)
    ws = [P0] + [c.const("2.3")] * (len(coords) - 1)
    spac = [b - a for a, b in zip(coords[:-1], coords[1:])]
    ba = cba.BeamAnalysis(Ls, EI, R, eletype=ety)
    ba.npts = npts
    br = cba.BridgeAnalysis(ba, cba.Vehicle(np.array(spac), np.array(ws)))
    kw = {}
    if start is not None:
        kw.update(pos_start=start, pos_end=end)
    env = br.run_vehicle(step, **kw)
    cv = br.critical_values(env)
    res = br.vResults
    for f in ("Mmax", "Mmin", "Vmax", "Vmin"):
        top = f.endswith("max")
        e = cv[f]
        vals = [(r.results.M if f[0] == "M" else r.results.V) for r in res]
        oth = [(r.results.V if f[0] == "M" else r.results.M) for r in res]
        hit = (e["val"] == 0)
        for i, v in enumerate(vals):
            for k in range(len(env.x)):
                if top:
                    c.le(f"{f} bounds {i} {k}", v[k], e["val"])
                else:
                    c.le(f"{f} bounds {i} {k}", e["val"], v[k])
        co = "Vco" if f[0] == "M" else "Mco"
        for k in range(len(env.x)):
            if env.x[k] == e["at"]:
                for i, v in enumerate(vals):
                    hit = hit | ((v[k] == e["val"]) & (oth[i][k] == e[co]))
        c.true(f"{f} occurs there with its coincident effect", hit)
        for i, v in enumerate(vals):
            listed = any(br.pos[i] == q for q in e["pos"])
            m = np.max(v) if top else np.min(v)
            if listed:
                c.le(f"{f} position {i} is critical", abs(m - e["val"]), 2e-5 * abs(e["val"]) + 1e-7)
            else:
                c.le(f"{f} position {i} is not critical", 5e-6 * abs(e["val"]), abs(m - e["val"]))
    c.true("supports", cv["nsup"] == len(res[0].R))
    for j in range(len(res[0].R)):
        for nm, top in ((f"Rmax{j}", True), (f"Rmin{j}", False)):
            e = cv[nm]
            hit = e["val"] == 0
            for i, r in enumerate(res):
                c.le(f"{nm} bounds {i}", *((r.R[j], e["val"]) if top else (e["val"], r.R[j])))
                hit = hit | ((r.R[j] == e["val"]) & (br.pos[i] == e["pos"]))
            c.true(f"{nm} occurs there", hit)
    # nor that of this run and another: refused, or its reactions are this run's
    mixed(c, br, res, env, Ls, EI, R, ety, npts, step)
    # the envelope of another run is not accepted silently
    br.run_vehicle(step, pos_start=0.0, pos_end=0.0)
    c.raises("envelope of another run", ValueError, br.critical_values, env)


def mixed(c, br, res, env, Ls, EI, R, ety, npts, step):
    ba = cba.BeamAnalysis(Ls, EI, R, eletype=ety)
    ba.npts = npts
    for lab, spac, ends in (("longer", [0.5, 2.0], {}), ("as many", [0.5], dict(pos_start=br.pos[0], pos_end=br.pos[-1]))):
        o = cba.BridgeAnalysis(ba, cba.Vehicle(np.array(spac), np.array([c.const("0.01")] * (len(spac) + 1))))
        other = o.run_vehicle(step, **ends)
        both_ = env | other
        try:
            cv = br.critical_values(both_)
        except ValueError:
            continue
        for j in range(len(res[0].R)):
            for nm, top in ((f"Rmax{j}", True), (f"Rmin{j}", False)):
                for i, r in enumerate(res):
                    c.le(f"{lab}: {nm} bounds {i}", *((r.R[j], cv[nm]["val"]) if top else (cv[nm]["val"], r.R[j])))


def steps(c, beam, coords, n, lo, hi):
    """positions for any step length"""
    Ls, sup, ety = BEAMS[beam]
    T = sum(Ls)
    s = c.real("step", lo, hi)
    x0 = c.real("start", -1, 1)
    spac = [b - a for a, b in zip(coords[:-1], coords[1:])]
    ba = cba.BeamAnalysis(Ls, [3.0, 5.0, 2.0][:len(Ls)], rests(sup), eletype=ety)
    ba.npts = 4
    br = cba.BridgeAnalysis(ba, cba.Vehicle(np.array(spac), np.array([1.0] * len(coords))))
    end = x0 + s * n + s * c.real("odd", -0.375, 0.375)
    env = br.run_vehicle(s, pos_start=x0, pos_end=end)
    c.true("number of positions", len(br.pos) == n + 1)
    c.eq("positions", br.pos, [x0 + s * i for i in range(n + 1)])
    for i in (0, n):
        w = expect(c, Ls, [3.0, 5.0, 2.0][:len(Ls)], rests(sup), ety, axles(x0 + s * i, coords), [1.0] * len(coords))
        c.eq(f"reactions {i}", br.vResults[i].R, w)


def ratios(c, beam):
    Ls, sup, ety = BEAMS[beam]
    ba = cba.BeamAnalysis(Ls, [3.0, 5.0, 2.0][:len(Ls)], rests(sup), eletype=ety)
    ba.npts = 4
    P, Q = c.real("P", 1, 4), c.real("Q", 1, 4)
    a = cba.BridgeAnalysis(ba, cba.Vehicle(np.array([]), np.array([P])))
    e1 = a.run_vehicle(1.0)
    b = cba.BridgeAnalysis(ba, cba.Vehicle(np.array([1.0]), np.array([Q, Q])))
    e2 = b.run_vehicle(1.0)
    r = a.envelopes_ratios(e2, e1)
    for f in ("Mmax", "Mmin", "Vmax", "Vmin"):
        t, q = getattr(e2, f), getattr(e1, f)
        for k in range(len(e1.x)):
            if abs(q[k]) > 0.002:
                c.eq(f"{f} {k}", r[f][k] * abs(q[k]), abs(t[k]))
            elif q[k] == 0:
                c.eq(f"{f} {k}", r[f][k], 0)
    for j in range(e1.nsup):
        for nm, f in ((f"Rmax{j}", "Rmaxval"), (f"Rmin{j}", "Rminval")):
            t, q = getattr(e2, f)[j], getattr(e1, f)[j]
            if abs(q) > 0.002:
                c.eq(nm, r[nm] * abs(q), abs(t))
    c.eq("stations", r["x"], e1.x)
    # those of other supports or stations are not compared
    o = cba.BeamAnalysis(Ls, [3.0, 5.0, 2.0][:len(Ls)], rests(sup), eletype=ety)
    o.npts = 5
    e3 = cba.BridgeAnalysis(o, cba.Vehicle(np.array([]), np.array([P]))).run_vehicle(3.0)
    other = cba.BeamAnalysis([3.0, 3.0, 3.0, 3.0][:len(Ls)] + [], 2.0, rests("f" + sup[1:] if sup[0] != "f" else "p" + sup[1:]), eletype=[1] * len(Ls))
    other.npts = 4
    e4 = cba.BridgeAnalysis(other, cba.Vehicle(np.array([]), np.array([P]))).run_vehicle(3.0)
    for n, e in (("stations", e3), ("supports", e4)):
        c.raises(f"other {n}", ValueError, a.envelopes_ratios, e, e1)
        c.raises(f"other {n}, reversed", ValueError, a.envelopes_ratios, e1, e)


def refused(c):
    P = c.real("P", 1, 4)
    c.raises("no bridge", ValueError, lambda: cba.BridgeAnalysis(None, cba.Vehicle(np.array([]), np.array([P]))).run_vehicle(1.0))
    ba = cba.BeamAnalysis([5.0], [3.0], rests("pp"))
    c.raises("no vehicle", ValueError, lambda: cba.BridgeAnalysis(ba).run_vehicle(1.0))
    c.raises("no vehicle for a position", ValueError, lambda: cba.BridgeAnalysis(ba).static_vehicle(1.0))
    c.raises("counts of axles", ValueError, cba.Vehicle, np.array([1.0, 2.0]), np.array([P, P]))


def configs(tier):
    out = []
    CO2, CO3 = (0.0, 1.25), (0.0, 1.25, 3.1)

    def add(fn, name, **kw):
        cost = kw.pop("cost", 4)
        merge = kw.pop("merge", False)
        out.append(dict(name=f"{fn.__name__}-{name}", fn=fn, args=kw, cost=cost, merge=merge, max_paths=4000))
    for b in BEAMS:
        add(position, f"{b}-1", beam=b, coords=(0.0,), static=b in ("two", "hinge"))
        add(position, f"{b}-2", beam=b, coords=CO2, how="set" if b in ("one", "end") else "new", static=b in ("cant", "one"))
    add(position, "add", beam="two", coords=(0.0, 0.6), how="add")
    add(position, "long", beam="one", coords=(0.0, 4.0, 7.3), npts=4, full=False)
    add(position, "same-place", beam="two", coords=(0.0, 0.0), full=False)
    add(position, "sym", beam="two", coords=(0.0, 1.25), sym=True, full=False)
    for b in ("one", "cant", "two", "end", "hinge", "three"):
        add(traverse, f"{b}-2", beam=b, coords=CO2, step=3.1 if b in ("two", "three", "hinge") else 1.75, merge=True, static=b in ("two", "cant"))
    add(traverse, "part", beam="two", coords=CO3, step=1.5, start=2.5, end=5.5, merge=True)
    add(traverse, "before", beam="one", coords=CO2, step=1.3, start=-1.0, end=4.0, merge=True)
    for b, co in (("one", CO2), ("end", CO2), ("two", CO3)):
        add(critical, b, beam=b, coords=co, step=2.0, cost=8)
    add(critical, "off", beam="cant", coords=(0.0, 1.25), step=1.75, cost=8)
    add(steps, "one", beam="one", coords=(0.0, 1.25), n=3, lo=1.26, hi=1.45)
    add(steps, "cant", beam="cant", coords=(0.0, 2.0), n=3, lo=1.51, hi=1.65)
    add(ratios, "one", beam="one", merge=True)
    add(ratios, "end", beam="end", merge=True)
    out.append(dict(name="refused", fn=refused))
    if tier == "thorough":
        for b in BEAMS:
            add(position, f"t-{b}-3", beam=b, coords=CO3, cost=9)
            add(traverse, f"t-{b}-3", beam=b, coords=CO3, step=2.5 if b in ("two", "end", "three") else 1.25, merge=True, static=True, cost=9)
            add(critical, f"t-{b}", beam=b, coords=CO3, step=1.1, cost=9)
    return out
