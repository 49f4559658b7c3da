"""the lane load that accompanies a vehicle, its clear zone, and the sections where shear is wanted on both sides"""
import numpy as np
import pycba as cba
from harness.scen import rests
from harness.C12 import shape
from harness.C13 import check
from harness.C14 import BEAMS, local

NEAR = 1e-5
SPRUNG = {"mid": ([3.0, 5.0], "psp", None), "ends": ([3.0, 5.0], "sps", None), "turn": ([3.0, 5.0], "rpr", None), "guide": ([3.0, 5.0], "qpp", None)}


def nodes_of(Ls):
    return [sum(Ls[:i]) for i in range(len(Ls) + 1)]


def pieces(Ls, zones):
    """the parts of the zones on each span, as (span, from, length, global from, global to)"""
    xs = nodes_of(Ls)
    out = []
    for lo, hi in zones:
        for i in range(len(Ls)):
            a = lo if lo > xs[i] else xs[i]
            b = hi if hi < xs[i + 1] else xs[i + 1]
            if b > a:
                out.append((i, a - xs[i], b - a, a, b))
    return out


def zones(Ls, pos, L, clear):
    T = sum(Ls)
    if clear is None:
        return [(0, T)]
    lo, hi = pos - L - clear[0], pos + clear[1]
    out = []
    if lo > 0:
        out.append((0, lo if lo < T else T))
    if hi < T:
        out.append((hi if hi > 0 else 0, T))
    return out


def model(Ls, EI, R, ety, xs, ws, w, zs, npts, static=()):
    T = sum(Ls)
    rows = [list(s) for s in static]
    for x, p in zip(xs, ws):
        if x >= 0 and x <= T:
            i, a = local(Ls, x)
            rows.append([i + 1, 2, p, a])
    for i, a, b, _, _ in pieces(Ls, zs):
        rows.append([i + 1, 3, w, a, b])
    ba = cba.BeamAnalysis(Ls, EI, R, rows, eletype=ety)
    ba.analyze(npts)
    return ba.beam_results


def cell(c, name, cuts, near=NEAR):
    """a value strictly inside one of the intervals between the cuts"""
    cuts = sorted(cuts)
    gaps = [(a, b) for a, b in zip(cuts[:-1], cuts[1:]) if b - a > 3 * near]
    k = c.choice("cell " + name, len(gaps))
    return c.real(f"{name}@{k}", gaps[k][0] + near, gaps[k][1] - near)


def lane(c, beam, coords, clear, npts=4, static=False, touch=None, diagrams=True):
    """any front-axle position, lane intensity and clearances"""
    Ls, sup, ety = BEAMS[beam]
    N, T = len(Ls), sum(Ls)
    EI, R = [3.0, 5.0, 2.0][:N], rests(sup)
    ws = [c.real(f"P{i}", -4, 4) for i in range(len(coords))]
    w = c.real("w", -3, 3)
    xn = nodes_of(Ls)
    B = coords[-1]
    cuts = [x + q for x in xn for q in coords] + [-2.0, T + B + 2.0]
    if touch is not None:        # an edge of the clear zone exactly on a node, whatever the clearances
        if touch[0] == "back":
            e2 = cell(c, "hi", xn + [-4.0, T + 4.0])
            pos = cell(c, "pos", cuts)
            clear = (pos - B - xn[touch[1]], e2 - pos)
        else:
            e1 = cell(c, "lo", xn + [-4.0, T + 4.0])
            pos = cell(c, "pos", cuts)
            clear = (pos - B - e1, xn[touch[1]] - pos)
        c.assume(clear[0] >= 0)
        c.assume(clear[1] >= 0)
    elif clear == "any":
        e1 = cell(c, "lo", xn + [-4.0, T + 4.0])
        e2 = cell(c, "hi", xn + [-4.0, T + 4.0])
        pos = cell(c, "pos", cuts)
        clear = (pos - B - e1, e2 - pos)
        c.assume(clear[0] >= 0)
        c.assume(clear[1] >= 0)
    else:
        if clear is not None:
            cuts += [x + B + clear[0] for x in xn] + [x - clear[1] for x in xn]
        if diagrams:
            cuts += [x + L * j / npts + q for x, L in zip(xn, Ls) for j in range(npts + 1) for q in coords]
        pos = cell(c, "pos", [q for q in cuts if q >= -2.0 and q <= T + B + 2.0])
    axs = [pos - q for q in coords]
    st, stx = [], []
    if static:
        st = [[1, 2, c.real("S", -4, 4), 1.7]]
        stx = [(1.7, st[0][2])]
    ba = cba.BeamAnalysis(Ls, EI, R, [list(r) for r in st], eletype=ety)
    ba.npts = npts
    br = cba.BridgeAnalysis(ba, cba.Vehicle(np.array([b - a for a, b in zip(coords[:-1], coords[1:])]), np.array(ws)))
    kw = {} if clear is None else dict(clearances=clear)
    br.run_load_model(1.0, w, pos_start=pos, pos_end=pos, **kw)
    c.true("one position", len(br.vResults) == 1 and len(br.pos) == 1)
    r = br.vResults[0]
    zs = zones(Ls, pos, coords[-1], clear)
    want = []
    for dof, v in enumerate(R):
        if v != -1:
            continue
        f = shape(c, Ls, EI, R, ety, dof)
        t = 0
        for x, p in zip(axs, ws):
            if x >= 0 and x <= T:
                t = t + p * f(x)
        for x, p in stx:
            t = t + p * f(x)
        for _, _, n, a, b in pieces(Ls, zs):
            t = t + w * n / 6 * (f(a) + 4 * f((a + b) / 2) + f(b))
        want.append(t)
    c.eq("reactions", r.R, want)
    if diagrams:
        p = model(Ls, EI, R, ety, axs, ws, w, zs, npts, st)
        c.eq("bending moment", r.results.M, p.results.M)
        c.eq("shear", r.results.V, p.results.V)
        c.eq("displacements", r.D, p.D)
    # nothing of it stays on the bridge
    br.ba.analyze()
    o = cba.BeamAnalysis(Ls, EI, R, [list(q) for q in st], eletype=ety)
    o.analyze(npts)
    c.eq("bridge afterwards", br.ba.beam_results.R, o.beam_results.R)


def traverse(c, beam, coords, clear, step, npts=4, start=None, end=None):
    """a run of the load model is the list of these, with its envelope"""
    Ls, sup, ety = BEAMS[beam]
    N, T = len(Ls), sum(Ls)
    EI, R = [3.0, 5.0, 2.0][:N], rests(sup)
    P, w = c.real("P", 1, 4), c.real("w", -3, 3)
    ws = [P] + [c.const("2.3")] * (len(coords) - 1)
    ba = cba.BeamAnalysis(Ls, EI, R, eletype=ety)
    ba.npts = npts
    br = cba.BridgeAnalysis(ba, cba.Vehicle(np.array([b - a for a, b in zip(coords[:-1], coords[1:])]), np.array(ws)))
    kw = {} if start is None else dict(pos_start=start, pos_end=end)
    env = br.run_load_model(step, w, clear, **kw)
    a = 0.0 if start is None else start
    b = T + coords[-1] if end is None else end
    n = int(round((b - a) / step)) + 1
    c.true("number of positions", len(br.pos) == n and len(br.vResults) == n)
    want = []
    for i in range(n):
        p = a + i * step
        c.eq(f"position {i}", br.pos[i], p)
        q = model(Ls, EI, R, ety, [p - x for x in coords], ws, w, zones(Ls, p, coords[-1], clear), npts)
        want.append(q)
        c.eq(f"reactions {i}", br.vResults[i].R, q.R)
        c.eq(f"moment {i}", br.vResults[i].results.M, q.results.M)
    check(c, env, [want])


def point_vehicle(c, beam, npts=4):
    """for a single axle, no clear zone and a clear zone of no length are the same; for more axles they are not"""
    Ls, sup, ety = BEAMS[beam]
    EI, R = [3.0, 5.0, 2.0][:len(Ls)], rests(sup)
    P, w = c.real("P", 1, 4), c.real("w", 1, 3)
    pos = cell(c, "pos", nodes_of(Ls))
    got = []
    for clear in (None, (0.0, 0.0), (0, 0), [0.0, 0.0]):
        ba = cba.BeamAnalysis(Ls, EI, R, eletype=ety)
        ba.npts = npts
        br = cba.BridgeAnalysis(ba, cba.Vehicle(np.array([]), np.array([P])))
        br.run_load_model(1.0, w, clear, pos_start=pos, pos_end=pos)
        got.append(br.vResults[0].R)
    for g in got[1:]:
        c.eq("same reactions", g, got[0])


def refused(c):
    Ls, sup, ety = BEAMS["one"]
    P, w = c.real("P", 1, 4), c.real("w", 1, 3)
    x = c.real("x", -3, -0.001)
    br = cba.BridgeAnalysis(cba.BeamAnalysis(Ls, [3.0], rests(sup)), cba.Vehicle(np.array([]), np.array([P])))
    for n, v in enumerate([(x, 1.0), (1.0, x), (1.0,), (1.0, 1.0, 1.0), 1.0, (float("nan"), 1.0), (1.0, float("inf")), (x, x)]):
        c.raises(f"clearances {n}", ValueError, br.run_load_model, 1.0, w, v)
    c.raises("no vehicle", ValueError, lambda: cba.BridgeAnalysis(cba.BeamAnalysis(Ls, [3.0], rests(sup))).run_load_model(1.0, w))


# ------------------------------------------------------------------ shear points
def side(Ls, R, res, xs, ws, w, zs, x, right, static=()):
    """shear just left or right of x, from the reactions and the loads on that side"""
    v, k, s = 0, 0, 0
    xn = nodes_of(Ls)
    for dof, r in enumerate(R):
        here = dof % 2 == 0 and (xn[dof // 2] < x or (right and xn[dof // 2] == x))
        if r == -1:
            if here:
                v = v + res.R[k]
            k += 1
        elif r != 0:
            if here:
                v = v + res.Rs[s]
            s += 1
    for p, q in list(zip(xs, ws)) + list(static):
        if p >= 0 and p <= sum(Ls) and (p < x or (right and p == x)):
            v = v - q
    for i, a, n, lo, hi in pieces(Ls, zs):
        if lo < x:
            v = v - w * ((hi if hi < x else x) - lo)
    return v


def near(c, label, a, b):
    """equal but for the shear of the lane load over the small distance to the section"""
    c.le(label, abs(a - b), 1e-6)


def sections(c, beam, coords, points=None, dv=None, how="static", npts=4, at=None, w=None, static=False, symx=None, span=None):
    """the shear reported on each side of a section is the shear there, for an axle anywhere, also right on it"""
    Ls, sup, ety = dict(BEAMS, **SPRUNG)[beam]
    N, T = len(Ls), sum(Ls)
    EI, R = [3.0, 5.0, 2.0][:N], [{"k": 7.0}.get(r, r) for r in rests(sup)]
    xn = nodes_of(Ls)
    ws = [c.real(f"P{i}", 1, 4) for i in range(len(coords))]
    if symx:                       # a section anywhere in a range, and its place
        points = [c.real("x", *symx)]
    dv_any = dv == "any"
    if dv_any:
        dv = c.real("dv", 0.21, 0.55)
    want = [] if points is None else list(points)
    if dv is not None:
        for i, v in enumerate(R[::2]):
            if v != 0:
                want += [xn[i] - dv, xn[i] + dv]
    want = [x for x in want if x > 0 and x < T]
    if at is not None:             # the front axle stands on a section
        pos = want[at]
    elif symx or dv_any:
        pos = c.real("pos", *(span or (0.1, T - 0.1)))
        for x in want:
            for q in coords:
                c.assume(abs(pos - q - x) > 1e-5)
    else:
        cuts = list(want) + [x + L * j / npts for x, L in zip(xn, Ls) for j in range(npts + 1)]
        pos = cell(c, "pos", [x + q for x in cuts for q in coords])
    xs = [pos - q for q in coords]
    st, stx = [], []
    if static:
        st = [[1, 2, c.real("S", 1, 4), 1.7]]
        stx = [(1.7, st[0][2])]
    ba = cba.BeamAnalysis(Ls, EI, R, [list(r) for r in st], eletype=ety)
    ba.npts = npts
    br = cba.BridgeAnalysis(ba, cba.Vehicle(np.array([b - a for a, b in zip(coords[:-1], coords[1:])]), np.array(ws)))
    zs = []
    if how == "static":
        res = br.static_vehicle(pos, shear_points=points, dv=dv)
        env = cba.Envelopes([res])
        br.pos, br.vResults = [pos], [res]
    elif how == "run":
        env = br.run_vehicle(1.0, pos_start=pos, pos_end=pos, shear_points=points, dv=dv)
        res = br.vResults[0]
    else:
        w = c.real("w", 1, 3)
        zs = [(0, T)]
        env = br.run_load_model(1.0, w, pos_start=pos, pos_end=pos, shear_points=points, dv=dv)
        res = br.vResults[0]
    cv = br.critical_values(env)
    sp = cv.get("shear_points", {})
    c.true("one entry per section", len(sp) == len(want))
    c.eq("sections", sorted(sp), sorted(want))
    supx = [x for x, r in zip(xn, R[::2]) if r != 0]
    for k, x in enumerate(sorted(want)):
        e = sp[sorted(sp)[k]]
        l = side(Ls, R, res, xs, ws, w, zs, x, False, stx)
        r = side(Ls, R, res, xs, ws, w, zs, x, True, stx)
        for nm, v in (("left", l), ("right", r)):
            near(c, f"section {k} {nm}, largest", e[f"Vmax_{nm}"], v if v > 0 else 0)
            near(c, f"section {k} {nm}, smallest", e[f"Vmin_{nm}"], v if v < 0 else 0)
        c.le(f"section {k} largest bounds", max(e["Vmax_left"], e["Vmax_right"]), e["Vmax"])
        c.le(f"section {k} smallest bounds", e["Vmin"], min(e["Vmin_left"], e["Vmin_right"]))
        c.true(f"section {k} extremes occur", (e["Vmax"] == e["Vmax_left"] or e["Vmax"] == e["Vmax_right"])
               and (e["Vmin"] == e["Vmin_left"] or e["Vmin"] == e["Vmin_right"]))
        if supx:
            d = [abs(q - x) for q in supx]
            j = min(range(len(d)), key=lambda i: d[i])
            if sum(1 for q in d if q == d[j]) == 1:
                c.eq(f"section {k} support", e["support"], supx[j])
                if x != supx[j]:
                    c.true(f"section {k} side", e["side"] == ("left" if x < supx[j] else "right"))
    # moments at the sections, and the regular stations, do not depend on them
    plain = model(Ls, EI, R, ety, xs, ws, w if w is not None else 0, zs, npts, st)
    c.eq("reactions", res.R, plain.R)
    for k, x in enumerate(plain.results.x):
        if not any(abs(x - p) <= 1e-5 for p in xs) and 0 < k < len(plain.results.x) - 1 and not any(x == n for n in xn):
            hit = [i for i, y in enumerate(res.results.x) if y == x]
            c.true(f"station {k} kept", len(hit) > 0)
            for i in hit:
                c.eq(f"moment at station {k}", res.results.M[i], plain.results.M[k])
                c.eq(f"shear at station {k}", res.results.V[i], plain.results.V[k])
    # and they are gone for the next run
    br.static_vehicle(pos)
    c.true("sections do not outlive the run", len(br.ba.beam_results.results.x) == len(plain.results.x))
    c.true("no sections reported", "shear_points" not in br.critical_values(br.run_vehicle(1.0, pos_start=pos, pos_end=pos)))


def resolved(c, how, points=None, dv=None, at=None, coords=(0.0, 0.8)):
    """sections already resolved to their spans give what the sections themselves give"""
    Ls, sup, ety = BEAMS["two"]
    EI, R, T = [3.0, 5.0], rests(sup), sum(Ls)
    ws = [c.real(f"P{i}", 1, 4) for i in range(len(coords))]
    w = c.real("w", 1, 3)

    def bridge():
        ba = cba.BeamAnalysis(Ls, EI, R, eletype=ety)
        ba.npts = 4
        return cba.BridgeAnalysis(ba, cba.Vehicle(np.array([b - a for a, b in zip(coords[:-1], coords[1:])]), np.array(ws)))
    a, b = bridge(), bridge()
    sp, xs = cba.resolve_shear_points(a.ba.beam, points, dv)
    want = sorted([x for x in (points or []) if 0 < x < T] + ([] if dv is None else [v for v in (dv, 3.0 - dv, 3.0 + dv, T - dv)]))
    c.eq("sections", list(xs), want)
    flat = sorted(sum(Ls[:m]) + q for m, v in sp.items() for q in v)
    c.eq("places", flat, sorted(want + [x for x in want if x == 3.0]))
    if at is not None:
        pos = want[at]
    else:
        pos = c.real("pos", *((3.9, 4.2)))
    kw = dict(points=dict(shear_points=points, dv=dv), dict=dict(shear_points=sp))
    out = []
    for br, k in ((a, "points"), (b, "dict")):
        if how == "static":
            r = br.static_vehicle(pos, **kw[k])
            env = None
        elif how == "run":
            env = br.run_vehicle(1.0, pos_start=pos, pos_end=pos, **kw[k])
            r = br.vResults[0]
        else:
            env = br.run_load_model(1.0, w, (0.5, 0.5), pos_start=pos, pos_end=pos, **kw[k])
            r = br.vResults[0]
        out.append((r, env))
        c.true(f"gone {k}", br.ba.shear_points is None)
    (r, e), (q, f) = out
    c.eq("stations", q.results.x, r.results.x)
    c.eq("shear", q.results.V, r.results.V)
    c.eq("moment", q.results.M, r.results.M)
    c.eq("reactions", q.R, r.R)
    if e is not None:
        c.eq("largest", f.Vmax, e.Vmax)
        c.eq("smallest", f.Vmin, e.Vmin)
    for m, v in sp.items():
        for n, z in enumerate(v):
            g = sum(Ls[:m]) + z
            for nm, right in (("left", False), ("right", True)):
                if (nm == "left" and z == 0) or (nm == "right" and z == Ls[m]):
                    continue
                zz = [] if how != "lane" else zones(Ls, pos, coords[-1], (0.5, 0.5))
                t = side(Ls, R, q, [pos - y for y in coords], ws, w, zz, g, right)
                near_any(c, f"member {m} section {n} {nm}", [y for x, y in zip(q.results.x, q.results.V) if abs(x - g) <= 1e-5], t)


def near_any(c, label, got, t):
    ok = False
    for y in got:
        ok = (abs(y - t) <= 1e-6) | ok
    c.true(label, ok)


def configs(tier):
    out = []
    CO2, CO3 = (0.0, 1.25), (0.0, 1.25, 3.1)

    def add(fn, name, **kw):
        cost = kw.pop("cost", 4)
        merge = kw.pop("merge", fn is not sections)
        out.append(dict(name=f"{fn.__name__}-{name}", fn=fn, args=kw, cost=cost, merge=merge, max_paths=4000))
    for b in BEAMS:
        add(lane, f"{b}-under", beam=b, coords=CO2, clear=None)
        add(lane, f"{b}-clear", beam=b, coords=CO2, clear=(0.5, 1.5), diagrams=b in ("one", "cant"), static=b == "two")
    add(lane, "two-wheelbase", beam="two", coords=CO2, clear=(0.0, 0.0), diagrams=False)
    add(lane, "one-any", beam="one", coords=CO2, clear="any", diagrams=False)
    add(lane, "fixed-any", beam="fixed", coords=(0.0,), clear="any", diagrams=False)
    add(lane, "two-any", beam="two", coords=CO2, clear="any", diagrams=False, cost=9)
    add(lane, "hinge-any", beam="hinge", coords=(0.0,), clear="any", diagrams=False, cost=9)
    for n in (0, 1, 2):
        for s in ("back", "front"):
            add(lane, f"touch-{s}-{n}", beam="two", coords=(0.0,) if n else (0.0, 0.75), clear="any", touch=(s, n), diagrams=False)
    add(traverse, "one", beam="one", coords=CO2, clear=(0.4, 0.7), step=1.25, merge=True, cost=6)
    add(traverse, "two", beam="two", coords=CO2, clear=(0.5, 1.1), step=2.3, start=-1.0, end=5.9, merge=True, cost=9)
    add(traverse, "end", beam="end", coords=CO2, clear=None, step=2.1, start=1.0, end=6.0, merge=True, cost=9)
    for b in ("one", "two", "end"):
        add(point_vehicle, b, beam=b)
    out.append(dict(name="refused", fn=refused))
    for b in ("one", "fixed", "cant", "two", "end"):
        add(sections, f"{b}-point", beam=b, coords=(0.0,), points=[2.2], npts=5)
    add(sections, "two-points", beam="two", coords=CO2, points=[1.1, 2.4, 4.7], how="run", npts=5)
    add(sections, "two-dv", beam="two", coords=(0.0,), dv=0.4, how="run", npts=5)
    add(sections, "two-dv-any", beam="two", coords=(0.0,), dv="any", how="static", npts=4, span=(3.6, 7.3))
    add(sections, "hinge-both", beam="hinge", coords=(0.0,), dv=0.3, points=[2.2], how="run")
    for i, b in enumerate(SPRUNG):
        add(sections, f"{b}-dv", beam=b, coords=(0.0,), dv=0.4, how=("static", "run")[i % 2])
        if i in (0, 3):
            add(sections, f"{b}-points", beam=b, coords=(0.0,), points=[2.2, 3.5], how="static")
    add(sections, "cant-dv", beam="cant", coords=(0.0, 0.9), dv=0.3)
    for k in range(3):
        add(sections, f"on-{k}", beam="two", coords=CO2, points=[1.1, 2.4, 4.7], at=k, how="run")
    for k in range(4):
        add(sections, f"on-dv-{k}", beam="two", coords=(0.0,), dv=0.4, at=k, how="static", static=True)
    add(sections, "lane", beam="fixed", coords=(0.0,), dv=0.4, how="lane")
    add(sections, "lane-on", beam="one", coords=CO2, points=[2.2], at=0, how="lane")
    add(sections, "anywhere", beam="one", coords=(0.0,), symx=(2.6, 3.7))
    add(sections, "anywhere-on", beam="two", coords=(0.0, 0.8), symx=(3.3, 4.2), at=0, how="run")
    add(sections, "grid", beam="two", coords=(0.0,), points=[1.5, 4.25], how="run")
    add(sections, "grid-on", beam="two", coords=(0.0,), points=[1.5, 4.25], at=1)
    add(sections, "off-deck", beam="one", coords=(0.0,), points=[-0.5, 0.0, 2.2, 5.0, 7.0])
    add(sections, "node", beam="two", coords=(0.0,), points=[3.0])
    add(sections, "node-run", beam="end", coords=CO2, points=[1.0, 3.0], how="run")
    add(sections, "node-on", beam="two", coords=(0.0,), points=[3.0], at=0)
    for h in ("static", "run", "lane"):
        add(resolved, f"{h}", how=h, points=[1.1, 3.0, 4.7])
        add(resolved, f"{h}-on", how=h, points=[1.1, 4.7], at=1)
        add(resolved, f"{h}-dv", how=h, dv=0.3, points=[2.2, 9.0])
        add(resolved, f"{h}-dv-on", how=h, dv=0.3, at=2)
    if tier == "thorough":
        for b in BEAMS:
            add(lane, f"t-{b}-any", beam=b, coords=CO2, clear="any", diagrams=False, cost=9)
            add(lane, f"t-{b}-3", beam=b, coords=CO3, clear=(0.3, 0.9), static=True, cost=9)
            add(sections, f"t-{b}", beam=b, coords=CO3, dv=0.3, points=[2.2], how="lane", cost=9)
            add(sections, f"t-{b}-on", beam=b, coords=CO2, dv=0.3, points=[2.2], how="run", at=0, cost=9)
    return out
