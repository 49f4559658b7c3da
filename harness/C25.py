"""the diagrams drawn are those computed, in the panel labelled for them and in the units asked for"""
from fractions import Fraction as F
import numpy as np
import pycba as cba
from pycba import units as U
from pycba.results import Envelopes
from harness.scen import rests

NPTS = 4
BEAMS = {"one": ([6], "pp", None),
         "two": ([3, 4], "ppp", None),
         "cant": ([3, 2], "fph", None),
         "hinge": ([3, 2, 4], "fhpp", [2, 1, 1]),
         "three": ([3, 2, 4], "pppp", None)}
LABEL = {"SI": ("kN", "m", "kNm", "mm", 1000), "US-ft": ("kip", "ft", "kip·ft", "in", 12), "N-mm": ("N", "mm", "N·mm", "mm", 1),
         "US-in": ("kip", "in", "kip·in", "in", 1), "none": ("", "", "", "", 1)}


def system(c, name):
    """what to ask for, and what the axes should then say"""
    if name == "own":
        s = c.real("scale", 1, 50)
        us = U.UnitSystem(name="own", force="t", length="yd", moment="t.yd", distributed="t/yd", disp_label="hand", disp_scale=s)
        return us, Axes("t", "yd", "t.yd", "hand", s)
    if name == "default":
        return None, Axes(*LABEL["SI"])
    return name, Axes(*LABEL[name])


class Axes:
    def __init__(self, force, length, moment, disp, scale):
        t = lambda q, u: q + (f" ({u})" if u else "")
        self.force, self.length = force, length
        self.M, self.V, self.D, self.x, self.scale = t("Bending Moment", moment), t("Shear Force", force), t("Deflection", disp), t("Distance along beam", length), scale
        self.pos = t("Position of Front Axle", length)
        self.react = f" ({force}/{moment})" if force and moment else ""


class Panel:
    def __init__(self, ax):
        self.ax, self.label, self.xlabel, self.curves, self.up = ax, None, None, [], True
        self.log = []


def panels(log):
    """the axes drawn on, in the order first drawn on"""
    out = []

    def of(ax):
        for p in out:
            if p.ax is ax:
                return p
        out.append(Panel(ax))
        return out[-1]
    for q in log:
        p = of(q.on) if q.on is not None else None
        if p is None:
            continue
        p.log.append(q)
        if q.what == "plot" and len(q.args) >= 2:
            look = q.kw.get("color") or (q.args[2] if len(q.args) > 2 else "")
            p.curves.append((q.args[0], q.args[1], str(look), q.kw.get("label")))
        elif q.what == "invert_yaxis":
            p.up = not p.up
        elif q.what == "set_ylabel":
            p.label = q.args[0]
        elif q.what == "set_xlabel":
            p.xlabel = q.args[0]
    return out


def size(x):
    return len(list(x))


def one(c, lab, ps, label):
    """the one panel with this label"""
    mine = [p for p in ps if p.label == label]
    c.true(f"{lab}: one panel says {label}", len(mine) == 1)
    return mine[0] if len(mine) == 1 else None


def held(c, lab, p, want, sagging=False, rest=2):
    """the curves of a panel, apart from base lines and markers, are these in any order by colour (None: any) and label"""
    if p is None:
        return
    got = [q for q in p.curves if size(q[0]) > rest]
    c.true(f"{lab}: as many curves", len(got) == len(want))
    left = list(got)
    for i, (x, y, look, name) in enumerate(want):
        mine = [q for q in left if (look is None or look in q[2]) and (name is None or q[3] == name)]
        c.true(f"{lab}: curve {i} is there", bool(mine))
        if not mine:
            continue
        left = [q for q in left if q is not mine[0]]
        c.eq(f"{lab}: curve {i} places", mine[0][0], x)
        # sagging is below: the values upside down, or the axis
        c.eq(f"{lab}: curve {i} values", np.array(list(mine[0][1])) * (-1 if sagging and p.up else 1), y, scale=10)
    for i, q in enumerate(p.curves):
        if size(q[0]) == 2 and rest == 2:
            a, b = list(q[1])
            if a is b or a == b:
                c.eq(f"{lab}: base line {i}", [a, b], [0, 0])


def analysed(c, beam, kind="any", npts=NPTS, tag="", low=-5):
    Ls, sup, et = BEAMS[beam]
    n = len(Ls)
    v = [c.real(f"v{tag}{i}", low, 5) for i in range(3)]
    if kind == "spread":
        LM = [[i + 1, 1, v[i % 3]] for i in range(n)]
    else:
        LM = [[1, 2, v[0], F(1)], [n, 1, v[1]], [n, 4, v[2], F(3, 2)], [1, 3, v[1], F(1, 2), F(1)]]
        LM = [[c.const(q) if isinstance(q, F) else q for q in r] for r in LM]
    b = cba.BeamAnalysis([c.const(q) for q in Ls], [c.const(q) for q in (5, 3, 4)[:n]], rests(sup), LM, eletype=et)
    b.analyze(npts)
    return b


def snap(b):
    r = b.beam_results
    return [np.array(getattr(r.results, q)) for q in "xMVRD"] + [np.array(r.R), np.array(r.D)]


def kept(c, b, was):
    for q, a, w in zip(("x", "M", "V", "R", "D", "reactions", "displacements"), snap(b), was):
        c.eq(f"{q} as computed", a, w)


def diagrams(c, beam, us):
    """one effect to a figure; a second analysis laid over it; the same in the other backend"""
    arg, A = system(c, us)
    b = analysed(c, beam)
    o = analysed(c, beam, "spread", tag="o")
    was = snap(b)
    res = b.beam_results.results
    xd, d = b.beam_results.deflection_curve()
    od = o.beam_results.deflection_curve()
    want = {"M": (res.x, res.M, A.M), "V": (res.x, res.V, A.V), "D": (xd, d * A.scale, A.D)}
    over = {"M": (o.beam_results.results.x, o.beam_results.results.M), "V": (o.beam_results.results.x, o.beam_results.results.V), "D": (od[0], od[1] * A.scale)}
    for k, fn, gn in (("M", b.plot_bmd, o.plot_bmd), ("V", b.plot_sfd, o.plot_sfd), ("D", b.plot_dsd, o.plot_dsd)):
        log = c.record()
        ax = fn(units=arg, label="first")
        p = one(c, k, panels(log), want[k][2])
        held(c, k, p, [(*want[k][:2], None, None)], k == "M")
        if p is not None:
            c.true(f"{k}: distance", p.xlabel == A.x)
            c.true(f"{k}: the axes come back", ax is p.ax)
        gn(ax=ax, units=arg, label="second")
        p = one(c, f"{k} over", panels(log), want[k][2])
        held(c, f"{k} over", p, [(*want[k][:2], None, "first"), (*over[k], None, "second")], k == "M")
        fig = figure(c, fn, units=arg, backend="plotly")
        shown(c, f"{k} figure", fig, [(want[k][2], [(*want[k][:2], None)], k == "M")], A)
    kept(c, b, was)


def figure(c, fn, **kw):
    """a figure of the interactive backend: its panels by row"""
    log = c.record()
    fn(**kw)
    traces = {id(q.result): q.kw for q in log if q.what == "Scatter"}
    rows = {}
    for q in log:
        r = q.kw.get("row")
        p = rows.setdefault(r, dict(curves=[], label=None, up=True, x=None))
        if q.what == "add_trace":
            t = traces[id(q.args[0])]
            p["curves"].append((t["x"], t["y"], t.get("name"), t.get("hovertemplate", "")))
        elif q.what == "update_yaxes":
            p["label"] = q.kw.get("title_text", p["label"])
            if "autorange" in q.kw:
                p["up"] = q.kw["autorange"] != "reversed"
        elif q.what == "update_xaxes":
            p["x"] = q.kw.get("title_text", p["x"])
        elif q.what == "Scatter" and "row" not in q.kw and not p["curves"] and p["label"] is None and p["x"] is None:
            pass
    return {r: p for r, p in rows.items() if p["curves"]}


def shown(c, lab, fig, want, A):
    """each wanted panel (label, curves, sagging) is there, in order of rows"""
    c.true(f"{lab}: as many panels", len(fig) == len(want))
    for label, curves, sag in want:
        mine = [p for p in fig.values() if p["label"] == label]
        c.true(f"{lab}: one panel says {label}", len(mine) == 1)
        if len(mine) != 1:
            continue
        p = mine[0]
        c.true(f"{lab}: {label}: as many curves", len(p["curves"]) == len(curves))
        c.true(f"{lab}: {label}: sagging below", p["up"] != sag)
        for i, (x, y, name) in enumerate(curves):
            q = [q for q in p["curves"] if name is None or q[2] == name]
            c.true(f"{lab}: {label}: curve {i} is there", len(q) == 1)
            if len(q) == 1:
                c.eq(f"{lab}: {label}: curve {i} places", q[0][0], x)
                c.eq(f"{lab}: {label}: curve {i} values", q[0][1], y, scale=10)
                head, _, tail = str(q[0][3]).partition("%{y")
                tail = tail.partition("}")[2].partition("<extra>")[0].strip()
                unit = label[label.rindex("(") + 1:label.rindex(")")] if "(" in label else ""
                c.true(f"{lab}: {label}: hovering over curve {i} reads its value, name and unit", tail == unit and str(q[0][2]) in head)
    c.true(f"{lab}: distance", any(p["x"] == A.x for p in fig.values()) )


def results(c, beam, us, parts=False):
    """the three diagrams in one figure"""
    arg, A = system(c, us)
    b = analysed(c, beam, "spread" if parts else "any", low=1 if parts else -5)
    was = snap(b)
    res = b.beam_results.results
    xd, d = b.beam_results.deflection_curve()
    want = {A.M: (res.x, res.M), A.V: (res.x, res.V), A.D: (xd, d * A.scale)}
    for sb in (True, False) if parts else (False,):
        for sr in (True, False) if parts else (False,):
            t = f"{'beam' if sb else ''} {'reactions' if sr else ''}"
            log = c.record()
            b.plot_results(units=arg, show=False, show_beam=sb, show_reactions=sr)
            ps = panels(log)
            for lab, cur in want.items():
                held(c, f"{t} {lab}", one(c, t, ps, lab), [(*cur, None, None)], lab == A.M)
            c.true(f"{t}: distance", any(p.xlabel == A.x for p in ps))
    fig = figure(c, b.plot_results, units=arg, backend="plotly")
    shown(c, "figure", fig, [(lab, [(*cur, None)], lab == A.M) for lab, cur in want.items()], A)
    kept(c, b, was)
    n = cba.BeamAnalysis([c.const(3)], [c.const(4)], [-1, 0, -1, 0])
    for fn in (n.plot_results, n.plot_bmd, n.plot_sfd, n.plot_dsd, n.plot_reactions):
        log = c.record()
        c.true(f"nothing before the analysis {fn.__name__}", fn() is None and not [q for q in log if q.what in ("plot", "Scatter")])


def envelopes(c, beam, us, n=3):
    """an envelope, and the coincident values"""
    arg, A = system(c, us)
    rs = []
    for i in range(n):
        rs.append(analysed(c, beam, "spread" if i else "any", npts=2, tag=f"e{i}").beam_results)
    env = Envelopes(rs)
    e = lambda q: getattr(env, q)
    for each in (False, True):
        log = c.record()
        env.plot(each=each, units=arg)
        ps = panels(log)
        for lab, k in ((A.M, "M"), (A.V, "V")):
            p = one(c, f"each {each}", ps, lab)
            if p is None:
                continue
            thin = [q for q in p.log if q.what == "plot" and q.kw.get("lw") == 0.5]
            p.curves = [q for i, q in enumerate(p.curves) if not any(q[1] is t.args[1] for t in thin)]
            held(c, f"each {each} {lab}", p, [(env.x, e(k + "max"), "r", None), (env.x, e(k + "min"), "b", None)], k == "M")
            c.true(f"each {each} {lab} analyses", len(thin) == (n if each else 0))
            for i, t in enumerate(thin):
                c.eq(f"each {each} {lab} analysis {i}", t.args[1], getattr(rs[i].results, k) * (1 if k == "V" or not p.up else -1), scale=10)
                c.eq(f"each {each} {lab} analysis {i} places", t.args[0], env.x)
    log = c.record()
    env.plot_coincidents(units=arg, show=False)
    ps = panels(log)
    x = env.x
    for lab, sag, cur in ((A.M, True, [(x, e("Mmax"), None, "Mmax"), (x, e("Mmin"), None, "Mmin")]),
                          (A.V, False, [(x, e("Vmax"), None, "Vmax"), (x, e("Vmin"), None, "Vmin")]),
                          ("Coincident " + A.V, False, [(x, e("Vco_Mmax"), None, "V coincident @ Mmax"), (x, e("Vco_Mmin"), None, "V coincident @ Mmin")]),
                          ("Coincident " + A.M, True, [(x, e("Mco_Vmax"), None, "M coincident @ Vmax"), (x, e("Mco_Vmin"), None, "M coincident @ Vmin")])):
        held(c, f"coincident {lab}", one(c, "coincident", ps, lab), cur, sag)
    twin = {q.result: q.on for q in log if q.what == "twinx"}
    by = {p.label: p.ax for p in ps}
    c.true("the shear with the moment", twin.get(by.get("Coincident " + A.V)) is by.get(A.M))
    c.true("the moment with the shear", twin.get(by.get("Coincident " + A.M)) is by.get(A.V))
    fig = figure(c, env.plot, units=arg, backend="plotly")
    shown(c, "figure", fig, [(A.M, [(x, e("Mmax"), "M max"), (x, e("Mmin"), "M min")], True), (A.V, [(x, e("Vmax"), "V max"), (x, e("Vmin"), "V min")], False)], A)


def bridge(c, beam, coords, pos, us):
    """a vehicle standing on the bridge"""
    arg, A = system(c, us)
    Ls, sup, et = BEAMS[beam]
    n = len(Ls)
    w = [c.real(f"w{i}", 1, 9) for i in range(len(coords))]
    b = cba.BeamAnalysis([c.const(q) for q in Ls], [c.const(q) for q in (5, 3, 4)[:n]], rests(sup), [], eletype=et)
    b.npts = NPTS
    br = cba.BridgeAnalysis(b, cba.Vehicle(np.array([c.const(q - p) for p, q in zip(coords[:-1], coords[1:])]), np.array(w)))
    ref = br.static_vehicle(c.const(pos))
    x = ref.results.x
    for own in (False, True):
        log = c.record()
        if own:
            br.plot_static(c.const(pos), units=arg)
            A_ = A
        else:
            c.true("the results too", br.static_vehicle(c.const(pos), True) is br.ba.beam_results)
            A_ = Axes(*LABEL["SI"])
        ps = panels(log)
        held(c, f"M {own}", one(c, f"static {own}", ps, A_.M), [(x, ref.results.M, None, None)], True)
        held(c, f"V {own}", one(c, f"static {own}", ps, A_.V), [(x, ref.results.V, None, None)])
    L = sum(Ls)
    ax = [pos - q for q in coords]
    on = [q for q in ax if 0 <= q <= L]
    for lab in (A.M, A.V):
        p = [p for p in ps if p.label == lab][0]
        c.eq(f"axles marked {lab}", [q.args[0] for q in p.log if q.what == "axvline"], on)
    c.eq("arrows", [q.kw["xy"][0] for q in log if q.what == "annotate" and q.kw.get("zorder") == 9], on)
    for i, q in enumerate([q for q in log if q.what == "annotate" and q.kw.get("zorder") == 9]):
        c.lt(f"arrow {i} points down", q.kw["xy"][1], q.kw["xytext"][1])
    c.eq("wheels", [q.args[0][0] for q in log if q.what == "Circle" and q.kw.get("gid") == "vehicle_wheel"], ax)


def crossing(c, beam, coords, step, us):
    """a run: its envelope with the history of reactions, each frame of the film, the comparison with another"""
    arg, A = system(c, us)
    Ls, sup, et = BEAMS[beam]
    n = len(Ls)
    k = c.const
    w = c.real("w", 1, 9)
    b = cba.BeamAnalysis([k(q) for q in Ls], [k(q) for q in (5, 3, 4)[:n]], rests(sup), [], eletype=et)
    b.npts = 2
    br = cba.BridgeAnalysis(b, cba.Vehicle(np.array([k(q - p) for p, q in zip(coords[:-1], coords[1:])]), np.array([w] * len(coords))))
    env = br.run_vehicle(k(step))
    log = c.record()
    br.plot_envelopes(env, units=arg)
    ps = panels(log)
    e = lambda q: getattr(env, q)
    for lab, q in ((A.M, "M"), (A.V, "V")):
        held(c, f"run {lab}", one(c, "run", ps, lab), [(env.x, e(q + "max"), "r", None), (env.x, e(q + "min"), "b", None)], q == "M")
    for i in range(env.nsup):
        p = one(c, "run", ps, f"Reaction {i + 1}{A.react}")
        held(c, f"reaction {i}", p, [(br.pos, env.Rmax[i, :], "r", None), (br.pos, env.Rmin[i, :], "b", None)])
        if p is None:
            continue
        ext = [(q[0][0], q[1][0]) for q in p.curves if size(q[0]) == 1]
        c.true(f"reaction {i} extremes marked", len(ext) == 2)
        c.eq(f"reaction {i} extremes", [q[1] for q in ext], [env.Rmaxval[i], env.Rminval[i]], scale=10)
    c.true("front axle", any(p.xlabel == A.pos for p in ps))
    frames(c, br, k(step), env)
    # another vehicle: ratios
    w2 = c.real("w2", 1, 9)
    br.add_vehicle(np.array([]), np.array([w2]))
    env2 = br.run_vehicle(k(step))
    rat = br.envelopes_ratios(env, env2)
    log = c.record()
    br.plot_ratios(rat, units=arg)
    ps = panels(log)
    for lab, q in (("Bending Moment Ratio", "M"), ("Shear Force Ratio", "V")):
        p = one(c, "ratios", ps, lab)
        held(c, f"ratios {lab}", p, [(rat["x"], rat[q + "max"], "r", None), (rat["x"], rat[q + "min"], "b", None)])
        c.true(f"ratios {lab} not turned over", p is not None and p.up)
    for q in ("max", "min"):
        p = one(c, "ratios", ps, f"Reaction Ratio [{q}]")
        bar = [t for t in p.log if t.what == "bar"] if p is not None else []
        c.true(f"ratios {q} bars", len(bar) == 1)
        for t in bar:
            c.eq(f"ratios {q}", t.args[1], [rat[f"R{q}{i}"] for i in range(env.nsup)])


def frames(c, br, step, env):
    """drawn as it goes, and the envelope with it"""
    A = Axes(*LABEL["SI"])
    log = c.record()
    again = br.run_vehicle(step, plot_env=True, plot_all=True)
    c.eq("the same envelope", again.Mmax, env.Mmax)
    ps = panels(log)
    run = [p for p in ps if p.label in (A.M, A.V) and sum(size(q[0]) > 2 for q in p.curves) == len(br.vResults) and len(br.vResults) != 2]
    if len(br.vResults) > 2:
        c.true("a curve for each position", len(run) == 2)
    for p in run:
        cur = [q for q in p.curves if size(q[0]) > 2]
        for i, (q, r) in enumerate(zip(cur, br.vResults)):
            y = r.results.M if p.label == A.M else r.results.V
            c.eq(f"position {i} {p.label} places", q[0], r.results.x)
            c.eq(f"position {i} {p.label}", np.array(list(q[1])) * (-1 if p.label == A.M and p.up else 1), y, scale=10)
    rest = [p for p in ps if not any(p is q for q in run)]
    for lab, q in ((A.M, "M"), (A.V, "V")):
        held(c, f"envelope with it {lab}", one(c, "with it", rest, lab), [(env.x, getattr(env, q + "max"), "r", None), (env.x, getattr(env, q + "min"), "b", None)], q == "M")


def joined(c, beam, steps, us, last=False):
    """the envelope of several runs: its largest and smallest reactions as bars, support by support"""
    arg, A = system(c, us)
    Ls, sup, et = BEAMS[beam]
    n = len(Ls)
    k = c.const
    b = cba.BeamAnalysis([k(q) for q in Ls], [k(q) for q in (5, 3, 4)[:n]], rests(sup), [], eletype=et)
    b.npts = 2
    env = None
    for i, s in enumerate(steps):
        br = cba.BridgeAnalysis(b, cba.Vehicle(np.array([k(i + 1)]), np.array([c.real(f"w{i}", 1, 9), k(3)])))
        e = br.run_vehicle(k(s))
        if env is None:
            env = e
        elif last:
            e.augment(env)
            env = e
        else:
            env.augment(e)
    log = c.record()
    br.plot_envelopes(env, units=arg)
    ps = panels(log)
    for lab, q in ((A.M, "M"), (A.V, "V")):
        held(c, lab, one(c, "joined", ps, lab), [(env.x, getattr(env, q + "max"), "r", None), (env.x, getattr(env, q + "min"), "b", None)], q == "M")
    for q in ("max", "min"):
        p = one(c, "joined", ps, f"Reactions [{q}]{A.react}")
        if p is None:
            continue
        bars = [t for t in p.log if t.what == "bar"]
        c.true(f"{q}: bars", len(bars) == 1)
        for t in bars:
            c.eq(f"{q}: values", t.args[1], getattr(env, f"R{q}val"))
            c.eq(f"{q}: places", t.args[0], list(range(env.nsup)))
        tick = [t for t in p.log if t.what == "set_xticks"]
        name = [t for t in p.log if t.what == "set_xticklabels"]
        c.true(f"{q}: named", len(tick) == 1 and len(name) == 1 and list(name[0].args[0]) == [f"R{i + 1}" for i in range(env.nsup)])
        for t in tick:
            c.eq(f"{q}: names at their bars", t.args[0], list(range(env.nsup)))


def film(c, beam, coords, step, us):
    """the animation: each frame is that position, with what has been reached so far behind it"""
    arg, A = system(c, us)
    Ls, sup, et = BEAMS[beam]
    n = len(Ls)
    k = c.const
    w = c.real("w", 1, 9)
    b = cba.BeamAnalysis([k(q) for q in Ls], [k(q) for q in (5, 3, 4)[:n]], rests(sup), [], eletype=et)
    b.npts = 2
    br = cba.BridgeAnalysis(b, cba.Vehicle(np.array([k(q - p) for p, q in zip(coords[:-1], coords[1:])]), np.array([w] * len(coords))))
    log = c.record()
    br.animate(k(step), units=arg)
    film = [q for q in log if q.what == "FuncAnimation"][0]
    c.true("a frame for each position", film.kw["frames"] == len(br.pos) == len(br.vResults))
    update = film.args[1]
    hiM = loM = hiV = loV = None
    for i in range(len(br.pos)):
        log = c.record()
        update(i)
        ps = panels(log)
        r = br.vResults[i].results
        M, V = list(-r.M), list(r.V)
        hiM = M if i == 0 else [max(p, q) for p, q in zip(hiM, M)]
        loM = M if i == 0 else [min(p, q) for p, q in zip(loM, M)]
        hiV = V if i == 0 else [max(p, q) for p, q in zip(hiV, V)]
        loV = V if i == 0 else [min(p, q) for p, q in zip(loV, V)]
        for lab, now, hi, lo in ((A.M, M, hiM, loM), (A.V, V, hiV, loV)):
            p = one(c, f"frame {i}", ps, lab)
            if p is None:
                continue
            s = -1 if not p.up else 1
            red = [q for q in p.curves if q[2].startswith("r")]
            c.true(f"frame {i} {lab} one curve now", len(red) == 1)
            for q in red:
                c.eq(f"frame {i} {lab}", q[1], [s * t for t in now], scale=10)
                c.eq(f"frame {i} {lab} places", q[0], r.x)
            area = [q for q in p.log if q.what == "fill_between"]
            c.true(f"frame {i} {lab} reached so far", len(area) == 1)
            for q in area:
                c.eq(f"frame {i} {lab} least so far", q.args[1], [s * t for t in (lo if s == 1 else lo)], scale=10)
                c.eq(f"frame {i} {lab} most so far", q.args[2], [s * t for t in hi], scale=10)
        c.eq(f"frame {i} wheels", [q.args[0][0] for q in log if q.what == "Circle" and q.kw.get("gid") == "vehicle_wheel"], [br.pos[i] - q for q in coords])


def influence(c, beam, effect, us):
    arg, A = system(c, us)
    Ls, sup, et = BEAMS[beam]
    L = [c.const(q) for q in Ls]
    poi = c.const(F(3, 2))
    from pycba.inf_lines import InfluenceLines
    il = InfluenceLines(L, [c.real("EI", 1, 9)] * len(L), rests(sup), eletype=et)
    il.create_ils(step=c.const(F(1, 2)), load_val=c.real("P", 1, 4))
    x, y = il.get_il(poi, effect)
    for own in (True, False):
        log = c.record()
        ax = None if own else __import__("matplotlib.pyplot").pyplot.figure().gca()
        il.plot_il(poi, effect, ax=ax, units=arg)
        p = one(c, f"{own}", panels(log), "Influence Ordinate")
        held(c, f"{own}", p, [(x, y, None, None)])
        c.true(f"{own}: as it is", p is not None and p.up and p.xlabel == A.x)


def collapse(c, us, moving=False, same=False, shape=False):
    """the pictures of a nonlinear analysis, whatever it found"""
    from pycba.nonlinear import NonlinearResult, HingeEvent
    arg, A = system(c, us)
    k = c.const
    x = [k(F(q)) for q in (0, 1, 2, 3, 5)]
    m = [c.real(f"m{i}", -9, 9) for i in range(5)]
    h = [[c.real(f"h{j}{i}", -9, 9) for i in range(5)] for j in range(2)]
    # the second is the largest: the scale of its own is then no matter of cases
    d = [k(0) if i % 2 else c.real(f"d{i}", *((1, 2) if i == 2 else (-1, 1))) for i in range(10)]
    lam = c.real("lam", 1, 4)
    ev = [HingeEvent(c.real("l0", 0, 1), x[1], 1, "initial_yield"), HingeEvent(c.real("l1", 1, 2), x[1], 1, "plastic_hinge"),
          HingeEvent(c.real("l2", 2, 3), x[3], 3, "initial_yield"), HingeEvent(lam, x[3], 3, "plastic_hinge")]
    down = bool(c.choice("collapsed", 2))
    if shape:
        return deformed(c, NonlinearResult(lam, down, ev, np.array(x), np.array(m), np.zeros((4, 2)), np.array([x[0], x[4]]), [], [], np.array(d)), x, d, arg, A)
    r = NonlinearResult(lam, down, ev, np.array(x), np.array(m), np.zeros((4, 2)), np.array([x[0], x[4]]), [k(1), k(2)], [np.array(q) for q in h], np.array(d))
    Mp = c.real("Mp", 1, 9)
    log = c.record()
    ax = r.plot_moments(Mp=Mp, units=arg)
    p = one(c, "moments", panels(log), A.M)
    if p is not None:
        thin = [q for q in p.log if q.what == "plot" and q.kw.get("lw") == 0.5]
        p.curves = [q for q in p.curves if not any(q[1] is t.args[1] for t in thin)]
        held(c, "moments", p, [(x, m, None, None)], True)
        c.true("each snapshot", len(thin) == 2)
        for j, t in enumerate(thin):
            c.eq(f"snapshot {j}", t.args[1], h[j])
            c.eq(f"snapshot {j} places", t.args[0], x)
        c.eq("strength", sorted([q.args[0] for q in p.log if q.what == "axhline"], key=lambda q: 0 if q is Mp else 1), [Mp, -Mp])
        c.true("distance", p.xlabel == A.x)
        if same:
            r.plot_moments(ax=ax, units=arg)
            p = one(c, "again", panels(log), A.M)
            c.true("again: sagging still below", p is not None and not p.up)
    log = c.record()
    r.plot_hinge_history(moving=moving, units=arg)
    ps = [p for p in panels(log) if any(q.what == "scatter" for q in p.log)]
    c.true("history: one panel", len(ps) == 1)
    for p in ps:
        c.true("history: what it shows", p.xlabel == A.x and p.label == ("Front axle position" + (f" ({A.length})" if A.length else "") if moving else "Load factor $\\lambda$"))
        for t, name in (("initial_yield", "Initial yield"), ("plastic_hinge", "Plastic hinge")):
            q = [q for q in p.log if q.what == "scatter" and q.kw.get("label") == name]
            c.true(f"history: {name}", len(q) == 1)
            for s in q:
                c.eq(f"history: {name} places", s.args[0], [e.location for e in ev if e.event_type == t])
                c.eq(f"history: {name} stages", s.args[1], [e.load_factor for e in ev if e.event_type == t])
    log = c.record()
    veh = cba.Vehicle(np.array([k(F(1, 2)), k(3)]), np.array([c.real("P0", 1, 9), c.real("P1", 1, 9), c.real("P2", 1, 9)]))
    r.plot_beam_state(vehicle=veh, units=arg)
    on = [lam - q for q in veh.axle_coords if c.fork(lam - q >= 0) and c.fork(lam - q <= x[-1])]
    c.eq("axles at the end", [q.kw["xy"][0] for q in log if q.what == "annotate" and "xytext" in q.kw], on)
    for i, q in enumerate(q for q in log if q.what == "annotate" and "xytext" in q.kw):
        c.lt(f"axle {i} acts downwards", q.kw["xy"][1], q.kw["xytext"][1])
    for t, name in (("initial_yield", "Initial yield"), ("plastic_hinge", "Plastic hinge")):
        q = [q for q in log if q.what == "scatter" and q.kw.get("label") == name]
        c.true(f"state: {name}", len(q) == 1)
        for s in q:
            c.eq(f"state: {name} places", s.args[0], [e.location for e in ev if e.event_type == t])


def deformed(c, r, x, d, arg, A):
    log = c.record()
    s = c.real("shown", 1, 9)
    r.plot_collapse(scale=s, units=arg)
    cur = [q for q in log if q.what == "plot" and size(q.args[0]) > 2]
    c.true("one deflected shape", len(cur) == 1)
    for q in cur:
        c.eq("shape places", q.args[0], x)
        c.eq("shape", q.args[1], [s * t for t in d[::2]])
    dot = [q for q in log if q.what == "scatter" and q.kw.get("label") == "Plastic hinge"]
    c.true("hinges marked once each", len(dot) == 1)
    for q in dot:
        c.eq("hinge places", q.args[0], [x[1], x[3]])
        c.eq("hinges on the shape", q.args[1], [s * d[2], s * d[6]])
    log = c.record()
    r.plot_collapse(units=arg)
    cur = [q for q in log if q.what == "plot" and size(q.args[0]) > 2]
    for q in cur:
        for i in range(5):
            c.eq(f"own scale {i}", q.args[1][i] * d[2], q.args[1][1] * d[2 * i])
        c.lt("own scale positive", 0, q.args[1][1])


def vehicle(c, n, us):
    arg, A = system(c, us)
    s = [c.real(f"s{i}", F(1, 2), 4) for i in range(n - 1)]
    w = [c.real(f"w{i}", 1, 9) for i in range(n)]
    v = cba.Vehicle(np.array(s), np.array(w))
    log = c.record()
    cba.plot_vehicle(v, units=arg, show=False)
    arr = [q for q in log if q.what == "annotate" and "xytext" in q.kw]
    at = [sum(s[:i], c.const(0)) for i in range(n)]
    c.eq("an arrow for each axle", [q.kw["xy"][0] for q in arr], at)
    c.eq("upright", [q.kw["xytext"][0] for q in arr], at)
    for i, q in enumerate(arr):
        c.lt(f"arrow {i} acts downwards", q.kw["xy"][1], q.kw["xytext"][1])
        for j in range(i):
            h, g = q.kw["xytext"][1], arr[j].kw["xytext"][1]
            c.true(f"arrows {i} {j} in order of weight", (h - g) * (w[i] - w[j]) >= 0)
    tx = [q for q in log if q.what == "text"]
    c.true("a label for each axle", len(tx) == n)
    for i, q in enumerate(tx):
        t = str(q.args[2])
        c.true(f"label {i} unit", t.endswith(A.force))
        c.eq(f"label {i} place", q.args[0], at[i])
        c.eq(f"label {i}", c.num(t[:len(t) - len(A.force)].strip()), w[i], scale=1e2)
    t = [str(q.args[0]) for q in log if q.what == "set_title"]
    c.true("a title", len(t) == 1)
    import re
    m = re.search(r"ΣW = (\S+) ?(\S*), wheelbase = (\S+) ?(\S*)", t[0])
    c.true("title units", (m.group(2), m.group(4)) == (A.force, A.length))
    c.eq("total", c.num(m.group(1)), sum(w, c.const(0)), scale=1e2)
    c.eq("wheelbase", c.num(m.group(3)), at[-1], scale=1e2)
    c.raises("something else", TypeError, cba.plot_vehicle, (1, 2))


def section(c, kind):
    """the stiffness drawn is the stiffness"""
    from pycba.section import SectionEI
    k = c.const
    v = [c.real(f"v{i}", 1, 9) for i in range(4)]
    s = SectionEI()
    n = 6
    if kind == "steps":
        s.add_segment("const", [k(0), k(2)], v[0])
        s.add_segment("const", [k(2), k(5)], v[1])
        at = lambda i, x: v[i]
        cuts = [0, 2, 5]
    elif kind == "linear":
        s.add_segment("linear", [k(0), k(2)], [v[0], v[1]])
        s.add_segment("linear", [k(2), k(5)], [v[2], v[3]])
        at = lambda i, x: v[0] + (v[1] - v[0]) * x / 2 if i == 0 else v[2] + (v[3] - v[2]) * (x - 2) / 3
        cuts = [0, 2, 5]
    else:
        s.add_segment("const", [k(0), k(2)], v[0])
        s.add_segment("poly", [k(2), k(3), k(4)], [v[1], v[2], v[3]])
        at = lambda i, x: v[0] if i == 0 else v[1] * (x - 3) * (x - 4) / 2 - v[2] * (x - 2) * (x - 4) + v[3] * (x - 2) * (x - 3) / 2
        cuts = [0, 2, 4]
    log = c.record()
    s.plot(n=n)
    cur = [q for q in log if q.what == "plot"]
    got = [q for q in cur if list(q.args[0])[0] != list(q.args[0])[-1]]
    up = [q for q in cur if list(q.args[0])[0] == list(q.args[0])[-1]]
    c.true("a curve for each piece", len(got) == len(cuts) - 1)
    for i, q in enumerate(got):
        xs, ys = list(q.args[0]), list(q.args[1])
        c.eq(f"piece {i} ends", [xs[0], xs[-1]], [cuts[i], cuts[i + 1]])
        for j, (x, y) in enumerate(zip(xs, ys)):
            c.eq(f"piece {i} point {j}", y, at(i, x))
    jump = c.fork(got[0].args[1][-1] != got[1].args[1][0])
    if jump:
        c.assume(abs(got[0].args[1][-1] - got[1].args[1][0]) > F(1, 100))
    c.true("a step is drawn if there is one", len(up) == (1 if jump else 0))
    for q in up:
        c.eq("the step", list(q.args[0]) + list(q.args[1]), [cuts[1], cuts[1], got[0].args[1][-1], got[1].args[1][0]])
    c.raises("nothing to draw", ValueError, SectionEI().plot)


def drape(c, us, kinds, sup, cells=None):
    """the tendon drawn is the tendon, lowest where it is lowest, and the loads drawn with it are its equivalent loads"""
    from pycba import prestress as ps
    from harness.C19 import tendon, along
    from harness.C26 import said
    arg, A = system(c, us)
    Ls = [4, 3][:len(kinds)]
    L = [c.const(q) for q in Ls]
    x0 = [sum(Ls[:i]) for i in range(len(Ls) + 1)]
    b = cba.BeamAnalysis(L, [c.const(5)] * len(L), rests(sup), [])
    P = c.real("P", 1, 9)
    prof, pieces, given = [], [], None
    for i, kd in enumerate(kinds):
        if kd is None:
            prof.append(None)
            pieces.append(None)
            given = 0
            continue
        p, q, given = tendon(c, f"{i}", kd, L[i], "0-" if i == 0 else "-0", given=given, mid="s", cells=cells)
        prof.append(p)
        pieces.append(q)
    log = c.record()
    ps.plot_tendon(b, P, prof, units=arg)
    mine = [p for p in panels(log) if p.label and p.label.startswith("Tendon eccentricity")]
    c.true("one panel of the tendon", len(mine) == 1 and mine[0].label.startswith("Tendon eccentricity" + (f" ({A.length})" if A.length else "")))
    p = mine[0]
    cur = [q for q in p.curves if size(q[0]) > 2]
    c.true("a curve for each tendon", len(cur) == len(kinds) - kinds.count(None))
    c.true("below the centroid is below", not p.up)
    cur = iter(cur)
    for i, q in enumerate(pieces):
        if q is None:
            continue
        xs, es = next(cur)[:2]
        xs, es = list(xs), list(es)
        c.eq(f"tendon {i} ends", [xs[0], xs[-1]], [x0[i], x0[i + 1]])
        for j in range(0, len(xs), 6):
            c.eq(f"tendon {i} at {j}", es[j], along(q, xs[j] - x0[i])[0])
    LM = ps.equivalent_loads(b, P, prof)
    last = [q for q in log if q.what == "set_title" and str(q.args[0]).startswith("Equivalent")]
    c.true("a panel of loads", len(last) == 1)
    tx = [q for q in log if q.what == "text" and q.on is last[0].on]
    n = 0
    for r in LM:
        if r[1] != 2:
            continue
        at = x0[r[0] - 1] + r[3]
        t = [said(c, q.args[2], A.force) for q in tx if c.fork(abs(q.args[0] - at) <= F(1, 10 ** 6)) and str(q.args[2]).endswith(A.force) and not str(q.args[2]).isalpha()]
        t = [q for q in t if q]
        c.true(f"force {n} has a label", len(t) >= 1)
        if t:
            c.eq(f"force {n}", t[0][0] * t[0][0], r[2] * r[2], scale=100)
        n += 1


def patterns(c, beam):
    """bars over the loaded spans of each case; responses and their envelopes as given"""
    from pycba import load_cases as lc
    Ls, sup, et = BEAMS[beam]
    n = len(Ls)
    x0 = [sum(Ls[:i]) for i in range(n + 1)]
    b = cba.BeamAnalysis([c.const(q) for q in Ls], [c.const(q) for q in (5, 3, 4)[:n]], rests(sup), [], eletype=et)
    cases = lc.LoadCases(b)
    w = c.real("w", 1, 9)
    on = [[i for i in range(n) if (m >> i) & 1] for m in range(1, 2 ** n)]
    for j, s in enumerate(on):
        cases.add(f"case {j}", [[i + 1, 1, w] for i in s])
    log = c.record()
    lc.plot_load_patterns(b, list(cases), show=False)
    bars = [q for q in log if q.what == "broken_barh"]
    rows = {}
    for q in bars:
        rows.setdefault(float(q.args[1][0] + q.args[1][1] / 2), []).append(q)
    c.true("a row for each case", sorted(rows) == list(range(len(on))))
    for j, s in enumerate(on):
        base = [q for q in rows[j] if q.kw.get("facecolors") == "0.92"]
        load = [q for q in rows[j] if q.kw.get("facecolors") != "0.92"]
        c.true(f"case {j} bars", len(base) == 1 and len(load) == 1)
        c.eq(f"case {j} spans", [list(q) for q in base[0].args[0]], [[x0[i], Ls[i]] for i in range(n)])
        c.eq(f"case {j} loaded", sorted([float(q[0]), float(q[1])] for q in load[0].args[0]), [[x0[i], Ls[i]] for i in s])
    part_loads(c, lc, b, Ls, x0, w)
    names = [q.args[0] for q in log if q.what == "set_yticklabels"]
    c.true("names", [list(q) for q in names] == [[f"case {j}" for j in range(len(on))]])
    if len(on) < 2:
        return
    x = np.array([c.const(q) for q in (0, 1, 2)])
    B = np.array([[c.real(f"b{j}{i}", -5, 5) for i in range(3)] for j in range(2)])
    lo, hi = np.array([c.real(f"lo{i}", -9, 0) for i in range(3)]), np.array([c.real(f"hi{i}", 0, 9) for i in range(3)])
    log = c.record()
    lc.plot_response_envelope(x, B, lo, hi, b, list(cases)[:2], show=False)
    got = {q.kw.get("label"): q for q in log if q.what == "plot"}
    c.true("curves", set(got) == {"case 0", "case 1", "Additive negative envelope", "Additive positive envelope"})
    for lab, y in (("case 0", B[0]), ("case 1", B[1]), ("Additive negative envelope", lo), ("Additive positive envelope", hi)):
        c.eq(f"{lab} places", got[lab].args[0], x)
        c.eq(lab, got[lab].args[1], y)


def part_loads(c, lc, b, Ls, x0, w):
    """a load over part of a span is shown over that part, what runs past the span's end not"""
    n = len(Ls)
    L = Ls[n - 1]
    a = c.real("a", F(1, 8), F(3, 8)) * L
    d = c.real("d", F(1, 8), F(1, 2)) * L
    z = c.const(0)
    cases = lc.LoadCases(b)
    want = []
    for nm, rows, bars in (("part", [[n, 3, w, a, d]], [[x0[n - 1] + a, d]]),
                           ("ramp", [[n, 5, w, z, a, d]], [[x0[n - 1] + a, d]]),
                           ("over", [[1, 3, w, c.const(Ls[0]) / 2, c.const(2 * Ls[0])], [n, 5, z, w]], [[Ls[0] / c.const(2), Ls[0] / c.const(2)], [x0[n - 1], L]]),
                           ("two", [[1, 3, w, z, d / 4], [n, 1, w]], [[z, d / 4], [x0[n - 1], L]]),
                           ("point", [[n, 2, w, a]], [[x0[n - 1], L]])):
        cases.add(nm, rows)
        want.append(bars)
    log = c.record()
    lc.plot_load_patterns(b, list(cases), show=False)
    load = [q for q in log if q.what == "broken_barh" and q.kw.get("facecolors") != "0.92"]
    c.true("a bar for each part", len(load) == len(want))
    for j, (q, bars) in enumerate(zip(load, want)):
        c.true(f"part {j} bars", len(list(q.args[0])) == len(bars))
        c.eq(f"part {j} places", [list(t) for t in q.args[0]], bars)


def modes(c, us):
    """mode shapes drawn at their places, to unit amplitude"""
    from pycba.modal import ModalResults
    arg, A = system(c, us)
    n = 3
    x = np.array([c.const(q) for q in (0, 1, 3)])
    phi = np.array([[c.real(f"p{i}{j}", -3 + 2 * j, 3 - 2 * j) if i in (0, 4) else c.const(0) for j in range(2)] for i in range(2 * n)])
    sg = c.pick("sign", [1, -1])
    for j in range(2):
        phi[2, j] = c.real(f"a{j}", F(1 + j, 2), 3) * sg
    b = cba.BeamAnalysis([c.const(4)], [c.const(3)], [-1, 0, -1, 0])
    r = ModalResults(np.array([c.const(2), c.const(7)]), phi, x, beam=b.beam)
    log = c.record()
    m = c.choice("which", 3)
    r.plot_modes(m if m < 2 else [0, 1], units=arg)
    p = one(c, "modes", panels(log), "Mode shape")
    which = [m] if m < 2 else [0, 1]
    held(c, "modes", p, [(x, r.mode_shape(j)[1], None, None) for j in which])
    got = [q for q in p.curves if size(q[0]) > 2]
    for j, q in zip(which, got):
        c.true(f"mode {j} labelled", q[3].startswith(f"Mode {j + 1}:"))
        for i in range(n):
            c.eq(f"mode {j} is that mode {i}", q[1][i] * phi[2, j], q[1][1] * phi[2 * i, j])
        c.le(f"mode {j} amplitude", q[1], 1)
        c.le(f"mode {j} least", -1, q[1])
        big = False
        for t in q[1]:
            big = (t == 1) | big
        c.true(f"mode {j} unit amplitude", big)
    log = c.record()
    r.plot_results(units=arg, **({} if m == 2 else dict(modes=m)))
    ps = panels(log)
    w = one(c, "results", ps, "Mode shape")
    held(c, "results", w, [(x, r.mode_shape(j)[1], None, f"Mode {j + 1}: {r.f[j]:.3g} Hz") for j in which])
    c.true("the beam is drawn above", any(size(q.curves) > 0 for q in ps if q is not w))


def preferences(c):
    """the units and backend set stay set until set again, and a wrong name changes nothing"""
    first, bk = U.get_units(), cba.get_backend()
    try:
        for name, lab in LABEL.items():
            u = cba.set_units(name)
            c.true(f"{name}: set", U.get_units() is u is U.resolve(None) is U.resolve(name))
            c.true(f"{name}: what it says", (u.force, u.length, u.moment, u.disp_label) == lab[:4])
            c.eq(f"{name}: scale", u.disp_scale, lab[4])
            c.raises(f"{name}: unknown", KeyError, cba.set_units, "furlongs")
            c.true(f"{name}: still set", U.get_units() is u)
            A = Axes(*lab)
            b = analysed(c, "one", tag=name)
            log = c.record()
            b.plot_bmd()
            held(c, f"{name} default", one(c, f"{name} default", panels(log), A.M), [(b.beam_results.results.x, b.beam_results.results.M, None, None)], True)
            o = "US-in" if name != "US-in" else "SI"
            log = c.record()
            b.plot_dsd(units=o)
            xd, d = b.beam_results.deflection_curve()
            held(c, f"{name} asked {o}", one(c, f"{name} asked", panels(log), Axes(*LABEL[o]).D), [(xd, d * LABEL[o][4], None, None)])
            c.true(f"{name}: asking sets nothing", U.get_units() is u)
        s = c.real("scale", 1, 50)
        own = U.UnitSystem(name="own", disp_scale=s)
        c.true("own", cba.set_units(own) is own and U.get_units() is own)
        for a, q in (("si", "SI"), (" kN m ", "SI"), ("kn_m", "SI"), ("US", "US-ft"), ("kip ft", "US-ft"), ("n_mm", "N-mm"), ("Kip-In", "US-in"), ("dimensionless", "none"), ("", "none")):
            c.true(f"also called {a!r}", U.resolve(a) is U.resolve(q))
        cba.set_backend("plotly")
        c.raises("unknown backend", ValueError, cba.set_backend, "crayon")
        c.true("backend still set", cba.get_backend() == "plotly")
        b = analysed(c, "one", tag="bk")
        log = c.record()
        b.plot_bmd()
        c.true("the backend set is used", any(q.what == "Scatter" for q in log) and not any(q.what == "invert_yaxis" for q in log))
        log = c.record()
        b.plot_bmd(backend="matplotlib")
        c.true("the one asked for is used", not any(q.what == "Scatter" for q in log) and any(q.what == "plot" for q in log))
        c.raises("unknown backend asked for", ValueError, b.plot_bmd, backend="crayon")
    finally:
        U.set_units(first)
        cba.set_backend(bk)


def configs(tier):
    out = []

    def add(tag, fn, merge=False, **kw):
        out.append(dict(name=f"{fn.__name__}-{tag}", fn=fn, args=kw, cost=1, merge=merge))
    big = tier != "quick"
    units = ["default", "own", "US-ft", "N-mm", "none"]
    for i, b in enumerate(BEAMS):
        for j, u in enumerate(units):
            if big or j == i or u == "own":
                add(f"{b}-{u}", diagrams, beam=b, us=u)
                add(f"{b}-{u}", results, beam=b, us=u)
            if big or j == (i + 1) % 5:
                add(f"{b}-{u}-parts", results, beam=b, us=u, parts=True)
    for b, u in (("one", "default"), ("two", "US-ft"), ("cant", "none")):
        add(f"{b}-{u}", envelopes, merge=True, beam=b, us=u, n=2)
    for b in ("one", "two", "hinge"):
        for k, (co, pos) in enumerate((((0,), 2), ((0, 2), 3), ((0, 2), F(1, 2)), ((0, 2, 3), 7), ((0, 1), 12))):
            add(f"{b}-{k}", bridge, beam=b, coords=co, pos=pos, us=units[k])
    add("one", crossing, beam="one", coords=(0, 1), step=3, us="default")
    add("two", crossing, beam="two", coords=(0, 2), step=3, us="US-ft")
    add("cant", crossing, beam="cant", coords=(0,), step=2, us="none")
    add("two", joined, beam="two", steps=(3, 2), us="default")
    add("cant", joined, beam="cant", steps=(3, 2), us="US-ft")
    add("one", joined, beam="one", steps=(4, 3), us="none")
    add("two-last", joined, beam="two", steps=(3, 2), us="own", last=True)
    add("one-last", joined, beam="one", steps=(3, 2), us="N-mm", last=True)
    add("one", film, beam="one", coords=(0, 1), step=3, us="default")
    add("two", film, beam="two", coords=(0, 2), step=4, us="N-mm")
    for b in ("two", "hinge"):
        for e in "MVR":
            add(f"{b}-{e}", influence, beam=b, effect=e, us="US-ft" if e == "V" else "default")
    for u in units if big else ("default", "US-ft"):
        add(f"{u}-shape", collapse, us=u, shape=True)
        for mv in (False, True):
            add(f"{u}-{'moving' if mv else 'static'}", collapse, us=u, moving=mv)
    add("again", collapse, us="default", same=True)
    for n, u in ((1, "default"), (2, "US-ft"), (3, "none")):
        add(f"{n}", vehicle, n=n, us=u)
    for k in ("steps", "linear", "poly"):
        add(k, section, kind=k)
    add("par", drape, us="default", kinds=["par"], sup="pp")
    add("two", drape, us="US-ft", kinds=["par", "par"], sup="ppp")
    add("none", drape, us="none", kinds=["par", None], sup="ppp")
    add("harp", drape, us="default", kinds=["harp"], sup="pp", cells=(1,))
    for b in ("one", "two", "three"):
        add(b, patterns, beam=b)
    for u in ("default", "US-ft"):
        add(u, modes, us=u)
    add("all", preferences)
    return out
