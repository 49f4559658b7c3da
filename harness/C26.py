"""the schematic shows the beam and the loads that are analysed"""
from fractions import Fraction as F
import os
import re
import tempfile
import numpy as np
import pycba as cba
from pycba.render import BeamPlotter
from pycba.load_cases import LoadCombination
from harness.scen import rests

NPTS = 4
NUMBER = r"\d+(?:\.\d+)?"
SUP = {"p": (-1, 0), "f": (-1, -1), "h": (0, 0), "g": (0, -1), "s": ("k", 0), "t": (0, "k"), "q": (-1, "k")}
#            spans       supports  member types
BEAMS = {"one": ([6], "pp", [1]),
         "cant": ([4], "fh", [1]),
         "tnac": ([4], "hf", [1]),
         "built": ([5], "ff", [1]),
         "two": ([6, 4], "ppp", [1, 1]),
         "over": ([3, 5, 2], "hpph", [1, 1, 1]),
         "propped": ([5, 4], "fpp", [1, 1]),
         "hinge": ([3, 2, 4], "fhpp", [2, 1, 1]),
         "egnih": ([4, 2, 3], "pphf", [1, 1, 3]),
         "gerber": ([4, 2, 4], "phhp", [1, 1, 1]),
         "guide": ([4, 3], "gpp", [1, 1]),
         "sprung": ([4, 3], "psp", [1, 1]),
         "column": ([4, 3], "pqp", [1, 1]),
         "twist": ([4, 3], "pth", [1, 1]),
         "atpin": ([4, 3], "ppf", [2, 1]),
         "link": ([3, 2, 4], "fhhf", [1, 4, 1])}
BEAMS["gerber"] = ([4, 2, 4, 3], "pphpp", [1, 2, 1, 1])


def model(c, beam, sym):
    Ls, sup, et = BEAMS[beam]
    L = [c.real(f"L{i}", 1, 9) if sym else c.const(v) for i, v in enumerate(Ls)]
    R = []
    for ch in sup:
        R += [c.const(5) if v == "k" else v for v in SUP[ch]]
    return L, R, sup, et


def loads(c, L, kind):
    """one of every kind of load; a partial one may run past the end of its span, where nothing is loaded"""
    n = len(L)
    k = c.const
    w = [c.real(f"w{i}", -4, 4) for i in range(3)]
    a = c.real("a", 0.1, 0.6)
    e = c.real("e", 0.1, 0.35)
    if kind == "udl":
        return [[i + 1, 1, w[i % 3]] for i in range(n)]
    if kind == "points":
        return [[1, 2, w[0], a * L[0]], [n, 2, w[1], e * L[-1]], [n, 4, w[2], a * L[-1]], [1, 4, w[1], e * L[0]]]
    if kind == "part":
        return [[1, 3, w[0], a * L[0], e * L[0]], [n, 3, w[1], e * L[-1], a * L[-1]]]
    if kind == "past":
        return [[n, 3, w[0], a * L[-1], L[-1]], [1, 5, w[1], w[2]]]
    if kind == "trap":
        return [[1, 5, w[0], w[1], a * L[0], e * L[0]], [n, 5, w[1], w[2]]]
    if kind == "same":
        return [[1, 1, w[0]], [1, 1, w[1]], [n, 2, w[2], a * L[-1]], [n, 2, w[0], a * L[-1]]]
    return [[1, 6, w[0]], [n, 6, w[1], w[2]]]


def again(c, lab, L, R, et, LM, plot):
    """the beam that is drawn, analysed, gives the results of the beam"""
    x = [0]
    for v in L:
        x.append(x[-1] + v)
    c.eq(f"{lab}: nodes", plot.node_x, x)
    c.eq(f"{lab}: length", plot.L, x[-1])
    R2 = [0] * len(R)
    for s in plot.supports:
        i = s.node
        c.eq(f"{lab}: support {i} place", s.x, x[i])
        c.true(f"{lab}: support {i} ends", (s.at_left_end, s.at_right_end) == (i == 0, i == len(L)))
        v, t = {"pin": (-1, 0), "roller": (-1, 0), "fixed": (-1, -1), "guided": (0, -1), "spring": (R[2 * i], 0), "torsion_spring": (0, R[2 * i + 1])}[s.kind]
        R2[2 * i], R2[2 * i + 1] = v, R[2 * i + 1] if s.rot_spring else t
    c.eq(f"{lab}: supports", R2, R)
    kinds = [s.kind for s in plot.supports]
    held = [k for k in kinds if k in ("pin", "roller")]
    c.true(f"{lab}: one of the supports is a pin", held.count("pin") == (1 if held and "fixed" not in kinds else 0))
    if "pin" in held:
        c.true(f"{lab}: the first", held[0] == "pin")
    et2 = [1] * len(L)
    for h in plot.hinges:
        c.true(f"{lab}: hinge inside", 0 < h.node < len(L))
        c.eq(f"{lab}: hinge {h.node} place", h.x, x[h.node])
        et2[h.node - 1] = 2
    LM2 = []
    for d in plot.dist_loads:
        c.le(f"{lab}: load {len(LM2)} drawn in its span", x[d.i_span], d.x0)
        c.le(f"{lab}: load {len(LM2)} drawn forwards", d.x0, d.x1)
        c.le(f"{lab}: load {len(LM2)} drawn to its end at most", d.x1, x[d.i_span + 1])
        LM2.append([d.i_span + 1, 5, d.w0, d.w1, d.x0 - x[d.i_span], d.x1 - d.x0])
    LM2 += [[p.i_span + 1, 2, p.P, p.x - x[p.i_span]] for p in plot.point_loads]
    LM2 += [[m.i_span + 1, 4, m.M, m.x - x[m.i_span]] for m in plot.moment_loads]
    n = sum(1 for l in LM if l[1] == 6)
    c.true(f"{lab}: curvatures are left out and said so", len(plot.skipped_loads) == n)
    want = [l for l in LM if l[1] != 6]
    c.true(f"{lab}: as many loads", len(LM2) == len(want) or lab == "combination")
    a = cba.BeamAnalysis(L, [c.const(6)] * len(L), R, [list(l) for l in want], eletype=et)
    b = cba.BeamAnalysis(L, [c.const(6)] * len(L), R2, LM2, eletype=et2)
    a.analyze(NPTS)
    b.analyze(NPTS)
    for q in "MVD":
        c.eq(f"{lab}: {q}", getattr(a.beam_results.results, q), getattr(b.beam_results.results, q), scale=10)
    c.eq(f"{lab}: reactions", list(a.beam_results.R) + list(a.beam_results.Rs), list(b.beam_results.R) + list(b.beam_results.Rs), scale=10)


def shown(c, beam, kind):
    L, R, sup, et = model(c, beam, False)
    LM = loads(c, L, kind)
    keep = [list(r) for r in LM]
    b = cba.BeamAnalysis(L, [c.const(6)] * len(L), R, LM, eletype=et)
    again(c, "own", L, R, et, LM, BeamPlotter(b.beam))
    c.eq("loads left alone", b.beam.LM, keep)


def sources(c, beam):
    """where the drawn loads come from"""
    L, R, sup, et = model(c, beam, False)
    k = c.const
    n = len(L)
    own = [[1, 1, c.real("own", -3, 3)]]
    f = [c.real(f"f{i}", -2, 2) for i in range(2)]
    LMa = loads(c, L, "trap")
    LMb = [[n, 2, c.real("P", -5, 5), k(1)]]
    b = cba.BeamAnalysis(L, [k(6)] * n, R, [list(r) for r in own], eletype=et)
    again(c, "own", L, R, et, own, BeamPlotter(b.beam))
    again(c, "none", L, R, et, [], BeamPlotter(b.beam, []))
    again(c, "matrix", L, R, et, LMa, BeamPlotter(b.beam, LMa))
    cases = cba.LoadCases(b)
    cases.add("A", LMa)
    cases.add("B", LMb)
    again(c, "case", L, R, et, LMa, BeamPlotter(b.beam, cases.case("A")))
    comb = [[*r[:2], f[0] * r[2], f[0] * r[3], *r[4:]] for r in LMa] + [[*r[:2], f[1] * r[2], *r[3:]] for r in LMb]
    cc = LoadCombination("C", {"A": f[0], "B": f[1]})
    again(c, "combination", L, R, et, comb, BeamPlotter(b.beam, cc, load_cases=cases) if c.choice("way", 2) else BeamPlotter(b.beam, cc.to_load_case(cases)))
    c.raises("combination on its own", ValueError, BeamPlotter, b.beam, cc)
    c.eq("loads left alone", b.beam.LM, own)


def places(c, beam):
    """whatever the span lengths"""
    L, R, sup, et = model(c, beam, True)
    n = len(L)
    k = c.const
    v = [c.real(f"v{i}", -4, 4) for i in range(4)]
    a, e = c.real("a", 0, 0.6), c.real("e", 0.01, 0.25)
    i = c.choice("span", n)
    x = [0]
    for l in L:
        x.append(x[-1] + l)
    Li = L[i]
    LM = [[i + 1, 1, v[0]], [i + 1, 3, v[1], a * Li, e * Li], [i + 1, 5, v[2], v[3]], [i + 1, 5, v[1], v[2], e * Li, a * Li + k(F(1, 8)) * Li], [i + 1, 2, v[3], a * Li], [i + 1, 4, v[0], e * Li]]
    b = cba.BeamAnalysis(L, [k(6)] * n, R, LM, eletype=et)
    p = BeamPlotter(b.beam)
    c.eq("nodes", p.node_x, x)
    got = [[d.i_span, d.x0, d.x1, d.w0, d.w1] for d in p.dist_loads]
    o = x[i]
    c.eq("spread loads", got, [[i, o, o + Li, v[0], v[0]], [i, o + a * Li, o + (a + e) * Li, v[1], v[1]], [i, o, o + Li, v[2], v[3]], [i, o + e * Li, o + (a + e + k(F(1, 8))) * Li, v[1], v[2]]])
    c.eq("point loads", [[d.i_span, d.x, d.P] for d in p.point_loads], [[i, o + a * Li, v[3]]])
    c.eq("moments", [[d.i_span, d.x, d.M] for d in p.moment_loads], [[i, o + e * Li, v[0]]])
    c.eq("supports", [d.x for d in p.supports], [x[j] for j in range(n + 1) if sup[j] != "h"])
    for d in p.hinges:
        c.eq(f"hinge {d.node}", d.x, x[d.node])


# ------------------------------------------------------------------ what is drawn
def unit(name):
    return {"SI": ("kN", "m", "kNm", "kN/m"), "US-ft": ("kip", "ft", "kip·ft", "kip/ft"), "N-mm": ("N", "mm", "N·mm", "N/mm"), "none": ("", "", "", "")}[name]


def said(c, text, u):
    """numbers in a label, after its unit is taken off"""
    t = str(text).strip()
    if u:
        if not t.endswith(u):
            return None
        t = t[:-len(u)].strip()
    try:
        return [c.num(v) for v in t.split("→")]
    except (ValueError, TypeError):
        return None


def texts(c, log):
    return [(q.args[0], q.args[1], q.args[2]) for q in log if q.what == "text" and len(q.args) >= 3]


def near(c, a, b, tol=F(1, 1000)):
    """a and b are concrete places"""
    return abs(float(a) - float(b)) <= tol


def arrows(log):
    return [(q.kw["xy"], q.kw["xytext"], q.kw.get("arrowprops", {})) for q in log if q.what == "annotate" and "xytext" in q.kw and q.args[:1] in ((), ("",))]


def turning(c, log, x):
    """sense of the curved arrow drawn at x: + is counter-clockwise"""
    arcs = [q for q in log if q.what == "Arc" and near(c, q.args[0][0], x)]
    heads = [q for q in log if q.what == "Polygon" and len(q.args[0]) == 3]
    out = []
    for arc in arcs:
        r = float(arc.args[1]) / 2
        for h in heads:
            tip, p2, p3 = [(float(v[0]), float(v[1])) for v in h.args[0]]
            dx, dy = tip[0] - x, tip[1]
            if abs((dx * dx + dy * dy) ** .5 - r) < 1e-6 * max(1, r):
                bx, by = tip[0] - (p2[0] + p3[0]) / 2, tip[1] - (p2[1] + p3[1]) / 2
                out.append(1 if dx * by - dy * bx > 0 else -1)
    return out


def signed(c, v):
    """-1, 0 or 1; never within rounding of 0"""
    if c.fork(v > 0):
        c.assume(v >= F(1, 100))
        return 1
    if c.fork(v < 0):
        c.assume(v <= -F(1, 100))
        return -1
    return 0


def drawn(c, beam, kind, us):
    """the figure"""
    L, R, sup, et = model(c, beam, False)
    Lf = [float(v) for v in BEAMS[beam][0]]
    k = c.const
    n = len(L)
    fu, lu, mu, du = unit(us)
    v = [c.real(f"v{i}", -4, 4) for i in range(2)]
    x0 = [sum(Lf[:i]) for i in range(n + 1)]
    if kind == "points":
        at = [F(1, 4), F(5, 8)]
        LM = [[1, 2, v[0], at[0] * L[0]], [n, 2, v[1], at[1] * L[-1]]]
    elif kind == "moments":
        at = [F(1, 4), F(5, 8)]
        LM = [[1, 4, v[0], at[0] * L[0]], [n, 4, v[1], at[1] * L[-1]]]
    elif kind == "udl":
        LM = [[1, 1, v[0]] if n > 1 else [1, 3, v[0], L[0] * 5 / 8, L[0] / 4], [n, 3, v[1], L[-1] / 4, L[-1] / 4]]
    else:
        LM = [[n, 5, v[0], v[1]]]
    b = cba.BeamAnalysis(L, [k(6)] * n, R, LM, eletype=et)
    log = c.record()
    opts = {} if us == "SI" else {"units": us}
    b.plot_beam(**opts)
    tx = texts(c, log)
    s = [signed(c, q) for q in v]
    c.true("distance is named", any(q.what == "set_xlabel" and (f"({lu})" in q.args[0] if lu else "(" not in q.args[0]) for q in log))
    names = [t for t in tx if len(str(t[2])) == 1 and str(t[2]).isalpha()]
    at_node = {str(t[2]): float(t[0]) for t in names}
    c.true("each support has its letter", sorted(at_node) == [chr(65 + i) for i in range(n + 1) if sup[i] != "h"])
    for i in range(n + 1):
        if sup[i] != "h":
            c.true(f"letter {i} stands by its support", abs(at_node.get(chr(65 + i), 1e9) - x0[i]) < 0.1 * sum(Lf))
    pins = sorted(float(q.args[0][0][0]) for q in log if q.what == "Polygon" and len(q.args[0]) == 3 and q.kw.get("fc") == "white")
    c.true("pins and rollers stand where they are", len(pins) == sum(ch in "pq" for ch in sup) and all(near(c, p, q) for p, q in zip(pins, [x0[i] for i in range(n + 1) if sup[i] in "pq"])))
    arr = arrows(log)
    if kind == "points":
        pts = [x0[0] + float(at[0]) * Lf[0], x0[n - 1] + float(at[1]) * Lf[-1]]
        c.true("an arrow for each", len(arr) == 2)
        for i in range(2):
            mine = [q for q in arr if near(c, q[0][0], pts[i])]
            c.true(f"arrow {i} at its place", len(mine) == 1)
            for q in mine:
                c.eq(f"arrow {i} touches the beam", q[0][1], 0)
                c.eq(f"arrow {i} is upright", q[1][0], q[0][0])
                if s[i]:
                    c.lt(f"arrow {i} points as the load acts", 0, s[i] * q[1][1])
            lab = [said(c, t[2], fu) for t in tx if near(c, t[0], pts[i]) and said(c, t[2], fu)]
            c.true(f"load {i} has one label", len(lab) == 1)
            for q in lab:
                c.eq(f"load {i} value", q, [s[i] * v[i]], scale=100)
    elif kind == "moments":
        pts = [x0[0] + float(at[0]) * Lf[0], x0[n - 1] + float(at[1]) * Lf[-1]]
        for i in range(2):
            t = turning(c, log, pts[i])
            c.true(f"moment {i} turns its way", len(t) == 1 and (s[i] == 0 or t[0] == s[i]))
            lab = [said(c, q[2], mu) for q in tx if near(c, q[0], pts[i]) and said(c, q[2], mu)]
            c.true(f"moment {i} has one label", len(lab) == 1)
            for q in lab:
                c.eq(f"moment {i} value", q, [s[i] * v[i]], scale=100)
    else:
        area = [q.args[0] for q in log if q.what == "Polygon" and len(q.args[0]) == 4]
        ext = [(x0[0], x0[1]) if n > 1 else (Lf[0] * 5 / 8, Lf[0] * 7 / 8), (x0[n - 1] + Lf[-1] / 4, x0[n - 1] + Lf[-1] / 2)] if kind == "udl" else [(x0[n - 1], x0[n])]
        val = [(v[0], v[0]), (v[1], v[1])] if kind == "udl" else [(v[0], v[1])]
        sg = [(s[0], s[0]), (s[1], s[1])] if kind == "udl" else [(s[0], s[1])]
        c.true("an area for each", len(area) == len(ext))
        for i, (e0, e1) in enumerate(ext):
            mine = [p for p in area if near(c, p[0][0], e0) and near(c, p[3][0], e1)]
            c.true(f"area {i} at its place", len(mine) == 1)
            for p in mine:
                c.eq(f"area {i} on the beam", [p[0][1], p[3][1]], 0)
                for j, h in enumerate((p[1], p[2])):
                    if sg[i][j]:
                        c.lt(f"area {i} side {j}", 0, sg[i][j] * h[1])
            inside = [q for q in arr if e0 - 1e-6 <= float(q[0][0]) <= e1 + 1e-6]
            for m, q in enumerate(inside):
                if q[2].get("arrowstyle") == "<->":
                    continue
                if sg[i][0] == sg[i][1] and sg[i][0]:
                    c.lt(f"area {i} arrow {m} points as the load acts", 0, sg[i][0] * (q[1][1] - q[0][1]))
            lab = [said(c, t[2], du) for t in tx if near(c, t[0], (e0 + e1) / 2) and said(c, t[2], du)]
            c.true(f"area {i} has one label", len(lab) == 1)
            for q in lab:
                c.eq(f"area {i} value", [q[0], q[-1]], [sg[i][0] * val[i][0], sg[i][1] * val[i][1]], scale=100)
        if kind == "udl":
            m = f"{Lf[-1] / 4:g}" + (f" {lu}" if lu else "")
            c.true("how far it reaches", any(str(t[2]) == m and near(c, t[0], sum(ext[1]) / 2) for t in tx))
    log = c.record()
    b.plot_beam([], dimensions=True, **opts)
    tx = texts(c, log)
    for i in range(n):
        m = f"{Lf[i]:g}" + (f" {lu}" if lu else "")
        c.true(f"span {i} dimension", any(str(t[2]) == m and near(c, t[0], (x0[i] + x0[i + 1]) / 2) for t in tx))
    c.true("nothing else", not [q for q in arrows(log) if q[2].get("arrowstyle") != "<->"])


def reactions(c, beam, us):
    """the reactions drawn hold the loads"""
    L, R, sup, et = model(c, beam, False)
    Lf = BEAMS[beam][0]
    n = len(L)
    fu, lu, mu, du = unit(us)
    w = c.real("w", 3, 7)
    q = c.pick("sign", [1, -1])
    LM = [[i + 1, 1, q * w] for i in range(n)]
    x0 = [sum(Lf[:i]) for i in range(n + 1)]
    b = cba.BeamAnalysis(L, [c.const(6)] * n, R, LM, eletype=et)
    b.analyze(NPTS)
    log = c.record()
    if c.choice("figure", 2):
        b.plot_results(show=False, show_beam=False, units=us)
    else:
        b.plot_reactions(show=False, units=us)
    br = b.beam_results
    force, moment, f, m = 0, 0, 0, 0
    tx = texts(c, log)
    for i in range(n + 1):
        for d in range(2):
            if R[2 * i + d] == 0:
                continue
            if isinstance(R[2 * i + d], int) and R[2 * i + d] in (0, -1):
                val = br.R[f]
                f += 1
            else:
                val = br.Rs[m]
                m += 1
            force, moment = (force + val, moment + val * c.const(F(x0[i]))) if d == 0 else (force, moment + val)
            s = signed(c, val)
            if d == 0:
                mine = [p for p in arrows(log) if near(c, p[0][0], x0[i])]
                c.true(f"reaction {i}", len(mine) == (1 if s else 0))
                for p in mine:
                    c.true(f"reaction {i} direction", (float(p[0][1]) > float(p[1][1])) == (s > 0))
                lab = [said(c, t[2], fu) for t in tx if near(c, t[0], x0[i]) and float(t[1]) < 0 and said(c, t[2], fu)]
            else:
                t = turning(c, log, x0[i])
                c.true(f"moment {i}", t == ([s] if s else []))
                lab = [said(c, t[2], mu) for t in tx if near(c, t[0], x0[i]) and float(t[1]) > 0 and said(c, t[2], mu)]
            c.true(f"label {i} {d}", len(lab) == (1 if s else 0))
            for p in lab:
                c.true(f"label {i} {d} one number", len(p) == 1)
                c.le(f"label {i} {d} to four figures", abs(p[0] - s * val), abs(val) * F(1, 1000) if c.symbolic else abs(val) / 1000)
    tot = sum(Lf)
    c.eq("forces hold", force, q * w * c.const(F(tot)), scale=10)
    c.eq("moments hold", moment, q * w * c.const(F(tot * tot, 2)), scale=10)


# ------------------------------------------------------------------ TikZ
def tikz(c, beam, kind, us):
    L, R, sup, et = model(c, beam, False)
    Lf = BEAMS[beam][0]
    n = len(L)
    k = c.const
    fu, lu, mu, du = unit(us)
    v = [c.real(f"v{i}", -4, 4) for i in range(2)]
    s = [signed(c, q) for q in v]
    if kind == "points":
        LM = [[1, 2, v[0], L[0] / 4], [n, 2, v[1], L[-1] * 5 / 8]]
    elif kind == "moments":
        LM = [[1, 4, v[0], L[0] / 4], [n, 4, v[1], L[-1] * 5 / 8]]
    elif kind == "udl":
        LM = [[1, 1, v[0]], [n, 3, v[1], L[-1] / 4, L[-1] / 2]]
    else:
        LM = [[n, 5, v[0], v[1]]]
    b = cba.BeamAnalysis(L, [k(6)] * n, R, LM, eletype=et)
    kw = {} if us == "SI" else {"units": us}
    whole = c.choice("whole", 2)
    src = b.beam.to_tikz(standalone=bool(whole), **kw)
    if whole:
        with tempfile.TemporaryDirectory() as d:
            for name in ("beam.tex", "beam", "beam.txt"):
                f = b.beam.save_tikz(os.path.join(d, name), **kw)
                c.true(f"file of {name}", f.name == "beam.tex" and os.listdir(d) == ["beam.tex"])
                text = open(f).read()
                c.true(f"written to {name}", re.sub(NUMBER, "#", text) == re.sub(NUMBER, "#", src))
                a, z = re.findall(NUMBER, text), re.findall(NUMBER, src)
                c.eq(f"numbers written to {name}", [c.num(q) for q in a], [c.num(q) for q in z])
                os.remove(f)
            # the general request chooses by the file's name, or as told
            for name, req in (("other.tex", {}), ("told.dat", {"tikz": True})):
                f = b.beam.plot(save=os.path.join(d, name), **req, **kw)
                c.true(f"asked for {name}", f.suffix == ".tex" and os.listdir(d) == [f.name])
                c.eq(f"numbers of {name}", [c.num(q) for q in re.findall(NUMBER, open(f).read())], [c.num(q) for q in re.findall(NUMBER, src)])
                os.remove(f)
    else:
        text = b.beam.plot(tikz=True, standalone=False, **kw)
        c.eq("the general request", [c.num(q) for q in re.findall(NUMBER, text)], [c.num(q) for q in re.findall(NUMBER, src)])
    c.true("a document or a picture", ("\\begin{document}" in src) == bool(whole) and src.count("\\begin{tikzpicture}") == 1 == src.count("\\end{tikzpicture}"))
    c.true("scopes close", src.count("\\begin{scope}") == src.count("\\end{scope}") and src.count("{") == src.count("}"))
    x0 = [sum(Lf[:i]) for i in range(n + 1)]
    pts = {m[0]: F(m[1]) for m in re.findall(r"\\point\{(\w+)\}\{([^}]*)\}\{0\};", src)}
    order = sorted(pts, key=lambda q: pts[q])
    c.true("a point for each node", len(pts) == n + 1 and all(near(c, pts[o], x) for o, x in zip(order, x0)))
    beams = re.findall(r"\\beam\{\d\}\{(\w+)\}\{(\w+)\}", src)
    c.true("a beam for each span", sorted(beams) == sorted(zip(order[:-1], order[1:])))
    got = {m[1]: m[0] for m in re.findall(r"\\support\{(\w+)\}\{(\w+)\}", src)}
    kinds = ["".join(got.get(o, "")) for o in order]
    want = []
    for i, ch in enumerate(sup):
        want.append({"p": "12ooo", "q": "12ooo", "f": "4", "h": "", "g": "3", "s": "5", "t": "6"}[ch])
    c.true("supports", all(g == w or (w == "12ooo" and g in ("1", "2ooo")) for g, w in zip(kinds, want)))
    if any(ch in "pq" for ch in sup) and "f" not in sup:
        c.true("the first is a pin", [g for g in kinds if g in ("1", "2ooo")][0] == "1" and kinds.count("1") == 1)
    hinges = re.findall(r"\\hinge\{1\}\{(\w+)\}", src)
    free = [o for i, o in enumerate(order) if 0 < i < n and sup[i] == "h" and (et[i - 1] in (2, 4) or et[i] in (3, 4))]
    c.true("hinges", sorted(h for h in hinges if 0 < order.index(h) < n) == sorted(free))
    nodes = {m[0]: k(pts[m[1]]) + c.num(m[2]) * k(pts[m[3]] - pts[m[1]]) for m in re.findall(r"\\node \((\w+)\) at \(\$\((\w+)\)!([^!]*)!\((\w+)\)\$\)", src)}
    num = lambda t, u: [c.num(q) for q in re.fullmatch(r"\$([^$]*)\$ ?" + re.escape(u), t).group(1).split("\\rightarrow")]
    if kind in ("points", "moments"):
        at = [x0[0] + Lf[0] / 4, x0[n - 1] + Lf[-1] * 5 / 8]
        c.true("a node for each load", len(nodes) == 2)
        for i in range(2):
            name = [q for q in nodes if near(c, nodes[q], at[i], 1e-4)]
            c.true(f"load {i} at its place", len(name) == 1)
            if not name:
                continue
            ld = re.findall(r"\\load\{(\d)\}\{" + name[0] + r"\}(?:\[(\d+)\])?", src)
            c.true(f"load {i} is drawn", len(ld) == 1)
            if kind == "points":
                c.true(f"load {i} is a force", ld[0][0] == "1")
                c.true(f"load {i} direction", s[i] == 0 or ld[0][1] == ("90" if s[i] > 0 else "270"))
            else:
                c.true(f"load {i} direction", s[i] == 0 or ld[0][0] == ("3" if s[i] > 0 else "2"))
            lab = re.findall(r"\\notation\{\d\}\{" + name[0] + r"\}\{([^{}]*)\}", src)
            c.true(f"load {i} has one label", len(lab) == 1)
            c.eq(f"load {i} value", num(lab[0], fu if kind == "points" else mu), [s[i] * v[i]], scale=100)
    else:
        ext = [(x0[0], x0[1]), (x0[n - 1] + F(Lf[-1], 4), x0[n - 1] + F(3 * Lf[-1], 4))] if kind == "udl" else [(x0[n - 1], x0[n])]
        val = [(v[0], v[0]), (v[1], v[1])] if kind == "udl" else [(v[0], v[1])]
        lines = re.findall(r"\\lineload\{1\}\{(\w+)\}\{(\w+)\}\[([^\]]*)\]\[([^\]]*)\]", src)
        # stanli draws an area to the left of the way from its first point to its second, acting towards that line
        area = []
        for p, q, ha, hb in lines:
            ha, hb = c.num(ha), c.num(hb)
            fwd = c.fork(nodes[p] < nodes[q])
            area.append((nodes[p], nodes[q], ha, hb, 1) if fwd else (nodes[q], nodes[p], hb, ha, -1))
            c.lt(f"heights {len(area)}", 0, ha)
            c.lt(f"heights' {len(area)}", 0, hb)
        for i, (e0, e1) in enumerate(ext):
            at0, at1 = k(e0), k(e1)
            tol = F(1, 10 ** 4)
            mine = [q for q in area if c.fork(q[0] >= at0 - tol) and c.fork(q[1] <= at1 + tol)]
            w0, w1 = val[i]
            if kind == "udl":
                mine = [q for q in mine if near(c, q[0], e0, 1e-4) and near(c, q[1], e1, 1e-4)]
                c.true(f"area {i} at its place", len(mine) == 1)
                sides = [s[i]]
            elif s[0] * s[1] < 0:
                c.true(f"area {i} in two parts", len(mine) == 2)
                mine.sort(key=lambda q: 0 if near(c, q[0], e0, 1e-4) else 1)
                z = at0 + (at1 - at0) * w0 / (w0 - w1)
                for j, q in enumerate(mine):
                    c.le(f"area {i} part {j} from", abs(q[0] - (at0 if j == 0 else z)), tol)
                    c.le(f"area {i} part {j} to", abs(q[1] - (z if j == 0 else at1)), tol)
                sides = s
            else:
                c.true(f"area {i} at its place", len(mine) == 1 and near(c, mine[0][0], e0, 1e-4) and near(c, mine[0][1], e1, 1e-4))
                sides = [s[0] or s[1]]
                for q in mine:
                    c.true(f"area {i} higher where the load is", (q[2] - q[3]) * (abs(w0) - abs(w1)) >= 0)
            for j, (q, sd) in enumerate(zip(mine, sides)):
                if sd:
                    c.true(f"area {i} part {j} acts as the load does", q[4] == sd)
            lab = re.findall(r"\\notation\{5\}\{dl" + str(i) + r"a\}\{dl" + str(i) + r"b\}\[([^\[\]]*)\]", src)
            c.true(f"area {i} has one label", len(lab) == 1)
            q = num(lab[0], du)
            c.eq(f"area {i} value", [q[0], q[-1]], [abs(w0), abs(w1)], scale=100)
    for i in range(n):
        d = re.findall(r"\\dimensioning\{1\}\{" + order[i] + r"\}\{" + order[i + 1] + r"\}\{[^{}]*\}\[\$([^$]*)\$~?(" + re.escape(lu) + r")\]", src)
        c.true(f"span {i} dimension", len(d) == 1 and near(c, c.num(d[0][0]), Lf[i]))
    letters = re.findall(r"\\notation\{1\}\{(\w+)\}\{\$([A-Z])\$\}", src)
    c.true("letters", sorted(letters) == sorted((order[i], chr(65 + i)) for i in range(n + 1) if sup[i] != "h"))


def lines(log):
    return [(np.asarray(q.args[0]), np.asarray(q.args[1])) for q in log if q.what == "plot" and len(q.args) > 1]


def symbols(c, beam):
    """what stands at each node, whatever the spans"""
    L, R, sup, et = model(c, beam, True)
    n = len(L)
    x = [0 * L[0]]
    for v in L:
        x.append(x[-1] + v)
    b = cba.BeamAnalysis(L, [c.const(6)] * n, R, None, eletype=et)
    log = c.record()
    b.plot_beam()
    ln = lines(log)
    pairs = [p for p in ln if len(p[0]) == 2]
    flat = [p for p in pairs if bool(p[1][0] == p[1][1])]
    whole = [p for p in flat if bool(p[1][0] == 0)]
    c.true("the beam is one line", len(whole) == 1)
    c.eq("from end to end", list(whole[0][0]), [0, x[-1]])
    grounds = [p for p in flat if bool(p[1][0] < 0)]
    walls = [p for p in pairs if bool(p[0][0] == p[0][1]) and bool(p[1][0] < 0) and bool(p[1][1] > 0)]
    zig = [p for p in ln if 5 < len(p[0]) < 50]
    spiral = [p for p in ln if len(p[0]) >= 50]
    tri = [q.args[0] for q in log if q.what == "Polygon" and len(q.args[0]) == 3 and q.kw.get("fc") == "white"]
    rings = [q.args for q in log if q.what == "Circle"]
    at = lambda kinds: [x[i] for i in range(n + 1) if sup[i] in kinds]
    c.true("one wall for each built-in end", len(walls) == sup.count("f"))
    c.eq("walls", [p[0][0] for p in walls], at("f"))
    c.true("one spring each", len(zig) == sum(sup.count(q) for q in "st"))
    for j, (p, v) in enumerate(zip(zig, at("st"))):
        c.eq(f"spring {j} begins at the beam", [p[0][0], p[0][-1], p[1][0]], [v, v, 0])
        c.lt(f"spring {j} is below", max(p[1][1:]), 0)
    c.true("one spiral for each turning spring on a support", len(spiral) == sup.count("q"))
    for j, (p, v) in enumerate(zip(spiral, at("q"))):
        c.le(f"spiral {j} is about its node", [max(p[0]) - v, v - min(p[0])], L[0] + L[1])
        c.lt(f"spiral {j} is above", 0, max(p[1]))
    c.true("one triangle for each pin and roller", len(tri) == len(at("pq")))
    for j, (p, v) in enumerate(zip(tri, at("pq"))):
        c.eq(f"tip {j} under its node", [p[0][0], p[1][0] + p[2][0]], [v, 2 * v])
        c.eq(f"stands {j} level", p[1][1], p[2][1])
        c.lt(f"base {j} below the tip", p[1][1], p[0][1])
        c.le(f"tip {j} not above the beam", p[0][1], 0)
    ground = at("pqstg")
    for i, v in enumerate(x):
        mine = [p for p in grounds if bool(p[0][0] + p[0][1] == 2 * v)]
        c.true(f"ground at {i}", len(mine) == (0 if sup[i] in "fh" else (3 if sup[i] == "g" else 1)))
    c.true("no other ground", len(grounds) == len(ground) + 2 * sup.count("g"))
    hinges = {i for i in range(1, n) if et[i - 1] in (2, 4) or et[i] in (3, 4)}
    on = [q for q in rings if bool(q[0][1] == 0)]
    want = [x[i] for i in (0, n) if sup[i] in "pq"] + [x[i] for i in sorted(hinges)]
    c.true("rings", len(on) == len(want))
    c.eq("hinges and end pins", [q[0][0] for q in on], want)


def elevation(c, shape):
    """a beam of varying stiffness has the depth of its stiffness all along"""
    k = c.const
    e = [c.real(f"e{i}", 1, 9) for i in range(3)]
    Ls = {"single": [4], "three": [3, 5, 4]}.get(shape, [3, 4])
    x0 = [sum(Ls[:i]) for i in range(len(Ls))]
    if shape == "members":
        EI = [e[0], e[1]]
        f = [lambda x: e[0], lambda x: e[1]]
    elif shape == "three":
        EI = e
        f = [lambda x: e[0], lambda x: e[1], lambda x: e[2]]
    elif shape == "second":
        EI = [e[0], cba.SectionEI([("const", [k(0), k(1)], e[1]), ("const", [k(1), k(4)], e[2])])]
        f = [lambda x: e[0], lambda x: e[1] if x <= F(1) else e[2]]
    elif shape == "first":
        EI = [cba.SectionEI([("const", [k(0), k(F(1, 2))], e[1]), ("const", [k(F(1, 2)), k(3)], e[0])]), e[2]]
        f = [lambda x: e[1] if x <= F(1, 2) else e[0], lambda x: e[2]]
    else:
        EI = [cba.SectionEI([("linear", [k(0), k(4)], [e[0], e[1]])])]
        f = [lambda x: e[0] + (e[1] - e[0]) * x / 4]
    n = len(Ls)
    b = cba.BeamAnalysis([k(v) for v in Ls], EI, rests("p" * (n + 1)), None)
    log = c.record()
    b.plot_beam()
    fills = [q for q in log if q.what == "fill_between"]
    vals = e[:2] if shape in ("members", "single") else e
    if not fills:
        c.le("drawn flat when it is uniform", max(vals) - min(vals), F(1, 100000) * max(vals))
        return
    c.true("one elevation", len(fills) == 1)
    xs, lo, hi = [list(np.asarray(q)) for q in fills[0].args[:3]]
    c.eq("ends", [xs[0], xs[-1]], [0, sum(Ls)])
    c.eq("about the beam", [-v for v in lo], hi)
    top = max(vals)
    most = max(hi)
    m = 0
    for i, (x, h) in enumerate(zip(xs, hi)):
        if i and m + 1 < n and bool(x == x0[m + 1]) and bool(xs[i - 1] == x):
            m += 1
        if i:
            c.le(f"along {i}", xs[i - 1], x)
        if i in (0, len(xs) - 1) or i % 8 == 1 or (i and bool(xs[i - 1] == x)) or (i + 1 < len(xs) and bool(xs[i + 1] == x)):
            d = x - x0[m]
            c.eq(f"depth at {i}", (h / most) ** 3 * top, f[m](F(str(float(d)))))
    c.true("each span", m == n - 1)
    out = [(list(np.asarray(q.args[0])), list(np.asarray(q.args[1]))) for q in log if q.what == "plot" and len(q.args[0]) == len(xs)]
    c.true("outline", len(out) == 2)
    for j, p in enumerate(out):
        c.eq(f"outline {j} places", p[0], xs)
    c.eq("outline above", out[0][1], hi)
    c.eq("outline below", out[1][1], lo)


def ground(c):
    """springs and ground under the members that rest on it, and no other"""
    which = c.choice("member", 3)
    Ls = [3, 5, 4]
    k = c.const
    kf = [None] * 3
    kf[which] = c.real("kf", 1, 9)
    b = cba.BeamAnalysis([k(v) for v in Ls], [k(6)] * 3, rests("pppp"), None, kf=kf)
    log = c.record()
    b.plot_beam()
    lo = sum(Ls[:which])
    hi = lo + Ls[which]
    zig = [p for p in lines(log) if 5 < len(p[0]) < 50]
    c.true("springs", len(zig) >= 3)
    c.eq("from end to end", [zig[0][0][0], zig[-1][0][0]], [lo, hi])
    for j, p in enumerate(zig):
        c.le(f"spring {j} in the span", [lo - p[0][0], p[0][0] - hi], 0)
        c.lt(f"spring {j} below", p[1][-1], 0)
    bars = [p for p in lines(log) if len(p[0]) == 2 and bool(p[0][0] == lo) and bool(p[0][1] == hi)]
    c.true("ground line", len(bars) == 1)
    c.lt("ground below", bars[0][1][0], 0)
    c.eq("ground level", bars[0][1][0], bars[0][1][1])
    b = cba.BeamAnalysis([k(v) for v in Ls], [k(6)] * 3, rests("pppp"), None)
    log = c.record()
    b.plot_beam()
    c.true("none without", not [p for p in lines(log) if 5 < len(p[0]) < 50])


def configs(tier):
    out = []

    def add(tag, fn, **kw):
        out.append(dict(name=f"{fn.__name__}-{tag}", fn=fn, args=kw, cost=1))
    big = tier != "quick"
    for b in BEAMS:
        for k in ("udl", "points", "part", "past", "trap", "same", "curve"):
            add(f"{b}-{k}", shown, beam=b, kind=k)
        add(b, places, beam=b)
    for b in BEAMS:
        add(b, symbols, beam=b)
    for v in ("members", "second", "first", "single", "three"):
        add(v, elevation, shape=v)
    add("springs", ground)
    for b in ("one", "two", "hinge"):
        add(b, sources, beam=b)
    units = ("SI", "US-ft", "N-mm", "none")
    for n, b in enumerate(BEAMS):
        for m, k in enumerate(("points", "moments", "udl", "trap")):
            for j, u in enumerate(units):
                if big or j == (n + m) % 4:
                    if (k, u) != ("udl", "none"):          # there a length and a load look the same
                        add(f"{b}-{k}-{u}", drawn, beam=b, kind=k, us=u)
                    add(f"{b}-{k}-{u}", tikz, beam=b, kind=k, us=u)
        for j, u in enumerate(units):
            if big or j == n % 4:
                add(f"{b}-{u}", reactions, beam=b, us=u)
    return out
