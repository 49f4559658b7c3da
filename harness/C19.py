"""a draped tendon and the loads equivalent to it: moments are those of its force at its eccentricity"""
import numpy as np
import pycba as cba
from pycba.prestress import Parabola, CompoundParabola, Harp, DoubleHarp, equivalent_loads
from harness.scen import rests

HOG, SAG, LOW = (-0.5, -0.1), (0.2, 0.6), (0.1, 0.3)
E = {"0": 0, "-": HOG, "+": LOW, "s": SAG}


def ecc(c, name, k):
    return 0 if k == "0" else c.real(name, *E[k])


def tendon(c, tag, kind, L, ends, given=None, mid="s", cells=None, cant=None):
    """-> (profile, pieces [(x0, x1, e0, e', e'')]) from the description of the profile; positions are fractions of L,
    each left open within one quarter"""
    el = given if given is not None else ecc(c, f"el{tag}", ends[0])
    er = ecc(c, f"er{tag}", ends[1])
    em = ecc(c, f"em{tag}", mid)
    q = 0.25

    def pos(name, k):
        """within the k-th quarter of the span"""
        return L * c.real(f"{name}{tag}", q * k + 0.03, q * (k + 1) - 0.03)

    def straight(a, b, ea, eb):
        return (a, b, ea, (eb - ea) / (b - a), 0)

    def bowl(a, b, ea, eb, curv):
        return (a, b, ea, (eb - ea) / (b - a) - curv * (b - a) / 2, curv)
    cl = cr = 0
    k = cells or ()
    if "ff" in kind and cant != "left":
        cl = pos("cl", 0)
    if "ff" in kind and cant != "right":
        cr = L - pos("cr", 3)
    x1, x2 = cl, L - cr
    stubs = ([straight(0, x1, el, el)] if "ff" in kind and cant != "left" else [], [straight(x2, L, er, er)] if "ff" in kind and cant != "right" else [])
    if kind in ("par", "parff"):
        h = x2 - x1
        if cant == "right":
            body = [bowl(x1, x2, el, er, 2 * (er - el) / (h * h))]
        elif cant == "left":
            body = [bowl(x1, x2, el, er, 2 * (el - er) / (h * h))]
        else:
            body = [bowl(x1, x2, el, er, 4 * (el + er - 2 * em) / (h * h))]
        prof = Parabola(el, em, er, cl, cr)
    elif kind in ("harp", "harpff"):
        a = pos("a", k[0])
        body = [straight(x1, a, el, em), straight(a, x2, em, er)]
        prof = Harp(el, em, er, a, cl, cr)
    elif kind in ("dharp", "dharpff"):
        a, b = pos("a", k[0]), pos("b", k[1])
        e2 = c.real(f"en{tag}", 0.15, 0.5)
        body = [straight(x1, a, el, em), straight(a, b, em, e2), straight(b, x2, e2, er)]
        prof = DoubleHarp(el, em, e2, er, a, b, cl, cr)
    elif kind == "comp":
        a, d, m = pos("a", 0), pos("b", 3), pos("c", k[0])
        s, t = 2 * (em - el) / m, 2 * (em - er) / (L - m)       # slopes where the curvature changes
        ea, ed = el + s * a / 2, er + t * (L - d) / 2
        body = [(0, a, el, 0, s / a), (a, m, ea, s, -s / (m - a)), (m, d, em, 0, -t / (d - m)), (d, L, ed, -t, t / (L - d))]
        prof = CompoundParabola(el, em, er, a, L - d, m)
    return prof, stubs[0] + body + stubs[1], er


def along(pieces, x):
    """eccentricity and slope at x, off the joins"""
    for a, b, e, s, k in pieces:
        if x <= b:
            break
    u = x - a
    return e + s * u + k * u * u / 2, s + k * u


def stations(v, L):
    return list(v)[1:-1]


def excess(c, member, x0, L, F, pieces):
    """(position, moment beyond that of the force at its eccentricity, the same for shear) at the stations of a member"""
    out = []
    n = len(member.x) - 2
    for j in range(n):
        x = L * j / (n - 1)
        e, s = along(pieces, x) if pieces else (0, 0)
        out.append((x, member.M[j + 1] + F * e, member.V[j + 1] + F * s))
    return out


def force(c, given, n):
    if given == "same":
        f = c.real("F", 1, 9)
        return f, [f] * n
    f = [c.real(f"F{i}", 1, 9) for i in range(n)]
    return (np.array(f) if given == "array" else f), f


def determinate(c, kind, ends, mid="s", cells=None, sup="pp", given="same", npts=4):
    """on a determinate span the moment is that of the force at its eccentricity"""
    L = c.real("L", 2, 9)
    cant = {"fh": "right", "hf": "left"}.get(sup)
    prof, pieces, _ = tendon(c, "", kind, L, ends, mid=mid, cells=cells, cant=cant)
    F, Fs = force(c, given, 1)
    LM = equivalent_loads(cba.Beam([L], 2.0, rests(sup)), F, [prof])
    c.true("one span", all(r[0] == 1 for r in LM))
    ba = cba.BeamAnalysis([L], 2.0, rests(sup), LM)
    c.eq("from the analysis", [v for r in equivalent_loads(ba, F, [prof]) for v in r], [v for r in LM for v in r])
    ba.analyze(npts)
    for j, (x, m, v) in enumerate(excess(c, ba.beam_results.vRes[0], 0, L, Fs[0], pieces)):
        c.eq(f"moment {j}", m, 0)
        if 0 < j < npts:
            c.eq(f"shear {j}", v, 0)


def continuous(c, spans, sup, profiles, given="same", npts=4, eletype=None):
    """beyond the force at its eccentricity there are only moments due to the supports"""
    Ls = spans
    n = len(Ls)
    R = rests(sup)
    F, Fs = force(c, given, n)
    profs, pcs, e = [], [], None
    for i, p in enumerate(profiles):
        if p is None:
            profs.append(None)
            pcs.append(None)
            e = None
            continue
        p = dict(p)
        cant = "left" if i == 0 and sup[0] == "h" else "right" if i == n - 1 and sup[-1] == "h" else None
        if p.pop("joined", True) and e is not None:
            p["given"] = e
        t, q, e = tendon(c, str(i), L=Ls[i], cant=cant, **p)
        profs.append(t)
        pcs.append(q)
    kw = dict(eletype=eletype) if eletype else {}
    LM = equivalent_loads(cba.Beam(list(Ls), 2.0, list(R), **kw), F, profs)
    ba = cba.BeamAnalysis(list(Ls), 2.0, list(R), LM, **kw)
    ba.analyze(npts)
    last = None
    for i in range(n):
        ex = excess(c, ba.beam_results.vRes[i], 0, Ls[i], Fs[i], pcs[i])
        (x0, m0, _), (x1, m1, _) = ex[0], ex[-1]
        for j, (x, m, v) in enumerate(ex[1:-1]):
            c.eq(f"span {i} moment {j} in line", m, m0 + (m1 - m0) * x / Ls[i])
            c.eq(f"span {i} shear {j} constant", v, (m1 - m0) / Ls[i])
        if i == 0:
            if sup[0] in "ph":
                c.eq("no moment at the left end", m0, 0)
            if sup[0] == "h":
                c.eq("nor in the overhang", m1, 0)
        else:
            if sup[i] in "ps":
                c.eq(f"continuous over support {i}", m0, last)
        last = m1
    if sup[-1] in "ph":
        c.eq("no moment at the right end", last, 0)
    if sup[-1] == "h":
        c.eq("nor in that overhang", m0, 0)


def stiff(c, sup):
    """restraint vector with the springs' stiffnesses put in, and where they are"""
    R, at = list(rests(sup)), []
    for i, r in enumerate(R):
        if r == "k":
            R[i] = c.real(f"k{i}", 1, 40)
            at.append(i)
    return R, at


def joined(c, spans, sup, profiles, given="same", npts=4):
    """a determinate beam of several members: members that join between supports, ends that slide, springs"""
    n = len(spans)
    R, springs = stiff(c, sup)
    F, Fs = force(c, given, n)
    profs, pcs, e = [], [], None
    for i, p in enumerate(profiles):
        if p is None:
            profs.append(None)
            pcs.append(None)
            e = None
            continue
        p = dict(p)
        cant = "left" if i == 0 and sup[0] == "h" else "right" if i == n - 1 and sup[-1] == "h" else None
        if p.pop("joined", True) and e is not None:
            p["given"] = e
        t, q, e = tendon(c, str(i), L=spans[i], cant=cant, **p)
        profs.append(t)
        pcs.append(q)
    LM = equivalent_loads(cba.Beam(list(spans), 2.0, list(R)), F, profs)
    ba = cba.BeamAnalysis(list(spans), 2.0, list(R), LM)
    ba.analyze(npts)
    for i in range(n):
        for j, (x, m, v) in enumerate(excess(c, ba.beam_results.vRes[i], 0, spans[i], Fs[i], pcs[i])):
            c.eq(f"member {i} moment {j}", m, 0)
            if 0 < j < npts:
                c.eq(f"member {i} shear {j}", v, 0)
    for i, r in zip(springs, ba.beam_results.Rs):
        c.eq(f"nothing in spring {i}", r, 0)


def sprung(c, spans, sup, profiles, given="same", npts=4):
    """what is beyond the force at its eccentricity is due to the forces in the springs and the supports"""
    n = len(spans)
    R, springs = stiff(c, sup)
    F, Fs = force(c, given, n)
    profs, pcs, e = [], [], None
    for i, p in enumerate(profiles):
        p = dict(p)
        if e is not None:
            p["given"] = e
        t, q, e = tendon(c, str(i), L=spans[i], **p)
        profs.append(t)
        pcs.append(q)
    ba = cba.BeamAnalysis(list(spans), 2.0, list(R), equivalent_loads(cba.Beam(list(spans), 2.0, list(R)), F, profs))
    ba.analyze(npts)
    ex = [excess(c, ba.beam_results.vRes[i], 0, spans[i], Fs[i], pcs[i]) for i in range(n)]
    vs = [0] + [e[1][2] for e in ex] + [0]
    for i in range(n):
        for j, (x, m, v) in enumerate(ex[i][1:-1]):
            c.eq(f"member {i} shear {j}", v, vs[i + 1])
        c.eq(f"member {i} moment", ex[i][-1][1] - ex[i][0][1], vs[i + 1] * spans[i])
    for i, r in zip(springs, ba.beam_results.Rs):
        if i % 2 == 0:
            c.eq(f"force in spring {i}", r, vs[i // 2 + 1] - vs[i // 2])


def refused(c):
    L, F = c.real("L", 2, 9), c.real("F", 1, 9)
    e = c.real("e", 0.1, 0.5)
    b = cba.Beam([L, L], 2.0, rests("ppp"))
    P = Parabola(e, -e, e)
    c.raises("one profile short", ValueError, equivalent_loads, b, F, [P])
    c.raises("one profile more", ValueError, equivalent_loads, b, F, [P, P, P])
    c.raises("one force short", ValueError, equivalent_loads, b, [F], [P, P])
    c.raises("not a beam", (TypeError, AttributeError), equivalent_loads, "beam", F, [P, P])
    one = cba.Beam([L], 2.0, rests("pp"))
    t = c.real("t", 0.55, 0.9)
    c.raises("overlap", ValueError, equivalent_loads, one, F, [Parabola(e, -e, e, t * L, t * L)])
    c.raises("bend in the stub", ValueError, equivalent_loads, one, F, [Harp(e, -e, e, a=(t - 0.1) * L, c_left=t * L)])
    c.raises("bend beyond", ValueError, equivalent_loads, one, F, [Harp(e, -e, e, a=(t + 1) * L)])
    c.raises("bends swapped", ValueError, equivalent_loads, one, F, [DoubleHarp(e, -e, -e, e, a=t * L, b=(t - 0.1) * L)])
    c.raises("low point in the end", ValueError, equivalent_loads, one, F, [CompoundParabola(e, -e, e, a=t * L, b=0.1 * L, c=(t - 0.1) * L)])
    c.raises("changes overlap", ValueError, equivalent_loads, one, F, [CompoundParabola(e, -e, e, a=0.5 * L, b=t * L, c=0.52 * L)])
    c.raises("not for cantilevers", NotImplementedError, equivalent_loads, cba.Beam([L], 2.0, rests("fh")), F, [CompoundParabola(e, -e, e, a=0.1 * L, b=0.1 * L, c=0.5 * L)])
    c.true("nothing to do", equivalent_loads(b, F, [None, None]) == [])
    c.true("nothing to do with free ends", equivalent_loads(cba.Beam([L], 2.0, rests("hf")), F, [None]) == [])


def configs(tier):
    out = []

    def add(tag, fn, **kw):
        cost = kw.pop("cost", 3)
        out.append(dict(name=f"{fn.__name__}-{tag}", fn=fn, args=kw, cost=cost, max_paths=400))
    for ends in ("00", "--", "+-", "-0", "0+"):
        add(f"par-{ends}", determinate, kind="par", ends=ends)
        add(f"parff-{ends}", determinate, kind="parff", ends=ends)
        add(f"harp-{ends}", determinate, kind="harp", ends=ends, cells=(1,))
        add(f"comp-{ends}", determinate, kind="comp", ends=ends, cells=(2,), mid="s" if "+" not in ends else "-")
    for k in range(4):
        add(f"harp-cell{k}", determinate, kind="harp", ends="--", cells=(k,))
    for k in (1, 2):
        add(f"comp-cell{k}", determinate, kind="comp", ends="-0", cells=(k,))
        add(f"harpff-{k}", determinate, kind="harpff", ends="--", cells=(k,))
    for k in ((0, 1), (0, 3), (1, 2), (2, 3)):
        add(f"dharp-{k[0]}{k[1]}", determinate, kind="dharp", ends="-0", cells=k)
    add("dharpff", determinate, kind="dharpff", ends="--", cells=(1, 2))
    add("dharpff-far", determinate, kind="dharpff", ends="0-", cells=(1, 2), given="list")
    add("up-par", determinate, kind="par", ends="+s", mid="-")
    add("up-harp", determinate, kind="harp", ends="+s", mid="-", cells=(2,), given="array")
    for s in ("fh", "hf"):
        for kind, k in (("par", ()), ("parff", ()), ("harp", (1,)), ("harpff", (2,)), ("dharp", (1, 2)), ("dharpff", (1, 2))):
            add(f"{s}-{kind}", determinate, kind=kind, ends="-+" if s == "fh" else "+-", cells=k, sup=s)
        add(f"{s}-anchored", determinate, kind="par", ends="0-" if s == "fh" else "-0", sup=s)
    P, H, D, C = dict(kind="par", ends="--"), dict(kind="harp", ends="--", cells=(1,)), dict(kind="dharp", ends="--", cells=(0, 2)), dict(kind="comp", ends="--", cells=(1,))
    Pf, Hf = dict(kind="parff", ends="--"), dict(kind="harpff", ends="--", cells=(2,))

    def apart(d):
        return dict(d, joined=False)
    two, three = [3.0, 4.0], [3.0, 4.0, 2.0]
    for n, (Ls, sup, pr, g) in enumerate([
            (two, "ppp", [P, P], "same"), (two, "fpp", [P, H], "same"), (two, "ppp", [C, D], "same"), (two, "pph", [Pf, H], "same"),
            (two, "hpp", [H, C], "same"), (two, "hpp", [dict(P, ends="-0"), P], "same"), (two, "pph", [P, dict(P, ends="-+")], "same"), (two, "psp", [Pf, Pf], "same"), (three, "pppp", [P, C, H], "same"),
            (three, "hpph", [P, P, P], "same"), (three, "fppf", [C, C, C], "same"),
            (two, "ppp", [P, P], "list"), (two, "ppp", [H, P], "array"), (three, "pppp", [P, P, H], "list"), (two, "pph", [P, H], "list"),
            (two, "ppp", [P, apart(P)], "same"), (two, "ppp", [C, apart(H)], "list"), (three, "pppp", [P, apart(P), H], "same"),
            (two, "ppp", [P, None], "same"), (two, "ppp", [None, P], "same"), (three, "pppp", [None, P, None], "same"), (three, "pppp", [P, None, H], "same"),
            (three, "hppp", [None, P, P], "same"), (three, "ppph", [P, P, None], "list"), (two, "hpp", [P, None], "same"), (two, "pph", [None, H], "same")]):
        if "s" in sup:
            continue
        add(f"{n}", continuous, spans=Ls, sup=sup, profiles=pr, given=g, cost=4)
    add("hinge", continuous, spans=[3.0, 4.0], sup="fpp", profiles=[P, P], eletype=[1, 3], cost=4)
    add("bad", refused)
    G = dict(kind="harp", ends="--", cells=(2,))
    for n, (Ls, sup, pr, g) in enumerate([
            (two, "php", [H, G], "same"), (two, "php", [P, P], "same"), (two, "php", [P, apart(H)], "list"), (two, "php", [P, None], "same"),
            (two, "php", [None, G], "same"), (two, "fhh", [P, P], "same"), (two, "hhf", [H, P], "same"), (three, "phhp", [H, Pf, C], "same"),
            (three, "pphh", [P, H, P], "same"), ([4.0], "qp", [H], "same"), ([4.0], "pq", [Pf], "same"), ([4.0], "ss", [C], "same"),
            ([4.0], "ps", [D], "same"), (two, "shs", [Hf, G], "list"), (two, "psh", [P, H], "same"), (two, "hsp", [H, P], "same")]):
        add(f"{n}", joined, spans=Ls, sup=sup, profiles=pr, given=g, cost=4)
    for n, (Ls, sup, pr, g) in enumerate([
            (two, "psp", [Pf, Pf], "same"), (two, "spp", [P, H], "same"), (two, "pps", [H, C], "list"), (two, "sss", [P, H], "same"),
            (two, "fhp", [H, P], "same"), (two, "fsp", [C, H], "same"), (two, "fhs", [P, P], "list"), ([4.0], "fs", [H], "same"), ([4.0], "fq", [P], "same")]):
        add(f"{n}", sprung, spans=Ls, sup=sup, profiles=pr, given=g, cost=4)
    if tier == "thorough":
        for npts in (6, 9):
            for kind in ("par", "parff"):
                add(f"t-{kind}-{npts}", determinate, kind=kind, ends="--", npts=8 if kind == "parff" else npts, cost=6)
        for i, a in enumerate((P, Pf, C, H, D, Hf)):
            for j, b in enumerate((P, Pf, C, H, D, Hf)):
                add(f"t-{i}{j}", continuous, spans=two, sup="ppp", profiles=[a, apart(b)], given="list", cost=6)
                if b not in (C,):
                    add(f"t-h{i}{j}", continuous, spans=three, sup="ppph", profiles=[a, P, b], cost=6)
    return out
