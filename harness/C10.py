"""members with varying stiffness: same answer as the beam subdivided at the steps, and
the certificate of the exact solution with integrals of 1/EI(x) computed independently"""
import numpy as np
import pycba as cba
from harness.scen import rests, Piece

NP = 4
TOL = 0.0001      # relative; the fixed-end forces are integrated numerically at 2000 strips per piece
_GL = ([-0.9894009349916499, -0.9445750230732326, -0.8656312023878318, -0.7554044083550030, -0.6178762444026438, -0.4580167776572274, -0.2816035507792589, -0.0950125098376374],
       [0.0271524594117541, 0.0622535239386479, 0.0951585116824928, 0.1246289712555339, 0.1495959888165767, 0.1691565193950025, 0.1826034150449236, 0.1894506104550685])
XG = _GL[0] + [-v for v in _GL[0][::-1]]
WG = _GL[1] + _GL[1][::-1]

# name -> (segments, break points, EI(x)) on a span of 6
SHAPES = {
    "plain": (None, [0, 6], lambda x: 5.0),      # (a number, beside a shear stiffness that varies)
    "uniform": ([("const", [0, 6], 5.0)], [0, 6], lambda x: 5.0),
    "step": ([("const", [0, 2], 3.0), ("const", [2, 6], 9.0)], [0, 2, 6], lambda x: 3.0 if x < 2 else 9.0),
    "steps": ([("const", [0, 1], 8.0), ("const", [1, 5], 2.0), ("const", [5, 6], 4.0)], [0, 1, 5, 6], lambda x: 8.0 if x < 1 else (2.0 if x < 5 else 4.0)),
    "taper": ([("linear", [0, 6], [2.0, 8.0])], [0, 6], lambda x: 2 + x),
    "drop": ([("linear", [0, 6], [9.0, 3.0])], [0, 6], lambda x: 9 - x),
    "pwl": ([("pwl", [0, 2, 5, 6], [4.0, 1.0, 2.0, 6.0])], [0, 2, 5, 6], lambda x: 4 - 1.5 * x if x < 2 else (1 + (x - 2) / 3 if x < 5 else 2 + 4 * (x - 5))),
    "haunch": ([("poly", [0, 3, 6], [8.0, 2.0, 8.0])], [0, 6], lambda x: 2 + 6 * (x - 3) ** 2 / 9),
    "steep": ([("linear", [0, 0.5], [10.0, 1.0]), ("linear", [0.5, 0.75], [1.0, 4.0]), ("const", [0.75, 6], 2.0)], [0, 0.5, 0.75, 6],
              lambda x: 10 - 18 * x if x < 0.5 else (1 + 12 * (x - 0.5) if x < 0.75 else 2.0)),
    "mixed": ([("const", [0, 2], 4.0), ("linear", [2, 6], [4.0, 8.0])], [0, 2, 6], lambda x: 4.0 if x < 2 else 2 + x),
}


def pieces(kind, w, u):
    L = 6.0
    return {"udl": ([1, w], Piece("w", 0.0, L, w, w)), "pl": ([2, w, 2.5], Piece("P", a=2.5, P=w)), "pl_step": ([2, w, 2.0], Piece("P", a=2.0, P=w)),
            "pudl": ([3, w, 1.5, 3.0], Piece("w", 1.5, 4.5, w, w)), "ml": ([4, w, 1.75], Piece("m", a=1.75, m=w)), "ml0": ([4, w, 3.0], Piece("m", a=3.0, m=w)),
            "trap": ([5, w, u], Piece("w", 0.0, L, w, u)), "trap_part": ([5, w, u, 1.0, 2.5], Piece("w", 1.0, 3.5, w, u))}[kind]


def integral(f, cuts):
    """Gauss quadrature on every smooth stretch (f may be symbolic in the load)"""
    t = 0
    for a, b in zip(cuts[:-1], cuts[1:]):
        for x, g in zip(XG, WG):
            t = t + f((a + b) / 2 + x * (b - a) / 2) * (g * (b - a) / 2)
    return t


def near(c, label, a, b, bound):
    a, b = np.atleast_1d(np.asarray(a)), np.atleast_1d(np.asarray(b))
    for i in range(len(a)):
        c.le(f"{label}[{i}] upper", a[i] - b[i], bound)
        c.le(f"{label}[{i}] lower", b[i] - a[i], bound)


def member(c, shape, supports, kind, ety=1, ga=None, side="left", curv=0):
    """one member of varying EI, joined to a prismatic span, certified against independent integrals"""
    segs, brk, EI = SHAPES[shape]
    L = 6.0
    w = c.real("w", -4, 4)
    u = c.real("u", -4, 4) if "trap" in kind else 0
    row, pc = pieces(kind, w, u)
    ks = c.const(2.5)
    R = [ks if v == "k" else v for v in rests(supports)]
    n = len(supports) - 1
    m = 0 if side == "left" or n == 1 else 1
    EIs, etys, GA, Ls = [c.const(4)] * n, [1] * n, [None] * n, [5.0] * n
    EIs[m], etys[m], Ls[m] = cba.SectionEI(segs) if segs else c.const(5), ety, L
    gfun = None
    if ga == "const":
        GA[m], gfun = 7.0, lambda x: 7.0
    elif ga == "step":
        GA[m], gfun = cba.SectionEI([("const", [0, 3], 4.0), ("const", [3, 6], 10.0)]), lambda x: 4.0 if x < 3 else 10.0
    elif ga == "taper":
        GA[m], gfun = cba.SectionEI([("linear", [0, 4], [4.0, 12.0]), ("linear", [4, 6], [9.0, 5.0])]), lambda x: 4.0 + 2 * x if x < 4 else 17.0 - 2 * x
        brk = list(brk) + [4.0]
    elif ga == "curved":
        GA[m], gfun = cba.SectionEI([("poly", [0, 3, 6], [10.0, 4.0, 7.0])]), lambda x: 10.0 - 3.5 * x + 0.5 * x * x
    LM = [[m + 1] + row]
    ks_ = []
    if curv:
        ks_ = [c.real(f"kappa{j}", -0.5, 0.5) for j in range(curv)]
        LM.append([m + 1, 6] + ks_)
    ba = cba.BeamAnalysis(Ls, EIs, R, LM, eletype=etys, GAv=GA if ga else None)
    ba.analyze(NP)
    r, d = ba.beam_results.vRes[m], ba.beam_results.D[2 * m:2 * m + 4]
    V0, M0, V1, M1 = r.V[1], r.M[1], r.V[-2], r.M[-2]
    cuts = sorted(set([float(b) for b in brk] + [0.0, L, 3.0] + [float(q) for q in (pc.a, pc.b) if 0 < q < L]))

    def kap(x):
        t = (M0 + V0 * x + pc.M_at(x)) / EI(x)
        for j, v in enumerate(ks_):
            t = t + v * x ** j
        return t
    I0 = integral(kap, cuts)
    I1 = integral(lambda x: kap(x) * (L - x), cuts)
    if gfun:
        I1 = I1 - integral(lambda x: (V0 + pc.V_at(x)) / gfun(x), cuts)
    S = 4 * L ** 3 / 2.0 * TOL + 0.5 * curv * L ** curv * TOL    # displacement scale of the largest load
    if ety == 1:
        near(c, "end rotation", d[3] - d[1], I0, S)
    if ety in (1, 2):
        near(c, "end deflection", d[2] - d[0] - d[1] * L, I1, S * L)
    if ety == 3:
        near(c, "end deflection", d[2] - d[0] - d[3] * L, I1 - I0 * L, S * L)
    if ety in (2, 4):
        c.eq("released right", M1, 0)
    if ety in (3, 4):
        c.eq("released left", M0, 0)
    W, Q = pc.force()
    c.eq("member vertical", V0 - V1, W)
    c.eq("member moments", M1 - M0 - V1 * L, Q)
    x0 = 5.0 * m
    for k in range(1, len(r.x) - 1):
        x = r.x[k] - x0
        if not (pc.kind in "Pm" and bool(x == pc.a)):
            c.eq(f"M at {k}", r.M[k], M0 + V0 * x + pc.M_at(x))
            c.eq(f"V at {k}", r.V[k], V0 + pc.V_at(x))
    # the rest of the beam is in balance with it
    ends = [(v.V[1], v.M[1], v.V[-2], v.M[-2]) for v in ba.beam_results.vRes]
    F, a, b = [], 0, 0
    for j, q in enumerate(R):
        if isinstance(q, int) and q == -1:
            F.append(ba.beam_results.R[a])
            a += 1
        elif isinstance(q, int) and q == 0:
            F.append(0)
        else:
            F.append(ba.beam_results.Rs[b])
            b += 1
    for j in range(n + 1):
        v = mm = 0
        if j < n:
            v, mm = v + ends[j][0], mm - ends[j][1]
        if j > 0:
            v, mm = v - ends[j - 1][2], mm + ends[j - 1][3]
        c.eq(f"node {j} force", v, F[2 * j])
        c.eq(f"node {j} moment", mm, F[2 * j + 1])


def curve(c, shape, supports, kind, ety=1, ga=None, npts=36, br=1.2, bd=3.5):
    """rotations and deflections between the nodes follow the exact curve, within the sampling error"""
    segs, brk, EI = SHAPES[shape]
    L = 6.0
    w = c.real("w", -4, 4)
    row, pc = pieces(kind, w, w)
    n = len(supports) - 1
    G = [7.0] + [None] * (n - 1) if ga else None
    ba = cba.BeamAnalysis([L, 5.0][:n], [cba.SectionEI(segs), c.const(4)][:n], rests(supports), [[1] + row], eletype=[ety, 1][:n], GAv=G)
    ba.analyze(npts)
    r, d = ba.beam_results.vRes[0], ba.beam_results.D
    V0, M0 = r.V[1], r.M[1]
    g = 1 / 7.0 if ga else 0

    def kap(x):
        return (M0 + V0 * x + pc.M_at(x)) / EI(x)
    base = sorted(set([float(b) for b in brk] + [0.0, L] + [float(q) for q in (pc.a, pc.b) if 0 < q < L]))
    t0 = d[1]
    if ety != 1:
        t0 = (d[2] - d[0] - integral(lambda x: kap(x) * (L - x), base) + g * (r.M[-2] - M0 + (pc.m if kind == "ml" else 0))) / L
    for k in (1, 7, 13, 20, 29, 37):
        X = float(k - 1) * L / npts
        cuts = [b for b in base if b < X] + [X]
        th = t0 + (integral(kap, cuts) if X else 0)
        y = d[0] + t0 * X + (integral(lambda x: kap(x) * (X - x), cuts) if X else 0) - g * (V0 * X + pc.M_at(X) + (pc.m if kind == "ml" and X > pc.a else 0))
        near(c, f"rotation at {k}", r.R[k], th, br)
        near(c, f"deflection at {k}", r.D[k], y, bd)


def stepped(c, supports, kind, cut_at=2.0, ety=1):
    """symbolic stiffness of the two parts: same nodes, reactions and moments as with a node at the step"""
    L = 6.0
    E = [c.real("Ea", 1, 10), c.real("Eb", 1, 10)]
    row, pc = pieces(kind, c.const(1), c.const(2))
    R = rests(supports)
    sec = cba.SectionEI([("const", [0, cut_at], E[0]), ("const", [cut_at, L], E[1])])
    A = cba.BeamAnalysis([L], [sec], R, [[1] + row], eletype=[ety])
    A.analyze(NP)
    x, LM = cut_at, []
    if kind == "udl":
        LM = [[1] + row, [2] + row]
    elif kind in ("pl", "ml", "ml0", "pl_step"):
        LM = [[1] + row] if pc.a < x else [[2] + row[:2] + [row[2] - x]]
    elif kind == "pudl":
        LM = [[1, 3, row[1], pc.a, x - pc.a], [2, 3, row[1], 0.0, pc.b - x]]
    e2 = {1: [1, 1], 2: [1, 2], 3: [3, 1], 4: [3, 2]}[ety]
    B = cba.BeamAnalysis([x, L - x], E, R[:2] + [0, 0] + R[2:], LM, eletype=e2)
    B.analyze(NP)
    a, b = A.beam_results, B.beam_results
    T = L ** 2 * TOL
    near(c, "reactions", np.array(a.R), np.array(b.R), T)
    near(c, "left displacement", a.D[:2], b.D[:2], T * L ** 2)
    near(c, "right displacement", a.D[2:], b.D[4:], T * L ** 2)
    near(c, "end moments", np.array([a.vRes[0].M[1], a.vRes[0].M[-2]]), np.array([b.vRes[0].M[1], b.vRes[1].M[-2]]), T)


def uniform(c, supports, kind, ety=1, ga=False):
    """a SectionEI that is constant is the scalar stiffness: every reported number"""
    L = 6.0
    E = c.real("E", 1, 10)
    w = c.real("w", -4, 4)
    row, pc = pieces(kind, w, w)
    G = c.real("G", 1, 10) if ga else None
    R = [c.const(2.5) if v == "k" else v for v in rests(supports)]
    n = len(supports) - 1
    Ls, es = [L, 5.0][:n], [ety, 1][:n]
    out = []
    for EI, GA in ((cba.SectionEI([("const", [0, L], E)]), cba.SectionEI([("const", [0, L], G)]) if ga else None), (E, G)):
        ba = cba.BeamAnalysis(Ls, [EI, c.const(3)][:n], R, [[1] + row], eletype=es, GAv=[GA, None][:n] if ga else None)
        ba.analyze(NP)
        out.append(ba.beam_results)
    a, b = out
    near(c, "reactions", np.array(a.R), np.array(b.R), 4 * L * L * TOL)
    near(c, "displacements", a.D, b.D, 4 * L ** 4 * TOL)
    near(c, "moments", a.results.M, b.results.M, 4 * L * L * TOL)
    near(c, "shears", a.results.V, b.results.V, 4 * L * TOL)


def kmatrix(c, shape, ety):
    """stiffness matrix: no energy in rigid motion, symmetric, and the inverse of the flexibility of the shape"""
    segs, brk, EI = SHAPES[shape]
    L = 6.0
    b = cba.Beam()
    k = b.k_nonprismatic(cba.SectionEI(segs), L, ety)
    a, t = c.real("a", -1, 1), c.real("t", -1, 1)
    q = [c.real(f"q{j}", -1, 1) for j in range(4)]
    f = k @ np.array([a, t, a + t * L, t])
    if ety == 1:
        near(c, "rigid motion", f, 0 * f, 1e-7)
    near(c, "rigid translation", k @ np.array([a, 0 * a, a, 0 * a]), 0 * f, 1e-7)
    p = [c.real(f"p{j}", -1, 1) for j in range(4)]
    g = k @ np.array(q)
    near(c, "balanced vertical", g[0] + g[2], 0 * a, 1e-7)
    near(c, "balanced moment", g[1] + g[3] + g[2] * L, 0 * a, 1e-6)
    # end moments -> chord rotations by independent quadrature
    Ma, Mb = g[1], g[3]
    cuts = [float(v) for v in brk]
    ra = integral(lambda x: (Ma * (1 - x / L) - Mb * x / L) * (1 - x / L) / EI(x), cuts)
    rb = integral(lambda x: (Ma * (1 - x / L) - Mb * x / L) * (-x / L) / EI(x), cuts)
    ch = (q[2] - q[0]) / L
    if ety in (1, 2):
        near(c, "left rotation", ra, q[1] - ch, 1e-5)
    if ety in (1, 3):
        near(c, "right rotation", rb, q[3] - ch, 1e-5)
    if ety in (2, 4):
        c.eq("released right", Mb, 0)
    if ety in (3, 4):
        c.eq("released left", Ma, 0)


def configs(tier):
    out = []

    def add(fn, name, **kw):
        out.append(dict(name=f"{fn.__name__}-{name}", fn=fn, cost=kw.pop("cost", 2), args=kw, bounds="span 6 m, listed stiffness shapes"))
    kinds = ("udl", "pl", "pudl", "ml", "trap", "trap_part")
    for s in [v for v in SHAPES if v != "plain"]:
        for k in kinds:
            add(member, f"{s}-{k}", shape=s, supports="ff", kind=k)
        add(member, f"{s}-cont", shape=s, supports="ppp", kind="pudl")
        add(member, f"{s}-right", shape=s, supports="fpt", kind="trap_part", side="right")
        add(member, f"{s}-rel2", shape=s, supports="fhf", kind="trap", ety=2)
        add(member, f"{s}-rel3", shape=s, supports="fhf", kind="pl", ety=3, side="right")
        add(member, f"{s}-curv", shape=s, supports="fp", kind="udl", curv=2)
        for e in (1, 2, 3, 4):
            add(kmatrix, f"{s}-{e}", shape=s, ety=e)
    for s in [v for v in SHAPES if v not in ("steep", "plain")]:      # (its sampling error is larger than the bounds of the others)
        for k in ("udl", "pl", "trap_part"):
            add(curve, f"{s}-{k}", shape=s, supports="fp", kind=k)
            add(curve, f"{s}-{k}-rel2", shape=s, supports="fhf", kind=k, ety=2)
            add(curve, f"{s}-{k}-rel4", shape=s, supports="ff", kind=k, ety=4)
            add(curve, f"{s}-{k}-rel3", shape=s, supports="ffp", kind=k, ety=3, ga=True)
            add(curve, f"{s}-{k}-ga", shape=s, supports="hf", kind=k, ga=True)
    for s in ("step", "taper", "pwl"):
        for k in kinds:
            add(member, f"ga-{s}-{k}", shape=s, supports="ff", kind=k, ga="const")
            add(member, f"gstep-{s}-{k}", shape=s, supports="fpp", kind=k, ga="step")
        add(member, f"ga-{s}-rel2", shape=s, supports="fhf", kind="udl", ety=2, ga="step")
        add(member, f"ga-{s}-rel3", shape=s, supports="fhf", kind="ml", ety=3, side="right", ga="const")
    for g in ("step", "taper", "curved"):
        for k in kinds:
            add(member, f"plain-{g}-{k}", shape="plain", supports="fp", kind=k, ga=g)
        add(member, f"plain-{g}-rel2", shape="plain", supports="fhf", kind="trap", ety=2, ga=g)
        add(member, f"plain-{g}-rel3", shape="plain", supports="fhf", kind="ml", ety=3, side="right", ga=g)
        add(member, f"plain-{g}-rel4", shape="plain", supports="fpp", kind="pudl", ety=4, ga=g)
        for s in ("plain", "step", "taper"):
            add(member, f"{s}-{g}-curv", shape=s, supports="fp", kind="udl", ga=g, curv=2)
            add(member, f"{s}-{g}-curv-rel", shape=s, supports="fhf", kind="pl", ety=3, side="right", ga=g, curv=1)
            add(member, f"{s}-{g}-curv-rel2", shape=s, supports="fhf", kind="ml", ety=2, ga=g, curv=2)
    for s in ("taper", "pwl"):
        for g in ("taper", "curved"):
            add(member, f"{s}-{g}-ml0", shape=s, supports="ff", kind="ml0", ga=g)
            add(member, f"{s}-{g}-pl", shape=s, supports="fpt", kind="pl", side="right", ga=g)
    for s in ("uniform",):
        for k in kinds:
            add(member, f"gstep-{s}-{k}", shape=s, supports="fp", kind=k, ga="step")
    for k in ("udl", "pl", "pudl", "ml"):
        for sup in ("ff", "fp", "pf", "pp"):
            add(stepped, f"{sup}-{k}", supports=sup, kind=k)
        for sup, n in (("ff", 1), ("fp", 1), ("fpt", 2)):
            for ga in (False, True):
                add(uniform, f"{sup}-{k}{'-ga' if ga else ''}", supports=sup, kind=k, ga=ga)
        add(stepped, f"rel2-{k}", supports="ff", kind=k, ety=2)
        add(stepped, f"rel3-{k}", supports="ff", kind=k, ety=3)
        add(stepped, f"rel4-{k}", supports="ff", kind=k, ety=4)
        add(stepped, f"late-{k}", supports="ff", kind=k, cut_at=4.0)
    return out
