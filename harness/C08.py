"""imposed curvature (temperature gradient, shrinkage): total curvature = M/EI + imposed curvature"""
import pycba as cba
from harness.scen import build

NP = 4


def poly_int(k, L, w):
    """int_0^L (L-x)^w * sum k_j x^j dx for w = 0, 1"""
    t = 0
    for j, v in enumerate(k):
        t = t + (v * L ** (j + 1) / (j + 1) if w == 0 else v * L ** (j + 2) / ((j + 1) * (j + 2)))
    return t


def setup(c, spans, supports, degs, loads=(), GA=None, npts=NP, again=(), **kw):
    S = build(c, spans, supports, list(loads), GAv=GA, npts=npts, **kw)
    S.k = []
    for i, n in enumerate(degs):
        S.k.append([c.real(f"ka{i}{j}", -1, 1) for j in range(n)])
        if n:
            S.ba.add_ic(i + 1, list(S.k[-1]) if n > 1 else S.k[-1][0])
    for i, n in again:       # a second imposed curvature on the same member adds to the first
        k = [c.real(f"kb{i}{j}", -1, 1) for j in range(n)]
        S.ba.add_ic(i + 1, k if n > 1 else k[0])
        m = max(n, len(S.k[i]))
        a, b = S.k[i] + [0] * (m - len(S.k[i])), k + [0] * (m - n)
        S.k[i] = [u + v for u, v in zip(a, b)]
    S.analyze()
    return S


def exact(c, spans, supports, degs, loads=(), gav=None, **kw):
    GA = [c.real(f"GA{i}", 0.5, 20) if g else None for i, g in enumerate(gav)] if gav else None
    S = setup(c, spans, supports, degs, loads, GA, **kw)
    d, F = S.br.D, S.reactions()
    x0 = 0
    ends = [S.end_forces(i) for i in range(spans)]
    for i in range(spans):
        L, EI, ps, k = S.L[i], S.EI[i], S.pieces[i], S.k[i]
        V0, M0, V1, M1 = ends[i]
        I0 = (M0 * L + V0 * L * L / 2 + sum([p.dM(L, 0) for p in ps])) / EI + poly_int(k, L, 0)
        I1 = (M0 * L * L / 2 + V0 * L ** 3 / 6 + sum([p.dM(L, 1) for p in ps])) / EI + poly_int(k, L, 1)
        if GA is not None and GA[i] is not None:
            I1 = I1 - (M1 - M0 + sum([p.m for p in ps])) / GA[i]
        vi, ti, vj, tj = d[2 * i], d[2 * i + 1], d[2 * i + 2], d[2 * i + 3]
        e = S.eletype[i]
        if e == 1:
            c.eq(f"member {i} end rotation", tj - ti, I0)
        if e in (1, 2):
            c.eq(f"member {i} end deflection", vj - vi - ti * L, I1)
        if e == 3:
            c.eq(f"member {i} end deflection", vj - vi - tj * L, I1 - I0 * L)
        if e in (2, 4):
            c.eq(f"member {i} right release", M1, 0)
        if e in (3, 4):
            c.eq(f"member {i} left release", M0, 0)
        r = S.br.vRes[i]
        for q in range(1, len(r.x) - 1):
            x = r.x[q] - x0
            c.eq(f"member {i} M at point {q}", r.M[q], M0 + V0 * x + sum([p.M_at(x) for p in ps]))
            c.eq(f"member {i} V at point {q}", r.V[q], V0 + sum([p.V_at(x) for p in ps]))
        x0 = x0 + L
    for j in range(spans + 1):
        v = m = 0
        if j < spans:
            v, m = v + ends[j][0], m - ends[j][1]
        if j > 0:
            v, m = v - ends[j - 1][2], m + ends[j - 1][3]
        c.eq(f"node {j} force balance", v, F[2 * j])
        c.eq(f"node {j} moment balance", m, F[2 * j + 1])
    for j, r in enumerate(S.R):
        if isinstance(r, int) and r == -1:
            c.eq(f"dof {j} fixed", d[j], 0)
        elif not (isinstance(r, int) and r in (0, -1)):
            c.eq(f"dof {j} spring force", F[j], -r * d[j])


def free(c, spans, supports, degs, **kw):
    """a statically determinate beam curves freely: no moments, no shears, no reactions"""
    S = setup(c, spans, supports, degs, **kw)
    r = S.br.results
    c.eq("no moment", r.M, 0)
    c.eq("no shear", r.V, 0)
    c.eq("no reactions", list(S.br.R) + list(S.br.Rs), 0)


def curve(c, spans, supports, degs, npts=12, signs=False, **kw):
    """deflected shape between nodes, within the sampling error"""
    S = setup(c, spans, supports, degs, npts=npts, Lmode=(3, 4)[:spans], EIs=(2, 5)[:spans], **kw)
    d = S.br.D
    x0 = 0
    for i in range(spans):
        L, EI, k = S.L[i], S.EI[i], S.k[i]
        sg = [-1 if signs and j % 2 else 1 for j in range(len(k))]
        for v, q in zip(k, sg):
            c.assume(q * v > 0.25)
        V0, M0, V1, M1 = S.end_forces(i)
        h = L / npts
        r = S.br.vRes[i]
        K = sum([v * (j + 1) ** 2 * L ** j for j, v in enumerate(k)])
        I1 = (M0 * L * L / 2 + V0 * L ** 3 / 6) / EI + poly_int(k, L, 1)
        ti = d[2 * i + 1] if S.eletype[i] == 1 else (d[2 * i + 2] - d[2 * i] - I1) / L
        bt = h * h * K + 1e-9
        bd = 4 * L * h * h * K + 1e-9
        if signs:       # a bound near the error that the sampling of a curvature that is a line can make
            K = sum([q * v * L ** j for j, (v, q) in enumerate(zip(k, sg))])
            bt, bd = h * h * K + 1e-9, L * h * h * K + 1e-9
        for q in range(1, npts + 2, 3):
            x = r.x[q] - x0
            th = ti + (M0 * x + V0 * x * x / 2) / EI + poly_int(k, x, 0)
            y = d[2 * i] + ti * x + (M0 * x * x / 2 + V0 * x ** 3 / 6) / EI + poly_int(k, x, 1)
            for s, t in ((1, "upper"), (-1, "lower")):
                c.le(f"member {i} rotation {t} {q}", s * (r.R[q] - th), bt * (1 if S.eletype[i] == 1 else 5))
                c.le(f"member {i} deflection {t} {q}", s * (r.D[q] - y), bd)
        x0 = x0 + L


def configs(tier):
    out = []

    def add(fn, name, spans, supports, degs, **kw):
        cost = sum(degs) + 2 * len(kw.get("again", ()))
        out.append(dict(name=f"{fn.__name__}-{name}", fn=fn, cost=cost, args=dict(spans=spans, supports=supports, degs=degs, **kw)))
    for n in (1, 2, 3):
        for sup in ("ff", "fp", "pf", "ft", "gp", "ss"):
            add(exact, f"{sup}-{n}", 1, sup, [n])
        for sup in ("fpp", "ppp", "psf"):
            add(exact, f"{sup}-{n}", 2, sup, [n, 0], Lmode="one")
            add(exact, f"{sup}-0{n}", 2, sup, [0, n], Lmode="one")
        add(exact, f"rel2-{n}", 2, "fpf", [n, 1], eletype=[2, 1], Lmode="one")
        add(exact, f"rel3-{n}", 2, "fpf", [1, n], eletype=[1, 3], Lmode="one")
        add(exact, f"rel4-{n}", 3, "fpppf"[:1] + "ppf", [0, n, 0], eletype=[1, 4, 1], Lmode="one")
        add(exact, f"shear-{n}", 1, "ff", [n], gav=[1])
        add(exact, f"shear2-{n}", 2, "fpf", [n, 1], gav=[1, 1], Lmode="one")
        for sup in ("fh", "pp", "hf"):
            add(free, f"{sup}-{n}", 1, sup, [n])
        add(free, f"gerber-{n}", 2, "fhp", [n, n], eletype=[2, 1], Lmode="one")
        add(free, f"drop-{n}", 3, "fhhf", [n, 1, n], eletype=[1, 4, 1], Lmode="one")
        for sup in ("ff", "fp", "hf", "gs"):
            add(curve, f"{sup}-{n}", 1, sup, [n])
        add(curve, f"fpp-{n}", 2, "fpp", [n, n])
        add(curve, f"rel2-{n}", 2, "fhf", [n, n], eletype=[2, 1])
        if n == 2:
            for sup in ("hf", "ff", "gs"):
                add(curve, f"turning-{sup}", 1, sup, [2], signs=True)
            for j, et in enumerate(([2, 1], [1, 3], [3, 1], [4, 1], [1, 2])):
                add(curve, f"turning-rel{j}", 2, ("fhf", "fhf", "fpf", "fpf", "fpf")[j], [2, 2], eletype=et, signs=True)
        add(curve, f"rel3-{n}", 2, "fhf", [n, n], eletype=[1, 3])
    add(exact, "with-loads", 2, "fpp", [2, 1], loads=[("udl", 1), ("pl_third", 2)], Lmode=(3, 4))
    for a, b in ((1, 1), (1, 2), (2, 1), (3, 1)):
        add(exact, f"twice-{a}{b}", 1, "fp", [a], again=[(0, b)])
        add(exact, f"twice2-{a}{b}", 2, "fpp", [1, a], again=[(1, b)], Lmode="one")
        add(exact, f"twicerel-{a}{b}", 2, "fpf", [a, 1], again=[(0, b)], eletype=[2, 1], Lmode="one")
        add(free, f"twice-{a}{b}", 1, "pp", [a], again=[(0, b)])
        add(curve, f"twice-{a}{b}", 1, "fp", [a], again=[(0, b)])
        add(curve, f"twice2-{a}{b}", 2, "fpp", [1, a], again=[(1, b), (0, 1)])
    if tier == "thorough":
        for sup in ("fff", "pfp", "spf", "gpp", "fps"):
            for a in (1, 2, 3):
                for b in (1, 2, 3):
                    add(exact, f"t-{sup}-{a}{b}", 2, sup, [a, b], Lmode="one")
    return out
