"""influence lines against Betti's theorem (Mueller-Breslau shapes) and statics"""
from fractions import Fraction
import numpy as np
import pycba as cba
from pycba.inf_lines import InfluenceLines
from harness.scen import rests


def shape(c, Ls, EI, R, ety, dof):
    """pieces of the deflected shape when one restrained movement is 1 and the rest are 0"""
    D = [None] * len(R)
    D[dof] = 1.0
    ba = cba.BeamAnalysis(Ls, EI, R, [], eletype=ety, D=D)
    ba.analyze(4)
    d = ba.beam_results.D
    out, x0 = [], 0
    for i, L in enumerate(Ls):
        r = ba.beam_results.vRes[i]
        V0, M0, E = r.V[1], r.M[1], EI[i]
        t = (d[2 * i + 2] - d[2 * i] - (M0 * L * L / 2 + V0 * L ** 3 / 6) / E) / L
        out.append((x0, x0 + L, lambda x, v=d[2 * i], t=t, M=M0, V=V0, E=E: v + t * x + (M * x * x / 2 + V * x ** 3 / 6) / E))
        x0 = x0 + L

    def f(p):
        for a, b, g in out:
            if a <= p and p <= b:
                return g(p - a)
        return 0
    return f


def lines(c, Ls, supports, step, ety=None, npts=8, n=None, again=False, sym=True, near=False):
    N = len(Ls)
    EI = [c.real(f"EI{i}", 1, 10) if sym else [3.0, 5.0, 2.0][i] for i in range(N)]
    R, spring = [], None
    for j, v in enumerate(rests(supports)):
        if v == "k":
            v = c.real(f"k{j}", 0.5, 20)
            spring = j
        R.append(v)
    P = c.real("P", -4, 4)
    il = InfluenceLines(Ls, EI, R, eletype=ety)
    il.ba.npts = npts
    if isinstance(step, tuple):
        step = c.real("step", *step)
    if again:
        il.create_ils(step=c.const(1), load_val=2.0)
        il.get_il(0.0, "M")
    il.create_ils(step=step, load_val=P)
    total = sum(Ls)
    n = n or int(round(total / step)) + 1
    nodes = [sum(Ls[:i]) for i in range(N + 1)]
    pos = [step * q for q in range(n)]
    if near:
        c.assume(pos[-1] > total)
        pos[-1] = total
    on = [p <= total for p in pos]
    react = {}
    for dof in range(2 * N + 2):
        if isinstance(R[dof], int) and R[dof] == -1:
            f = shape(c, Ls, EI, R, ety, dof)
            want = [P * f(p) if o else 0 for p, o in zip(pos, on)]
            react[dof] = want
            x, eta = il.get_il(nodes[dof // 2], "R" if dof % 2 == 0 else "mr")
            c.true(f"{dof} one ordinate per position", len(x) == n and len(eta) == n)
            if dof == 0:
                c.eq("positions", x, pos)
            c.eq(f"reaction {dof}", eta, want)
    # between supports the nearest one held fixed answers
    fixed = [d for d in react if d % 2 == 0]
    for i in range(N) if fixed and not again else ():
        for j in (1, 2, 3):
            at = nodes[i] + Ls[i] * c.const(f"{13 * j - 1}/50")
            dist = [abs(nodes[d // 2] - at) for d in fixed]
            k = min(range(len(fixed)), key=lambda q: dist[q])
            if sum(1 for d in dist if d == dist[k]) == 1:
                c.eq(f"reaction nearest to {j} in span {i}", il.get_il(at, "R")[1], react[fixed[k]])
    if spring is not None:
        fv = [P * 1 if o else 0 for o in on]
        if spring % 2 == 0:
            for dof, w in react.items():
                if dof % 2 == 0:
                    fv = [a - b for a, b in zip(fv, w)]
            react[spring] = fv
        else:
            # moments about the left end
            mv = [P * p if o else 0 for p, o in zip(pos, on)]
            for dof, w in react.items():
                mv = [a - (b * nodes[dof // 2] if dof % 2 == 0 else b) for a, b in zip(mv, w)]
            react[spring] = mv
    pois = [(i, j) for i in range(N) for j in (0, 1, npts // 2, npts - 3, npts)]
    for i, j in pois:
        poi = nodes[i] + Ls[i] * c.const(f"{j}/{npts}")
        if j == npts and i < N - 1:
            continue    # the node belongs to the span on its right
        m = v = None
        M, V = [], []
        for q in range(n):
            m = v = 0
            for dof, w in react.items():
                xn = nodes[dof // 2]
                # a node at the poi counts as left of it, except at the far end of the beam
                left = xn < poi or (xn == poi and not j == npts)
                if not left:
                    continue
                if dof % 2 == 0:
                    m, v = m + w[q] * (poi - xn), v + w[q]
                else:
                    m = m - w[q]
            if on[q] and pos[q] < poi:
                m, v = m - P * (poi - pos[q]), v - P
            M.append(m)
            V.append(v)
        eta = il.get_il(poi, "M")[1]
        c.eq(f"moment at station {j} of span {i}", eta, M)
        eta = il.get_il(poi, "V")[1]
        for q in range(n):
            if not pos[q] == poi:
                c.eq(f"shear at station {j} of span {i} position {q}", eta[q], V[q])


def rounded(c, Ls, supports):
    """a place past the end by no more than rounding is the end, from whichever effect"""
    N = len(Ls)
    EI = [c.real(f"EI{i}", 1, 10) for i in range(N)]
    il = InfluenceLines(Ls, EI, rests(supports))
    il.ba.npts = 4
    il.create_ils(step=1, load_val=c.real("P", -4, 4))
    T = c.const(sum(Fraction(str(q)) for q in Ls))
    for e in "MVR":
        a = il.get_il(T, e)[1]
        b = il.get_il(T * (1 + Fraction(1, 10 ** 13)), e)[1]
        c.eq(e, b, a)


def default(c, Ls, supports):
    """a request before any set-up uses unit loads at a hundred steps; the nearest support answers"""
    EI = [c.real(f"EI{i}", 1, 10) for i in range(len(Ls))]
    il = InfluenceLines(Ls, EI, rests(supports))
    il.ba.npts = 4
    x, eta = il.get_il(0.2, "r")
    T = sum(Ls)
    c.eq("positions", x, [T * c.const(f"{q}/100") for q in range(101)])
    f = shape(c, Ls, EI, rests(supports), None, 0)
    c.eq("reaction", eta, [f(x[q]) for q in range(101)])
    a = il.get_il(0.2, "R")[1]
    c.eq("asking again changes nothing", a, eta)


def configs(tier):
    out = []

    def add(name, Ls, sup, step, **kw):
        cost = kw.pop("cost", 2)
        out.append(dict(name=name, fn=lines, cost=cost, args=dict(Ls=Ls, supports=sup, step=step, **kw)))
    for sup in ("pr", "fh", "fp", "ff", "pf", "hf", "rp"):
        add(sup, [4.0], sup, 0.5)
    for sup in ("ppp", "fpp", "fpf", "pph", "hpp", "php", "hph"):
        if sup == "hph":
            continue
        add(sup, [3.0, 5.0], sup, 1.0)
    add("fff", [3.0, 5.0], "fff", 1.0)
    add("pppp", [3.0, 2.0, 4.0], "pppp", 0.75, n=13)
    add("springs", [3.0, 5.0], "psp", 1.0)
    add("spring-end", [4.0], "fs", 0.5)
    add("spring-rot", [4.0], "tp", 0.5)
    add("spring-first", [3.0, 5.0], "spp", 1.0)
    add("hinge2", [3.0, 5.0], "fhp", 1.0, ety=[2, 1])
    add("hinge3", [3.0, 5.0], "fhp", 1.0, ety=[1, 3])
    add("drop", [3.0, 2.0, 4.0], "fhhf", 0.75, ety=[1, 4, 1], n=13)
    add("again", [3.0, 5.0], "ppp", 1.0, again=True)
    add("overshoot", [3.0, 4.0], "ppp", 1.2, n=7)
    add("overshoot-past", [3.0, 4.0], "pph", 1.3, n=6)
    add("coarse", [3.0, 4.0], "fph", 7.0)
    add("step", [3.0, 4.0], "ppp", (1.6, 1.74), n=5, npts=4, sym=False, cost=6)
    add("step-cant", [3.0, 2.0], "fph", (1.68, 1.95), n=4, npts=4, sym=False, cost=6)
    # the last position lies past the end by no more than rounding: it counts as the end
    add("rounding", [1.1], "fh", (0.1, 0.1000000001), n=12, npts=4, sym=False, near=True)
    add("rounding2", [0.5, 1.1], "fph", (0.4, 0.4000000001), n=5, npts=4, sym=False, near=True)
    add("step-short", [4.0], "fp", (1.2, 1.33), n=4, npts=4, sym=False, cost=6)
    add("step-past", [4.0], "fp", (1.34, 1.55), n=4, npts=4, sym=False, cost=6)
    for sup in ("ppp", "fpf", "fph"):
        out.append(dict(name=f"rounded-{sup}", fn=rounded, args=dict(Ls=[3.0, 5.0], supports=sup)))
    out.append(dict(name="default", fn=default, args=dict(Ls=[3.0, 5.0], supports="ppp")))
    if tier == "thorough":
        for sup in ("pppp", "fppf", "fppp", "pphp", "pfpp", "ppph"):
            add("t-" + sup, [3.0, 2.0, 4.0], sup, 0.5)
        for a, b in ((1.1, 1.16), (1.18, 1.27), (1.3, 1.39), (1.41, 1.5), (1.01, 1.05)):
            for sup in ("ppp", "fph", "fpf"):
                n = {1.1: 7, 1.18: 7, 1.3: 6, 1.41: 6, 1.01: 8}[a]
                add(f"t-step-{sup}-{n}-{int(100 * a)}", [3.0, 4.0], sup, (a, b), n=n, npts=4, sym=False, cost=8)
    return out
