"""members on a Winkler foundation against the closed-form solution of EI v'''' + kf v = w"""
import math
import numpy as np
import pycba as cba
from harness.scen import rests


# ---------------------------------------------------------------- closed form
def solve(A, b):
    n = len(b)
    M = [list(map(float, r)) + [float(v)] for r, v in zip(A, b)]
    for k in range(n):
        p = max(range(k, n), key=lambda i: abs(M[i][k]))
        M[k], M[p] = M[p], M[k]
        for i in range(n):
            if i != k and M[i][k] != 0.0:
                f = M[i][k] / M[k][k]
                M[i] = [x - f * y for x, y in zip(M[i], M[k])]
    return [M[i][n] / M[i][i] for i in range(n)]


class Seg:
    """v (up) = sum c_j f_j(x) + w * particular"""

    def __init__(self, l, EI, kf, w):
        self.l, self.EI, self.kf, self.w = l, EI, kf, w
        self.b = (kf / (4 * EI)) ** 0.25 if kf else None

    def rows(self, x, k):
        """k-th derivative of the four homogeneous functions and of the particular one"""
        if self.b is None:
            x = float(x)
            h = [[1, x, x * x, x ** 3], [0, 1, 2 * x, 3 * x * x], [0, 0, 2, 6 * x], [0, 0, 0, 6]][k]
            return h, -self.w / self.EI * [x ** 4 / 24, x ** 3 / 6, x * x / 2, x][k]
        b, out = self.b, []
        for z, sg in ((-b * x, -1), (-b * (self.l - x), 1)):
            # e^{sg b s} with s measured from the end it decays from; complex exponent b(sg + i)
            s = x if sg < 0 else self.l - x
            lam = complex(-b, b)
            v = (lam ** k) * complex(math.exp(-b * s) * math.cos(b * s), math.exp(-b * s) * math.sin(b * s))
            v = v * (1 if sg < 0 else (-1) ** k)
            out += [v.real, v.imag]
        return out, (-self.w / self.kf if k == 0 else 0.0)


def exact(Ls, EIs, kfs, R, loads):
    """loads: (global x, P) downward forces and (x0, x1, w); -> f(x, k, side) k-th quantity (v, theta, M, V), node forces"""
    ends = [0.0]
    for l in Ls:
        ends.append(ends[-1] + l)
    xs = sorted(set(ends + [p[0] for p in loads if len(p) == 2] + [q for p in loads if len(p) == 3 for q in p[:2]]))
    segs = []
    for a, b in zip(xs[:-1], xs[1:]):
        i = max(j for j in range(len(Ls)) if ends[j] <= a + 1e-12)
        w = sum(p[2] for p in loads if len(p) == 3 and p[0] <= a + 1e-12 and b <= p[1] + 1e-12)
        segs.append(Seg(b - a, EIs[i], kfs[i], w))
    n = len(segs)
    A, B = [], []

    def cond(terms, rhs=0.0):
        """sum of coefficient * quantity k at (segment, end) = rhs"""
        row, r = [0.0] * (4 * n), rhs
        for f, s, e, k in terms:
            g = segs[s]
            h, p = g.rows(g.l if e else 0.0, k)
            m = f * (g.EI if k > 1 else 1.0)
            for j in range(4):
                row[4 * s + j] += m * h[j]
            r -= m * p
        A.append(row)
        B.append(r)
    for j, x in enumerate(xs):
        node = next((q for q, e in enumerate(ends) if abs(e - x) < 1e-12), None)
        left, right = j - 1, j
        if 0 < j < n:
            cond([(1, left, 1, 0), (-1, right, 0, 0)])
            cond([(1, left, 1, 1), (-1, right, 0, 1)])
        at = (left, 1) if j == n else (right, 0)
        P = sum(p[1] for p in loads if len(p) == 2 and abs(p[0] - x) < 1e-12)
        rv, rt = (R[2 * node], R[2 * node + 1]) if node is not None else (0, 0)
        # vertical: V(right) - V(left) = -P + F,  F = -rv v for a spring
        if rv == -1:
            cond([(1,) + at + (0,)])
        else:
            t = ([(1, right, 0, 3)] if j < n else []) + ([(-1, left, 1, 3)] if j > 0 else []) + ([(rv,) + at + (0,)] if rv else [])
            cond(t, -P)
        if rt == -1:
            cond([(1,) + at + (1,)])
        else:
            # moment: M(left) - M(right) + C = 0 with C = -rt theta anticlockwise on the joint
            t = ([(1, right, 0, 2)] if j < n else []) + ([(-1, left, 1, 2)] if j > 0 else []) + ([(-rt,) + at + (1,)] if rt else [])
            cond(t)
    cst = solve(A, B)

    def f(x, k, right=False):
        s = max(j for j in range(n) if xs[j] <= x + 1e-12) if right else min(j for j in range(n) if x <= xs[j + 1] + 1e-12)
        g = segs[s]
        h, p = g.rows(x - xs[s], k)
        return (g.EI if k > 1 else 1.0) * (sum(c * q for c, q in zip(cst[4 * s:4 * s + 4], h)) + p)
    F = []
    for q in range(len(ends)):
        v = (f(ends[q], 3, True) if q < len(Ls) else 0.0) - (f(ends[q], 3) if q > 0 else 0.0)
        v += sum(p[1] for p in loads if len(p) == 2 and abs(p[0] - ends[q]) < 1e-12)
        m = (f(ends[q], 2) if q > 0 else 0.0) - (f(ends[q], 2, True) if q < len(Ls) else 0.0)
        F += [v, m]
    return f, F, ends


# ------------------------------------------------------------------- checks
CASES = {
    "free": ([6.0], [5.0], [4.0], "hh"),
    "free-long": ([12.0], [3.0], [6.0], "hh"),
    "fixed": ([6.0], [5.0], [4.0], "ff"),
    "pinned": ([6.0], [5.0], [4.0], "pp"),
    "cantilever": ([5.0], [20.0], [2.0], "fh"),
    "stiff": ([4.0], [100.0], [2.0], "hh"),
    "spring": ([6.0], [5.0], [4.0], "sh"),
    "approach": ([6.0, 5.0], [5.0, 8.0], [4.0, None], "hpp"),
    "after": ([5.0, 6.0], [8.0, 5.0], [None, 4.0], "fhh"),
    "both": ([5.0, 6.0], [8.0, 5.0], [2.0, 6.0], "hph"),
    "joint": ([5.0, 6.0], [8.0, 5.0], [2.0, 6.0], "hhh"),
}
# (relative) discretisation error of the 8-elements-per-wave mesh, checked against the closed form
TD, TM, TV = 0.004, 0.03, 0.10


def lm(kind, m, w, Ls):
    L, x0 = Ls[m], sum(Ls[:m])
    if kind == "udl":
        return [m + 1, 1, w], lambda q: [(x0, x0 + L, q)]
    if kind == "pudl":
        return [m + 1, 3, w, 0.2 * L, 0.45 * L], lambda q: [(x0 + 0.2 * L, x0 + 0.65 * L, q)]
    if kind == "pudl_over":
        return [m + 1, 3, w, 0.625 * L, 0.75 * L], lambda q: [(x0 + 0.625 * L, x0 + L, q)]
    if kind == "pudl_short":
        return [m + 1, 3, w, 0.52 * L, 0.05 * L], lambda q: [(x0 + 0.52 * L, x0 + 0.57 * L, q)]
    f = {"pl_mid": 0.5, "pl": 0.29, "pl_right": 1.0, "pl_left": 0.0, "pl_end": 0.97}[kind]
    return [m + 1, 2, w, f * L], lambda q: [(x0 + f * L, q)]


def close(c, label, a, b, bound):
    c.le(f"{label} upper", a - b, bound)
    c.le(f"{label} lower", b - a, bound)


def response(c, case, kind, m=0):
    Ls, EIs, kfs, sup = CASES[case]
    w = c.real("w", -4, 4)
    row, mk = lm(kind, m, w, Ls)
    R = [0.8 if v == "k" else v for v in rests(sup)]
    ba = cba.BeamAnalysis(Ls, EIs, R, [row], kf=kfs)
    ba.analyze(48)
    br = ba.beam_results
    f, F, ends = exact(Ls, EIs, kfs, R, mk(1.0))
    T = sum(ends[-1:])
    grid = [T * j / 96 for j in range(97)]
    dmax = max(abs(f(x, 0)) for x in grid)
    rmax = max(abs(f(x, 1)) for x in grid)
    mmax = max(max(abs(f(x, 2)) for x in grid), max(abs(v) for v in F[1::2]))
    tot = sum(p[1] if len(p) == 2 else p[2] * (p[1] - p[0]) for p in mk(1.0))
    mmax, vmax = max(mmax, tot * T / (40 if case == "stiff" else 200)), max(tot / 2, max(abs(f(x, 3)) for x in grid))
    for j in range(len(ends)):
        close(c, f"node {j} displacement", br.D[2 * j], w * f(ends[j], 0), 4 * TD * dmax)
        close(c, f"node {j} rotation", br.D[2 * j + 1], w * f(ends[j], 1), 4 * TD * max(rmax, dmax / T))
    a = b = 0
    for j, r in enumerate(R):
        if r == -1:
            close(c, f"reaction {j}", br.R[a], w * F[j], 4 * (TD * tot * 2 if j % 2 == 0 else TM * mmax))
            a += 1
        elif r:
            close(c, f"spring force {j}", br.Rs[b], w * F[j], 4 * TD * tot * 2)
            b += 1
    jumps = [p[0] for p in mk(1.0) if len(p) == 2] + ends
    for i in range(len(Ls)):
        r = br.vRes[i]
        n = len(r.x)
        tm, tv = (0.12, 0.3)  if case == 'stiff' else (TM, 0.2 if case == 'cantilever' else TV)    # eight sub-elements only
        c.true(f"member {i} stations within the member", float(r.x[0]) == ends[i] and abs(float(r.x[-1]) - ends[i + 1]) < 1e-9)
        for k in range(1, n - 1):
            x = float(r.x[k])
            if k % 5 and k not in (1, n - 2) and x - float(r.x[k - 1]) > 1e-9:
                continue        # every fifth station, and every internal joint of the member
            e = min(max(x, ends[i] + 1e-9), ends[i + 1] - 1e-9)
            close(c, f"member {i} deflection at {k}", r.D[k], w * f(e, 0), 4 * 3 * TD * dmax)
            close(c, f"member {i} moment at {k}", r.M[k], w * f(e, 2), 4 * tm * mmax)
            if kfs[i] is None and all(abs(x - q) > 1e-6 for q in jumps):
                close(c, f"member {i} shear at {k}", r.V[k], w * f(e, 3), 4 * tv * vmax)
            elif all(abs(x - q) > ends[-1] / 8 for q in jumps):
                close(c, f"member {i} shear at {k}", r.V[k], w * f(e, 3), 4 * tv * vmax)


def anywhere(c, case, k, m=0, cells=16):
    """point load at every position: end displacements follow the closed form (quadratic interpolation of it per cell)"""
    Ls, EIs, kfs, sup = CASES[case]
    R = [0.8 if v == "k" else v for v in rests(sup)]
    L, x0 = Ls[m], sum(Ls[:m])
    a = c.real("a", 0, L)
    lo, hi = L * k / cells, L * (k + 1) / cells
    c.assume(a > lo)
    c.assume(a < hi)
    ba = cba.BeamAnalysis(Ls, EIs, R, [[m + 1, 2, 1.0, a]], kf=kfs)
    ba.analyze(8)
    d = ba.beam_results.D
    G = []
    for x in (lo, (lo + hi) / 2, hi):
        f, F, ends = exact(Ls, EIs, kfs, R, [(x0 + x, 1.0)])
        G.append([f(e, q) for e in ends for q in (0, 1)])
    mid = exact(Ls, EIs, kfs, R, [(x0 + L / 2, 1.0)])[0]
    s = max(abs(mid((x0 + L) * j / 20, 0)) for j in range(21))
    t = (a - lo) / (hi - lo)
    for j in range(len(G[0])):
        q = G[0][j] * (1 - t) * (1 - 2 * t) + G[1][j] * 4 * t * (1 - t) + G[2][j] * t * (2 * t - 1)
        close(c, f"displacement {j}", d[j], q, 3 * TD * s + 2e-3 * max(abs(g[j]) for g in G))


def linear(c, case):
    """superposition, and nothing is remembered between analyses"""
    Ls, EIs, kfs, sup = CASES[case]
    R = [0.8 if v == "k" else v for v in rests(sup)]
    w, p, g = c.real("w", -4, 4), c.real("p", -4, 4), c.real("g", -2, 2)
    A, B = [[1, 1, w]], [[len(Ls), 2, p, 1.3]]
    ba = cba.BeamAnalysis(Ls, EIs, R, A, kf=kfs)

    def out(b, LM):
        b.set_loads(LM)
        b.analyze(8)
        r = b.beam_results
        return np.concatenate([r.results.M, r.results.V, r.results.D, r.results.R, r.D, r.R, r.Rs])
    ra, rb = out(ba, A), out(ba, B)
    c.eq("sum", out(ba, cba.add_LM(A, B)), ra + rb)
    c.eq("factor", out(ba, cba.factor_LM(A, g)), ra * g)
    c.eq("again", out(ba, A), ra)
    c.eq("fresh", out(cba.BeamAnalysis(Ls, EIs, R, [], kf=kfs), B), rb)


def refused(c):
    """combinations that are not supported are refused, never silently ignored"""
    w = c.real("w", 1, 4)
    S = cba.SectionEI([("const", [0, 6], 5.0)])
    base = dict(L=[6.0], EI=[5.0], R=[-1, 0, -1, 0], kf=[4.0])

    def go(LM, **k):
        cba.BeamAnalysis(**dict(base, **k), LM=LM).analyze(8)
    c.raises("varying stiffness", NotImplementedError, go, [[1, 1, w]], EI=[S])
    c.raises("shear flexibility", NotImplementedError, go, [[1, 1, w]], GAv=[7.0])
    for e in (2, 3, 4):
        c.raises(f"release {e}", NotImplementedError, go, [[1, 1, w]], eletype=[e], R=[-1, -1, -1, -1])
    c.raises("couple", NotImplementedError, go, [[1, 4, w, 2.0]])
    c.raises("trapezoidal", NotImplementedError, go, [[1, 5, w, w]])
    c.raises("imposed curvature", NotImplementedError, go, [[1, 6, w]])
    c.raises("kf count", ValueError, go, [[1, 1, w]], kf=[1.0, 2.0])
    two = cba.Beam([3.0, 4.0], [5.0, 5.0], [-1, 0, -1, 0, -1, 0], eletype=[1, 1], kf=4.0)
    c.true("one modulus for every span", list(two.mbr_kf) == [4.0, 4.0])
    c.true("none by default", list(cba.Beam([3.0], [5.0], [-1, 0, -1, 0], eletype=[1]).mbr_kf) == [None])


def element(c, n):
    """stiffness and loads of the member with few sub-elements, for every stiffness, modulus and length: symmetric, and the
    vertical force at the ends plus the foundation's equals the load"""
    from pycba.foundation import FoundationElement
    from pycba.load import LoadUDL, LoadPL, LoadPUDL
    L, EI, kf = c.real("L", 1, 10), c.real("EI", 1, 10), c.real("kf", 0.5, 8)
    fe = FoundationElement(L, EI, kf, n=n)
    for i in range(4):
        for j in range(i):
            c.eq(f"symmetric {i}{j}", fe.k[i, j], fe.k[j, i])
    # uniform load on a free beam: uniform settlement w/kf
    w = c.real("w", -4, 4)
    ref = fe.ref([LoadUDL(0, w)])
    d = [-w / kf, 0 * w, -w / kf, 0 * w]
    c.eq("uniform settlement", fe.k @ np.array(d) + np.array(ref), 0)
    # a full-length partial load is the uniform load
    c.eq("full partial load", np.array(fe.ref([LoadPUDL(0, w, 0 * L, L)])), np.array(ref))
    # mirror image
    a = c.const("0.3") * L
    r1, r2 = fe.ref([LoadPL(0, w, a)]), fe.ref([LoadPL(0, w, L - a)])
    c.eq("mirrored load", [r1[2], -r1[3], r1[0], -r1[1]], [r2[0], r2[1], r2[2], r2[3]])
    s = np.array([1, -1, 1, -1])
    P = np.array([[0, 0, 1, 0], [0, 0, 0, -1], [1, 0, 0, 0], [0, -1, 0, 0]])
    c.eq("mirrored stiffness", P @ fe.k @ P, fe.k)


def configs(tier):
    out = []

    def add(fn, name, **kw):
        out.append(dict(name=f"{fn.__name__}-{name}", fn=fn, cost=kw.pop("cost", 2), args=kw,
                        bounds="listed spans, stiffnesses and moduli; every load magnitude (and position for 'anywhere')"))
    for case in CASES:
        for k in ("udl", "pudl", "pudl_over", "pl_mid", "pl", "pl_left", "pl_end", "pudl_short"):
            if CASES[case][3] in ("ff", "pp") and k == "pl_left" or (case == "cantilever" and k == "pl_left"):
                continue
            for m in range(len(CASES[case][0])):
                add(response, f"{case}-{k}-{m}", case=case, kind=k, m=m)
        if case not in ("free-long",):
            add(linear, case, case=case)
    for k in range(16):
        for case in ("free", "fixed", "pinned", "spring") if tier != "quick" else ("free",) if k % 2 else ("pinned",):
            add(anywhere, f"{case}-{k}", case=case, k=k, cost=6)
        if tier != "quick" or k % 5 == 0:
            add(anywhere, f"after-{k}", case="after", m=1, k=k, cost=8)
    out.append(dict(name="refused", fn=refused))
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        add(element, f"{n}", n=n)
    return out
