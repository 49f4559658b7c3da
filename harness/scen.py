"""beam scenarios shared by the harnesses, and first-principles oracles.

Written without reference to the code's formulas: every load is a downward
distributed intensity, a downward force or a clockwise/anticlockwise couple, and
everything else follows by integrating it.
Sign convention of the package (documented): loads positive down, reactions and
displacements positive up, sagging moments positive, rotations and moment
couples anticlockwise positive.
"""
from fractions import Fraction
import numpy as np
import pycba as cba

NPTS = 4


class Piece:
    """what a load does inside a span: w(x) = w0 + s (x-a) on [a,b]; P at a; couple m at a (jump -m in M)"""

    def __init__(self, kind, a=0, b=0, w0=0, w1=0, P=0, m=0, kappa=()):
        self.kind, self.a, self.b, self.w0, self.w1, self.P, self.m, self.kappa = kind, a, b, w0, w1, P, m, kappa

    def force(self):
        """(downward resultant, its moment arm * force about the span's left end incl. couples as M jump)"""
        if self.kind == "P":
            return self.P, self.P * self.a
        if self.kind == "w":
            c = self.b - self.a
            W = (self.w0 + self.w1) * c / 2
            # centroid from a: c/6 * (w0 + 2 w1) * ... first moment about a
            Q = c * c * (self.w0 + 2 * self.w1) / 6
            return W, W * self.a + Q
        if self.kind == "m":
            return 0, -self.m
        return 0, 0

    def dM(self, L, k):
        """contribution of the load to  int_0^L (L-x)^k * M_load(x) dx  for k = 0, 1
        M_load(x) = -(moment about x of the load left of x)  (so M = M0 + V0 x + M_load)"""
        f = 1
        for j in range(k):
            f = f * (j + 1)

        def mac(n, a):
            """int (L-x)^k <x-a>^n dx"""
            num = f
            den = 1
            for j in range(n + 1, n + k + 2):
                den = den * j
            return num * (L - a) ** (n + k + 1) / den
        if self.kind == "P":
            return -self.P * mac(1, self.a)
        if self.kind == "w":
            s = (self.w1 - self.w0) / (self.b - self.a)
            return (-self.w0 * mac(2, self.a) / 2 - s * mac(3, self.a) / 6
                    + self.w1 * mac(2, self.b) / 2 + s * mac(3, self.b) / 6)
        if self.kind == "m":
            return -self.m * mac(0, self.a)
        return 0

    def M_at(self, x):
        """M_load at x (x not at a couple)"""
        def br(v, n):
            return np.maximum(v, 0) ** n
        if self.kind == "P":
            return -self.P * br(x - self.a, 1)
        if self.kind == "w":
            s = (self.w1 - self.w0) / (self.b - self.a)
            return (-self.w0 * br(x - self.a, 2) / 2 - s * br(x - self.a, 3) / 6
                    + self.w1 * br(x - self.b, 2) / 2 + s * br(x - self.b, 3) / 6)
        if self.kind == "m":
            return -self.m if x > self.a else 0 * self.m
        return 0 * x

    def V_at(self, x):
        def br(v, n):
            return np.maximum(v, 0) ** n
        if self.kind == "P":
            return -self.P if x > self.a else 0 * self.P
        if self.kind == "w":
            s = (self.w1 - self.w0) / (self.b - self.a)
            return (-self.w0 * br(x - self.a, 1) - s * br(x - self.a, 2) / 2
                    + self.w1 * br(x - self.b, 1) + s * br(x - self.b, 2) / 2)
        return 0 * x


def make_load(c, kind, i, L, tag):
    """-> (load matrix row, [Piece]) of the given kind on member i (1-based) of length L"""
    w = c.real(f"w{tag}", -4, 4)
    if kind == "udl":
        return [i, 1, w], [Piece("w", 0 * L, L, w, w)]
    if kind == "pl":
        al = c.real(f"al{tag}", 0.0625, 0.9375)
        return [i, 2, w, al * L], [Piece("P", a=al * L, P=w)]
    if kind == "pl_left":
        return [i, 2, w, 0 * L], [Piece("P", a=0 * L, P=w)]
    if kind == "pl_right":
        return [i, 2, w, L], [Piece("P", a=L, P=w)]
    if kind == "pl_mid":
        return [i, 2, w, L / 2], [Piece("P", a=L / 2, P=w)]
    if kind == "pl_third":
        return [i, 2, w, L / 3], [Piece("P", a=L / 3, P=w)]
    if kind == "pudl":
        al = c.real(f"al{tag}", 0.0625, 0.4375)
        be = c.real(f"be{tag}", 0.0625, 0.5)
        return [i, 3, w, al * L, be * L], [Piece("w", al * L, (al + be) * L, w, w)]
    if kind == "pudl_q":
        return [i, 3, w, L / 4, L / 2], [Piece("w", L / 4, 3 * L / 4, w, w)]
    if kind == "pudl_full":
        return [i, 3, w, 0 * L, L], [Piece("w", 0 * L, L, w, w)]
    if kind == "pudl_over":     # runs past the end of the span: the part outside is not on the span
        al = c.real(f"al{tag}", 0.0625, 0.875)
        return [i, 3, w, al * L, L], [Piece("w", al * L, L, w, w)]
    if kind == "ml":
        al = c.real(f"al{tag}", 0.0625, 0.9375)
        return [i, 4, w, al * L], [Piece("m", a=al * L, m=w)]
    if kind == "ml_left":
        return [i, 4, w, 0 * L], [Piece("m", a=0 * L, m=w)]
    if kind == "ml_right":
        return [i, 4, w, L], [Piece("m", a=L, m=w)]
    if kind == "ml_third":
        return [i, 4, w, L / 3], [Piece("m", a=L / 3, m=w)]
    if kind == "trap":
        w2 = c.real(f"u{tag}", -4, 4)
        return [i, 5, w, w2], [Piece("w", 0 * L, L, w, w2)]
    if kind == "trap_part":
        w2 = c.real(f"u{tag}", -4, 4)
        al = c.real(f"al{tag}", 0.0625, 0.4375)
        be = c.real(f"be{tag}", 0.0625, 0.5)
        return [i, 5, w, w2, al * L, be * L], [Piece("w", al * L, (al + be) * L, w, w2)]
    if kind == "trap_q":
        w2 = c.real(f"u{tag}", -4, 4)
        return [i, 5, w, w2, L / 4, L / 2], [Piece("w", L / 4, 3 * L / 4, w, w2)]
    if kind == "trap_over":     # clipped at the end of the span with the intensity there
        w2 = c.real(f"u{tag}", -4, 4)
        return [i, 5, w, w2, L / 2, L], [Piece("w", L / 2, L, w, (w + w2) / 2)]
    if kind == "off":           # a load that starts beyond the span
        return [i, 3, w, 3 * L / 2, L / 4], []
    if kind == "trap_off":
        return [i, 5, w, 2 * w, 3 * L / 2, L / 4], []
    if kind == "trap_touch":    # starts where the span ends
        return [i, 5, w, -w, L, L / 4], []
    if kind == "off_touch":
        return [i, 3, w, L, L / 4], []
    if kind == "trap_rest":     # from a place to the end of the span
        w2 = c.real(f"u{tag}", -4, 4)
        al = c.real(f"al{tag}", 0.0625, 0.9375)
        return [i, 5, w, w2, al * L, (1 - al) * L], [Piece("w", al * L, L, w, w2)]
    if kind == "pl_off":        # beyond the span: no effect on it
        return [i, 2, w, 5 * L / 4], []
    if kind == "ml_off":
        return [i, 4, w, 5 * L / 4], []
    if kind == "pl_past":       # at the end, but for rounding
        return [i, 2, w, L * (1 + Fraction(1, 10 ** 12))], [Piece("P", a=L, P=w)]
    if kind == "ml_past":
        return [i, 4, w, L * (1 + Fraction(1, 10 ** 12))], [Piece("m", a=L, m=w)]
    raise KeyError(kind)


def rests(supports):
    """support letters -> restraint vector: f fixed, p pin, h free, s vertical spring, r rotational spring on a pin,
    q rotational restraint only, g pin with both springs"""
    out, k = [], 0
    for s in supports:
        out += {"f": [-1, -1], "p": [-1, 0], "h": [0, 0], "q": [0, -1], "s": ["k", 0], "r": [-1, "k"],
                "g": ["k", "k"], "t": ["k", -1]}[s]
    return out


def build(c, spans, supports, loads, eletype=None, D=None, EIs="sym", Lmode="sym", npts=NPTS, GAv=None, kf=None):
    """spans: number of members; loads: [(kind, member)]"""
    S = Scen()
    if Lmode == "sym":
        L = [c.real(f"L{i}", 1, 10) for i in range(spans)]
    elif Lmode == "one":
        L0 = c.real("L0", 1, 10)
        L = [L0 * f for f in (1, 2, 1.5, 0.5, 1.25)[:spans]]
    else:
        L = [c.const(v) for v in Lmode]
    if EIs == "sym":
        EI = [c.real(f"EI{i}", 1, 10) for i in range(spans)]
    elif EIs == "one":
        E = c.real("EI0", 1, 10)
        EI = [E * f for f in (1, 3, 2, 0.5, 1.5)[:spans]]
    else:
        EI = [c.const(v) for v in EIs]
    R = []
    for j, v in enumerate(rests(supports)):
        R.append(c.real(f"k{j}", 0.5, 20) if v == "k" else v)
    S.LM, S.pieces = [], [[] for _ in range(spans)]
    for n, (kind, m) in enumerate(loads):
        row, pcs = make_load(c, kind, m, L[m - 1], n)
        S.LM.append(row)
        S.pieces[m - 1] += pcs
    Dv = None
    if D:
        Dv = [None] * len(R)
        for j in D:
            Dv[j] = c.real(f"d{j}", -1, 1)
    S.L, S.EI, S.R, S.D, S.eletype, S.n = L, EI, R, Dv, eletype or [1] * spans, spans
    S.GAv, S.kf = GAv, kf
    kw = {}
    if GAv is not None:
        kw["GAv"] = GAv
    if kf is not None:
        kw["kf"] = kf
    S.ba = cba.BeamAnalysis(L, EI, R, [list(r) for r in S.LM], eletype=eletype, D=Dv, **kw)
    S.npts = npts
    return S


class Scen:
    def analyze(self):
        self.ba.analyze(self.npts)
        self.br = self.ba.beam_results
        return self.br

    def end_forces(self, i):
        """(V(0+), M(0+), V(L-), M(L-)) of member i as reported"""
        r = self.br.vRes[i]
        return r.V[1], r.M[1], r.V[-2], r.M[-2]

    def reactions(self):
        """per-DOF support force: reported reactions, spring forces, 0 at free DOFs"""
        out, a, b = [], 0, 0
        for j, r in enumerate(self.R):
            if isinstance(r, (int, float)) and r == -1:
                out.append(self.br.R[a])
                a += 1
            elif isinstance(r, int) and r == 0:
                out.append(0)
            else:
                out.append(self.br.Rs[b])
                b += 1
        return out
