"""free vibration: the frequencies and mode shapes answer the eigenproblem of the beam with its mass and supports.

The solver of eigenproblems is outside the encoding: the pair it returns is arbitrary, and what is decided is that the
equations it is asked to solve are, entry by entry for all such pairs, those of a Hermitian finite element model written
here from the shape functions, and that the pairs are reported in place."""
from fractions import Fraction as F
import numpy as np
import pycba as cba
from harness.scen import rests


def pmul(a, b):
    out = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return out


def pint(a):
    return sum((x / (i + 1) for i, x in enumerate(a)), F(0))


def pdd(a):
    return [a[i] * i * (i - 1) for i in range(2, len(a))]


SHAPES = [[F(1), F(0), F(-3), F(2)], [F(0), F(1), F(-2), F(1)], [F(0), F(0), F(3), F(-2)], [F(0), F(0), F(-1), F(1)]]
KB = [[pint(pmul(pdd(a), pdd(b))) for b in SHAPES] for a in SHAPES]      # int N''N'' over a unit element
MB = [[pint(pmul(a, b)) for b in SHAPES] for a in SHAPES]                # int N N
ROT = (0, 1, 0, 1)                                                       # powers of h that go with rotations


def force(c, EI, m, h, v, w2):
    """(stiffness - w2 mass) times the element's displacements"""
    out = []
    for i in range(4):
        t = 0
        for j in range(4):
            p = ROT[i] + ROT[j]
            hp = (1, h, h * h)[p]
            t = t + (c.const(KB[i][j]) * EI / (h * h * h) - w2 * m * h * c.const(MB[i][j])) * hp * v[j]
        out.append(t)
    return out


def model(c, Ls, EIs, ms, R, nseg, phi, w2):
    """(residual at every degree of freedom, nodes)"""
    n = len(Ls) * nseg + 1
    res = [0] * (2 * n)
    xs = [0]
    for i, L in enumerate(Ls):
        h = L / nseg
        for s in range(nseg):
            b = 2 * (i * nseg + s)
            f = force(c, EIs[i], ms[i], h, [phi[b + k] for k in range(4)], w2)
            for k in range(4):
                res[b + k] = res[b + k] + f[k]
            xs.append(xs[-1] + h)
    for j, r in enumerate(R):
        d = 2 * (j // 2) * nseg + j % 2
        if isinstance(r, int) and r == -1:
            res[d] = None
        elif not (isinstance(r, int) and r == 0):
            res[d] = res[d] + r * phi[d]
    return res, xs


def setup(c, spans, sup, lengths=None, scalar=False):
    Ls = [c.real(f"L{i}", 2, 10) for i in range(spans)] if lengths is None else [c.const(v) for v in lengths]
    EIs = [c.real(f"EI{i}", 1, 10) for i in range(spans)]
    ms = [c.real("m", 0.5, 4)] * spans if scalar else [c.real(f"m{i}", 0.5, 4) for i in range(spans)]
    R = [c.real(f"k{j}", 0.5, 20) if v == "k" else v for j, v in enumerate(rests(sup))]
    return Ls, EIs, ms, R


def column(res, k):
    return [res.phi[i, k] for i in range(res.phi.shape[0])]


def shape(res, k):
    return res.mode_shape(k)


def problem(c, spans, sup, nseg, modes=1, lengths=None, scalar=False, LM=None, first=False):
    c.option("EIGH_MODES", modes)
    Ls, EIs, ms, R = setup(c, spans, sup, lengths, scalar)
    kw = {} if LM is None else dict(LM=[[i + 1, 1, c.real(f"w{i}", -4, 4)] for i in range(spans)])
    ba = cba.BeamAnalysis(Ls, EIs, R, **kw)
    if first:
        ba.analyze(3)
        ba.modal([2 * m for m in ms], n_modes=1, nseg=nseg)
    res = ba.modal(ms[0] if scalar else ms, n_modes=modes, nseg=nseg)
    answer(c, res, Ls, EIs, ms, R, nseg, modes)


def answer(c, res, Ls, EIs, ms, R, nseg, modes):
    c.true("modes", res.n_modes == modes and len(res.omega) == modes)
    rec = c.residuals()
    for k in range(modes):
        phi = column(res, k)
        w = res.omega[k]
        r, xs = model(c, Ls, EIs, ms, R, nseg, phi, w * w)
        c.eq("nodes", res.x, xs)
        free = [i for i in range(len(r)) if r[i] is not None]
        for i in range(len(r)):
            if r[i] is None:
                c.eq(f"mode {k}: restrained {i}", phi[i], 0)
        if rec is not None:
            c.eq(f"mode {k}: equations", [r[i] for i in free], rec[-1][k] if rec else [])
        else:
            big = max(abs(v) for v in phi)
            h = min(Ls) / nseg
            top = max(EIs) / min(h ** 3, h) + sum(x for x in R if x > 0)
            c.eq(f"mode {k}: equations", [r[i] for i in free], [0] * len(free), scale=1e4 * big * top)
            c.true(f"mode {k}: a shape", big > 1e-9)
        c.eq(f"mode {k}: frequency", res.f[k] * (2 * np.pi), w)
        c.le(f"mode {k}: not negative", 0, w)
        if k:
            c.le("ascending", res.omega[k - 1], w)


def normal(c, spans, sup, nseg, mode=0):
    """the reported shape is the mode in proportion, to a largest value of one"""
    c.option("EIGH_MODES", mode + 1)
    Ls, EIs, ms, R = setup(c, spans, sup, [3, 4][:spans])
    res = cba.BeamAnalysis(Ls, EIs, R).modal(ms, n_modes=mode + 1, nseg=nseg)
    phi = column(res, mode)
    c.assume(sum(v * v for v in phi[0::2]) > 0.01)
    x, v = shape(res, mode)
    c.eq("nodes", x, res.x)
    for i in range(len(v)):
        c.le("within one", v[i], 1)
        c.le("within minus one", -1, v[i])
        for j in range(i):
            c.eq("in proportion", v[i] * phi[2 * j], v[j] * phi[2 * i])
    top = v[0]
    for t in v[1:]:
        top = np.maximum(top, t)
    c.eq("largest value", top, 1)
    c.eq("mode left alone", column(res, mode), phi)


def period(c, spans, sup, nseg):
    Ls, EIs, ms, R = setup(c, spans, sup, [3, 4][:spans])
    res = cba.BeamAnalysis(Ls, EIs, R).modal(ms, n_modes=1, nseg=nseg)
    c.assume(res.omega[0] > 0.001)
    c.eq("period", res.periods[0] * res.f[0], 1)


def count(c, spans, sup, nseg, want):
    """no more modes than there are degrees of freedom"""
    Ls, EIs, ms, R = setup(c, spans, sup, [3, 4][:spans])
    dof = 2 * (spans * nseg + 1) - sum(1 for r in R if isinstance(r, int) and r == -1)
    res = cba.BeamAnalysis(Ls, EIs, R).modal(ms, n_modes=want, nseg=nseg)
    c.true("number of modes", res.n_modes == min(dof, want) and res.phi.shape[1] == min(dof, want))
    c.true("degrees of freedom", res.phi.shape[0] == 2 * (spans * nseg + 1))


def refuse(c, what):
    L, EI, m = c.real("L", 1, 10), c.real("EI", 1, 10), c.real("m", 0.5, 4)
    R = [-1, 0, -1, 0, -1, 0]
    q = c.real("q", 0.5, 20)
    kw, EIs = {}, [EI, 2 * EI]
    if what == "section":
        EIs = [EI, cba.SectionEI([("linear", [0, L], [EI, 2 * EI])])]
    elif what == "shear":
        kw["GAv"] = [None, q]
    elif what == "hinge":
        kw["eletype"] = [1, 3]
    elif what == "ground":
        kw["kf"] = [None, q]
    ba = cba.BeamAnalysis([L, L], EIs, R, **kw)
    if what == "mass":
        c.raises("wrong number of masses", ValueError, ba.modal, [m, m, m])
        c.raises("too few masses", ValueError, ba.modal, [m])
    else:
        c.raises(what, NotImplementedError, ba.modal, m, 1, 2)


def configs(tier):
    out = []

    def add(tag, fn, **kw):
        cost = kw.pop("cost", 3)
        merge = kw.pop("merge", False)
        out.append(dict(name=f"{fn.__name__}-{tag}", fn=fn, args=kw, cost=cost, merge=merge))
    for sup in ("pp", "fp", "fh", "ff", "pf", "gp", "sp", "tp", "qp"):
        add(f"{sup}-2", problem, spans=1, sup=sup, nseg=2)
    for sup in ("pp", "fh"):
        add(f"{sup}-1-2modes", problem, spans=1, sup=sup, nseg=1, modes=2)
        add(f"{sup}-3", problem, spans=1, sup=sup, nseg=3)
    for sup in ("ppp", "fpp", "psp", "fgh", "prp", "pph", "hph" if False else "hpf", "fff"):
        add(f"{sup}-2", problem, spans=2, sup=sup, nseg=2, cost=5)
    add("ppp-1", problem, spans=2, sup="ppp", nseg=1, modes=2)
    add("ppp-scalar", problem, spans=2, sup="ppp", nseg=2, scalar=True)
    add("psp-loaded", problem, spans=2, sup="psp", nseg=2, LM=True, first=True, lengths=[3, 4])
    add("pppp-1", problem, spans=3, sup="pppp", nseg=1, cost=5)
    add("fspp-2", problem, spans=3, sup="fspp", nseg=2, lengths=[3, 4, 2.5], cost=5)
    add("fspp-1-2modes", problem, spans=3, sup="fspp", nseg=1, modes=2, cost=5)
    add("pp-2", normal, spans=1, sup="pp", nseg=2, merge=True)
    add("pp-3", normal, spans=1, sup="pp", nseg=3, merge=True)
    add("fh-2", normal, spans=1, sup="fh", nseg=2, merge=True)
    add("pph-1", normal, spans=2, sup="pph", nseg=1, mode=1, merge=True)
    add("pp", period, spans=1, sup="pp", nseg=2)
    add("psp", period, spans=2, sup="psp", nseg=1)
    for n in (1, 2, 9):
        add(f"{n}", count, spans=1, sup="pp", nseg=2, want=n)
    add("two-10", count, spans=2, sup="fsp", nseg=1, want=10)
    for w in ("section", "shear", "hinge", "ground", "mass"):
        add(w, refuse, what=w)
    if tier == "thorough":
        add("pp-8", problem, spans=1, sup="pp", nseg=8, cost=8)
        add("fpsp-4", problem, spans=3, sup="fpsp", nseg=4, cost=9)
        add("ppp-12", problem, spans=2, sup="ppp", nseg=12, lengths=[3, 4], cost=9)
        add("ppppp-2", problem, spans=4, sup="ppppp", nseg=2, modes=3, cost=9)
        add("ppp-2", normal, spans=2, sup="ppp", nseg=2, merge=True, cost=8)
    return out
