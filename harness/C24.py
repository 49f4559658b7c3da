"""a section built of segments has the stiffness that was entered, everywhere, and refuses what is not a section"""
from fractions import Fraction as F
import numpy as np
import pycba as cba
from pycba.section import SectionEI

KINDS = ("const", "linear", "pwl", "poly", "cubic", "call")


def draw(c, kinds, how="chain", sym=True):
    """-> section, [(kind, stations, values)]"""
    spec, x = [], c.const(0)
    for i, k in enumerate(kinds):
        n = {"const": 1, "linear": 1, "pwl": 2, "pwl3": 3, "poly": 2, "cubic": 3, "lin": 1, "call": 1}[k]
        xs = [x]
        for j in range(n):
            d = c.real(f"d{i}{j}", F(1, 2), 3) if sym and k not in ("poly", "cubic", "call") else c.const([F(3, 2), F(1), F(2)][j])
            xs.append(xs[-1] + d)
        x = xs[-1]
        e = [c.real(f"e{i}{j}", 1, 9) for j in range(1 if k == "const" else len(xs))]
        spec.append((k, xs, e))
    rows = []
    for k, xs, e in spec:
        t = {"pwl3": "pwl", "cubic": "poly", "lin": "pwl", "call": "poly"}[k] if k in ("pwl3", "cubic", "lin", "call") else k
        if k == "call":
            a, b = e
            rows.append((t, xs, lambda z, a=a, b=b: a + b * z, 2))
        else:
            rows.append((t, xs, e[0] if k == "const" else e))
    if how == "chain":
        s = SectionEI()
        for r in rows:
            c.true("chains", s.add_segment(*r) is s)
    elif how == "list":
        s = SectionEI(rows)
    elif how == "array":
        s = SectionEI([[r[0], np.array(r[1]), r[2] if r[0] == "const" or callable(r[2]) else np.array(r[2])] + list(r[3:]) for r in rows])
    else:
        s = SectionEI([dict(zip(("seg_type", "x", "ei", "degree"), r)) for r in rows])
    return s, spec


def value(c, spec, x):
    """what was entered, at x; the left value at a step"""
    for i, (k, xs, e) in enumerate(spec):
        if i == len(spec) - 1 or c.fork(x <= xs[-1]):
            if k == "const":
                return e[0]
            if k == "call":
                return e[0] + e[1] * x
            if k in ("poly", "cubic"):
                t = 0
                for j in range(len(xs)):                   # through all the samples
                    p = e[j]
                    for m in range(len(xs)):
                        if m != j:
                            p = p * (x - xs[m]) / (xs[j] - xs[m])
                    t = t + p
                return t
            for j in range(len(xs) - 1):
                if j == len(xs) - 2 or c.fork(x <= xs[j + 1]):
                    t = (x - xs[j]) / (xs[j + 1] - xs[j])
                    return e[j] * (1 - t) + e[j + 1] * t


def clear(c, spec, x):
    """x not within rounding of a joint without being on it"""
    for _, xs, _ in spec:
        for q in xs:
            if not c.fork(x >= q):
                c.assume(x <= q - F(1, 10 ** 6))
            elif not c.fork(x <= q):
                c.assume(x >= q + F(1, 10 ** 6))


def evaluate(c, kinds, how):
    s, spec = draw(c, kinds, how)
    L = spec[-1][1][-1]
    x = c.real("x", 0, 12)
    c.assume(x <= L)
    clear(c, spec, x)
    v = value(c, spec, x)
    c.eq("value", s(x), v)
    got = s(np.array([x, L, 0 * x]))
    c.true("as many", got.shape == (3,))
    c.eq("values", list(got), [v, value(c, spec, L), spec[0][2][0]])
    c.eq("length", s.length, L)
    pts = [q for k, xs, _ in spec for q in (xs if k in ("pwl", "pwl3", "lin") else [xs[0], xs[-1]])]
    want = [pts[0]]
    for q in pts[1:]:
        if q is not want[-1]:
            want.append(q)
    c.eq("breakpoints", list(s.breakpoints), want)
    c.true("pieces", len(s.pieces) == sum(len(xs) - 1 if k in ("pwl", "pwl3", "lin") else 1 for k, xs, _ in spec))
    same = all(k == "const" for k in kinds)
    if same and len(kinds) == 1:
        c.true("constant", bool(s.is_constant))
    if not same:
        c.true("not constant", not s.is_constant)


def joints(c, kinds):
    """at each joint the left value, just inside the right one"""
    s, spec = draw(c, kinds)
    for i, (k, xs, e) in enumerate(spec):
        for j, q in enumerate(xs):
            if k in ("poly", "cubic") and 0 < j < len(xs) - 1:
                c.eq(f"sample {i}{j}", s(q), e[j])
        if k != "call":
            c.eq(f"end of {i}", s(xs[-1]), e[-1])
        t = c.real("t", 0.01, 0.2)
        q = xs[0] + t * (xs[1] - xs[0])
        c.eq(f"inside {i}", s(q), value(c, [spec[i]], q))


def constant(c):
    """a section is constant when all its segments say the same"""
    a, b = c.real("a", 1, 9), c.real("b", 1, 9)
    k = c.const
    s = SectionEI([("const", [k(0), k(2)], a), ("const", [k(2), k(5)], b)])
    if c.fork(a == b):
        c.true("constant", bool(s.is_constant))
    else:
        c.assume((a - b > F(1, 1000)) | (b - a > F(1, 1000)))
        c.true("stepped", not s.is_constant)
    c.true("empty is not constant", not SectionEI().is_constant)


def refuse(c, k):
    """what is not a segment is refused, whatever the numbers, and leaves the section as it was"""
    a, e = c.real("a", 1, 5), c.real("e", 1, 9)
    z = c.real("z", -5, 0)
    o = c.const(0)
    s = SectionEI([("const", [o, a], e)])
    gap = c.real("gap", F(1, 1000), 3)
    b = a + gap
    bag = [("cst", [a, b], e), ("const", [b, b + 1], e), ("const", [a - F(1, 1000), b], e), ("linear", [a, a], [e, e]), ("linear", [a, a - gap], [e, e]),
           ("pwl", [a, b, b], [e, e, e]), ("pwl", [a, b + 1, b], [e, e, e]), ("const", [a], e), ("const", [], e), ("const", [a, b], z), ("linear", [a, b], [e, z]), ("linear", [a, b], [z, e]),
           ("pwl", [a, b, b + 1], [e, z, e]), ("poly", [a, b, b + 1], [e, e, z]), ("linear", [a, b], [e]), ("linear", [a, b], e), ("linear", [a, b, b + 1], [e, e, e]), ("pwl", [a, b], [e, e, e]),
           ("poly", [a, b, b + 1], [e, e]), ("const", [a, b], [e, e]), ("poly", [a, a + 2], lambda x: 0 * x + z), (None, [a, b], e), ("", [a, b], e), ("Const", [a, b], e), ("const", [o, a], e)]
    if k >= len(bag):
        first = [("const", [gap, b], e), ("linear", [-gap, a], [e, e]), ("pwl", [a, b], [e, e])][k - len(bag)]
        s = SectionEI()
        c.raises("must start at the left end", ValueError, s.add_segment, *first)
        c.raises("nothing to evaluate", ValueError, s, a)
        c.raises("nothing to use", ValueError, s.validate_length, a)
        c.true("still empty", len(s.pieces) == 0)
        return
    c.raises("refused", ValueError, s.add_segment, *bag[k])
    c.eq("as it was", [s.length, s(a), s(a / 2)], [a, e, e])
    c.true("one piece", len(s.pieces) == 1 and len(s.breakpoints) == 2)
    s.add_segment("const", [a, b], e + 1)
    c.eq("goes on", [s.length, s(b)], [b, e + 1])


def fits(c, where):
    """a section is taken for a span of its own length only"""
    a, L, e = c.real("a", 1, 5), c.real("L", 1, 5), c.real("e", 1, 9)
    s = SectionEI([("const", [c.const(0), a], e)])
    k = c.const
    sup = [-1, 0, -1, 0, -1, 0]

    def use():
        if where == "section":
            s.validate_length(L)
        elif where == "first":
            cba.BeamAnalysis([L, k(3)], [s, k(2)], sup, [[1, 1, k(1)]])
        elif where == "second":
            cba.BeamAnalysis([k(3), L], [k(2), s], sup, [[1, 1, k(1)]])
        elif where == "all":
            cba.BeamAnalysis([L, a], s, sup, [[1, 1, k(1)]])
        elif where == "shear":
            cba.BeamAnalysis([k(3), L], [k(2)] * 2, sup, [[1, 1, k(1)]], GAv=[None, s])
        else:
            b = cba.Beam()
            b.add_span(L, s)
    d = L - a
    if c.fork(d > F(1, 10000)) or c.fork(d < -F(1, 10000)):
        c.raises("does not fit", ValueError, use)
    else:
        c.assume(d == 0)
        use()
        c.true("fits", True)


def inspan(c, i):
    """each span evaluates its section from its own left end: the stiffness is that of a beam with a node at the step"""
    k = c.const
    e = [c.real("e0", 1, 9), k(4)]
    s = SectionEI([("const", [k(0), k(1)], e[0]), ("const", [k(1), k(3)], e[1])])
    L = [k(2), k(3), k(4)]
    EI = [k(5), k(6), k(7)]
    L[i], EI[i] = k(3), s
    w = c.real("w", -3, 3)
    sup = [-1, 0] * 4
    j = (i + 1) % 3
    D = [None] * 8
    D[2 * i] = c.real("s", -1, 1)
    ba = cba.BeamAnalysis(L, EI, sup, [[j + 1, 1, w]], D=D)
    ba.analyze(6)
    # the same beam with a node where the section steps
    L2 = L[:i] + [k(1), k(2)] + L[i + 1:]
    E2 = EI[:i] + [e[0], e[1]] + EI[i + 1:]
    sup2 = sup[:2 * i + 2] + [0, 0] + sup[2 * i + 2:]
    D2 = D[:2 * i + 2] + [None, None] + D[2 * i + 2:]
    rb = cba.BeamAnalysis(L2, E2, sup2, [[j + 1 + (j > i), 1, w]], D=D2)
    rb.analyze(6)
    keep = [m for m in range(len(sup2)) if m not in (2 * i + 2, 2 * i + 3)]
    c.eq("nodes", ba.beam_results.D, rb.beam_results.D[keep], scale=10)
    c.eq("reactions", ba.beam_results.R, rb.beam_results.R, scale=10)


def configs(tier):
    out = []

    def add(tag, fn, **kw):
        out.append(dict(name=f"{fn.__name__}-{tag}", fn=fn, args=kw, cost=1))
    combos = [("const",), ("linear",), ("pwl",), ("pwl3",), ("poly",), ("cubic",), ("call",), ("const", "const"), ("linear", "const"), ("const", "pwl"), ("pwl", "linear"), ("poly", "const"), ("linear", "const", "linear"),
              ("lin", "poly"), ("const", "linear", "pwl"), ("call", "cubic"), ("poly", "call", "const")]
    if tier != "quick":
        combos += [("const", "const", "const", "const"), ("pwl3", "pwl3"), ("linear", "pwl", "poly"), ("cubic", "const", "cubic"), ("pwl", "pwl", "pwl")]
    for n, k in enumerate(combos):
        add("-".join(k), evaluate, kinds=k, how=("chain", "list", "dict", "array")[n % 4])
        if tier != "quick":
            for h in ("chain", "list", "dict", "array"):
                add("-".join(k) + "-" + h, evaluate, kinds=k, how=h)
        add("-".join(k), joints, kinds=k)
    add("0", constant)
    for k in range(28):
        add(f"{k}", refuse, k=k)
    for w in ("section", "first", "second", "all", "shear", "span"):
        add(w, fits, where=w)
    for i in range(3):
        add(f"{i}", inspan, i=i)
    return out
