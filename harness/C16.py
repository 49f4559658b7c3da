"""vehicles: their derived data, turning them round, joining them into trains, and the parametric design vehicles"""
import numpy as np
import pycba as cba
from harness.scen import rests
from harness.C14 import BEAMS, expect


def make(c, n, tag="", kind="array", lo=0):
    s = [c.real(f"s{tag}{i}", lo, 4) for i in range(n - 1)]
    w = [c.real(f"w{tag}{i}", -5, 5) for i in range(n)]
    if kind == "list":
        return s, w, cba.Vehicle(list(s), list(w))
    return s, w, cba.Vehicle(np.array(s), np.array(w))


def total(v):
    t = 0
    for x in v:
        t = t + x
    return t


def is_(c, label, v, s, w):
    """v is the vehicle with these spacings and weights from the front"""
    n = len(w)
    c.true(f"{label}: axles", v.NoAxles == n and len(v.axw) == n and len(v.axs) == n - 1 and len(v.axle_coords) == n)
    c.eq(f"{label}: weights", v.axw, w)
    c.eq(f"{label}: spacings", v.axs, s)
    c.eq(f"{label}: length", v.L, total(s))
    c.eq(f"{label}: total weight", v.W, total(w))
    c.eq(f"{label}: coordinates", v.axle_coords, [total(s[:i]) for i in range(n)])


def data(c, n, kind):
    s, w, v = make(c, n, kind=kind)
    is_(c, "vehicle", v, s, w)
    c.raises("too few weights", ValueError, cba.Vehicle, np.array(s), np.array(w[:-1]))
    c.raises("too many weights", ValueError, cba.Vehicle, list(s), list(w) + [1.0])


def turned(c, n, kind):
    s, w, v = make(c, n, kind=kind)
    r = v.reverse(in_place=False)
    is_(c, "reversed copy", r, s[::-1], w[::-1])
    is_(c, "original", v, s, w)
    is_(c, "copy reversed back", r.reverse(False), s, w)
    c.true("in place gives nothing back", v.reverse() is None)
    # as a set: each weight sits where it should, measured from the end that leads now
    c.true("axles", v.NoAxles == n)
    is_(c, "reversed in place", v, s[::-1], w[::-1])
    is_(c, "copy of a reversed one", v.reverse(in_place=False), s, w)
    v.reverse(True)
    is_(c, "reversed twice", v, s, w)
    is_(c, "the copy is its own vehicle", r, s[::-1], w[::-1])


def crossing(c, beam, coords, mode, n=2):
    """a reversed vehicle on the bridge: its rear axle leads"""
    Ls, sup, ety = BEAMS[beam]
    EI, R = [3.0, 5.0, 2.0][:len(Ls)], rests(sup)
    ws = [c.real(f"P{i}", -4, 4) for i in range(len(coords))]
    pos = c.real("pos", -0.5, sum(Ls) + coords[-1] + 0.5)
    v = cba.Vehicle(np.array([b - a for a, b in zip(coords[:-1], coords[1:])]), np.array(ws))
    if mode == "copy":
        v = v.reverse(in_place=False)
    else:
        for _ in range(3 if mode == "thrice" else 1):
            v.reverse()
    ba = cba.BeamAnalysis(Ls, EI, R, eletype=ety)
    ba.npts = 4
    r = cba.BridgeAnalysis(ba, v).static_vehicle(pos)
    L = coords[-1]
    c.eq("reactions", r.R, expect(c, Ls, EI, R, ety, [pos - (L - q) for q in coords], ws))


def train(c, counts, gaps, kinds=None, flip=(), ints=(), zero=False):
    """the axles of each vehicle in turn, the next one's first axle a gap behind the last"""
    vs, S, W = [], [], []
    for k, n in enumerate(counts):
        if k in ints:        # whole-number spacings
            s, w = [4, 4][:n - 1], [5, 4, 3][:n]
            v = cba.Vehicle(np.array(s), np.array(w)) if k % 2 == 0 else cba.Vehicle(s, w)
        else:
            s, w, v = make(c, n, tag=f"{k}_", kind="list" if k % 2 else "array")
            if zero and n > 1:
                c.assume(s[0] == 0)
        if k in flip:
            v.reverse()
            s, w = s[::-1], w[::-1]
        vs.append(v)
        S.append(list(s))
        W.append(list(w))
    m = len(counts) - 1
    if gaps == "one":
        g = [c.real("g", 0, 8)] * m
        arg = np.array(g[:1])
    elif gaps == "onelist":
        g = [c.real("g", 0, 8)] * m
        arg = g[:1]
    else:
        g = [c.real(f"g{i}", 0, 8) for i in range(m)]
        arg = list(g) if gaps == "list" else np.array(g)
    t = cba.make_train(vs, arg)
    s, w = [], []
    for k in range(m + 1):
        if k:
            s.append(g[k - 1])
        s += S[k]
        w += W[k]
    is_(c, "train", t, s, w)
    for k, v in enumerate(vs):
        is_(c, f"vehicle {k} afterwards", v, S[k], W[k])
    is_(c, "made again", cba.make_train(vs, arg), s, w)
    if len(counts) > 2:
        c.raises("gap count", ValueError, cba.make_train, vs, np.array(g[:2] if m > 2 else g + g))
    c.raises("not a vehicle", ValueError, cba.make_train, vs[:-1] + [np.array([1.0])] if m else [3.0], arg)


def together(c, beam, n):
    """a train on the bridge is the sum of its vehicles, each at its own place"""
    Ls, sup, ety = BEAMS[beam]
    EI, R = [3.0, 5.0, 2.0][:len(Ls)], rests(sup)
    vs, tot = [], None
    for k in range(n):
        w = [c.real(f"P{k}{i}", -4, 4) for i in range(2)]
        vs.append(cba.Vehicle(np.array([0.5 + k]), np.array(w)))
    pos = c.real("pos", 0, sum(Ls) + 3)
    gap = c.const("0.8")
    t = cba.make_train(vs, [0.8] * (n - 1))

    def run(v, p):
        ba = cba.BeamAnalysis(Ls, EI, R, eletype=ety)
        ba.npts = 4
        return cba.BridgeAnalysis(ba, v).static_vehicle(p)
    p = pos
    for v in vs:
        q = run(v, p).R
        tot = q if tot is None else tot + q
        p = p - v.L - gap
    c.eq("reactions", run(t, pos).R, tot)


AU, US, EU, UK, CA, CN = (getattr(cba.VehicleLibrary, k) for k in ("AU", "US", "EU", "UK", "CA", "CN"))


def design(c, which):
    """the parametric design vehicles: the parameter where it belongs, the rest as documented, limits enforced"""
    k = c.const
    if which in ("m1600", "s1600"):
        f = getattr(AU, "get_" + which)
        x = c.real("x", 6.25, 30)
        is_(c, which, f(x), [1.25, 1.25, 3.75, 1.25, 1.25, x, 1.25, 1.25, 5.0, 1.25, 1.25], [120 if which[0] == "m" else 80] * 12)
        c.raises("too close", ValueError, f, c.real("y", 0, 6.24))
    elif which == "t44":
        x = c.real("x", 3, 8)
        is_(c, which, AU.get_t44(x), [k("3.7"), k("1.2"), x, k("1.2")], [48, 96, 96, 96, 96])
        is_(c, "default", AU.get_t44(), [k("3.7"), k("1.2"), 3, k("1.2")], [48, 96, 96, 96, 96])
        c.raises("too close", ValueError, AU.get_t44, c.real("y", 0, 2.99))
        c.raises("too far", ValueError, AU.get_t44, c.real("z", 8.01, 20))
    elif which == "ms18":
        x = c.real("x", 4.27, 9.14)
        is_(c, which, AU.get_ms18(x), [k("4.27"), x], [k("35.6"), k("142.3"), k("142.3")])
        c.raises("too close", ValueError, AU.get_ms18, c.real("y", 0, 4.26))
        c.raises("too far", ValueError, AU.get_ms18, c.real("z", 9.15, 20))
    elif which == "hl93":
        x = c.real("x", 4.3, 9)
        is_(c, which, US.get_hl93_truck(x), [k("4.3"), x], [35, 145, 145])
        is_(c, "default", US.get_hl93_truck(), [k("4.3"), k("4.3")], [35, 145, 145])
        is_(c, "tandem", US.get_hl93_tandem(), [k("1.2")], [110, 110])
        c.raises("too close", ValueError, US.get_hl93_truck, c.real("y", 0, 4.29))
        c.raises("too far", ValueError, US.get_hl93_truck, c.real("z", 9.01, 20))
    elif which == "cooper":
        E = c.real("E", 10, 100)
        kip, ft = k("4.4482216"), k("0.3048")
        s = [8, 5, 5, 5, 9, 5, 6, 5]
        w = [5, 10, 10, 10, 10, 6.5, 6.5, 6.5, 6.5]
        is_(c, which, US.get_cooper(E), [q * ft for q in s + [8] + s], [q * E / 10 * kip for q in w + w])
    elif which == "la":
        n = 1 + c.choice("groups", 4)
        x = c.real("x", 12, 20)
        a = c.real("a", 50, 400)
        v = AU.get_la_rail(n, x, a)
        c.true("axles", v.NoAxles == 1 + 4 * n and len(v.axw) == 1 + 4 * n)
        c.eq("leading axle", v.axw[0], k("1.2") * a)
        c.eq("other axles", v.axw[1:], [a] * (4 * n))
        c.eq("leading axle to the first group", v.axle_coords[1] - v.axle_coords[0], 2)
        mid = []
        for i in range(n):
            p = v.axle_coords[1 + 4 * i:5 + 4 * i]
            c.eq(f"group {i}", [p[1] - p[0], p[2] - p[1], p[3] - p[2]], [k("1.7"), k("1.1"), k("1.7")])
            mid.append((p[0] + p[3]) / 2)
        for i in range(1, n):
            c.eq(f"centres {i}", mid[i] - mid[i - 1], x)
        c.eq("length", v.L, v.axle_coords[-1])
        u = AU.get_300la(n, x)
        c.eq("300LA weights", u.axw, [360] + [300] * (4 * n))
        c.eq("300LA spacings", u.axs, v.axs)
        c.raises("too close", ValueError, AU.get_la_rail, 3, c.real("y", 1, 11.99))
        c.raises("too far", ValueError, AU.get_la_rail, 3, c.real("z", 20.01, 40))
        c.raises("no groups", ValueError, AU.get_la_rail, 0, x)
    elif which == "lm":
        f = c.real("alpha", 0.75, 1.46)
        is_(c, "LM1", EU.get_lm1(f), [k("1.2")], [300 * f] * 2)
        is_(c, "LM71", EU.get_lm71(f), [k("1.6")] * 3, [250 * f] * 4)
        u, x = c.real("units", 25, 45), c.real("inner", 6, 26)
        is_(c, "HB", UK.get_hb(u, x), [k("1.8"), x, k("1.8")], [10 * u] * 4)
        is_(c, "HB default", UK.get_hb(), [k("1.8"), 6, k("1.8")], [450] * 4)
        is_(c, "CL-625", CA.get_cl625(), [k("3.6"), k("1.2"), k("6.6"), k("6.6")], [50, 125, 125, 175, 150])
        is_(c, "JTG", CN.get_jtg_vehicle(), [3, k("1.4"), 7, k("1.4")], [30, 120, 120, 140, 140])
        is_(c, "A160", AU.get_a160(), [], [160])
        is_(c, "W80", AU.get_w80(), [], [80])
        is_(c, "permit", AU.get_example_permit(), [k(q) for q in "1.793 2.507 1.370 5.403 1.232 1.232 6.303 1.232 1.232".split()], [k(q) * k("9.81") for q in "5.5 5.5 8.5 8.5 7.5 7.5 7.5 7.5 7.5 7.5".split()])
        is_(c, "validation", cba.VehicleLibrary.get_validation_truck(), [4, 4], [5, 4, 3])
    elif which == "abag":
        t = k("9.81")
        for i, x in enumerate(("4.4", "6.4", "8.4", "10.4")):
            is_(c, f"semi-trailer {i}", AU.get_abag_semitrailer(i), [3, k("1.2"), k(x), k("1.2"), k("1.2")],
                [6 * t] + [k("8.5") * t] * 2 + [k("7.5") * t] * 3)
        for i, (x, y) in enumerate((("5.5", "6.5"), ("6", "6"), ("6.5", "5.5"))):
            is_(c, f"B-double {i}", AU.get_abag_bdouble(i), [3, k("1.2"), k(x), k("1.2"), k("1.2"), k(y), k("1.2"), k("1.2")],
                [6 * t] + [k("8.5") * t] * 2 + [k("7.5") * t] * 6)
        # one user's vehicle does not alter the next one's
        v = AU.get_abag_bdouble(0)
        v.reverse()
        is_(c, "after reversing one", AU.get_abag_bdouble(0), [3, k("1.2"), k("5.5"), k("1.2"), k("1.2"), k("6.5"), k("1.2"), k("1.2")],
            [6 * t] + [k("8.5") * t] * 2 + [k("7.5") * t] * 6)


def configs(tier):
    out = []

    def add(name, fn, **kw):
        cost = kw.pop("cost", 2)
        out.append(dict(name=name, fn=fn, args=kw, cost=cost, max_paths=4000))
    for n in (1, 2, 3, 5):
        for kind in ("array", "list"):
            add(f"data-{n}-{kind}", data, n=n, kind=kind)
            add(f"turned-{n}-{kind}", turned, n=n, kind=kind)
    for b in ("one", "two", "cant"):
        for m in ("copy", "place", "thrice"):
            add(f"crossing-{b}-{m}", crossing, beam=b, coords=(0.0, 1.25, 3.1) if b != "two" else (0.0, 0.75), mode=m, cost=5)
    for n, (cn, g, f, i, z) in enumerate([
            ((2, 3), "array", (), (), False), ((1, 2, 1), "list", (), (), False), ((3, 2, 2), "one", (), (), False),
            ((2, 2), "one", (), (), False), ((2, 1, 2, 1), "onelist", (), (), False), ((2, 3), "array", (0,), (), False),
            ((3, 3, 1), "list", (1, 2), (), False), ((3, 2), "list", (), (0,), False), ((3, 2, 3), "one", (2,), (0, 1, 2), False),
            ((3, 3), "array", (), (), True), ((2, 2, 2), "one", (0,), (), True), ((2,), "array", (), (), False), ((3,), "list", (0,), (), False)]):
        add(f"train-{n}", train, counts=cn, gaps=g, flip=f, ints=i, zero=z)
    for b in ("one", "two"):
        add(f"together-{b}", together, beam=b, n=2, cost=6)
    for w in ("m1600", "s1600", "t44", "ms18", "hl93", "cooper", "la", "lm", "abag"):
        add(f"design-{w}", design, which=w)
    if tier == "thorough":
        add("t-together", together, beam="two", n=3, cost=9)
        for b in BEAMS:
            add(f"t-crossing-{b}", crossing, beam=b, coords=(0.0, 1.25, 3.1), mode="place", cost=8)
        for n in range(2, 6):
            add(f"t-train-{n}", train, counts=(3, 4, 2, 1, 3)[:n], gaps="list", flip=(0, 3), cost=3)
    return out
