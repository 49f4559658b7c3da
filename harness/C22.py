"""a beam described by a string, by names or piece by piece is the beam it says"""
from fractions import Fraction as F
import numpy as np
import pycba as cba
from pycba.types import MemberType
from harness.scen import rests

NPTS = 4


def loaded(n, w, P, L):
    rows = []
    for i in range(n):
        rows.append([i + 1, 1, w[i]] if i % 2 == 0 else [i + 1, 2, P[i], L[i] / 3])
    return rows


def physics(c, lab, br, L, kinds, w, P):
    """kinds: what the description says of each node: p/r held, e built in, f free, h hinge"""
    n = len(L)
    for j, k in enumerate(kinds):
        v, t = br.D[2 * j], br.D[2 * j + 1]
        left = br.vRes[j - 1] if j else None
        right = br.vRes[j] if j < n else None
        if k in "pre":
            c.eq(f"{lab}: node {j} held", v, 0)
        if k == "e":
            c.eq(f"{lab}: node {j} built in", t, 0)
        if k == "h" or (k in "prf" and (left is None or right is None)):
            c.eq(f"{lab}: node {j} turns", [r.M[i] for r, i in ((left, -2), (right, 1)) if r is not None], 0, scale=10)
        if k == "f":
            c.eq(f"{lab}: node {j} free", [r.V[i] for r, i in ((left, -2), (right, 1)) if r is not None], 0, scale=10)
        if k == "h":
            c.eq(f"{lab}: node {j} passes shear", left.V[-2], right.V[1], scale=10)
        if k in "pr" and left is not None and right is not None:
            c.eq(f"{lab}: node {j} continuous", left.M[-2], right.M[1], scale=10)
    c.true(f"{lab}: reactions", len(br.R) == sum({"p": 1, "r": 1, "e": 2}.get(k, 0) for k in kinds) and len(br.Rs) == 0)
    k, tot = 0, 0
    for kind in kinds:
        if kind in "pre":
            tot = tot + br.R[k]
            k += 2 if kind == "e" else 1
    c.eq(f"{lab}: carries the load", tot, sum(w[i] * L[i] if i % 2 == 0 else P[i] for i in range(n)), scale=10)
    # the same from first entries: a hinge is the end of the member before it
    R = [v for k in kinds for v in {"p": (-1, 0), "r": (-1, 0), "e": (-1, -1), "f": (0, 0), "h": (0, 0)}[k]]
    ref = cba.BeamAnalysis(L, [c.const(6)] * n, R, loaded(n, w, P, L), eletype=[2 if k == "h" else 1 for k in kinds[1:]])
    ref.analyze(NPTS)
    for q in "xMVRD":
        c.eq(f"{lab}: {q}", getattr(br.results, q), getattr(ref.beam_results.results, q), scale=10)


def string(c, fmt, sym):
    """fmt: terminals with a number between them"""
    kinds = [ch.lower() for ch in fmt if ch.isalpha()]
    n = len(kinds) - 1
    L, txt = [], ""
    k = 0
    pad = c.pick("pad", ["", " "])
    for ch in fmt:
        if ch == "#":
            t, v = c.text(f"L{k}", 1, 10) if k in sym else (["7", "2.5", "4.", ".75"][k], c.const([F(7), F(5, 2), F(4), F(3, 4)][k]))
            L.append(v)
            txt += pad + t + pad
            k += 1
        else:
            txt += ch
    got = cba.parse_beam_string(txt)
    c.true("four parts", len(got) == 4)
    gL, EI, R, et = got
    c.eq("lengths", list(gL), L)
    c.true("per span", len(EI) == n and len(et) == n and len(R) == 2 * n + 2)
    c.eq("prismatic alike", list(EI), EI[0])
    c.lt("stiff", 0, EI[0])
    EI = [c.const(6)] * n                                  # the magnitude is arbitrary
    w = [c.real(f"w{i}", -3, 3) for i in range(n)]
    ba = cba.BeamAnalysis(gL, EI, R, loaded(n, w, w, gL), eletype=et)
    ba.analyze(NPTS)
    c.eq("total length", ba.beam.length, sum(L))
    physics(c, "string", ba.beam_results, L, kinds, w, w)


def badstring(c, k):
    t, v = c.text("L", 1, 10)
    u, v2 = c.text("M", 1, 10)
    s = BAD[k].replace("#", t, 1).replace("#", u, 1)
    c.raises(f"refused {k}", ValueError, cba.parse_beam_string, s)


BAD = ["", "#", "P", "P#", "#R", "H#R", "P#H", "H#H", "P#E#R", "P#F#R", "E#f#R", "PR", "P#PR", "P#x#R", "P#,#R", "P--#R", "P#R#", "#P#R", "P-#R", "P#R0R", "P0R", "P#R-#R", "P # # R"]

NAMES = {"p": ["p", "pin", "pinned", "Pin ", " PINNED"], "r": ["r", "roller", "R", "Roller"], "e": ["e", "encastre", "fixed", "clamped", "E", "Fixed", " CLAMPED "], "f": ["f", "free", "F", "Free"]}


def named(c, kinds, how):
    """supports by name, also mixed with raw pairs"""
    n = len(kinds) - 1
    sup, pick = [], c.choice("names", 7)
    for j, k in enumerate(kinds):
        opts = NAMES[k]
        sup.append(opts[(pick + j) % len(opts)])
    if how == "mixed":
        j = c.choice("raw", len(kinds))
        sup[j] = [list, tuple][c.choice("seq", 2)]({"p": (-1, 0), "r": (-1, 0), "e": (-1, -1), "f": (0, 0)}[kinds[j]])
    L = [c.real(f"L{i}", 1, 10) for i in range(n)] if n < 3 else [c.const(v) for v in (3, 2, 4)]
    w = [c.real(f"w{i}", -3, 3) for i in range(n)]
    keep = [s if isinstance(s, str) else list(s) for s in sup]
    ba = cba.BeamAnalysis(L, [c.const(6)] * n, LM=loaded(n, w, w, L), supports=sup)
    ba.analyze(NPTS)
    physics(c, how, ba.beam_results, L, kinds, w, w)
    c.true("names left alone", keep == [s if isinstance(s, str) else list(s) for s in sup])
    R = cba.supports_to_R(sup, n_nodes=n + 1)
    ref = cba.BeamAnalysis(L, [c.const(6)] * n, R, loaded(n, w, w, L))
    ref.analyze(NPTS)
    c.eq("as the restraint vector", ref.beam_results.results.M, ba.beam_results.results.M)


def springs(c):
    """a pair may carry spring stiffnesses"""
    k = [c.real(f"k{i}", 1, 9) for i in range(2)]
    L = [c.const(3), c.const(2)]
    w = [c.real(f"w{i}", -3, 3) for i in range(2)]
    rows = loaded(2, w, w, L)
    a = cba.BeamAnalysis(L, [c.const(6)] * 2, LM=rows, supports=["p", [k[0], 0], (-1, k[1])])
    a.analyze(NPTS)
    r = a.beam_results
    c.eq("vertical spring", r.Rs[0], -k[0] * r.D[2])
    c.eq("rotational spring", r.Rs[1], -k[1] * r.D[5])
    c.eq("balance", r.R[0] + r.R[1] + r.Rs[0], w[0] * L[0] + w[1])
    c.eq("end moment", r.vRes[1].M[-2], r.Rs[1])


def badnames(c, k):
    a, v = c.real("L", 1, 10), c.const(2)
    one = lambda **kw: cba.BeamAnalysis([a, v], [v, v], **kw)
    bag = [lambda: one(supports=["p", "h", "p"]), lambda: one(supports=["p", "hinge", "r"]), lambda: one(supports=["p", "x", "r"]), lambda: one(supports=["p", "r"]),
           lambda: one(supports=["p", "r", "r", "r"]), lambda: one(supports=["p", [-1], "r"]), lambda: one(supports=["p", [-1, 0, 0], "r"]),
           lambda: one(supports=["p", "r", "r"], R=[-1, 0] * 3), lambda: one(), lambda: one(R=[-1, 0] * 2), lambda: one(R=[-1, 0] * 4),
           lambda: cba.supports_to_R(["p", ""]), lambda: cba.supports_to_R(["p", "r"], n_nodes=3),
           lambda: cba.BeamAnalysis([a, v], [v], [-1, 0] * 3), lambda: cba.BeamAnalysis([a, v], [v] * 3, [-1, 0] * 3),
           lambda: cba.BeamAnalysis([a, v], [v, v], [-1, 0] * 3, D=[None] * 5), lambda: one(R=[-1, 0] * 3, GAv=[v]), lambda: one(R=[-1, 0] * 3, kf=[v, v, v]),
           lambda: one(R=[-1, 0] * 3, eletype=[1, 5]), lambda: one(R=[-1, 0] * 3, eletype=[0, 1]), lambda: one(R=[-1, 0] * 3, eletype=["FF", "XX"]),
           lambda: cba.Beam(supports=["p", "r"])]
    c.raises(f"refused {k}", ValueError, bag[k])


TYPES = {1: [1, "FF", "ff", " Ff ", MemberType.FF], 2: [2, "FP", "fp", MemberType.FP], 3: [3, "PF", "pf ", MemberType.PF], 4: [4, "PP", "pp", MemberType.PP]}


def types(c, t):
    """member types by number, name or constant, and what each of them releases"""
    L = [c.real("La", 1, 10), c.real("Lb", 1, 10), c.const(2)]
    w = [c.real(f"w{i}", -3, 3) for i in range(3)]
    how = c.choice("how", 5)
    opts = TYPES[t]
    et = [opts[how % len(opts)] if i == 1 else TYPES[1][(how + i) % 5] for i in range(3)]
    if how == 4:
        et = np.array([1, t, 1])
    R = rests("fppf")
    ba = cba.BeamAnalysis(L, [c.const(6)] * 3, R, loaded(3, w, w, L), eletype=et)
    ba.analyze(NPTS)
    m = ba.beam_results.vRes[1]
    if t in (3, 4):
        c.eq("left end released", m.M[1], 0, scale=10)
    if t in (2, 4):
        c.eq("right end released", m.M[-2], 0, scale=10)
    ref = cba.BeamAnalysis(L, [c.const(6)] * 3, R, loaded(3, w, w, L), eletype=[1, t, 1])
    ref.analyze(NPTS)
    for q in "xMVRD":
        c.eq(q, getattr(ba.beam_results.results, q), getattr(ref.beam_results.results, q), scale=10)


def ways(c, sup, n):
    """the same beam built in different ways gives the same answer"""
    L = [c.const(v) for v in (3, 2, 4)[:n]]
    EI = [c.real(f"EI{i}", 1, 9) for i in range(n)]
    w = [c.real(f"w{i}", -3, 3) for i in range(n)]
    al = c.real("al", 0.3, 0.45)
    R = rests(sup)
    k = c.const
    rows = [[1, 1, w[0]], [n, 2, w[-1], al * L[-1]], [1, 3, w[0], k(F(1, 2)), k(1)], [n, 4, w[-1], k(1)], [1, 5, w[0], w[-1]], [n, 5, w[0], w[-1], k(F(1, 4)), k(1)], [1, 6, k(2), w[0]]]
    rows = rows[c.choice("from", 3):]
    ref = cba.BeamAnalysis(L, EI, R, [list(r) for r in rows])
    ref.analyze(NPTS)

    def same(lab, ba, run=True):
        if run:
            ba.analyze(NPTS)
        a, b = ba.beam_results, ref.beam_results
        for q in "xMVRD":
            c.eq(f"{lab}: {q}", getattr(a.results, q), getattr(b.results, q))
        c.eq(f"{lab}: reactions", list(a.R) + list(a.Rs), list(b.R) + list(b.Rs))
        c.eq(f"{lab}: displacements", a.D, b.D)
    ba = cba.BeamAnalysis(L, EI, R)
    add = {1: ba.add_udl, 2: ba.add_pl, 3: ba.add_pudl, 4: ba.add_ml, 5: ba.add_trap}
    for r in rows:
        if r[1] == 6:
            ba.add_ic(r[0], [r[2], r[3]])
        else:
            add[r[1]](r[0], *r[2:])
    same("loads added one by one", ba)
    ba = cba.BeamAnalysis(L, EI, R)
    ba.set_loads([list(r) for r in rows])
    same("loads set", ba)
    ba = cba.BeamAnalysis(L, EI, R, [[1, 1, k(5)]])
    ba.analyze(NPTS)
    ba.set_loads([list(r) for r in rows])
    same("loads changed", ba)
    ba = cba.BeamAnalysis(tuple(L), np.array(EI), np.array(R), rows, eletype=np.ones(n, dtype=int))
    same("arrays", ba)
    b = cba.Beam()
    for l, e in zip(L, EI):
        b.add_span(l, e)
    c.eq("length", b.length, sum(L))
    c.true("members", b.no_members == n and b.no_spans == n)
    b = cba.Beam()
    for l, e, t in zip(L, EI, (1, 2, 3)):
        b.add_member(l, e, t)
    b.restraints = R
    c.true("member by member", b.no_members == n and list(b.mbr_eletype) == [1, 2, 3][:n] and b.no_restraints == 2 * n + 2 and list(b.mbr_EIs) == list(EI))
    c.eq("lengths", b.mbr_lengths, L)
    c.raises("a movement too few", ValueError, setattr, b, "prescribed_displacements", [None] * (2 * n + 1))
    for lab, b in (("no types", cba.Beam(L, EI, R)), ("types", cba.Beam(L, EI, R, eletype=[1] * n)), ("no types, one stiffness", cba.Beam(L, 5, R)), ("supports", cba.Beam(L, EI, supports=sup and ["fixed" if q == "f" else "free" if q == "h" else "pinned" for q in sup]))):
        c.eq(f"{lab}: length", b.length, sum(L))
        c.true(f"{lab}: members", b.no_spans == n and b.no_members == n and list(b.mbr_eletype) == [1] * n and len(b.mbr_EIs) == n)
        c.eq(f"{lab}: lengths", b.mbr_lengths, L)
        c.true(f"{lab}: restraints", list(b.restraints) == list(R))
    one = cba.BeamAnalysis(L, EI[0], R, [list(r) for r in rows])
    many = cba.BeamAnalysis(L, [EI[0]] * n, R, [list(r) for r in rows])
    one.analyze(NPTS)
    many.analyze(NPTS)
    c.eq("one stiffness for all", one.beam_results.results.D, many.beam_results.results.D)
    tr = cba.BeamAnalysis(L, EI, R)
    c.raises("start without length", ValueError, tr.add_trap, 1, w[0], w[-1], k(1))


def where(c, n):
    """coordinates along the beam and within a span"""
    L = [c.real(f"L{i}", 1, 10) for i in range(n)]
    b = cba.Beam(L, [c.const(1)] * n, [-1, 0] * (n + 1), eletype=[1] * n)
    x = c.real("x", -5, 45)
    i, s = b.get_local_span_coords(x)
    ends = [0]
    for l in L:
        ends.append(ends[-1] + l)
    c.eq("length", b.length, ends[-1])
    if c.fork(x < 0) or c.fork(x > ends[-1]):
        c.true("off the beam", int(i) == -1)
    else:
        c.true("a span", 0 <= i < n)
        c.eq("adds up", ends[int(i)] + s, x)
        c.le("within the span", 0, s)
        c.le("within the span too", s, L[int(i)])


def configs(tier):
    out = []

    def add(tag, fn, **kw):
        out.append(dict(name=f"{fn.__name__}-{tag}", fn=fn, args=kw, cost=1))
    for k, (s, sym) in enumerate((("P#R", [0]), ("e#F", [0]), ("F#e", [0]), ("E#E", [0]), ("p#r#R", [0, 1]), ("P#R#F", [0, 1]), ("F#P#e", [0, 1]), ("E#H#R", [0, 1]), ("r#H#E", [0, 1]), ("E#H#E", [0, 1]),
                                  ("E#H#R#F", [0, 1]), ("E#R#H#R#E", [1, 2]), ("P#R#H#R#R", [2]), ("P#H#P#E", [0]), ("E#H#H#E", [1]), ("F#P#H#E", [0]), ("P#H#R#H#e", [2]))):
        add(f"{k}", string, fmt=s, sym=sym)
    for k in range(len(BAD)):
        add(f"{k}", badstring, k=k)
    for k, s in enumerate(("pr", "ef", "fe", "ee", "prf", "epr", "frre")):
        for how in ("names", "mixed"):
            add(f"{s}-{how}", named, kinds=s, how=how)
    add("pairs", springs)
    for k in range(22):
        add(f"{k}", badnames, k=k)
    for t in (1, 2, 3, 4):
        add(f"{t}", types, t=t)
    for s in ("pp", "ff", "fh", "ppp", "ppf"):
        add(s, ways, sup=s, n=len(s) - 1)
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        add(f"{n}", where, n=n)
    return out
