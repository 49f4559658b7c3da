"""load cases, their combinations and the envelopes over selections of them"""
import itertools
from fractions import Fraction as F
import numpy as np
import pycba as cba
from harness.scen import rests
from harness.C13 import check, anyof
from harness.C15 import cell, nodes_of, pieces

BEAMS = {
    "two": dict(L=[3.0, 4.0], EI=[2.0, 3.0], R="ppp"),
    "cant": dict(L=[3.0, 2.0], EI=[2.0, 3.0], R="fph"),
    "hinge": dict(L=[4.0, 3.0, 2.0], EI=[2.0, 3.0, 1.0], R="fppp", eletype=[2, 1, 1]),
    "shear": dict(L=[3.0, 4.0], EI=[2.0, 3.0], R="pfp", GAv=[5.0, None]),
    "ground": dict(L=[3.0, 4.0], EI=[2.0, 3.0], R="hpp", kf=[1.5, None]),
    "spring": dict(L=[3.0, 4.0], EI=[2.0, 3.0], R="psp"),
    "settle": dict(L=[3.0, 4.0], EI=[2.0, 3.0], R="ppp", D=2),
}
RESPONSES = {"M": "M", "moment": "M", "V": "V", "Shear": "V", "D": "D", "deflection": "D", "R": "R", "rotation": "R"}


def beam(c, name, LM=None, sym=True):
    """a beam of the table, with one stiffness factor, spring and settlement left open"""
    b = BEAMS[name]
    e = c.real("e", 1, 3) if sym and "kf" not in b else 1
    R = [c.real(f"k{j}", 1, 9) if v == "k" else v for j, v in enumerate(rests(b["R"]))]
    kw = {k: list(b[k]) for k in ("eletype", "GAv", "kf") if k in b}
    if "D" in b:
        D = [None] * len(R)
        D[b["D"]] = c.real("d", -1, 1)
        kw["D"] = D
    EI = [e * v for v in b["EI"]]

    def make(LM):
        return cba.BeamAnalysis(list(b["L"]), list(EI), list(R), LM, **{k: list(v) for k, v in kw.items()})
    return b["L"], make, make([list(r) for r in LM] if LM else [])


def direct(make, loads, npts=4):
    ba = make([list(r) for r in loads])
    ba.analyze(npts)
    return ba.beam_results


def same(c, label, a, b):
    for f in ("M", "V", "R", "D"):
        c.eq(f"{label} {f}", getattr(a.results, f), getattr(b.results, f))
    c.eq(f"{label} reactions", a.R, b.R)
    c.eq(f"{label} spring forces", a.Rs, b.Rs)
    c.eq(f"{label} displacements", a.D, b.D)


def three(c, Ls, lcs, ground=False):
    """three cases with every kind of load -> the rows each should have"""
    w = [c.real(f"w{i}", -4, 4) for i in range(8)]
    n = len(Ls)
    if ground:
        lcs.add_udl("dead", 1, w[0])
        lcs.add_pl("live", 1, w[1], 0.7)
        lcs.add_ml("other", 2, w[2], 0.9)
        lcs.add_pudl("other", 1, w[3], 0.5, 1.5)
        return [[[1, 1, w[0]]], [[1, 2, w[1], 0.7]], [[2, 4, w[2], 0.9], [1, 3, w[3], 0.5, 1.5]]]
    lcs.add_udl("dead", 1, w[0])
    lcs.add_pl("dead", n, w[1], 0.7)
    lcs.add_pudl("live", 1, w[2], 0.5, 1.5)
    lcs.add_ml("live", n, w[3], 0.9)
    lcs.add_trap("other", 1, w[4], w[5])
    lcs.add_trap("other", n, w[6], w[0], 0.25, 1.25)
    rows = [[[1, 1, w[0]], [n, 2, w[1], 0.7]],
            [[1, 3, w[2], 0.5, 1.5], [n, 4, w[3], 0.9]],
            [[1, 5, w[4], w[5]], [n, 5, w[6], w[0], 0.25, 1.25]]]
    return rows


def cases(c, name, ic=False):
    """every case is analysed on its own on the very beam, which is left as it was"""
    Ls, make, ba = beam(c, name)
    p = c.real("p", -4, 4)
    ba.set_loads([[1, 1, p]])
    ba.analyze(4)
    before = ba.beam_results
    M0, R0 = np.array(before.results.M), np.array(before.R)
    lcs = cba.LoadCases(ba)
    rows = three(c, Ls, lcs, "kf" in BEAMS[name])
    if ic:
        kap = [c.real("kap0", -1, 1), c.real("kap1", -1, 1)]
        lcs.add_ic("warm", 1, kap)
        lcs.add_ic("warm", 2, kap[0])
        rows.append([[1, 6] + kap, [2, 6, kap[0]]])
    c.true("names", lcs.names == ("dead", "live", "other", "warm")[:len(rows)] and len(lcs) == len(rows))
    want = [direct(make, r) for r in rows]
    for i, (lc, w) in enumerate(zip(lcs, want)):
        m = cba.build_pycba_model(ba, lc)
        m.analyze(4)
        same(c, f"case {i}", m.beam_results, w)
    for r, f in RESPONSES.items():
        x, B = lcs.response_matrix(r)
        c.eq(f"stations of {r}", x, want[0].results.x)
        c.eq(f"matrix of {r}", B, np.array([getattr(w.results, f) for w in want]))
        x, y = cba.analyze_load_case(ba, lcs[1], response=r)
        c.eq(f"one case {r}", y, getattr(want[1].results, f))
    c.true("its own loads", ba.beam_results is before and len(ba.beam.loads) == 1)
    c.eq("its own moments", ba.beam_results.results.M, M0)
    c.eq("its own reactions", ba.beam_results.R, R0)
    same(c, "analysed again", direct(make, [[1, 1, p]]), before)
    c.raises("no such response", ValueError, lcs.response_matrix, "Q")


def envelope(c, name, npts=None):
    Ls, make, ba = beam(c, name, sym=False)
    ba.npts = 4
    lcs = cba.LoadCases(ba)
    rows = []
    for i in range(2):
        w, p = c.real(f"w{i}", -4, 4), c.real(f"p{i}", -4, 4)
        rows.append([[1, 1, w], [len(Ls), 2, p, 0.7 + i]])
        lcs.add(f"case {i}", rows[i])
    env = lcs.envelope(npts)
    check(c, env, [[direct(make, r, npts or 4) for r in rows]])
    cmb = cba.LoadCombination("one", [1.0, 0.5]).envelope(lcs, npts)
    r = direct(make, rows[0] + [[1, 1, 0.5 * rows[1][0][2]], [len(Ls), 2, 0.5 * rows[1][1][2], 1.7]], npts or 4)
    check(c, cmb, [[r]], "combination ")


def combination(c, name, given):
    """factors as a list, an array, by name or by number, or in a combination"""
    Ls, make, ba = beam(c, name, sym=False)
    ba.npts = 4
    lcs = cba.LoadCases(ba)
    rows = three(c, Ls, lcs, "kf" in BEAMS[name])
    n = len(rows)
    f = [c.real(f"f{i}", 0.5 if "kf" in BEAMS[name] else -3, 3) for i in range(n)]
    if given == "some":
        f[1] = 0
    g = {"list": list(f), "array": np.array(f), "names": {"other": f[2], "dead": f[0], "live": f[1]},
         "numbers": {1: f[1], 0: f[0], -1: f[2]}, "some": {"dead": f[0], 2: f[2]},
         "combination": cba.LoadCombination("mix", list(f)), "bynames": cba.LoadCombination("mix", {"dead": f[0], "other": f[2], 1: f[1]})}[given]
    want = [direct(make, r) for r in rows]

    def mix(at):
        t = 0
        for v, w in zip(f, want):
            t = t + v * np.array(at(w))
        return t
    c.eq("factors", lcs.factors(g), f)
    for r, a in RESPONSES.items():
        x, y = lcs.combine(g, response=r)
        c.eq(f"combined {r}", y, mix(lambda w: getattr(w.results, a)))
    cmb = g if isinstance(g, cba.LoadCombination) else cba.LoadCombination("mix", g)
    for label, m in (("analysed", lcs.analyze_combination(g)), ("combination", cmb.analyze(lcs, npts=4))):
        b = m.beam_results
        for a in ("M", "V", "R", "D"):
            c.eq(f"{label} {a}", getattr(b.results, a), mix(lambda w: getattr(w.results, a)))
        c.eq(f"{label} reactions", b.R, mix(lambda w: w.R))
        c.eq(f"{label} displacements", b.D, mix(lambda w: w.D))
    one = cmb.to_load_case(lcs)
    m = cba.build_pycba_model(ba, one)
    m.analyze(4)
    c.eq("as a load case", m.beam_results.results.M, mix(lambda w: w.results.M))
    for i, (lc, r) in enumerate(zip(lcs, rows)):
        for j, (a, b) in enumerate(zip(lc.to_LM(), r)):
            c.eq(f"loads {i} {j} kept", a, b)


def several(c):
    """several sets of factors at once"""
    Ls, make, ba = beam(c, "two", sym=False)
    ba.npts = 4
    lcs = cba.LoadCases(ba)
    rows = three(c, Ls, lcs)
    F = [[c.real(f"f{i}{j}", -3, 3) for j in range(3)] for i in range(2)]
    x, y = lcs.combine(F)
    want = [direct(make, r).results.M for r in rows]
    for i in range(2):
        c.eq(f"set {i}", y[i], F[i][0] * want[0] + F[i][1] * want[1] + F[i][2] * want[2])


def isolated(c):
    """the collection keeps its own loads, whatever happens to what it was given or gives"""
    Ls, make, ba = beam(c, "two", sym=False)
    w, p = c.real("w", -4, 4), c.real("p", -4, 4)
    mine = [[1, 1, w]]
    meta = {"load_position": 4}
    lcs = cba.LoadCases(ba)
    lcs.add("a", mine, metadata=meta)
    lcs.append(cba.LoadCase("b", mine))
    lcs.append({"name": "c", "loads": mine})
    lcs.append(mine)
    lcs.set("e", mine)
    row = [2, 2, p, 1.5]
    lcs.add_load("f", row)
    mine[0][2] = 99.0
    mine.append([2, 1, 5.0])
    row[2] = 77.0
    meta["load_position"] = 9
    given = lcs[0].to_LM()
    given[0][2] = 55.0
    given.append([1, 1, 1.0])
    lcs.to_LM()["b"][0][2] = 33.0
    c.true("names", lcs.names == ("a", "b", "c", "LC 4", "e", "f"))
    for i in range(5):
        c.true(f"rows {i}", len(lcs[i].loads) == 1)
        c.eq(f"loads {i}", lcs[i].to_LM()[0], [1, 1, w])
    c.eq("loads f", lcs[5].to_LM()[0], [2, 2, p, 1.5])
    c.true("positions", lcs.load_positions() == [4, 2, 4, 8, 16, 32])
    m = cba.build_pycba_model(ba, lcs[0])
    m.add_udl(2, 3.0)
    c.true("models apart", len(lcs[0].loads) == 1 and len(ba.beam.loads) == 0)
    lcs.set("a", [[2, 1, p]])
    c.true("replaced in place", lcs.names[0] == "a" and len(lcs) == 6)
    c.eq("replaced", lcs[0].to_LM()[0], [2, 1, p])
    c.eq("others not", lcs[1].to_LM()[0], [1, 1, w])
    c.raises("taken", ValueError, lcs.add, "b", [])
    c.raises("taken to append", ValueError, lcs.append, cba.LoadCase("b"))
    c.raises("unknown", KeyError, lcs.case, "zz", False)
    c.raises("unknown in factors", KeyError, lcs.factors, {"zz": 1.0})
    c.raises("too few factors", ValueError, lcs.factors, [1.0])
    c.raises("too few in a row", ValueError, lcs.factors, [[1.0], [2.0]])
    c.raises("not a beam", TypeError, cba.build_pycba_model, "beam", lcs[0])
    c.raises("no cases", ValueError, cba.LoadCombination("x", [1.0]).analyze)
    c.raises("more than rows", ValueError, lcs.factors, [[[1.0] * 6]])
    c.raises("one number", (ValueError, IndexError), lcs.factors, 1.0)
    c.raises("loads of many at once", ValueError, lcs.combined_loads, [[1.0] * 6] * 2)
    c.raises("nothing to analyse", ValueError, cba.LoadCases(ba).response_matrix)
    c.raises("one row", ValueError, cba.additive_envelope, np.array([w, p]), 1)
    c.raises("one row of signs", ValueError, cba.sign_selective_envelope, np.array([w, p]))
    c.raises("no extent", ValueError, lcs.add_trap, "a", 1, 1.0, 2.0, 0.5)


def template(c, name):
    """a beam by itself serves as well as an analysis of it, and every way of asking gives the same"""
    Ls, make, ba = beam(c, name, sym=False)
    b = ba.beam
    plain = cba.Beam(list(Ls), list(b.mbr_EIs), list(b.restraints), eletype=list(b.mbr_eletype), D=list(b.prescribed_displacements), GAv=list(b.mbr_GAv), kf=list(b.mbr_kf))
    ba.npts = 4
    lcs = cba.LoadCases(ba)
    rows = three(c, Ls, lcs, "kf" in BEAMS[name])
    n = len(rows)
    again = cba.LoadCases(ba, [cba.LoadCase(f"again {i}", r) for i, r in enumerate(rows[:1])])
    again.extend([cba.LoadCase("again 1", rows[1]), {"name": "again 2", "loads": rows[2]}])
    byhand = cba.LoadCases(plain)
    made = []
    for i, r in enumerate(rows):
        made.append(byhand.add_case(f"again {i}", r, metadata={"load_position": 4 * i + 1}))
    c.true("cases", again.cases == tuple(again) and len(again.cases) == n and again.names == byhand.names and all(p is q for p, q in zip(made, byhand)))
    c.true("bits", byhand.load_positions() == [4 * i + 1 for i in range(n)] and again.load_positions() == [2 ** i for i in range(n)])
    c.true("an empty case", byhand.add_case("none").loads == [] and len(byhand) == n + 1)
    byhand = cba.LoadCases(plain, byhand.cases[:n])
    f = [c.real(f"f{i}", F(1, 2), 3) for i in range(n)]
    mix = cba.LoadCombination("mix", dict(zip(again.names, f)), metadata={"why": [1]})
    for r in ("M", "V", "D", "R") if "D" not in BEAMS[name] else ("M",):
        x, y = lcs.combine(f, r)
        for tag, (p, q) in (("extended", again.linear_combination(mix, r)), ("combination", mix.response(again, r)), ("by its other name", again.linear_combination(f, response=r))):
            c.eq(f"{tag} {r} at", p, x)
            c.eq(f"{tag} {r}", q, y)
    m = mix.analyse(again).beam_results
    same(c, "alias", m, lcs.analyse_combination(f, npts=4).beam_results)
    one = mix.to_load_case(again)
    c.true("name", one.name == "mix" and one.metadata == {"why": [1]})
    one.metadata["why"].append(2)
    c.true("metadata apart", mix.metadata == {"why": [1]})
    c.true("spans", one.loaded_spans == tuple(sorted({r[0] - 1 for q in rows for r in q})))
    c.eq("factored rows", [r[2] for r in mix.to_LM(again)], [f[i] * r[2] for i, q in enumerate(rows) for r in q])
    for i in range(n):
        mod = cba.build_pycba_model(plain, byhand[i])
        mod.analyze(4)
        other = cba.build_pycba_model(ba, again[i])
        other.analyze(4)
        same(c, f"case {i}", mod.beam_results, other.beam_results)
    if "kf" not in BEAMS[name]:
        same(c, "beam alone", byhand.analyze_combination(f, npts=4).beam_results, m)
        x, y = cba.analyse_load_case(plain, byhand[0], "V")
        r = direct(make, rows[0], None)
        c.eq("default stations", x, r.results.x)
        c.eq("default stations V", y, r.results.V)


def total(v):
    t = 0
    for x in v:
        t = t + x
    return t


def additive(c, n, k):
    B = [[c.real(f"b{i}", -3, 3)] for i in range(n)]
    lo, hi, ilo, ihi = cba.additive_envelope(np.array(B), k)
    sets = list(itertools.combinations(range(n), k))
    for s in sets:
        t = total([B[i][0] for i in s])
        c.le(f"lowest is no more than {s}", lo[0], t)
        c.le(f"highest is no less than {s}", t, hi[0])
    for tag, v, idx in (("lowest", lo, ilo), ("highest", hi, ihi)):
        ids = [int(i) for i in idx[:, 0]]
        c.true(f"{tag}: different cases", len(set(ids)) == k)
        c.eq(f"{tag}: that of its cases", v[0], total([B[i][0] for i in ids]))
    c.raises("too many", ValueError, cba.additive_envelope, np.array(B), n + 1)
    c.raises("none", ValueError, cba.additive_envelope, np.array(B), 0)


def selective(c, n, given=None, stations=1):
    B = [[c.real(f"b{i}{j}", -3, 3) for j in range(stations)] for i in range(n)]
    lo, hi, mlo, mhi = cba.sign_selective_envelope(np.array(B), given)
    pos = given or [2 ** i for i in range(n)]
    for j in range(stations):
        for s in itertools.product((0, 1), repeat=n):
            t = total([B[i][j] for i in range(n) if s[i]])
            c.le(f"lowest {j} {s}", lo[j], t)
            c.le(f"highest {j} {s}", t, hi[j])
        c.eq(f"lowest {j} is that of its cases", lo[j], total([B[i][j] for i in range(n) if int(mlo[j]) & pos[i]]))
        c.eq(f"highest {j} is that of its cases", hi[j], total([B[i][j] for i in range(n) if int(mhi[j]) & pos[i]]))
        c.true(f"no case in both {j}", int(mlo[j]) & int(mhi[j]) == 0)
    c.raises("positions", ValueError, cba.sign_selective_envelope, np.array(B), pos + [1])


def target(c, name, x, response, sense, side=None, sel=False):
    """the cases that act in the wanted sense at a place"""
    Ls, make, ba = beam(c, name, sym=False)
    ba.npts = 4
    lcs = cba.LoadCases(ba)
    rows = []
    for i in range(len(Ls)):
        rows.append([[i + 1, 1, c.real(f"w{i}", -4, 4)]])
    rows.append([[1, 2, c.real("p", -4, 4), 1.3]])
    for i, r in enumerate(rows):
        lcs.add(f"case {i}", r)
    kw = {} if sel is False else dict(selected_factor=c.real("fs", 1, 2), unselected_factor=c.real("fu", -0.5, 0.5)) if sel is True else \
        dict(selected_factor=c.real("fs", 1, 2), unselected_factor=sel)
    cmb = lcs.target_combination("t", x, sense=sense, response=response, **kw)
    a = RESPONSES[response]
    want = []
    for r in rows:
        b = direct(make, r)
        xs = nodes_of(Ls)
        i = max([k for k in range(len(Ls)) if xs[k] < x] or [0])
        v = b.vRes[i]
        st = [float(q) for q in v.x[1:-1]]
        k = max([q for q in range(len(st) - 1) if st[q] < x] or [0])
        y = getattr(v, a)[1:-1]
        want.append(y[k] + (x - st[k]) / (st[k + 1] - st[k]) * (y[k + 1] - y[k]))
    low = sense in ("min", "hogging", "negative", "Neg")
    fs, fu = kw.get("selected_factor", 1), kw.get("unselected_factor", 0)
    f = cmb.factor_vector()
    c.eq("effects", cmb.metadata["target_values"], want)
    md = cmb.metadata
    c.eq("at", md["x"], x)
    c.true("asked", md["response"] == response and md["sense"] == sense and cmb.name == "t")
    c.true("chosen", md["selected_names"] == [f"case {i}" for i in md["selected_indices"]])
    for i, v in enumerate(want):
        hit = i in md["selected_indices"]
        c.true(f"chosen {i}", hit == bool((v < 0) if sense in ("min", "hogging", "negative", "Neg") else (v > 0)))
    for i, v in enumerate(want):
        adverse = (v < 0) if low else (v > 0)
        if adverse:
            c.eq(f"factor {i}", f[i], fs)
        else:
            c.eq(f"factor {i}", f[i], fu)
    if sel is False:
        t = total([q * v for q, v in zip(f, want)])
        for s in itertools.product((0, 1), repeat=len(want)):
            o = total([v for q, v in zip(s, want) if q])
            c.le(f"no worse than {s}", *((t, o) if low else (o, t)))
    c.raises("beyond", ValueError, lcs.target_combination, "t", sum(Ls) + 1)
    c.raises("sense", ValueError, lcs.target_combination, "t", x, "sideways")


def patterned(c, name, n):
    """the segments of every span together are the load on all spans"""
    Ls, make, ba = beam(c, name)
    ba.npts = 4
    w = c.real("w", -4, 4)
    lcs = cba.make_patterned_udl(ba, w, n_segments=n)
    c.true("cases", len(lcs) == n * len(Ls))
    full = direct(make, [[i + 1, 1, w] for i in range(len(Ls))])
    same(c, "all segments", lcs.analyze_combination([1.0] * len(lcs)).beam_results, full)
    if "D" not in BEAMS[name]:
        for r in ("M", "V", "D"):
            c.eq(f"sum {r}", lcs.combine([1.0] * len(lcs), r)[1], getattr(full.results, r))
    k = 0
    for i, L in enumerate(Ls):
        x0 = nodes_of(Ls)[i]
        for j in range(n):
            m = lcs[k].metadata
            c.eq(f"from {k}", m["x0"], x0 + L * j / n)
            c.eq(f"to {k}", m["x1"], x0 + L * (j + 1) / n)
            one = direct(make, [[i + 1, 3, w, L * j / n, L / n]])
            mod = cba.build_pycba_model(ba, lcs[k])
            mod.analyze(4)
            same(c, f"segment {k}", mod.beam_results, one)
            k += 1
    spans = cba.make_span_udl_cases(ba, w)
    c.true("span cases", len(spans) == len(Ls))
    for i in range(len(Ls)):
        c.eq(f"span case {i}", spans[i].to_LM()[0], [i + 1, 1, w])
    for bad in (0, -1, 1.5, True):
        c.raises(f"segments {bad}", ValueError, cba.make_patterned_udl, ba, w, bad)


def segment(c, name, touch=None):
    """a load from one place on the beam to another, over the supports between"""
    Ls, make, ba = beam(c, name, sym=False)
    xs = nodes_of(Ls)
    w = c.real("w", -4, 4)
    if touch == "from":
        i = c.choice("node", len(Ls))
        x0 = xs[i]
        x1 = cell(c, f"x1-{i}", [v for v in xs if v >= x0], 0.001)
    elif touch == "to":
        i = c.choice("node", len(Ls))
        x1 = xs[i + 1]
        x0 = cell(c, f"x0-{i}", [v for v in xs if v <= x1], 0.001)
    elif touch == "both":
        i = c.choice("node", len(Ls))
        x0, x1 = xs[i], xs[i + 1 + c.choice("span", len(Ls) - i)]
    else:
        x0, x1 = cell(c, "x0", xs, 0.001), cell(c, "x1", xs, 0.001)
        c.assume(x1 > x0 + 0.001)
    lc = cba.LoadCase("s")
    lc.add_segment_udl(ba, x0, x1, w)
    lcs = cba.LoadCases(ba)
    lcs.add_segment_udl("s", x0, x1, w)
    lcs.add_all_spans_udl("all", w)
    want = [[i + 1, 3, w, a, b] for i, a, b, _, _ in pieces(Ls, [(x0, x1)])]
    for tag, m in (("case", lc.to_LM()), ("collection", lcs[0].to_LM())):
        c.true(f"{tag}: spans", [r[0] for r in m] == [r[0] for r in want])
        for i, (r, q) in enumerate(zip(m, want)):
            r = list(r) if r[1] == 3 else [r[0], 3, r[2], 0, Ls[r[0] - 1]]
            c.eq(f"{tag}: piece {i}", r, q)
    same(c, "segment", direct(make, lcs[0].to_LM()), direct(make, want))
    c.eq("all spans", [r[2] for r in lcs[1].to_LM()], [w] * len(Ls))
    c.true("each span", [r[:2] for r in lcs[1].to_LM()] == [[i + 1, 1] for i in range(len(Ls))])
    c.raises("backwards", ValueError, lc.add_segment_udl, ba, x1, x0, w)
    c.raises("beyond the end", ValueError, lc.add_segment_udl, ba, x0, sum(Ls) + 0.01, w)
    c.raises("before the start", ValueError, lc.add_segment_udl, ba, -0.01, x1, w)


def configs(tier):
    out = []

    def add(tag, fn, merge=False, **kw):
        cost = kw.pop("cost", 3)
        out.append(dict(name=f"{fn.__name__}-{tag}", fn=fn, args=kw, cost=cost, merge=merge, max_paths=4000))
    for b in BEAMS:
        add(b, cases, name=b, ic=b in ("two", "cant", "hinge"), cost=6)
        if b != "ground":
            add(f"{b}-3", patterned, name=b, n=3, cost=5)
    add("ground-2", patterned, name="ground", n=2, cost=5)
    for b in ("two", "cant"):
        add(b, envelope, merge=True, name=b, cost=5)
    add("two-6", envelope, merge=True, name="two", npts=6, cost=6)
    for g in ("list", "array", "names", "numbers", "some", "combination", "bynames"):
        add(f"two-{g}", combination, name="two", given=g)
    for b in ("cant", "hinge", "shear", "ground", "spring"):
        add(f"{b}-list", combination, name=b, given="list")
    add("two", several)
    for b in BEAMS:
        if tier == "thorough" or b in ("two", "hinge", "shear", "settle"):
            add(b, template, name=b, cost=6)
    add("two", isolated)
    for n in (2, 3):
        for k in range(1, n + 1):
            add(f"{n}-{k}", additive, n=n, k=k)
    for n, g, s in ((2, None, 2), (3, None, 1), (3, [8, 1, 2], 1)):
        add(f"{n}-{s}{'-given' if g else ''}", selective, n=n, given=g, stations=s)
    i = 0
    for b, x in (("two", 3.0), ("two", 0.75), ("two", 5.0), ("two", 1.0), ("two", 3.25), ("cant", 0.0), ("cant", 0.375), ("cant", 2.25), ("shear", 3.0), ("shear", 0.0), ("shear", 7.0), ("hinge", 4.0), ("hinge", 9.0), ("ground", 0.75)):
        for r in ("M", "V", "deflection"):
            s = ("min", "max", "hogging", "sagging", "negative", "positive", "Neg")[i % 7]
            add(f"{b}-{i}-{r}-{s}", target, name=b, x=x, response=r, sense=s, sel=i % 3 == 1)
            i += 1
    for b, x, u in (("two", 3.25, 0), ("cant", 0.375, 1), ("hinge", 9.0, -1)):
        add(f"{b}-whole{u}", target, name=b, x=x, response="M", sense="min", sel=u)
    for t in (None, "from", "to", "both"):
        for b in ("two", "hinge"):
            add(f"{b}-{t}", segment, name=b, touch=t)
    if tier == "thorough":
        add("4-2", additive, n=4, k=2, cost=6)
        add("4-3", additive, n=4, k=3, cost=6)
        add("4", selective, n=4, cost=6)
        for b in BEAMS:
            add(f"t-{b}-5", patterned, name=b, n=5, cost=8)
        for b in ("hinge", "shear", "ground", "spring"):
            add(f"t-{b}", envelope, merge=True, name=b, cost=8)
            for g in ("array", "names", "bynames"):
                add(f"t-{b}-{g}", combination, name=b, given=g)
    return out
