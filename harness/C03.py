"""responses superpose and scale with the loads"""
import numpy as np
import pycba as cba
from harness.scen import build, make_load

NP = 4


def fresh(S, LM):
    b = cba.BeamAnalysis(S.L, S.EI, S.R, LM, eletype=S.eletype, D=S.D, GAv=S.GAv)
    b.analyze(NP)
    return b.beam_results


def allof(br, nodal=False):
    """everything reported; nodal: without the sampled rotations and deflections (which carry a sampling error that
    depends on how the member is integrated when imposed curvature meets a release)"""
    r = br.results
    out = [r.M, r.V, np.array(br.D), np.array(br.R), np.array(br.Rs)]
    if not nodal:
        out += [r.R, r.D]
    return np.concatenate(out)


def ic_row(c, member, tag):
    return [member, 6, c.real(f"ka{tag}", -1, 1), c.real(f"kb{tag}", -1, 1)]


def superpose(c, spans, supports, setA, setB, ic=False, nodal=False, **kw):
    S = build(c, spans, supports, setA + setB, **kw)
    LM = [list(r) for r in S.LM]
    A, B = LM[:len(setA)], LM[len(setA):]
    if ic:
        A.append(ic_row(c, 1, "x"))
        B.append(ic_row(c, spans, "y"))
    keepA, keepB = [list(r) for r in A], [list(r) for r in B]
    ra, rb = allof(fresh(S, A), nodal), allof(fresh(S, B), nodal)
    both = cba.add_LM(A, B)
    rab = allof(fresh(S, both), nodal)
    r0 = allof(fresh(S, []), nodal)
    c.eq("response to both sets", rab + r0, ra + rb)
    c.eq("order of the loads", allof(fresh(S, B + A), nodal), rab)
    g = c.real("gamma", -3, 3)
    fac = cba.factor_LM(both, g)
    rf = allof(fresh(S, fac), nodal)
    c.eq("response to factored loads", rf - r0, g * (rab - r0))
    c.true("inputs kept", A == keepA and B == keepB)
    c.true("factored set has as many loads", len(fac) == len(both) and len(both) == len(A) + len(B))


def parts(c, spans, supports, kind, member, **kw):
    """a load given as two, of intensities that add up to its own, at the same place"""
    S = build(c, spans, supports, [(kind, member)], **kw)
    row = S.LM[0]
    p = c.real("p", -4, 4)
    first, rest = list(row), list(row)
    first[2], rest[2] = p, row[2] - p
    if row[1] == 5:
        # the one with nothing at its far end and the other with nothing at its near end; then another split
        first[3], rest[3] = row[3] * 0, row[3]
        first[2], rest[2] = row[2], row[2] * 0
    r0 = allof(fresh(S, []))
    ra, rb, rab = allof(fresh(S, [first])), allof(fresh(S, [rest])), allof(fresh(S, [row]))
    c.eq("a load in two parts", ra + rb, rab + r0)
    if row[1] == 5:
        f2, g2 = list(row), list(row)
        f2[2], f2[3] = p, p
        g2[2], g2[3] = row[2] - p, row[3] - p
        c.eq("its even part apart", allof(fresh(S, [f2])) + allof(fresh(S, [g2])), rab + r0)


def added(c, spans, supports):
    """building the load set through the add_ methods equals passing the matrix"""
    S = build(c, spans, supports, [("udl", 1), ("pl", 1), ("pudl_q", 2), ("ml_third", 2), ("trap", 1), ("trap_q", 2)], Lmode="one")
    rows = S.LM
    k1 = ic_row(c, 1, "x")
    b = cba.BeamAnalysis(S.L, S.EI, S.R)
    b.add_udl(1, rows[0][2])
    b.add_pl(1, rows[1][2], rows[1][3])
    b.add_pudl(2, rows[2][2], rows[2][3], rows[2][4])
    b.add_ml(2, rows[3][2], rows[3][3])
    b.add_trap(1, rows[4][2], rows[4][3])
    b.add_trap(2, rows[5][2], rows[5][3], rows[5][4], rows[5][5])
    b.add_ic(1, [k1[2], k1[3]])
    b.analyze(NP)
    c.eq("add_ methods", allof(b.beam_results), allof(fresh(S, rows + [k1])))
    b2 = cba.BeamAnalysis(S.L, S.EI, S.R, [list(r) for r in rows])
    b2.analyze(NP)
    b2.set_loads([list(k1)])
    b2.analyze(NP)
    c.eq("replacing the loads forgets the old ones", allof(b2.beam_results), allof(fresh(S, [k1])))
    b2.set_loads([])
    b2.analyze(NP)
    c.eq("no loads, no response", allof(b2.beam_results), 0)


def configs(tier):
    out = []

    def add(name, *a, **k):
        out.append(dict(name=name, fn=superpose, args=dict(zip(("spans", "supports", "setA", "setB"), a), **k)))
    kinds = ("udl", "pl", "pudl_q", "ml_third", "trap", "trap_q", "pudl_over", "trap_over", "pl_left", "pl_right", "ml_left", "ml_right", "off", "pl_off", "ml_off", "pl_past", "ml_past")
    for k in kinds:
        add(f"ff-{k}", 1, "ff", [(k, 1)], [("udl", 1)])
        add(f"pps-{k}", 2, "pps", [(k, 1)], [(k, 2)], Lmode="one")
        add(f"rel2-{k}", 2, "fhf", [(k, 1)], [("pl_third", 2)], eletype=[2, 1])
        add(f"rel4-{k}", 3, "fhhf", [(k, 2)], [("trap", 2)], eletype=[1, 4, 1], Lmode="one")
        add(f"settle-{k}", 2, "ppp", [(k, 1)], [("ml_third", 2)], D=[2], Lmode="one")
    add("ic", 2, "fpp", [("udl", 1)], [("pl_third", 2)], ic=True, Lmode="one")
    add("ic-rel", 2, "fhf", [("udl", 1)], [("pl_third", 2)], ic=True, nodal=True, Lmode="one", eletype=[1, 3])
    for k in kinds + ("trap_part", "pudl"):
        for sup, et in (("ff", None), ("fp", None), ("pph", None), ("fhf", [2, 1])):
            n = len(sup) - 1
            if tier == "thorough" or n == 1 or k in ("udl", "pl_third", "trap", "trap_q"):
                out.append(dict(name=f"parts-{sup}-{k}", fn=parts, args=dict(spans=n, supports=sup, kind=k, member=1, Lmode="one", eletype=et)))
    out.append(dict(name="add-methods", fn=added, args=dict(spans=2, supports="fpp")))
    if tier == "thorough":
        for a in kinds:
            for b in kinds:
                add(f"t-{a}-{b}", 2, "fpp", [(a, 1)], [(b, 2)])
                add(f"t1-{a}-{b}", 1, "fs", [(a, 1)], [(b, 1)])
    return out
