"""an analysis depends on the structure, not on how it is described: mirror image, subdivision, units, rigid shift, reciprocity"""
from fractions import Fraction as F
import numpy as np
import pycba as cba
from harness.scen import build, rests

NP = 4


def run(L, EI, R, LM, ety=None, D=None, npts=NP, GAv=None):
    b = cba.BeamAnalysis(list(L), list(EI), list(R), [list(r) for r in LM], eletype=ety, D=D, GAv=GAv)
    b.analyze(npts)
    return b.beam_results


def forces_by_dof(R, br):
    out, a, b = [], 0, 0
    for r in R:
        if isinstance(r, int) and r == -1:
            out.append(br.R[a])
            a += 1
        elif isinstance(r, int) and r == 0:
            out.append(0)
        else:
            out.append(br.Rs[b])
            b += 1
    return out


def flip_load(r, n, L):
    i, t = r[0], r[1]
    j, l = n + 1 - i, L[i - 1]
    if t == 1:
        return [j, 1, r[2]]
    if t == 2:
        return [j, 2, r[2], l - r[3]]
    if t == 3:
        return [j, 3, r[2], l - r[3] - r[4], r[4]]
    if t == 4:
        return [j, 4, -r[2], l - r[3]]
    if len(r) == 4:
        return [j, 5, r[3], r[2]]
    return [j, 5, r[3], r[2], l - r[4] - r[5], r[5]]


def flip_nodes(v, sign):
    n = len(v) // 2
    out = []
    for j in range(n):
        a, b = v[2 * (n - 1 - j)], v[2 * (n - 1 - j) + 1]
        out += [a, b if b is None or not sign else -b]
    return out


def mirror(c, spans, supports, loads, gav=None, **kw):
    GA = [c.real(f"GA{i}", 1, 10) if gav[i] else None for i in range(spans)] if gav else None
    S = build(c, spans, supports, loads, GAv=GA, **kw)
    A = S.analyze()
    n = spans
    ety = None if kw.get("eletype") is None else [{1: 1, 2: 3, 3: 2, 4: 4}[e] for e in reversed(kw["eletype"])]
    D = None if S.D is None else flip_nodes(S.D, True)
    Rm = flip_nodes(S.R, False)
    B = run(S.L[::-1], S.EI[::-1], Rm, [flip_load(r, n, S.L) for r in S.LM], ety, D, GAv=None if GA is None else GA[::-1])
    c.eq("node displacements", flip_nodes(list(B.D), True), list(A.D))
    c.eq("support forces", flip_nodes(forces_by_dof(Rm, B), True), forces_by_dof(S.R, A))
    point = {m for k, m in loads if k in ("pl", "pl_third", "pl_left", "pl_right", "pl_mid", "ml_left", "ml_right")}
    for i in range(n):
        a, b = A.vRes[i], B.vRes[n - 1 - i]
        c.eq(f"member {i} moments", b.M[1:-1][::-1], a.M[1:-1])
        if i + 1 not in point:
            c.eq(f"member {i} shears", -b.V[1:-1][::-1], a.V[1:-1])


def split(c, spans, supports, loads, at, **kw):
    """an extra node in the middle of member `at` changes nothing; the member's loads are shared out"""
    S = build(c, spans, supports, loads, **kw)
    S.ba.analyze(2 * NP)
    A = S.ba.beam_results
    k = at - 1
    h = S.L[k] / 2
    L = S.L[:k] + [h, h] + S.L[k + 1:]
    EI = S.EI[:k] + [S.EI[k], S.EI[k]] + S.EI[k + 1:]
    R = S.R[:2 * at] + [0, 0] + S.R[2 * at:]
    ety = None
    if kw.get("eletype"):
        e = kw["eletype"][k]
        ety = kw["eletype"][:k] + [{1: 1, 2: 1, 3: 3, 4: 3}[e], {1: 1, 2: 2, 3: 1, 4: 2}[e]] + kw["eletype"][k + 1:]
    LM = []
    for r in S.LM:
        if r[0] < at:
            LM.append(list(r))
        elif r[0] > at:
            LM.append([r[0] + 1] + list(r[1:]))
        elif r[1] == 1:
            LM += [[at, 1, r[2]], [at + 1, 1, r[2]]]
        elif r[1] in (2, 4):
            first = bool(c.fork(r[3] < h))
            LM.append([at, r[1], r[2], r[3]] if first else [at + 1, r[1], r[2], r[3] - h])
        elif r[1] == 3:
            a, e = r[3], r[3] + r[4]
            if not c.fork(a < h):
                LM.append([at + 1, 3, r[2], a - h, r[4]])
            elif c.fork(e <= h):
                LM.append([at, 3, r[2], a, r[4]])
            else:
                LM += [[at, 3, r[2], a, h - a], [at + 1, 3, r[2], 0 * h, e - h]]
        else:
            m = (r[2] + r[3]) / 2
            LM += [[at, 5, r[2], m], [at + 1, 5, m, r[3]]]
    D = None if S.D is None else S.D[:2 * at] + [None, None] + S.D[2 * at:]
    B = run(L, EI, R, LM, ety, D)
    Dn = list(B.D)
    c.eq("node displacements", Dn[:2 * at] + Dn[2 * at + 2:], list(A.D))
    c.eq("support forces", list(B.R) + list(B.Rs), list(A.R) + list(A.Rs))
    pt = any(m == at and q in ("pl_mid", "ml_mid") for q, m in loads)
    for i in range(spans):
        if i == k:
            a, b1, b2 = A.vRes[i], B.vRes[i], B.vRes[i + 1]
            c.eq("split member moments", list(b1.M[1:-1]) + list(b2.M[2:-1]), list(a.M[1:-1]))
            if not pt:
                c.eq("split member shears", list(b1.V[1:-1]) + list(b2.V[2:-1]), list(a.V[1:-1]))


def scaled(c, spans, supports, loads, **kw):
    """lengths in another unit and forces in another unit"""
    S = build(c, spans, supports, loads, **kw)
    A = S.analyze()
    lam, mu = c.real("lam", 0.01, 100), c.real("mu", 0.01, 100)
    LM = []
    for r in S.LM:
        t = r[1]
        if t == 1:
            LM.append([r[0], 1, r[2] * mu / lam])
        elif t == 2:
            LM.append([r[0], 2, r[2] * mu, r[3] * lam])
        elif t == 3:
            LM.append([r[0], 3, r[2] * mu / lam, r[3] * lam, r[4] * lam])
        elif t == 4:
            LM.append([r[0], 4, r[2] * mu * lam, r[3] * lam])
        else:
            LM.append([r[0], 5, r[2] * mu / lam, r[3] * mu / lam] + [v * lam for v in r[4:]])
    R = []
    for j, r in enumerate(S.R):
        R.append(r if isinstance(r, int) and r in (0, -1) else (r * mu / lam if j % 2 == 0 else r * mu * lam))
    D = None
    if S.D is not None:
        D = [None if d is None else (d * lam if j % 2 == 0 else d) for j, d in enumerate(S.D)]
    B = run([l * lam for l in S.L], [e * mu * lam * lam for e in S.EI], R, LM, kw.get("eletype"), D)
    for j in range(len(A.D)):
        c.eq(f"displacement {j}", B.D[j], A.D[j] * (lam if j % 2 == 0 else 1))
    fa, fb = forces_by_dof(S.R, A), forces_by_dof(R, B)
    for j in range(len(fa)):
        c.eq(f"support force {j}", fb[j], fa[j] * (mu if j % 2 == 0 else mu * lam))
    c.eq("positions", B.results.x, A.results.x * lam)
    c.eq("moments", B.results.M, A.results.M * (mu * lam))
    c.eq("shears", B.results.V, A.results.V * mu)
    c.eq("deflections", B.results.D, A.results.D * lam)
    c.eq("rotations", B.results.R, A.results.R)


#             lengths, supports, types, further
UNITS = {
    "plain": ([4, 2], "ppf", [1, 1], {}),
    "hinge": ([4, 4, 2], "fhpp", [2, 1, 1], {}),
    "drop": ([3, 4, 3], "fhhf", [1, 4, 1], {}),
    "spring": ([4, 2], "psg", [1, 1], {}),
    "settle": ([4, 2], "fpp", [1, 1], {"D": 2}),
    "shear": ([4, 2], "ppf", [1, 1], {"GAv": [5, None]}),
    "shear-rel": ([4, 4, 2], "fhpf", [2, 1, 1], {"GAv": [5, 3, 4]}),
    "vary": ([4, 4], "ppr", [1, 1], {"section": True}),
    "vary-shear": ([4, 2], "fpp", [1, 1], {"section": True, "GAv": [5, None]}),
    "ground": ([4, 2], "hpp", [1, 1], {"kf": [1.25, None]}),
    "curve": ([4, 2], "fpp", [1, 1], {"ic": True}),
}
SCALES = [(1000, 1000), (F(1, 1000), F(1, 1000)), (1, 10 ** 9), (1, F(1, 10 ** 9)), (10 ** 6, 1), (F(1, 10 ** 6), 1), (1000, F(1, 10 ** 6))]


def units(c, beam, lam, mu):
    """the same numbers come out in units a long way apart, whatever the beam has"""
    Ls, sup, et, more = UNITS[beam]
    k = c.const
    n = len(Ls)
    v = [c.real(f"v{i}", 1, 5) for i in range(4)]
    ground = "kf" in more

    def one(l, f):
        EI = [k(q * f * l * l) for q in (6, 5, 4)[:n]]
        if "section" in more:
            s = cba.SectionEI()
            s.add_segment("const", [k(0), k(l)], k(6 * f * l * l))
            s.add_segment("linear", [k(l), k(Ls[0] * l)], [k(6 * f * l * l), k(3 * f * l * l)])
            EI[0] = s
        R = []
        for j, r in enumerate(rests(sup)):
            R.append(k(3 * f / l if j % 2 == 0 else 7 * f * l) if r == "k" else r)
        kw = {}
        if "GAv" in more:
            kw["GAv"] = [None if q is None else k(q * f) for q in more["GAv"]]
        if "kf" in more:
            kw["kf"] = [None if q is None else k(q * f / l / l) for q in more["kf"]]
        if "D" in more:
            kw["D"] = [None] * len(R)
            kw["D"][more["D"]] = k(F(-1, 4) * l)
        LM = [[1, 2, v[0] * k(f), k(l)], [n, 1, v[1] * k(f / l)], [1, 3, v[2] * k(f / l), k(F(1, 2) * l), k(F(3, 2) * l)]]
        if not ground:
            LM += [[n, 4, v[3] * k(f * l), k(F(3, 2) * l)], [1, 5, v[0] * k(f / l), v[3] * k(f / l)], [n, 5, v[1] * k(f / l), v[2] * k(f / l), k(F(1, 2) * l), k(l)]]
        if "ic" in more:
            LM.append([1, 6, v[3] * k(F(1, 8) / l), k(F(1, 16) / l / l)])
        b = cba.BeamAnalysis([k(q * l) for q in Ls], EI, R, LM, eletype=et, **kw)
        b.analyze(NP)
        return R, b.beam_results
    Ra, A = one(F(1), F(1))
    Rb, B = one(F(lam), F(mu))
    il, im = k(1 / F(lam)), k(1 / F(mu))
    c.eq("displacements", [d * (il if j % 2 == 0 else 1) for j, d in enumerate(B.D)], list(A.D))
    fa, fb = forces_by_dof(Ra, A), forces_by_dof(Rb, B)
    c.eq("support forces", [q * (im if j % 2 == 0 else im * il) for j, q in enumerate(fb)], fa)
    c.eq("positions", B.results.x * il, A.results.x)
    c.eq("moments", B.results.M * (im * il), A.results.M)
    c.eq("shears", B.results.V * im, A.results.V)
    c.eq("deflections", B.results.D * il, A.results.D)
    c.eq("rotations", B.results.R, A.results.R)


def stiffer(c, spans, supports, loads, **kw):
    """without springs or settlements the forces do not depend on the overall stiffness, and displacements are inverse to it"""
    S = build(c, spans, supports, loads, **kw)
    A = S.analyze()
    g = c.real("gam", 0.1, 10)
    B = run(S.L, [e * g for e in S.EI], S.R, S.LM, kw.get("eletype"))
    c.eq("moments", B.results.M, A.results.M)
    c.eq("shears", B.results.V, A.results.V)
    c.eq("reactions", list(B.R), list(A.R))
    c.eq("deflections", B.results.D * g, A.results.D)
    c.eq("node displacements", B.D * g, list(A.D))


def rigid(c, spans, supports, loads, **kw):
    """moving every support by the same amount shifts the beam and strains nothing; a rigid tilt too"""
    S = build(c, spans, supports, loads, **kw)
    A = S.analyze()
    d, t = c.real("shift", -1, 1), c.real("tilt", -0.1, 0.1)
    x, D, move = 0 * S.L[0], [], []
    for j in range(spans + 1):
        for q, v in ((0, d + t * x), (1, t)):
            fixed = isinstance(S.R[2 * j + q], int) and S.R[2 * j + q] == -1
            D.append(v if fixed else None)
            move.append(v)
        if j < spans:
            x = x + S.L[j]
    B = run(S.L, S.EI, S.R, S.LM, kw.get("eletype"), D)
    c.eq("moments", B.results.M, A.results.M)
    c.eq("shears", B.results.V, A.results.V)
    c.eq("reactions", list(B.R), list(A.R))
    c.eq("node displacements", [B.D[j] - A.D[j] for j in range(len(move)) if j % 2 == 0], [move[j] for j in range(len(move)) if j % 2 == 0])
    for i in range(spans):
        xs = A.vRes[i].x[1:-1]
        c.eq(f"deflections {i}", B.vRes[i].D[1:-1], A.vRes[i].D[1:-1] + d + t * xs)


def reciprocal(c, spans, supports, p, q, ety=None, gav=None):
    """displacement at q due to a unit action at p equals displacement at p due to a unit action at q"""
    GA = [c.real(f"GA{i}", 1, 10) if gav[i] else None for i in range(spans)] if gav else None
    S = build(c, spans, supports, [], eletype=ety)
    def action(dof):
        node, rot = dof // 2, dof % 2
        mem, a = (node + 1, 0 * S.L[0]) if node < spans else (spans, S.L[-1])
        return [mem, 4 if rot else 2, 1.0, a]
    A = run(S.L, S.EI, S.R, [action(p)], ety, GAv=GA)
    B = run(S.L, S.EI, S.R, [action(q)], ety, GAv=GA)
    # forces are positive down and displacements positive up; couples and rotations are both anticlockwise
    c.eq("reciprocal displacements", A.D[q] * (-1 if q % 2 == 0 else 1), B.D[p] * (-1 if p % 2 == 0 else 1))


KINDS = ("udl", "pl", "pudl", "ml_third", "trap", "trap_part", "pudl_full", "trap_q", "pl_mid")


def configs(tier):
    out = []

    def add(fn, name, *a, **k):
        cost = k.pop("cost", 1)
        out.append(dict(name=f"{fn.__name__}-{name}", fn=fn, cost=cost, args=dict(zip(("spans", "supports", "loads"), a), **k)))
    for b in UNITS:
        for i, (l, m) in enumerate(SCALES):
            out.append(dict(name=f"units-{b}-{i}", fn=units, cost=1, args=dict(beam=b, lam=l, mu=m)))
    for k in KINDS:
        add(mirror, f"1-{k}", 1, "fr", [(k, 1)])
        add(mirror, f"2-{k}", 2, "fpg", [(k, 1)], Lmode="one")
        add(mirror, f"rel-{k}", 2, "fhf", [(k, 2)], eletype=[1, 3])
        add(mirror, f"rel4-{k}", 3, "fhhf", [(k, 2)], eletype=[1, 4, 1], Lmode="one")
        add(scaled, f"1-{k}", 1, "ft", [(k, 1)])
        add(scaled, f"2-{k}", 2, "prs", [(k, 2)], Lmode="one")
        add(stiffer, f"2-{k}", 2, "fpp", [(k, 1)], Lmode="one")
        add(stiffer, f"rel-{k}", 2, "fhf", [(k, 2)], eletype=[2, 1], Lmode="one")
        add(rigid, f"2-{k}", 2, "fpp", [(k, 1)], Lmode="one")
    for k in ("udl", "trap", "ml_third", "pudl_q"):
        add(mirror, f"shear-{k}", 2, "fpf", [(k, 1)], gav=[1, 0], Lmode="one")
    for k in ("udl", "pl_third", "pudl", "ml_third", "trap", "pl", "pudl_q"):
        add(split, f"1-{k}", 1, "ff", [(k, 1)], at=1)
        add(split, f"1s-{k}", 1, "pg", [(k, 1)], at=1)
        add(split, f"2-{k}", 2, "fpp", [(k, 2)], at=2, Lmode="one")
        add(split, f"rel-{k}", 2, "fhf", [(k, 2)], at=2, eletype=[1, 3], Lmode="one")
        add(split, f"rel4-{k}", 3, "fhhf", [(k, 2)], at=2, eletype=[1, 4, 1], Lmode="one")
    add(mirror, "settle", 2, "fpp", [("udl", 1), ("pl", 2)], D=[1, 2], Lmode="one")
    add(scaled, "settle", 2, "fpp", [("udl", 1), ("pl", 2)], D=[1, 2], Lmode="one")
    add(split, "settle", 2, "fpp", [("udl", 1)], D=[1, 2], at=1, Lmode="one")
    add(rigid, "rel", 3, "fphf", [("udl", 2), ("trap", 1)], eletype=[1, 2, 1], Lmode="one")
    add(rigid, "fixed", 1, "ff", [("udl", 1)])
    for sup, n, ety in (("fh", 1, None), ("pph", 2, None), ("fhp", 2, None), ("ss", 1, None), ("fhf", 2, [2, 1]), ("fphg", 3, None)):
        free = [j for j in range(2 * (n + 1)) if not {"f": (1, 1), "p": (1, 0)}.get(sup[j // 2], (0, 0))[j % 2]]
        if ety:
            free = [j for j in free if j % 2 == 0 or j == 3]
        for a in range(len(free)):
            for b in range(a):
                add(reciprocal, f"{sup}-{free[b]}-{free[a]}", n, sup, p=free[b], q=free[a], ety=ety)
                if n == 1 or sup == "pph":
                    add(reciprocal, f"shear-{sup}-{free[b]}-{free[a]}", n, sup, p=free[b], q=free[a], ety=ety, gav=[1] * n)
    if tier == "thorough":
        for k in KINDS:
            for sup in ("fpg", "spr", "pfs", "gpg", "tpf", "ffp"):
                add(mirror, f"t-{sup}-{k}", 2, sup, [(k, 1), (k, 2)])
                add(scaled, f"t-{sup}-{k}", 2, sup, [(k, 1), (k, 2)], cost=3)
            add(mirror, f"t3-{k}", 3, "fprs", [(k, 1), (k, 3)], Lmode="one")
            add(rigid, f"t-{k}", 3, "pfpp", [(k, 1), (k, 3)], Lmode="one")
    # reciprocal takes no loads
    for o in out:
        if o["fn"] is reciprocal:
            o["args"].pop("loads", None)
    return out
