"""static equilibrium of everything an analysis reports"""
from harness.scen import build


def beam(c, spans, supports, loads, **kw):
    S = build(c, spans, supports, loads, **kw)
    S.analyze()
    equilibrium(c, S, loads)


def flexible(c, spans, supports, loads, gav, **kw):
    """members with shear flexibility and stepped stiffness"""
    n = spans
    GA = [c.real(f"GA{i}", 1, 10) if gav[i] else None for i in range(n)]
    S = build(c, spans, supports, loads, GAv=GA, **kw)
    S.analyze()
    equilibrium(c, S, loads)


def equilibrium(c, S, loads):
    F = S.reactions()
    # whole structure: vertical forces, and moments about the left end
    up = sum(F[0::2])
    total, first, x0 = 0, 0, 0
    for i in range(S.n):
        for p in S.pieces[i]:
            w, q = p.force()
            total = total + w
            first = first + q + w * x0
        x0 = x0 + S.L[i]
    c.eq("vertical equilibrium", up, total)
    xs, mom = 0, 0
    for j in range(S.n + 1):
        mom = mom + F[2 * j] * xs + F[2 * j + 1]
        if j < S.n:
            xs = xs + S.L[j]
    c.eq("moment equilibrium", mom, first)
    # each member: the reported end actions balance its loads
    for i in range(S.n):
        V0, M0, V1, M1 = S.end_forces(i)
        w = sum([p.force()[0] for p in S.pieces[i]])
        q = sum([p.force()[1] for p in S.pieces[i]])
        if any(k in ("pl_left", "pl_right", "ml_left", "ml_right") and m == i + 1 for k, m in loads):
            continue
        c.eq(f"member {i} vertical", V0 - V1, w)
        c.eq(f"member {i} moments", M1 - M0 - V1 * S.L[i], q)
    # each node: member end actions and the support force balance
    ends = [S.end_forces(i) for i in range(S.n)]
    for j in range(S.n + 1):
        v = m = 0
        if j < S.n:
            v, m = v + ends[j][0], m - ends[j][1]
        if j > 0:
            v, m = v - ends[j - 1][2], m + ends[j - 1][3]
        near = [k for k, mm in loads if (mm == j + 1 and k in ("pl_left", "ml_left")) or (mm == j and k in ("pl_right", "ml_right"))]
        if not near:
            c.eq(f"node {j} force", v, F[2 * j])
            c.eq(f"node {j} moment", m, F[2 * j + 1])
    # inside each member V and M follow from the ends and the loads
    for i in range(S.n):
        r = S.br.vRes[i]
        V0, M0 = r.V[1], r.M[1]
        c.eq(f"member {i} padding", [r.M[0], r.M[-1], r.V[0], r.V[-1]], 0)


def moved(c, supports, at, loads, lift=True):
    """a movement prescribed at a spring (or where nothing holds) is attained by force from outside: that force apart,
    all balances, and the spring reports its stiffness times the movement"""
    n = len(supports) - 1
    S = build(c, n, supports, loads, D=at, Lmode=tuple(range(3, 3 + n)))
    S.analyze()
    F = S.reactions()
    c.true("a force for each support", len(S.br.R) == sum(1 for r in S.R if isinstance(r, int) and r == -1) and len(S.br.Rs) == sum(1 for r in S.R if not (isinstance(r, int) and r in (0, -1))))
    for j in range(2 * n + 2):
        if not (isinstance(S.R[j], int) and S.R[j] in (0, -1)):
            c.eq(f"spring {j}", F[j], -S.R[j] * S.br.D[j])
        if j in at:
            c.eq(f"movement {j}", S.br.D[j], S.D[j])
    ends = [S.end_forces(i) for i in range(n)]
    for j in range(n + 1):
        v = m = 0
        if j < n:
            v, m = v + ends[j][0], m - ends[j][1]
        if j > 0:
            v, m = v - ends[j - 1][2], m + ends[j - 1][3]
        if 2 * j not in at or S.R[2 * j] == -1:
            c.eq(f"node {j} force", v, F[2 * j])
        if 2 * j + 1 not in at or S.R[2 * j + 1] == -1:
            c.eq(f"node {j} moment", m, F[2 * j + 1])


def cfg(name, spans, supports, loads, cost=1, fn=beam, **kw):
    return dict(name=name, fn=fn, args=dict(spans=spans, supports=supports, loads=loads, **kw), cost=cost)


KINDS = ("udl", "pl", "pudl", "ml", "trap", "trap_part", "pudl_over", "trap_over", "off", "pl_off", "ml_off",
         "pl_left", "pl_right", "ml_left", "ml_right")


def configs(tier):
    out = []
    for k in KINDS:
        for sup in ("ff", "pp", "fh", "hf", "ss", "gp", "fr", "tq"):
            out.append(cfg(f"{sup}-{k}", 1, sup, [(k, 1)]))
        out.append(cfg(f"ppp-{k}", 2, "ppp", [(k, 1)]))
        out.append(cfg(f"hpf-{k}", 2, "hpf", [(k, 1)]))
        out.append(cfg(f"psr-{k}", 2, "psr", [(k, 2)], Lmode="one"))
        out.append(cfg(f"hinge21-{k}", 2, "fhf", [(k, 1)], eletype=[2, 1]))
        out.append(cfg(f"hinge12-{k}", 2, "fpf", [(k, 2)], eletype=[1, 2]))
        out.append(cfg(f"hinge13-{k}", 2, "fhf", [(k, 2)], eletype=[1, 3]))
        out.append(cfg(f"drop-{k}", 3, "fhhf", [(k, 2)], eletype=[1, 4, 1], Lmode="one"))
        out.append(cfg(f"gerber-{k}", 3, "pphp", [(k, 3)], eletype=[1, 2, 1], Lmode="one"))
        out.append(cfg(f"shear-ff-{k}", 1, "ff", [(k, 1)], fn=flexible, gav=[1]))
        out.append(cfg(f"shear-rel2-{k}", 2, "fhf", [(k, 1)], fn=flexible, gav=[1, 0], eletype=[2, 1]))
        out.append(cfg(f"shear-rel3-{k}", 2, "fhf", [(k, 2)], fn=flexible, gav=[1, 1], eletype=[1, 3], Lmode="one"))
        out.append(cfg(f"shear-rel4-{k}", 3, "fhhf", [(k, 2)], fn=flexible, gav=[0, 1, 0], eletype=[1, 4, 1], Lmode="one"))
    for nm, sup, at, ld in (("spring", "psppp", [2], [("udl", 3), ("pl", 4)]), ("two-springs", "pssp", [2], []), ("turned", "prppp", [3], [("trap", 4)]), ("both", "gpgp", [0, 5], []),
                            ("held-too", "psp", [0, 2], []), ("nothing", "phppp", [2], [("udl", 4)]), ("beside", "psspp", [4], [("udl", 1)]), ("far", "sppps", [8], [("ml", 1), ("udl", 2)])):
        out.append(dict(name=f"moved-{nm}", fn=moved, args=dict(supports=sup, at=at, loads=ld)))
    many = [("udl", 1), ("pl", 1), ("ml_third", 2), ("trap_q", 2), ("pudl_q", 3), ("pl_third", 3)]
    out.append(cfg("mixed-pppp", 3, "pppp", many, Lmode="one", cost=5))
    out.append(cfg("mixed-fpsp", 3, "fpsp", many, Lmode=(3, 4, 5), EIs="one", cost=5))
    out.append(cfg("mixed-settle", 3, "fppp", many, D=[4], Lmode=(3, 4, 5), cost=5))
    out.append(cfg("settle-2", 2, "ppp", [("udl", 1)], D=[2]))
    out.append(cfg("settle-rot", 2, "fpp", [("pl", 2)], D=[1]))
    out.append(cfg("settle-fixed", 1, "ff", [("trap", 1)], D=[0, 3]))
    out.append(cfg("five-spans", 5, "pppppp", [("udl", 2), ("pl_third", 5)], Lmode="one", EIs="one", cost=5))
    if tier == "thorough":
        import itertools
        for a, b in itertools.combinations_with_replacement(KINDS, 2):
            out.append(cfg(f"pair-{a}-{b}", 2, "fpp", [(a, 1), (b, 2)]))
            out.append(cfg(f"pair1-{a}-{b}", 1, "pf", [(a, 1), (b, 1)]))
            out.append(cfg(f"pairh-{a}-{b}", 2, "fhf", [(a, 1), (b, 2)], eletype=[1, 3]))
    return out
