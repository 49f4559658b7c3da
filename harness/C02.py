"""the reported solution is the Euler-Bernoulli solution of the beam

Certificate form: the reported end actions of each member fix M(x) through
statics; its exact double integral must reproduce the reported nodal rotations
and deflections (compatibility), nodes without support force must be in
equilibrium and supports must move as told.  Together with equilibrium this
pins the unique solution, without repeating the stiffness method.
"""
from harness.scen import build, Piece


def member_end(S, i):
    V0, M0, V1, M1 = S.end_forces(i)
    return V0, M0


def certificate(c, S, interior=True, GA=None):
    br = S.br
    F = S.reactions()
    d = br.D
    x0 = 0
    for i in range(S.n):
        L, EI = S.L[i], S.EI[i]
        V0, M0, V1, M1 = S.end_forces(i)
        ps = S.pieces[i]
        # a force or couple exactly at the left end acts before x = 0+: V(0+) excludes what V[1] reports
        # exact integrals of M/EI
        I0 = (M0 * L + V0 * L * L / 2 + sum([p.dM(L, 0) for p in ps])) / EI      # int M/EI
        I1 = (M0 * L * L / 2 + V0 * L ** 3 / 6 + sum([p.dM(L, 1) for p in ps])) / EI   # int (L-x) M/EI
        vi, ti, vj, tj = d[2 * i], d[2 * i + 1], d[2 * i + 2], d[2 * i + 3]
        e = S.eletype[i]
        if GA is not None and GA[i] is not None:
            # the shear slope V/GA adds a chord drop; a couple steps M without shear
            I1 = I1 - (M1 - M0 + sum([p.m for p in ps])) / GA[i]
        if e == 1:
            c.eq(f"member {i} end rotation", tj - ti, I0)
            c.eq(f"member {i} end deflection", vj - vi - ti * L, I1)
        elif e == 2:
            c.eq(f"member {i} no moment at released end", M1, 0)
            c.eq(f"member {i} end deflection", vj - vi - ti * L, I1)
        elif e == 3:
            c.eq(f"member {i} no moment at released end", M0, 0)
            c.eq(f"member {i} end deflection", vj - vi - tj * L, I1 - I0 * L)
        else:
            c.eq(f"member {i} no moment at released ends", [M0, M1], 0)
        if interior:
            r = br.vRes[i]
            n = len(r.x) - 2
            for k in range(1, n + 1):
                x = r.x[k] - x0
                M = M0 + V0 * x
                V = V0
                at_jump = False
                for p in ps:
                    if p.kind in "Pm" and bool(x == p.a):
                        at_jump = True
                        break
                    M = M + p.M_at(x)
                    V = V + p.V_at(x)
                if at_jump:
                    continue
                c.eq(f"member {i} M at point {k}", r.M[k], M)
                c.eq(f"member {i} V at point {k}", r.V[k], V)
        x0 = x0 + L
    # supports
    for j, r in enumerate(S.R):
        if S.D is not None and S.D[j] is not None:
            c.eq(f"dof {j} prescribed displacement", d[j], S.D[j])
            if not (isinstance(r, int) and r in (0, -1)):
                c.eq(f"dof {j} force of the displaced spring", F[j], -r * S.D[j])
        elif isinstance(r, int) and r == -1:
            c.eq(f"dof {j} fixed", d[j], 0)
        elif not (isinstance(r, int) and r in (0, -1)):
            c.eq(f"dof {j} spring force", F[j], -r * d[j])


def at_end(loads):
    return any(k in ("pl_left", "ml_left", "pl_right", "ml_right") for k, m in loads)


def beam(c, spans, supports, loads, interior=True, **kw):
    S = build(c, spans, supports, loads, **kw)
    S.analyze()
    certificate(c, S, interior)
    # equilibrium of the nodes
    F = S.reactions()
    ends = [S.end_forces(i) for i in range(S.n)]
    for j in range(S.n + 1):
        v = m = 0
        if j < S.n:
            v, m = v + ends[j][0], m - ends[j][1]
        if j > 0:
            v, m = v - ends[j - 1][2], m + ends[j - 1][3]
        # (a displacement prescribed where nothing holds the beam is held by a force that is not reported)
        held = [S.D is not None and S.D[i] is not None and not (isinstance(S.R[i], int) and S.R[i] == -1) for i in (2 * j, 2 * j + 1)]
        if not held[0]:
            c.eq(f"node {j} force balance", v, F[2 * j])
        if not held[1]:
            c.eq(f"node {j} moment balance", m, F[2 * j + 1])


def curve(c, spans, supports, loads, npts, probe, GA=None, exact=1e-9, **kw):
    """interior rotations and deflections: within the composite-trapezoid error of the exact curve (loads downward)"""
    S = build(c, spans, supports, loads, npts=npts, GAv=GA, **kw)
    for r in S.LM:
        c.assume(r[2] > 0.25)
        if r[1] == 5:
            c.assume(r[3] > 0.25)
    S.analyze()
    d = S.br.D
    x0 = 0
    W = sum([p.force()[0] for ps in S.pieces for p in ps])
    for i in range(S.n):
        L, EI = S.L[i], S.EI[i]
        V0, M0, V1, M1 = S.end_forces(i)
        ps, r, h = S.pieces[i], S.br.vRes[i], L / npts
        g = 0 if GA is None or GA[i] is None else 1 / GA[i]
        I1 = (M0 * L * L / 2 + V0 * L ** 3 / 6 + sum([p.dM(L, 1) for p in ps])) / EI
        dM = M1 - M0 + sum([p.m for p in ps])
        ti = d[2 * i + 1] if S.eletype[i] == 1 else (d[2 * i + 2] - d[2 * i] - I1 + g * dM) / L
        # |trapezoid error| <= h^2/8 * variation of the integrand's slope; a shear step costs h * step
        bt = h * h / 8 * W / EI
        bd = 2 * L * bt + h * h / 8 * L * 3 * W / EI + 4 * g * h * W + exact
        bt = bt + (bd / L if S.eletype[i] != 1 else 0) + exact
        for k in probe:
            x = r.x[k] - x0
            left = cut(c, ps, x)
            th = ti + (M0 * x + V0 * x * x / 2 + sum([q.dM(x, 0) for q in left])) / EI
            shear = M0 * 0 + sum([q.M_at(x) for q in ps]) + V0 * x
            y = d[2 * i] + ti * x + (M0 * x * x / 2 + V0 * x ** 3 / 6 + sum([q.dM(x, 1) for q in left])) / EI - g * shear
            c.le(f"member {i} rotation upper {k}", r.R[k] - th, bt)
            c.le(f"member {i} rotation lower {k}", th - r.R[k], bt)
            c.le(f"member {i} deflection upper {k}", r.D[k] - y, bd)
            c.le(f"member {i} deflection lower {k}", y - r.D[k], bd)
        x0 = x0 + L


def cut(c, ps, x):
    """the part of each load left of x"""
    out = []
    for p in ps:
        if not c.fork(p.a < x):
            continue
        if p.kind == "w" and not c.fork(p.b <= x):
            e = p.w0 + (p.w1 - p.w0) * (x - p.a) / (p.b - p.a)
            out.append(Piece("w", p.a, x, p.w0, e))
        else:
            out.append(p)
    return out


def cfg(name, spans, supports, loads, cost=1, **kw):
    return dict(name=name, fn=beam, args=dict(spans=spans, supports=supports, loads=loads, **kw), cost=cost)


def configs(tier):
    out = []
    kinds = ("udl", "pl", "pudl", "ml", "trap", "trap_part", "pudl_over", "trap_over", "off", "pl_off", "ml_off")
    for k in kinds:
        for sup in ("ff", "fp", "pf", "pp", "fh", "hf", "ss", "gp", "fr", "qp"):
            out.append(cfg(f"{sup}-{k}", 1, sup, [(k, 1)]))
        out.append(cfg(f"ppp-{k}", 2, "ppp", [(k, 1)]))
        out.append(cfg(f"fph-{k}", 2, "fph", [(k, 2)]))
        out.append(cfg(f"psr-{k}", 2, "psr", [(k, 2)], Lmode="one"))
        out.append(cfg(f"hinge21-{k}", 2, "ffp"[:1] + "hf", [(k, 1)], eletype=[2, 1]))
        out.append(cfg(f"hinge13-{k}", 2, "fhf", [(k, 2)], eletype=[1, 3]))
        out.append(cfg(f"drop-{k}", 3, "fhhf", [(k, 2)], eletype=[1, 4, 1], Lmode="one"))
        out.append(cfg(f"gerber-{k}", 3, "pphp", [(k, 3)], eletype=[1, 2, 1], Lmode="one"))
    for k in ("udl", "ml", "trap_part"):
        out.append(cfg(f"settle-p-{k}", 2, "ppp", [(k, 1)], D=[2]))
        out.append(cfg(f"settle-f-{k}", 1, "fp", [(k, 1)], D=[0, 1]))
        out.append(cfg(f"settle-rot-{k}", 2, "fps", [(k, 2)], D=[1, 2]))
        out.append(cfg(f"settle-free-{k}", 2, "php", [(k, 1)], D=[2]))
        out.append(cfg(f"settle-freerot-{k}", 2, "ppp", [(k, 2)], D=[3]))
        out.append(cfg(f"settle-tip-{k}", 1, "fh", [(k, 1)], D=[2, 3]))
        out.append(cfg(f"settle-hinge-{k}", 2, "fhf", [(k, 2)], eletype=[2, 1], D=[0, 2]))
        out.append(cfg(f"settle-spring-{k}", 3, "fpsp", [(k, 1)], D=[4], Lmode="one"))
        out.append(cfg(f"settle-turned-{k}", 3, "fppr", [(k, 1)], D=[7, 0], Lmode="one"))
        out.append(cfg(f"settle-all-{k}", 1, "ff", [(k, 1)], D=[0, 1, 2, 3]))
    curves("", out, tier, lambda n: None)
    return out


def curves(tag, out, tier, gav):
    n = 12 if tier == "quick" else 24
    pr = (1, 3, 6, 10, 13) if tier == "quick" else tuple(range(1, 26, 2))
    for k in ("udl", "pl_third", "pudl_q", "trap", "trap_q"):
        for sup in ("ff", "fp", "pp", "gs", "hf", "fh"):
            out.append(dict(name=f"{tag}curve-{sup}-{k}", fn=curve, args=dict(spans=1, supports=sup, loads=[(k, 1)], npts=n, probe=pr, GA=gav(1),
                                                                                     Lmode="sym" if gav(1) is None else (3,))))
        for sp, sup, ety, m in ((2, "fhf", [2, 1], 1), (2, "fhf", [1, 3], 2), (2, "fps", [1, 2], 2), (3, "fhhf", [1, 4, 1], 2), (2, "pff", [1, 2], 2), (2, "pps", [3, 1], 1)):
            if sup in ("fps", "pps"):
                sup = {"fps": "fpt", "pps": "fpp"}[sup]
            out.append(dict(name=f"{tag}curve-{sup}{''.join(map(str, ety))}-{k}", fn=curve,
                            args=dict(spans=sp, supports=sup, loads=[(k, m)], npts=n, probe=pr, eletype=ety, Lmode=(3, 4, 2)[:sp], GA=gav(sp))))
