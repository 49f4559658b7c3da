"""a load's fixed-end actions and its span diagrams describe the same load"""
import numpy as np
from pycba.load import parse_LM
from harness.scen import make_load


def mac(v, n):
    return np.maximum(v, 0) ** n


def exact(p, x, L):
    """(V, M, slope integral, deflection integral) of the load alone at x, from x = 0"""
    if p.kind == "P":
        f = -p.P
        return f if x > p.a else 0 * f, f * mac(x - p.a, 1), f * mac(x - p.a, 2) / 2, f * mac(x - p.a, 3) / 6
    if p.kind == "m":
        f = -p.m
        return 0 * f, f if x > p.a else 0 * f, f * mac(x - p.a, 1), f * mac(x - p.a, 2) / 2
    s = (p.w1 - p.w0) / (p.b - p.a)
    A, B = x - p.a, x - p.b
    out, fac = [], 1
    for n in range(1, 5):
        fac = fac * n
        out.append((-p.w0 * mac(A, n) - s * mac(A, n + 1) / (n + 1) + p.w1 * mac(B, n) + s * mac(B, n + 1) / (n + 1)) / fac)
    return tuple(out)


def load(c, kind, fracs):
    L = c.real("L", 1, 10)
    row, pcs = make_load(c, kind, 1, L, 0)
    ld = parse_LM([row])[0]
    x = np.array([0 * L] + [f * L for f in fracs] + [L])
    xx = np.concatenate(([x[0]], x, [x[-1]]))
    res = ld.get_mbr_results(xx, L)
    W = sum([p.force()[0] for p in pcs])
    Q = sum([p.force()[1] for p in pcs])
    Va = W - Q / L                      # simply supported reaction
    n = len(x)
    D3 = sum([exact(p, L, L)[3] for p in pcs])
    R0 = -(Va * L ** 3 / 6 + D3) / L     # start slope * EI so that D(L) = 0
    for k in range(n):
        t = x[k]
        if any(bool(t == p.a) and p.kind in "Pm" for p in pcs):
            skip = True
        else:
            skip = False
        parts = [exact(p, t, L) for p in pcs]
        if skip and kind.startswith("ml"):
            # a couple at an end: the diagram starts (ends) inside the member; in the span: between the two sides
            p = pcs[0]
            left, right = Va * t, Va * t - p.m
            c.eq(f"V at {k}", res.V[k + 1], Va)
            if kind == "ml_left":
                c.eq(f"M at {k}", res.M[k + 1], right)
            elif kind == "ml_right":
                c.eq(f"M at {k}", res.M[k + 1], left)
            else:
                c.le(f"M at {k} between its sides", (res.M[k + 1] - left) * (res.M[k + 1] - right), 0)
        elif skip:
            p = pcs[0]
            c.eq(f"M at {k}", res.M[k + 1], Va * t)
            c.le(f"V at {k} between its sides", (res.V[k + 1] - Va) * (res.V[k + 1] - Va + p.P), 0)
        if not skip:
            c.eq(f"V at {k}", res.V[k + 1], Va + sum([q[0] for q in parts]))
            c.eq(f"M at {k}", res.M[k + 1], Va * t + sum([q[1] for q in parts]))
        c.eq(f"slope at {k}", res.R[k + 1], R0 + Va * t ** 2 / 2 + sum([q[2] for q in parts]))
        c.eq(f"deflection at {k}", res.D[k + 1], R0 * t + Va * t ** 3 / 6 + sum([q[3] for q in parts]))
    c.eq("padding", [res.M[0], res.M[-1], res.V[0], res.V[-1]], 0)
    # fixed-end actions undo the end slopes of the simply supported span
    RL = R0 + Va * L ** 2 / 2 + sum([exact(p, L, L)[2] for p in pcs])
    Ma = -(4 * R0 + 2 * RL) / L
    Mb = -(2 * R0 + 4 * RL) / L
    Vb = W - Va
    end = {1: (Ma, Mb), 2: (Ma - Mb / 2, 0), 3: (0, Mb - Ma / 2), 4: (0, 0)}
    cnl = ld.get_cnl(L, 1)
    c.eq("fixed-end moment a", cnl.Ma, Ma)
    c.eq("fixed-end moment b", cnl.Mb, Mb)
    c.eq("fixed-end shear a", cnl.Va, Va + (Ma + Mb) / L)
    c.eq("fixed-end shear b", cnl.Vb, Vb - (Ma + Mb) / L)
    for e, (ma, mb) in end.items():
        ref = ld.get_ref(L, e)
        c.eq(f"released {e} moment a", ref.Ma, ma)
        c.eq(f"released {e} moment b", ref.Mb, mb)
        c.eq(f"released {e} shear a", ref.Va, Va + (ma + mb) / L)
        c.eq(f"released {e} shear b", ref.Vb, Vb - (ma + mb) / L)


def end_moments(c):
    """the diagram of a member with end moments only"""
    from pycba.load import LoadMaMb
    L = c.real("L", 1, 10)
    Ma, Mb = c.real("Ma", -5, 5), c.real("Mb", -5, 5)
    x = np.array([0 * L, 0 * L, L / 4, L / 2, 5 * L / 8, L, L])
    ld = LoadMaMb(0, Ma, Mb)
    r = ld.get_mbr_results(x, L)
    V = (Ma + Mb) / L
    for k in range(1, 6):
        t = x[k]
        c.eq(f"V {k}", r.V[k], V)
        c.eq(f"M {k}", r.M[k], V * t - Ma)
        # EI*slope and EI*deflection vanish at both supports
        s0 = Ma * L / 2 - V * L ** 2 / 6
        c.eq(f"slope {k}", r.R[k], s0 + V * t ** 2 / 2 - Ma * t)
        c.eq(f"defl {k}", r.D[k], s0 * t + V * t ** 3 / 6 - Ma * t ** 2 / 2)
    cn = ld.get_cnl(L, 1)
    c.eq("end actions", [cn.Va, cn.Ma, cn.Vb, cn.Mb], [V, Ma, -V, Mb])


def configs(tier):
    kinds = ("udl", "pl", "pudl", "ml", "trap", "trap_part", "pudl_over", "trap_over", "pl_left", "pl_right",
             "ml_left", "ml_right", "off", "pl_off", "ml_off", "pl_past", "ml_past", "pl_mid", "pudl_full", "ml_third", "trap_off", "trap_touch", "off_touch", "trap_rest")
    out = []
    grids = dict(a=(0.1, 0.35, 0.6, 0.85), b=(0.25, 0.5, 0.75))
    if tier == "thorough":
        grids["c"] = tuple(k / 16 for k in range(1, 16))
        grids["d"] = tuple(k / 10 for k in range(1, 10))
    for k in kinds:
        for g, fr in grids.items():
            out.append(dict(name=f"{k}-{g}", fn=load, args=dict(kind=k, fracs=fr)))
    out.append(dict(name="end-moments", fn=end_moments))
    return out
