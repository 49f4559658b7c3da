"""member stiffness"""
import numpy as np
import pycba as cba
from pycba.section import SectionEI


def member(c, L, EI, e, GAv=None):
    b = cba.Beam(L=[L], EI=[EI], R=[-1, -1, -1, -1], eletype=[e], GAv=None if GAv is None else [GAv])
    return b.get_span_k(0)


def flexibility(c, kind):
    """end-rotation flexibility of the simply supported member, by unit-load integrals"""
    L = c.real("L", 1, 10)
    if kind == "prismatic":
        EI = c.real("EI", 1, 10)
        return L, EI, None, [(0 * L, L, EI)], [(0 * L, L, None)]
    if kind == "shear":
        EI, G = c.real("EI", 1, 10), c.real("G", 1, 10)
        return L, EI, G, [(0 * L, L, EI)], [(0 * L, L, G)]
    if kind in ("stepped", "stepped-shear"):
        E1, E2 = c.real("E1", 1, 10), c.real("E2", 1, 10)
        L = c.const(8)
        s = c.const(3)
        sec = SectionEI([("const", [0 * L, s], E1), ("const", [s, L], E2)])
        G = c.real("G", 1, 10) if kind == "stepped-shear" else None
        return L, sec, G, [(0 * L, s, E1), (s, L, E2)], [(0 * L, L, G)]


def element(c, kind):
    L, EI, G, parts, gparts = flexibility(c, kind)
    K = {e: member(c, L, EI, e, G) for e in (1, 2, 3, 4)}
    for e, k in K.items():
        c.true(f"type {e} is 4x4", k.shape == (4, 4))
        c.eq(f"type {e} symmetric", k, k.T)
        c.eq(f"type {e} translation", k @ np.array([1, 0, 1, 0]), [0, 0, 0, 0])
        if e == 1:
            c.eq(f"type {e} rotation", k @ np.array([0 * L, 1, L, 1]), [0, 0, 0, 0])
        c.le(f"type {e} diagonal", 0, np.diag(k))
        # force equilibrium of every column
        c.eq(f"type {e} columns force", k[0] + k[2], [0, 0, 0, 0])
        c.eq(f"type {e} columns moment", k[1] + k[3] + k[2] * L, [0, 0, 0, 0])
    # flexibility: F K_rot = I
    f11 = f12 = f22 = 0
    for a, b, E in parts:
        def I(p):        # int over [a, b] of polynomial given by antiderivative p
            return (p(b) - p(a)) / E
        f11 = f11 + I(lambda x: (x - x ** 2 / L + x ** 3 / (3 * L ** 2)))
        f12 = f12 + I(lambda x: (-x ** 2 / (2 * L) + x ** 3 / (3 * L ** 2)))
        f22 = f22 + I(lambda x: x ** 3 / (3 * L ** 2))
    if gparts[0][2] is not None:
        s = sum([(b - a) / g for a, b, g in gparts]) / L ** 2
        f11, f12, f22 = f11 + s, f12 + s, f22 + s
    k = K[1]
    c.eq("flexibility", [f11 * k[1, 1] + f12 * k[3, 1], f11 * k[1, 3] + f12 * k[3, 3],
                         f12 * k[1, 1] + f22 * k[3, 1], f12 * k[1, 3] + f22 * k[3, 3]], [1, 0, 0, 1])
    c.true("rotational block positive definite", k[1, 1] * k[3, 3] - k[1, 3] * k[3, 1] > 0)
    # releases are static condensation of the unreleased member
    for e, r in ((2, 3), (3, 1)):
        o = [i for i in range(4) if i != r]
        for i in o:
            for j in o:
                c.eq(f"type {e} condensed {i}{j}", K[e][i, j], k[i, j] - k[i, r] * k[r, j] / k[r, r])
        c.eq(f"type {e} released row", K[e][r], [0, 0, 0, 0])
        c.eq(f"type {e} released column", K[e][:, r], [0, 0, 0, 0])
    c.eq("type 4 transfers no stiffness", K[4], np.zeros((4, 4)))


def limits(c):
    """shear flexibility only ever softens, and vanishes with 1/GAv"""
    L, EI, G = c.real("L", 1, 10), c.real("EI", 1, 10), c.real("G", 1, 10)
    k0, k1 = member(c, L, EI, 1), member(c, L, EI, 1, G)
    c.true("softer", k1[1, 1] < k0[1, 1])
    phi = 12 * EI / (G * L ** 2)
    c.eq("textbook", k1[0, 0] * (1 + phi), k0[0, 0])
    n = cba.Beam(L=[L, L], EI=EI, R=[-1, 0, 0, 0, -1, 0], eletype=["FP", cba.MemberType.PF])
    c.eq("names", n.get_span_k(0), member(c, L, EI, 2))
    c.eq("enum", n.get_span_k(1), member(c, L, EI, 3))


def configs(tier):
    out = [dict(name=k, fn=element, args=dict(kind=k)) for k in ("prismatic", "shear", "stepped", "stepped-shear")]
    out.append(dict(name="limits", fn=limits))
    return out
