"""unstable structures are refused, stable ones accepted"""
import itertools
from fractions import Fraction as Fr
import pycba as cba
from harness.scen import rests


def nullity(supports, ety, presc=()):
    """rigid-body freedom of the arrangement: displacement vectors that strain nothing (exact rank, generic lengths)"""
    n = len(supports) - 1
    L = [Fr(3, 1), Fr(5, 1), Fr(7, 1), Fr(11, 1)][:n]
    R = rests(supports)
    rows = []
    nd = 2 * (n + 1)
    for i in range(n):
        a, b, c, d = 2 * i, 2 * i + 1, 2 * i + 2, 2 * i + 3
        for rot, on in ((b, ety[i] in (1, 2)), (d, ety[i] in (1, 3))):
            if on:        # rotation of that end follows the chord
                r = [Fr(0)] * nd
                r[rot] = L[i]
                r[c] -= 1
                r[a] += 1
                rows.append(r)
    for j in range(nd):
        if R[j] != 0 or j in presc:
            r = [Fr(0)] * nd
            r[j] = Fr(1)
            rows.append(r)
    rank = 0
    for col in range(nd):
        p = next((i for i in range(rank, len(rows)) if rows[i][col] != 0), None)
        if p is None:
            continue
        rows[rank], rows[p] = rows[p], rows[rank]
        for i in range(len(rows)):
            if i != rank and rows[i][col] != 0:
                f = rows[i][col] / rows[rank][col]
                rows[i] = [x - f * y for x, y in zip(rows[i], rows[rank])]
        rank += 1
    return nd - rank


def beam(c, supports, ety, presc=(), boxL=(1, 10), boxE=(1, 10), boxK=(0.5, 20), tag=""):
    n = len(supports) - 1
    L = [c.real(f"L{i}", *boxL) if boxL else c.const(2 + i) for i in range(n)]
    EI = [c.real(f"EI{i}", *boxE) for i in range(n)]
    R = [c.real(f"k{j}", *boxK) if v == "k" else v for j, v in enumerate(rests(supports))]
    D = [None] * len(R)
    for j in presc:
        D[j] = c.real(f"d{j}", -1, 1)
    w = c.real("w", -4, 4)
    return cba.BeamAnalysis(L, EI, R, [[1, 1, w]], eletype=list(ety), D=D if presc else None)


def refused(ba, **k):
    try:
        ba.analyze(4, **k)
    except ValueError:
        return True
    return False


def cases(c, cases_, **box):
    supports, ety, presc = c.pick("case", cases_)
    ba = beam(c, supports, ety, presc, **box)
    stable = nullity(supports, ety, presc) == 0
    tag = f"{supports} {ety} {presc or ''}"
    c.true(f"is_stable {tag}", bool(ba.is_stable()) == stable)
    ba2 = beam(c, supports, ety, presc, **box)
    c.true(f"analyze {tag}", refused(ba2) == (not stable))
    if not stable:
        c.true(f"no results {tag}", ba2.beam_results is None)
        c.true(f"refused again {tag}", refused(ba2))
    else:
        c.true(f"override {tag}", not refused(ba2, check_stability=False))


def stiff(c, supports, boxL, boxE, boxK=(0.5, 20)):
    """flexible but stable structures are never refused"""
    n = len(supports) - 1
    c.option("EIG_EXACT", True)
    ba = beam(c, supports, [1] * n, (), boxL, boxE, boxK)
    c.true("accepted", not refused(ba))
    c.true("stable", bool(ba.is_stable()))


def measured(c, supports, ety, cut, lam, mu):
    """members in units far from the beam's own size; each cut into so many"""
    n = len(supports) - 1
    lam, mu = Fr(lam), Fr(mu)
    w = c.real("w", -4, 4)
    L, EI, R, et = [], [], [], []
    rs = rests(supports)
    for i in range(n):
        span = Fr((6, 9, 4)[i])
        R += [c.const((3 * mu / lam) if j % 2 == 0 else 3 * mu * lam) if v == "k" else v for j, v in enumerate(rs[2 * i:2 * i + 2])]
        for q in range(cut):
            L.append(c.const(span * lam / cut))
            EI.append(c.const((40, 25, 30)[i] * mu * lam * lam))
            first, last = ety[i] in (3, 4) and q == 0, ety[i] in (2, 4) and q == cut - 1
            et.append(4 if first and last else 3 if first else 2 if last else 1)
            if q < cut - 1:
                R += [0, 0]
    R += [c.const((3 * mu / lam) if j % 2 == 0 else 3 * mu * lam) if v == "k" else v for j, v in enumerate(rs[2 * n:])]
    ba = cba.BeamAnalysis(L, EI, R, [[1, 1, w]], eletype=et)
    stable = nullity(supports, ety) == 0
    c.true("is_stable", bool(ba.is_stable()) == stable)
    c.true("analyze", refused(ba) == (not stable))


def history(c, good, bad, ety):
    """the verdict follows the current restraints, whatever was analysed before"""
    n = len(good) - 1
    ba = beam(c, good, ety)
    Rg = list(ba.beam.restraints)
    Rb = rests(bad)
    c.true("stable first", not refused(ba))
    c.true("still stable", not refused(ba))
    ba.beam.restraints = Rb
    c.true("is_stable after removal", not ba.is_stable())
    c.true("refused after removal", refused(ba))
    c.true("refused again", refused(ba))
    ba.beam.restraints = Rg
    c.true("accepted after restoring", not refused(ba))
    c.true("stable after restoring", bool(ba.is_stable()))
    # a prescribed displacement restrains too
    ba.beam.restraints = Rb
    D = [None] * len(Rb)
    for j, (g, b) in enumerate(zip(rests(good), Rb)):
        if g != 0 and b == 0:
            D[j] = c.real(f"d{j}", -1, 1)
    ba.beam.prescribed_displacements = D
    c.true("prescribed displacements restrain", not refused(ba))
    ba.beam.prescribed_displacements = [None] * len(Rb)
    c.true("removing them releases", refused(ba))
    # skipping the check once must not count as having passed it
    bb = beam(c, good, ety)
    bb.beam.restraints = Rb
    try:
        bb.analyze(4, check_stability=False)
    except ValueError:
        pass
    c.true("override does not bless the model", refused(bb))
    c.true("nor its is_stable", not bb.is_stable())


def contrary(c, supports, j, kind):
    """a movement prescribed at a spring that a load acts on directly cannot be honoured: refused, and only then"""
    n = len(supports) - 1
    R = [c.real(f"k{q}", 0.5, 20) if v == "k" else v for q, v in enumerate(rests(supports))]
    L = [c.const(2 + i) for i in range(n)]
    d, w = c.real("d", -1, 1), c.real("w", 1, 4)
    D = [None] * len(R)
    D[j] = d
    i = max(j // 2 - 1, 0)
    at = {"end": L[i] if j // 2 else 0, "mid": L[i] / 2, "far": L[i] / 2}[kind]
    m = i + 1 if kind != "far" else (n if i == 0 else 1)
    row = [m, 2, w, at] if j % 2 == 0 or kind != "end" else [m, 4, w, at]
    spring = rests(supports)[j] == "k"
    ba = cba.BeamAnalysis(L, [c.real(f"EI{q}", 1, 10) for q in range(n)], R, [row], D=D)
    bad = spring and kind != "far"
    c.true("refused", refused(ba) == bad)
    if bad:
        c.true("no results", ba.beam_results is None)
        ba.set_loads([])
        c.true("without the load", not refused(ba))
        c.eq("attained", ba.beam_results.D[j], d)
        ba.set_loads([row])
        ba.beam.prescribed_displacements = [None] * len(R)
        c.true("without the movement", not refused(ba))
    else:
        c.eq("attained", ba.beam_results.D[j], d)


def configs(tier):
    out = []
    for sup, j in (("psp", 2), ("rp", 1), ("ppr", 5), ("ppp", 2), ("fs", 2), ("ft", 2), ("ppf", 5), ("gpp", 0), ("pgp", 3), ("sppp", 0), ("ppps", 6)):
        for kind in ("end", "mid", "far"):
            if kind == "far" and len(sup) < 4:
                continue
            out.append(dict(name=f"contrary-{sup}-{j}-{kind}", fn=contrary, args=dict(supports=sup, j=j, kind=kind)))
    one, two = [], []
    letters = "fphsqtgr"
    for a, b in itertools.product("fphsqg", repeat=2):
        for e in (1, 2, 3, 4):
            one.append((a + b, (e,), ()))
    for a, m, b in itertools.product("fphs" if tier == "quick" else letters, "ph" if tier == "quick" else "phsq", "fph" if tier == "quick" else letters):
        for e in itertools.product((1, 2, 3, 4), repeat=2):
            two.append((a + m + b, e, ()))
    for k in range(0, len(one), 24):
        out.append(dict(name=f"one-{k // 24}", fn=cases, args=dict(cases_=one[k:k + 24]), max_paths=4000))
    for k in range(0, len(two), 32):
        out.append(dict(name=f"two-{k // 32}", fn=cases, args=dict(cases_=two[k:k + 32]), max_paths=4000))
    pres = [("hh", (1,), (0, 2)), ("hh", (1,), (0, 1)), ("hh", (1,), (0,)), ("hp", (1,), (1,)), ("qh", (1,), (2,)),
            ("hhh", (1, 1), (0, 4)), ("hhh", (1, 1), (2,)), ("fhh", (1, 2), (4, 5)), ("php", (1, 1), (3,)), ("hpp", (2, 1), (0,)),
            ("hhh", (1, 3), (0, 2, 4)), ("hhh", (1, 1), (1, 3, 5))]
    out.append(dict(name="prescribed", fn=cases, args=dict(cases_=pres)))
    three = [("fhhf", e, ()) for e in ((1, 1, 1), (2, 1, 3), (1, 4, 1), (2, 1, 1), (1, 2, 2), (2, 2, 1), (3, 1, 1))]
    three += [("pphp", e, ()) for e in ((1, 1, 1), (1, 2, 1), (1, 1, 3), (2, 2, 1), (1, 4, 1))]
    out.append(dict(name="three", fn=cases, args=dict(cases_=three)))
    out.append(dict(name="long-cantilever", fn=stiff, args=dict(supports="fh", boxL=(0.01, 1000), boxE=(1, 1))))
    out.append(dict(name="stiffness-contrast", fn=stiff, args=dict(supports="fpp", boxL=None, boxE=(0.0001, 10000))))
    out.append(dict(name="soft-spring", fn=stiff, args=dict(supports="ft", boxL=(1, 10), boxE=(1, 1000), boxK=(0.0001, 10000))))
    out.append(dict(name="simple", fn=stiff, args=dict(supports="pp", boxL=(0.01, 1000), boxE=(0.0001, 1000000))))
    for sup, e in (("fh", (1,)), ("pp", (1,)), ("php", (1, 1)), ("fhp", (2, 1)), ("sphs", (1, 2, 1)), ("hpph", (1, 1, 1)), ("ph", (1,)), ("hh", (1,)), ("phpp", (2, 3, 1)), ("ppp", (4, 2))):
        for cut in (1, 3, 10):
            for lam, mu in ((1, 1), (1000, 1000), (Fr(1, 1000), Fr(1, 1000)), (10 ** 6, 1), (Fr(1, 10 ** 6), 10 ** 6), (1, 10 ** 12), (1, Fr(1, 10 ** 12))):
                if tier == "thorough" or cut != 3:
                    out.append(dict(name=f"measured-{sup}-{''.join(map(str, e))}-{cut}-{float(lam):g}-{float(mu):g}", fn=measured, args=dict(supports=sup, ety=e, cut=cut, lam=lam, mu=mu)))
    out.append(dict(name="cantilever-any-unit", fn=stiff, args=dict(supports="fh", boxL=(Fr(1, 10 ** 7), 10 ** 8), boxE=(Fr(1, 10 ** 7), 10 ** 12))))
    out.append(dict(name="simple-any-unit", fn=stiff, args=dict(supports="pp", boxL=(Fr(1, 10 ** 7), 10 ** 8), boxE=(Fr(1, 10 ** 7), 10 ** 12))))
    # the same verdicts whatever units the stiffness is in
    some = [("pp", (1,), ()), ("ph", (1,), ()), ("sh", (1,), ()), ("fk"[0] + "h", (1,), ()), ("tp", (1,), ()), ("fhp", (2, 1), ()),
            ("fhh", (2, 1), ()), ("ppp", (1, 1), ()), ("ppp", (2, 3), ()), ("fpp", (4, 1), ()), ("hph", (1, 1), ())]
    for nm, f in (("tiny", 1e-14), ("small", 1e-7), ("large", 1e8), ("huge", 1e14)):
        out.append(dict(name=f"units-{nm}", fn=cases, args=dict(cases_=some, boxL=(2, 5), boxE=(f, 5 * f), boxK=(f / 2, 3 * f)), max_paths=4000))
    for n, (g, b, e) in enumerate([("pp", "ph", (1,)), ("fh", "ph", (1,)), ("fhp", "fhh", (1, 2)), ("ppp", "hph", (1, 1)),
                                   ("fhf", "phf", (3, 1)), ("qpp", "qhh", (1, 1)), ("fp", "hp", (1,))]):
        if g == "fhp":
            g, b = "fpf", "fhp"
        out.append(dict(name=f"history-{n}", fn=history, args=dict(good=g, bad=b, ety=e)))
    return out
