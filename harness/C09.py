"""shear-flexible (Timoshenko) members: certificate of the exact solution, see C02"""
from harness import C02, C07
from harness.scen import build


def gavs(c, pat):
    return [c.real(f"GA{i}", 0.5, 20) if p else None for i, p in enumerate(pat)]


def beam(c, spans, supports, loads, pat, **kw):
    GA = gavs(c, pat)
    S = build(c, spans, supports, loads, GAv=GA, **kw)
    S.analyze()
    C02.certificate(c, S, True, GA)
    F = S.reactions()
    ends = [S.end_forces(i) for i in range(S.n)]
    for j in range(S.n + 1):
        v = m = 0
        if j < S.n:
            v, m = v + ends[j][0], m - ends[j][1]
        if j > 0:
            v, m = v - ends[j - 1][2], m + ends[j - 1][3]
        c.eq(f"node {j} force balance", v, F[2 * j])
        c.eq(f"node {j} moment balance", m, F[2 * j + 1])


def scalar(c, supports, loads):
    """one value for the whole beam means that value on every span; None means no shear flexibility"""
    g = c.real("GA", 0.5, 20)
    A = build(c, 2, supports, loads, GAv=[g, g], Lmode="one")
    A.analyze()
    import pycba as cba
    b = cba.BeamAnalysis(A.L, A.EI, A.R, A.LM, GAv=g if not c.symbolic else [g, g])
    b.analyze(A.npts)
    c.eq("same", [b.beam_results.results.M, b.beam_results.results.D], [A.br.results.M, A.br.results.D])
    N = cba.BeamAnalysis(A.L, A.EI, A.R, A.LM, GAv=[None, None])
    N.analyze(A.npts)
    E = cba.BeamAnalysis(A.L, A.EI, A.R, A.LM)
    E.analyze(A.npts)
    c.eq("no shear flexibility", [N.beam_results.results.M, N.beam_results.results.D], [E.beam_results.results.M, E.beam_results.results.D])
    x = cba.Beam(A.L, A.EI, A.R, eletype=[1, 1], GAv=7.5)
    c.true("scalar is every span", list(x.mbr_GAv) == [7.5, 7.5])


def configs(tier):
    out = []

    def add(name, spans, supports, loads, pat, **kw):
        out.append(dict(name=name, fn=beam, args=dict(spans=spans, supports=supports, loads=loads, pat=pat, **kw)))
    kinds = ("udl", "pl", "pudl", "ml", "trap", "trap_part", "pudl_over", "trap_over", "off", "pl_off", "ml_off", "ml_third", "pl_mid")
    for k in kinds:
        for sup in ("ff", "fp", "pf", "pp", "fh", "hf", "ss", "gp", "fr", "qp"):
            add(f"{sup}-{k}", 1, sup, [(k, 1)], [1])
        add(f"ppp-{k}", 2, "ppp", [(k, 1)], [1, 0])
        add(f"fph-{k}", 2, "fph", [(k, 2)], [1, 1])
        add(f"hinge21-{k}", 2, "fhf", [(k, 1)], [1, 0], eletype=[2, 1])
        add(f"hinge13-{k}", 2, "fhf", [(k, 2)], [1, 1], eletype=[1, 3])
        add(f"drop-{k}", 3, "fhhf", [(k, 2)], [0, 1, 0], eletype=[1, 4, 1], Lmode="one")
    add("settle", 2, "fpp", [("udl", 1)], [1, 1], D=[1, 2])
    add("two-loads", 1, "fp", [("udl", 1), ("ml_third", 1), ("pl_mid", 1)], [1])
    out.append(dict(name="scalar", fn=scalar, args=dict(supports="fpp", loads=[("udl", 1), ("ml_third", 2)])))
    for b in C07.UNITS:
        if "GAv" in C07.UNITS[b][3]:
            for i, (l, m) in enumerate(C07.SCALES):
                out.append(dict(name=f"units-{b}-{i}", fn=C07.units, args=dict(beam=b, lam=l, mu=m)))
    C02.curves("", out, tier, lambda n: [4.0, 9.0, 2.5][:n])
    if tier == "thorough":
        for a in kinds:
            for b in kinds:
                add(f"t-{a}-{b}", 2, "fpp", [(a, 1), (b, 2)], [1, 1], Lmode="one")
                add(f"t1-{a}-{b}", 1, "ft", [(a, 1), (b, 1)], [1])
    return out
