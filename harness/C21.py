"""plastic redistribution up to collapse: at every step the moments carry the load, plastic hinges form where the moment
reaches the plastic moment and keep to the documented stiffness, and collapse is a mechanism of the hinges formed.

Oracle (no stiffness matrices): equilibrium of the nodes between supports, and compatibility of every step by unit-load
fields (statically admissible moment fields without load), with a rotation at each yielding node given by its stiffness
parameter."""
from fractions import Fraction as F
import numpy as np
import pycba as cba
from pycba.nonlinear import NonlinearBeamAnalysis

Q = F(1, 4)
# lengths, elements per span, restraints (letters), EI per span
BEAMS = {
    "ss": ([4], [4], "pp", [6]),
    "ss2": ([4], [2], "pp", [6]),
    "cantl": ([2], [2], "fh", [6]),
    "cantr": ([2], [2], "hf", [6]),
    "prop": ([4], [4], "fp", [6]),
    "propr": ([4], [4], "pf", [6]),
    "prop2": ([4], [2], "pf", [6]),
    "ff": ([4], [4], "ff", [6]),
    "ff3": ([6], [3], "ff", [6]),
    "two": ([4, 4], [2, 2], "ppp", [6, 6]),
    "twou": ([4, 2], [4, 2], "ppp", [6, 3]),
    "over": ([4, 2], [4, 2], "pph", [6, 6]),
    "three": ([1, 4, 1], [1, 4, 1], "pppp", [6, 6, 4]),
    "three2": ([2, 4, 2], [2, 4, 2], "pppp", [6, 6, 4]),
    "two4": ([4, 4], [4, 4], "ppp", [6, 6]),
    "spring": ([4, 4], [2, 2], "psp", [6, 6]),
    "springe": ([4], [4], "rp", [6]),
}
STIFF = 3


class Model:
    """the mesh as documented (each span in equal parts, about mesh_size long) and what equilibrium and compatibility
    say on it, from the supports alone"""

    def __init__(self, name):
        self.Ls, self.ne, self.sup, self.EIs = BEAMS[name]
        self.xs, self.h, self.span, self.supn = [F(0)], [], [], [0]
        for i, L in enumerate(self.Ls):
            for _ in range(self.ne[i]):
                self.h.append(F(L, self.ne[i]))
                self.xs.append(self.xs[-1] + self.h[-1])
                self.span.append(i)
            self.supn.append(len(self.xs) - 1)
        self.n = len(self.xs)
        self.R = []
        self.vert, self.rot = {}, {}            # node -> None (rigid) or spring stiffness
        for s, j in zip(self.sup, self.supn):
            v, r = {"p": (-1, 0), "f": (-1, -1), "h": (0, 0), "s": (STIFF, 0), "r": (-1, STIFF)}[s]
            self.R += [v, r]
            if v:
                self.vert[j] = None if v == -1 else v
            if r:
                self.rot[j] = None if r == -1 else r
        self.mesh = min(self.h)

    def make(self, c, Mp, My=None, q=0, EI=None):
        return NonlinearBeamAnalysis([c.const(v) for v in self.Ls], EI if EI is not None else [c.const(v) for v in self.EIs],
                                     self.R, Mp, My, q, c.const(self.mesh))

    # -- statics
    def residuals(self, M, Fn):
        """what is left of vertical equilibrium at nodes without vertical support, and of moment equilibrium at ends
        without rotational support (loads Fn downwards, moments sagging); nodes with springs are left to displacement"""
        out = []
        V = [(M[i + 1] - M[i]) / self.h[i] for i in range(self.n - 1)]
        for j in range(self.n):
            if j in self.vert:
                continue
            left = V[j - 1] if j else 0
            right = V[j] if j < self.n - 1 else 0
            out.append((f"shear at node {j}", left - right - Fn[j]))
        for j in (0, self.n - 1):
            if j not in self.rot:
                out.append((f"moment at node {j}", M[j]))
        return out

    def reactions(self, M, Fn):
        """upward support force at the vertical supports, moments at the rotational ones (as M there)"""
        V = [(M[i + 1] - M[i]) / self.h[i] for i in range(self.n - 1)]
        out = {}
        for j in self.vert:
            left = V[j - 1] if j else 0
            right = V[j] if j < self.n - 1 else 0
            out[j] = right - left + Fn[j]
        return out

    def fields(self):
        """basis of the moment fields that need no load: exact elimination"""
        rows = []
        for j in range(self.n):
            r = [F(0)] * self.n
            if j in self.vert:
                continue
            if j:
                r[j] += 1 / self.h[j - 1]
                r[j - 1] -= 1 / self.h[j - 1]
            if j < self.n - 1:
                r[j + 1] -= 1 / self.h[j]
                r[j] += 1 / self.h[j]
            rows.append(r)
        for j in (0, self.n - 1):
            if j not in self.rot:
                rows.append([F(int(k == j)) for k in range(self.n)])
        return null(rows, self.n)

    def rank(self, fields, nodes):
        return rank([[m[j] for j in nodes] for m in fields])

    def mechanism(self, hinges):
        """hinges (node -> sagging or not) leave the beam movable; hinges alike within two elements count as one"""
        nodes, last = [], None
        for j in sorted(hinges):
            if last is not None and hinges[j] == hinges[last] and self.xs[j] - self.xs[last] <= 2 * self.mesh:
                nodes[-1].append(j)
            else:
                nodes.append([j])
            last = j
        nodes = [g[len(g) // 2] for g in nodes]
        return len(nodes) > self.rank(self.fields(), nodes)


def rank(rows):
    rows = [list(r) for r in rows]
    k = 0
    for c in range(len(rows[0]) if rows else 0):
        p = next((i for i in range(k, len(rows)) if rows[i][c] != 0), None)
        if p is None:
            continue
        rows[k], rows[p] = rows[p], rows[k]
        for i in range(k + 1, len(rows)):
            f = rows[i][c] / rows[k][c]
            rows[i] = [a - f * b for a, b in zip(rows[i], rows[k])]
        k += 1
    return k


def null(rows, n):
    rows = [list(r) for r in rows]
    piv, k = [], 0
    for c in range(n):
        p = next((i for i in range(k, len(rows)) if rows[i][c] != 0), None)
        if p is None:
            continue
        rows[k], rows[p] = rows[p], rows[k]
        d = rows[k][c]
        rows[k] = [a / d for a in rows[k]]
        for i in range(len(rows)):
            if i != k and rows[i][c] != 0:
                f = rows[i][c]
                rows[i] = [a - f * b for a, b in zip(rows[i], rows[k])]
        piv.append(c)
        k += 1
    out = []
    for c in range(n):
        if c in piv:
            continue
        v = [F(0)] * n
        v[c] = F(1)
        for i, p in enumerate(piv):
            v[p] = -rows[i][c]
        out.append(v)
    return out


def ends(c, R):
    """what yielding leaves of the elements: (factor on the stiffness, {node: fixity}) per element; the end of an element
    that yields is its right one, and for the first node the left one of the first element"""
    out = []
    for e in range(len(R) - 1):
        r = R[e + 1]
        if e or R[0] is None:
            out.append((1, {} if r is None else {e + 1: r}))
        elif r is None:
            out.append((1, {0: R[0]}))
        elif R[0] == "free" or r == "free":                # both ends: the stiffer one scales the element
            out.append((0, {}) if R[0] == r else (r, {0: "free"}) if R[0] == "free" else (R[0], {1: "free"}))
        else:
            lo, hi, j = (R[0], r, 0) if c.fork(R[0] <= r) else (r, R[0], 1)
            out.append((hi, {j: lo / hi}))
    return out


def work(c, mod, m, dM, dF, EI, R):
    """virtual work of the field m in the deformations of the increment dM: curvature, rotation of yielding ends and
    supports giving way"""
    t = 0
    for i, (k, fix) in enumerate(ends(c, R)):
        if isinstance(k, int) and k == 0:
            continue                                        # gives way entirely: m and dM vanish at both ends
        f = EI[mod.span[i]] * k
        t = t + c.const(mod.h[i]) / (6 * f) * (
            c.const(2 * m[i] + m[i + 1]) * dM[i] + c.const(m[i] + 2 * m[i + 1]) * dM[i + 1])
        for j, r in fix.items():
            if not isinstance(r, str):                      # else m vanishes there
                t = t + c.const(m[j] * mod.h[i]) / (4 * f) * dM[j] * (1 - r) / r
    zero = [F(0)] * mod.n
    rm, rd = mod.reactions(m, zero), mod.reactions(dM, dF)
    for j, k in mod.vert.items():
        if k is not None:
            t = t + c.const(rm[j]) * rd[j] / k
    for j, k in mod.rot.items():
        if k is not None:
            t = t + c.const(m[j]) * dM[j] / k
    return t


def compatible(c, lab, mod, dM, dF, EI, R, scale=1):
    """R: None (elastic), "free" (turns freely: its moment stays) or the stiffness left"""
    perfect = [j for j in range(mod.n) if isinstance(R[j], str)]
    for j in perfect:
        c.eq(f"{lab}: hinge {j} keeps its moment", dM[j], 0, scale=scale)
    fields = mod.fields()
    if perfect and fields:
        comb = null([[m[j] for m in fields] for j in perfect], len(fields))
        fields = [[sum((w * m[k] for w, m in zip(v, fields)), F(0)) for k in range(mod.n)] for v in comb]
    for m in fields:
        c.eq(f"{lab}: compatible", work(c, mod, m, dM, dF, EI, R), 0, scale=scale)


def nodal(c, mod, loads, P):
    """loads: (span, 'P', node within span, factor) or (span, 'w', factor) -> (load matrix, downward nodal forces)"""
    LM, Fn = [], [0] * mod.n
    for ld in loads:
        s = ld[0]
        if ld[1] == "P":
            j = mod.supn[s] + ld[2]
            LM.append([s + 1, 2, P * ld[3], c.const(mod.xs[j] - mod.xs[mod.supn[s]])])
            Fn[j] = Fn[j] + P * ld[3]
        else:
            LM.append([s + 1, 1, P * ld[2]])
            for i in range(mod.n - 1):
                if mod.span[i] == s:
                    for j in (i, i + 1):
                        Fn[j] = Fn[j] + P * ld[2] * c.const(mod.h[i] / 2)
    return LM, Fn


def elastic(c, name, loads, sym=True, lam=0.25, step=1):
    """below first yield: the linear answer, and nothing else happens"""
    mod = Model(name)
    EI = [c.real(f"EI{i}", 1, 10) for i in range(len(mod.Ls))] if sym else [c.const(v) for v in mod.EIs]
    P = c.real("P", -4, 4)
    LM, Fn = nodal(c, mod, loads, P)
    lam = c.const(lam)
    Mp = c.real("Mp", 400, 500)
    nba = mod.make(c, Mp, q=c.const(0.25), EI=EI)
    keep = [list(r) for r in LM]
    r = nba.analyze(LM, lambda_max=lam, record_every=step)
    c.true("no collapse", not r.collapsed)
    c.eq("last load factor", r.collapse_lambda, lam)
    c.true("no events", len(r.hinge_events) == 0)
    c.eq("nodes", r.node_coords, [c.const(x) for x in mod.xs])
    c.eq("supports", r.support_coords, [c.const(mod.xs[j]) for j in mod.supn])
    state(c, "final", mod, list(r.final_moments), [lam * f for f in Fn], EI)
    c.true("recorded", len(r.lambda_history) == len(r.moment_history) == 3 // step)
    for k, (l, m) in enumerate(zip(r.lambda_history, r.moment_history)):
        want = min(F(1, 10) * (k + 1) * step, F(1, 4))
        c.eq(f"record {k}", l, c.const(want))
        c.eq(f"record {k}: in proportion", [v * lam for v in m], [v * l for v in r.final_moments])
    c.eq("all elastic", r.final_R, [[1, 1]] * (mod.n - 1))
    d = list(r.final_displacements)
    lab = deflect(c, mod, list(r.final_moments), EI, d)
    c.eq("loads left alone", LM, keep)
    again = nba.analyze(LM, lambda_max=lam)
    c.eq("same again", again.final_moments, r.final_moments)


def state(c, lab, mod, M, Fn, EI, scale=1):
    for what, v in mod.residuals(M, Fn):
        c.eq(f"{lab}: {what}", v, 0, scale=scale)
    compatible(c, lab, mod, M, Fn, EI, [None] * mod.n, scale=scale)


def deflect(c, mod, M, EI, d):
    """nodal displacements fit the curvatures: rotations change by int M/EI, deflections by the rotation plus the moment
    of the curvature"""
    v, t = d[0::2], d[1::2]
    for i in range(mod.n - 1):
        h, e = c.const(mod.h[i]), EI[mod.span[i]]
        c.eq(f"rotation {i}", (t[i + 1] - t[i]) * e, h * (M[i] + M[i + 1]) / 2)
        c.eq(f"deflection {i}", (v[i + 1] - v[i] - h * t[i]) * e, h * h * (2 * M[i] + M[i + 1]) / 6)
    for j, k in mod.vert.items():
        if k is None:
            c.eq(f"support {j}", v[j], 0)
    for j, k in mod.rot.items():
        if k is None:
            c.eq(f"fixed {j}", t[j], 0)


EPS = F(1, 10 ** 6)


def above(c, a, b):
    """a > b, ties left out"""
    if c.fork(a >= b):
        c.assume(a >= b + c.const(EPS))
        return True
    c.assume(a <= b - c.const(EPS))
    return False


def law(c, M, peak, Mp, My, q):
    """stiffness parameter at a node with moment M when the largest it has seen is peak (this one included): 1, the
    falling branch, or q; and whether it is perfectly plastic"""
    a = M if c.fork(M >= 0) else -M
    if c.fork(a < peak):
        return 1, a, peak
    if not above(c, a, My):
        return 1, a, a
    if above(c, a, Mp):
        return q, a, a
    return 1 - (a - My) / (Mp - My) * (1 - q), a, a


def grow(c, name, loads, lo, hi, q=0, y=None, lam=20, MP=None):
    """the whole history: moments, stiffness, events and collapse"""
    mod = Model(name)
    P = c.real("P", lo, hi)
    LM, Fn = nodal(c, mod, loads, P)
    Mp = [c.const(v) for v in (MP or [1] * len(mod.Ls))]
    y = F(1) if y is None else F(y)
    My = [m * c.const(y) for m in Mp]
    q, lam = c.const(q), c.const(lam)
    nba = mod.make(c, Mp, My, q)
    EI = [c.const(v) for v in mod.EIs]
    r = nba.analyze(LM, lambda_max=lam, record_every=1)
    lams, Ms = list(r.lambda_history), [list(m) for m in r.moment_history]
    if r.collapsed:
        lams, Ms = lams + [r.collapse_lambda], Ms + [list(r.final_moments)]
    # the weaker span governs at a node between spans
    cap = []
    for j in range(mod.n):
        near = {mod.span[max(0, j - 1)], mod.span[min(j, mod.n - 2)]}
        cap.append(min(near, key=lambda s: (MP or [1] * len(mod.Ls))[s]))
    R, peak = [1] * mod.n, [0] * mod.n
    M0, l0 = [0] * mod.n, 0
    events, when, hinges = [], [], {}
    sc = 1
    for k, (l, M) in enumerate(zip(lams, Ms)):
        dM = [a - b for a, b in zip(M, M0)]
        dF = [(l - l0) * f for f in Fn]
        for what, v in mod.residuals(M, [l * f for f in Fn]):
            c.eq(f"step {k}: {what}", v, 0, scale=sc)
        compatible(c, f"step {k}", mod, dM, dF, EI, [None if isinstance(v, int) else v for v in R], scale=sc)
        new = False
        for j in range(mod.n):
            v, a, peak[j] = law(c, M[j], peak[j], Mp[cap[j]], My[cap[j]], q)
            R[j] = "free" if v is q and not isinstance(v, int) and c.fork(q == 0) else v
            if (j, "initial_yield") not in events and above(c, a, My[cap[j]]):
                events.append((j, "initial_yield"))
                when.append(l)
            if j not in hinges and above(c, a, Mp[cap[j]]):
                events.append((j, "plastic_hinge"))
                when.append(l)
                hinges[j] = c.fork(M[j] > 0)
                new = True
        done = new and mod.mechanism(hinges)
        if k < len(lams) - 1:
            c.true(f"step {k}: no mechanism yet", not done)
        else:
            c.true("collapse with a mechanism", bool(r.collapsed) == bool(done))
        M0, l0 = M, l
    c.true("events", [(int(e.node_index), e.event_type) for e in r.hinge_events] == events)
    if len(r.hinge_events) == len(events):
        c.eq("event load factors", [e.load_factor for e in r.hinge_events], when)
        c.eq("event places", [e.location for e in r.hinge_events], [c.const(mod.xs[j]) for j, _ in events])
    c.eq("last load factor", r.collapse_lambda, lams[-1])
    c.eq("last moments", r.final_moments, Ms[-1])
    if not r.collapsed:
        c.eq("up to the limit", r.collapse_lambda, lam)
    return r, mod, P


def plastic(c, name, loads, lo, hi, true, first, lam=20):
    """against plastic theory (load factor true/P): never below it, and above by no more than the first hinge overshoots
    in one step"""
    mod = Model(name)
    P = c.real("P", lo, hi)
    LM, _ = nodal(c, mod, loads, P)
    Mp = c.const(1)
    r = mod.make(c, Mp, Mp).analyze(LM, lambda_max=lam)
    c.true("collapsed", bool(r.collapsed))
    t, f = c.const(F(true)) / P, c.const(F(first)) / P
    c.le("not below", t, r.collapse_lambda + c.const(EPS))
    step = c.const(F(1, 10)) if c.fork(f >= 1) else f * c.const(F(1, 10))
    c.le("not above", r.collapse_lambda, t * (1 + step / f) + c.const(F(1, 100)) * (t + 1))
    c.true("hinges are events", any(e.event_type == "plastic_hinge" for e in r.hinge_events))


# ---- moving loads

VEH = {"one": ([], [1]), "two": ([2], [1, 2]), "tri": ([1, 2], [2, 1, 1])}


def moving(c, name, veh, step, lo, hi, n_sub=2, q=Q, y=1, Mp=1, alive=None, signs=True):
    """a vehicle with its axles on nodes: equilibrium at every position, the elastic answer until first yield, and
    collapse by a mechanism of the hinges so far"""
    mod = Model(name)
    P = c.real("P", lo, hi)
    gaps, w = VEH[veh]
    st = F(step)
    nba = mod.make(c, c.const(F(Mp)), c.const(F(Mp) * F(y)), c.const(F(q)))
    if veh == "one":
        r = nba.analyze_moving(P=P, step=c.const(st), n_sub=n_sub, record_every=1)
    else:
        v = cba.Vehicle(axle_spacings=np.array([c.const(g) for g in gaps]), axle_weights=np.array([P * k for k in w]))
        r = nba.analyze_moving(vehicle=v, step=c.const(st), n_sub=n_sub, record_every=1)
    back = [F(0)]
    for g in gaps:
        back.append(back[-1] + g)
    end = mod.xs[-1] + back[-1]
    pos, n = [], 0
    while n * st < end + st / 2:
        pos.append(n * st)
        n += 1
    EI = [c.const(v) for v in mod.EIs]
    ev = list(r.hinge_events)
    k0 = len(r.lambda_history)
    c.eq("positions", r.lambda_history, [c.const(x) for x in pos[:k0]])
    if not r.collapsed:
        c.true("whole passage", k0 == len(pos))
    else:
        c.true("up to collapse", k0 < len(pos))
        c.eq("where", r.collapse_lambda, c.const(pos[min(k0, len(pos) - 1)]))
    seen = {}
    for k in range(k0):
        Fn = [0] * mod.n
        for b, ww in zip(back, w):
            x = pos[k] - b
            if x in mod.xs:
                Fn[mod.xs.index(x)] = Fn[mod.xs.index(x)] + P * ww
        M = list(r.moment_history[k])
        for what, v in mod.residuals(M, Fn):
            c.eq(f"at {k}: {what}", v, 0)
        if not [e for e in ev if c.fork(e.load_factor <= c.const(pos[k]))]:
            compatible(c, f"at {k}", mod, M, Fn, EI, [None] * mod.n)
            for j in range(mod.n):
                c.le(f"at {k}: {j} elastic", M[j], nba.node_My[j])
                c.le(f"at {k}: {j} elastic too", -M[j], nba.node_My[j])
        got = [int(e.node_index) for e in ev if c.fork(e.load_factor <= c.const(pos[k])) and e.event_type == "plastic_hinge"]
        for j in range(mod.n):
            a = M[j] if c.fork(M[j] >= 0) else -M[j]
            if above(c, a, c.const(F(Mp))):
                c.true(f"at {k}: hinge {j} is reported", j in got)
        if signs:
            c.true(f"at {k}: no mechanism", not mod.mechanism({j: j not in mod.vert for j in got}))
    for a, b in zip(ev, ev[1:]):
        c.le("in order", a.load_factor, b.load_factor)
    keys = [(int(e.node_index), e.event_type) for e in ev]
    c.true("each once", len(set(keys)) == len(keys))
    if signs and r.collapsed:
        got = [j for j, t in keys if t == "plastic_hinge"]
        c.true("mechanism", mod.mechanism({j: j not in mod.vert for j in got}))
        c.true("by a hinge", mod.mechanism({j: j not in mod.vert for j in got}) and ev[-1].load_factor is not None)
        c.eq("at the last hinge", ev[-1].load_factor, r.collapse_lambda)
    if alive is not None:
        c.true("collapse", bool(r.collapsed) != alive)
    return r


def respond(mod, R):
    """force method on the mesh, exactly: nodal loads -> moment increments, for elements with these ends (R: 1, or q; 0 turns
    freely); rigid supports"""
    rows, n = [], mod.n
    for j in range(n):                                     # equilibrium
        r = [F(0)] * n
        if j in mod.vert:
            continue
        if j:
            r[j] += 1 / mod.h[j - 1]
            r[j - 1] -= 1 / mod.h[j - 1]
        if j < n - 1:
            r[j + 1] -= 1 / mod.h[j]
            r[j] += 1 / mod.h[j]
        rows.append((r, j))
    for j in (0, n - 1):
        if j not in mod.rot:
            rows.append(([F(int(k == j)) for k in range(n)], None))
    free = [j for j in range(n) if R[j] == 0]
    for j in free:
        rows.append(([F(int(k == j)) for k in range(n)], None))
    fields = mod.fields()
    if free and fields:
        fields = [[sum((w * m[k] for w, m in zip(v, fields)), F(0)) for k in range(n)]
                  for v in null([[m[j] for m in fields] for j in free], len(fields))]
    for m in fields:
        r = [F(0)] * n
        for i in range(n - 1):
            EI, fix = F(mod.EIs[mod.span[i]]), {i + 1: F(R[i + 1])}
            if i == 0 and R[0] != 1:
                if R[0] == R[1]:
                    EI, fix = EI * R[0], {}
                elif R[1] == 1:
                    fix = {0: F(R[0])}
                else:
                    raise NotImplementedError
            if EI == 0:
                continue
            r[i] += mod.h[i] / (6 * EI) * (2 * m[i] + m[i + 1])
            r[i + 1] += mod.h[i] / (6 * EI) * (m[i] + 2 * m[i + 1])
            for j, f in fix.items():
                if f != 0:
                    r[j] += m[j] * mod.h[i] / (4 * EI) * (1 - f) / f
        rows.append((r, None))
    A = [list(r) for r, _ in rows]
    k = len(A)
    if k > n:
        return None                                        # movable
    aug = [A[i] + [F(int(j is not None and rows[i][1] == j)) for j in range(n)] for i in range(k)]
    piv, row = [], 0
    for col in range(n):
        p = next((i for i in range(row, k) if aug[i][col] != 0), None)
        if p is None:
            return None
        aug[row], aug[p] = aug[p], aug[row]
        d = aug[row][col]
        aug[row] = [x / d for x in aug[row]]
        for i in range(k):
            if i != row and aug[i][col] != 0:
                f = aug[i][col]
                aug[i] = [x - f * y for x, y in zip(aug[i], aug[row])]
        row += 1
    inv = [aug[i][n:] for i in range(n)]
    return lambda Fn: [sum((v * f for v, f in zip(inv[i], Fn)), F(0)) for i in range(n)]


def follow(c, name, veh, step, lo, hi, n_sub=2, q=Q):
    """the whole passage against an independent calculation by the force method: at each position the old load is taken
    off elastically and the new one put on the yielded beam, in n_sub parts (My = Mp)"""
    mod = Model(name)
    P = c.real("P", lo, hi)
    gaps, w = VEH[veh]
    st = F(step)
    nba = mod.make(c, c.const(1), c.const(1), c.const(F(q)))
    v = cba.Vehicle(axle_spacings=np.array([c.const(g) for g in gaps]), axle_weights=np.array([P * k for k in w]))
    r = nba.analyze_moving(vehicle=v, step=c.const(st), n_sub=n_sub, record_every=1)
    back = [F(0)]
    for g in gaps:
        back.append(back[-1] + g)
    end = mod.xs[-1] + back[-1]
    one = c.const(1)
    known = {}

    def resp(R):
        key = tuple(R)
        if key not in known:
            known[key] = respond(mod, key)
        return known[key]
    R, peak, m = [F(1)] * mod.n, [F(0)] * mod.n, [F(0)] * mod.n
    ev, hinges, hist, old = [], {}, [], [F(0)] * mod.n
    down = False

    def update(x):
        new = False
        for j in range(mod.n):
            a = abs(m[j])
            if a >= peak[j]:
                peak[j] = a
                R[j] = F(q) if a > 0 and above(c, P * c.const(a), one) else F(1)
            else:
                R[j] = F(1)
            if j not in hinges and a > 0 and above(c, P * c.const(a), one):
                hinges[j] = m[j] > 0
                ev.append((j, "initial_yield", x))
                ev.append((j, "plastic_hinge", x))
                new = True
        return new and mod.mechanism(hinges)
    n = 0
    while n * st < end + st / 2 and not down:
        Fn = [F(0)] * mod.n
        for b, ww in zip(back, w):
            x = n * st - b
            if 0 <= x <= mod.xs[-1]:
                Fn[mod.xs.index(x)] += ww
        for _ in range(n_sub):
            m = [a - b / n_sub for a, b in zip(m, resp([F(1)] * mod.n)(old))]
            down = update(n * st)
            g = None if down else resp(R)
            if g is None:
                down = True
                break
            m = [a + b / n_sub for a, b in zip(m, g(Fn))]
        down = down or update(n * st)
        if not down:
            hist.append((n * st, m))
            old = Fn
            n += 1
    c.true("collapse", bool(r.collapsed) == down)
    c.eq("where it ended", r.collapse_lambda, c.const(n * st if down else (n - 1) * st))
    c.eq("positions", r.lambda_history, [c.const(x) for x, _ in hist])
    for k, (_, m) in enumerate(hist[:len(r.moment_history)]):
        c.eq(f"moments {k}", r.moment_history[k], [P * c.const(a) for a in m])
    c.true("events", [(int(e.node_index), e.event_type) for e in r.hinge_events] == [e[:2] for e in ev])
    if len(ev) == len(r.hinge_events):
        c.eq("event positions", [e.load_factor for e in r.hinge_events], [c.const(e[2]) for e in ev])


def between(c, name, n, x=None):
    """an axle between nodes of a simply supported beam: the moments at the nodes are off by at most 4/27 P h, and a
    load that crosses without yield leaves nothing behind"""
    mod = Model(name)
    L, h = mod.xs[-1], mod.mesh
    P = c.real("P", 0.5, 2)
    st = h / n
    nba = mod.make(c, c.const(100))
    r = nba.analyze_moving(P=P, step=c.const(st), n_sub=c.pick("sub", [1, 3]), record_every=1)
    c.true("no events", len(r.hinge_events) == 0 and not r.collapsed)
    for k, M in enumerate(r.moment_history):
        a = k * st
        c.eq(f"position {k}", r.lambda_history[k], c.const(a))
        for j in range(mod.n):
            z = mod.xs[j]
            ex = P * c.const(min(a, z) * (L - max(a, z)) / L)
            if a in mod.xs:
                c.eq(f"at {k}: moment {j}", M[j], ex)
            else:
                c.le(f"at {k}: moment {j} from above", M[j], ex + P * c.const(F(4, 27) * h))
                c.le(f"at {k}: moment {j} from below", ex - P * c.const(F(4, 27) * h), M[j])
                if not (z - h < a < z + h):
                    c.eq(f"at {k}: moment {j} away from it", M[j], ex)


def clears(c, name, veh, step, n_sub):
    """once the vehicle has left an elastic beam nothing is left"""
    mod = Model(name)
    gaps, w = VEH[veh]
    P = [c.real(f"W{i}", 0, 2) if i == 0 else c.const(i + F(1, 2)) for i in range(len(w))]
    nba = mod.make(c, c.const(1000))
    v = cba.Vehicle(axle_spacings=np.array([c.const(g) for g in gaps]), axle_weights=np.array(P))
    st = F(step)
    r = nba.analyze_moving(vehicle=v, step=c.const(st), n_sub=n_sub, record_every=2)
    end = mod.xs[-1] + sum(gaps)
    n = int((end + st / 2) / st)
    n = n - 1 if n * st >= end + st / 2 else n
    c.eq("end", r.collapse_lambda, c.const(n * st))
    c.true("quiet", not r.collapsed and len(r.hinge_events) == 0)
    c.true("records", len(r.lambda_history) == n // 2 + 1)
    c.eq("record places", r.lambda_history, [c.const(2 * k * st) for k in range(n // 2 + 1)])
    if n * st > end or sum(gaps) + mod.xs[-1] == n * st:
        if mod.sup[-1] in "pf":                            # last axle on the far support (or beyond it)
            c.eq("nothing left", r.final_moments, 0)


def refuse(c, what):
    """what the method does not cover is refused"""
    k = c.const
    mod = Model("two")
    P = c.real("P", 1, 2)
    if what == "section":
        s = cba.SectionEI()
        s.add_segment("const", [k(0), k(4)], k(6))
        at = c.choice("at", 2)
        c.raises("non-prismatic", TypeError, mod.make, c, k(1), None, 0, [s, k(6)] if at == 0 else [k(6), s])
        c.raises("one for all", TypeError, mod.make, c, k(1), None, 0, s)
    elif what == "load":
        nba = mod.make(c, k(1))
        for t, rest in ((3, [P, k(1), k(2)]), (4, [P, k(1)]), (5, [P, P, k(1), k(2)])):
            c.raises(f"type {t}", ValueError, nba.analyze, [[1, 2, P, k(2)], [2, t] + rest])
    else:
        c.raises("no load", ValueError, mod.make(c, k(1)).analyze_moving)


def spans(c, y=None):
    """plastic moments per span: the weaker one governs at the support between, My defaults to Mp/1.15"""
    a, b = c.real("Mp0", 1, 3), c.real("Mp1", 1, 3)
    c.assume(a >= b + c.const(EPS)) if c.choice("order", 2) else c.assume(a <= b - c.const(EPS))
    mod = Model("two")
    nba = mod.make(c, [a, b])
    P = c.const(F(1, 10))
    w = a if c.fork(a <= b) else b
    c.eq("Mp", nba.node_Mp, [a] * 2 + [w] + [b] * 2)
    c.eq("My", nba.node_My, [a / c.const(F(23, 20))] * 2 + [w / c.const(F(23, 20))] + [b / c.const(F(23, 20))] * 2)
    e = [c.real(f"EI{i}", 1, 9) for i in range(2)]
    one = NonlinearBeamAnalysis([c.const(4)] * 2, e, mod.R, c.const(5), mesh_size=c.const(2))
    c.eq("EI", one.elem_EI, [e[0]] * 2 + [e[1]] * 2)


def configs(tier):
    out = []

    def add(tag, fn, **kw):
        cost = kw.pop("cost", 3)
        merge = kw.pop("merge", False)
        out.append(dict(name=f"{fn.__name__}-{tag}", fn=fn, args=kw, cost=cost, merge=merge, max_paths=4000))
    mid = [(0, "P", 2, 1)]
    for b, ld in (("ss", mid), ("cantl", mid), ("cantr", [(0, "P", 0, 1)]), ("prop", [(0, "P", 1, 1), (0, "w", 2)]), ("propr", mid), ("ff", [(0, "P", 1, 1)]),
                  ("two", [(0, "P", 1, 1), (1, "w", 1)]), ("over", [(1, "P", 2, 1), (0, "w", 1)]), ("three", [(1, "P", 1, 1)]), ("spring", [(0, "P", 1, 1)]), ("springe", mid)):
        add(b, elastic, name=b, loads=ld)
    quick = tier == "quick"
    for b, ld, lo, hi in (("ss", mid, 1.05, 1.3), ("ss", mid, 0.7, 0.9), ("ss2", [(0, "P", 1, 1)], 0.7, 0.9), ("cantl", mid, 0.3, 0.45), ("cantr", [(0, "P", 0, 1)], 0.8, 1.6),
                          ("over", [(1, "P", 2, 1), (0, "w", 0.5)], 0.3, 0.45), ("prop", mid, 0.8, 0.81 if quick else 1.2), ("ff", mid, 0.8, 1.1)):
        for q in (0, 0.3):
            add(f"{b}-{len(out)}", grow, name=b, loads=ld, lo=lo, hi=hi, q=q)
    for b, ld, lo, hi in (("prop", mid, 1.2, 1.6), ("propr", mid, 1.2, 1.6), ("prop2", [(0, "P", 1, 1)], 1.2, 1.6), ("ff", [(0, "P", 1, 1)], 1.6, 1.65), ("two", [(0, "P", 1, 1)], 1.0, 1.1), ("twou", [(0, "P", 2, 1)], 1.0, 1.1),
                          ("three", [(1, "P", 1, 1)], 1.5, 1.6), ("spring", [(0, "P", 1, 1)], 1.0, 1.1)):
        add(f"{b}-{len(out)}", grow, name=b, loads=ld, lo=lo, hi=hi, q=0.6, lam=4)
    for b, ld, lo, hi, kw in (("ss2", [(0, "P", 1, 1)], 0.8, 1.2, dict(y=F(4, 5))), ("cantl", mid, 0.35, 0.6, dict(y=F(2, 3))), ("prop2", [(0, "P", 1, 1)], 1.4, 1.6, dict(y=F(4, 5), lam=F(6, 5))),
                              ("two", [(0, "P", 1, 1)], 0.9, 1.0, dict(MP=[F(2, 3), 1], lam=4)), ("two", [(1, "P", 1, 1)], 0.9, 1.0, dict(MP=[F(1, 2), 1], lam=4))):
        add(f"{b}-{len(out)}", grow, name=b, loads=ld, lo=lo, hi=hi, q=0.6, **kw)
    for b, ld, lo, hi, t, f in (("ss", mid, 0.5, 3, 1, 1), ("cantl", mid, 0.2, 1, F(1, 2), F(1, 2)), ("over", [(1, "P", 2, 1)], 0.3, 1, F(1, 2), F(1, 2)),
                                ("prop", mid, 0.8, 0.804, F(3, 2), F(4, 3)), ("prop", mid, 2, 2.01, F(3, 2), F(4, 3))):
        add(f"{b}-{len(out)}", plastic, name=b, loads=ld, lo=lo, hi=hi, true=t, first=f)
    for b, v, st, lo, hi, kw in (("ss", "one", 1, 0.5, 0.9, dict(alive=True)), ("ss", "one", 1, 1.1, 2, dict(alive=False)), ("ss", "two", 1, 0.2, 0.6, {}),
                                 ("prop", "one", 1, 1.4, 1.5, {}), ("two", "one", 2, 1, 1.3, {}), ("ff", "two", 2, 0.4, 0.6, {}), ("cantl", "one", 1, 0.4, 0.6, {}),
                                 ("three2", "tri", 1, 0.2, 0.3, {})):
        add(f"{b}-{len(out)}", moving, name=b, veh=v, step=st, lo=lo, hi=hi, **kw)
    for b, v, st, lo, hi, kw in (("ss", "one", 1, 0.5, 2, {}), ("ss2", "one", 2, 0.5, 4, dict(n_sub=5)), ("prop", "one", 1, 0.5, 4, {}), ("propr", "two", 1, 0.2, 2, dict(n_sub=1)),
                                 ("two", "one", 2, 0.5, 4, dict(n_sub=3)), ("two4", "one", 1, 0.5, 4, dict(n_sub=2, q=0)),
                                 ("ff", "two", 2, 0.2, 2, {}), ("cantl", "one", 1, 0.3, 3, {}), ("cantr", "one", 1, 0.3, 3, {}), ("over", "two", 1, 0.1, 2, {}),
                                 ("three2", "tri", 1, 0.1, 2, {}), ("twou", "two", 1, 0.2, 2, dict(q=F(1, 100))), ("three2", "two", 2, 0.1, 1, dict(n_sub=5, q=0)),
                                 ("prop2", "one", 2, 0.5, 4, {}), ("prop", "tri", 1, 0.1, 2, dict(n_sub=5))):
        add(f"{b}-{len(out)}", follow, name=b, veh=v, step=st, lo=lo, hi=hi, **kw)
    if not quick:
        for b in ("ss", "prop", "propr", "ff", "two4", "over", "cantl", "cantr", "three", "three2", "twou"):
            for v in VEH:
                for m in (1, 3):
                    add(f"{b}-{v}-{m}", follow, name=b, veh=v, step=1, lo=0.1, hi=4, n_sub=m, q=(0, Q, F(3, 5))[len(out) % 3])
    for b, n in (("ss", 2), ("ss", 4), ("ss2", 3)):
        add(f"{b}-{n}", between, name=b, n=n)
    for b, v, st, m in (("ss", "two", 1, 1), ("two", "tri", F(1, 2), 2), ("three", "two", F(3, 4), 1), ("spring", "tri", 1, 3)):
        add(f"{b}-{len(out)}", clears, name=b, veh=v, step=st, n_sub=m)
    for w in ("section", "load", "none"):
        add(w, refuse, what=w)
    add("two", spans)
    return out
