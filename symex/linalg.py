"""exact linear algebra over symbolic rational functions"""
from __future__ import annotations
from fractions import Fraction as F
import numpy as _np
from . import poly as P
from . import sym
from .sym import SymReal, S_ZERO, S_ONE

LinAlgError = _np.linalg.LinAlgError


def _is_zero(x):
    """identically zero (no symbolic case split)"""
    return x.t is None and not x.n


def _rows(A):
    return [[SymReal.of(v) for v in row] for row in A]


def _all_const(rows):
    return all(v.is_const() for r in rows for v in r)


def const_inverse(rows, rhs):
    """solve rows * X = rhs over the rationals; rhs entries may be symbolic"""
    n = len(rows)
    A = [{j: v.const() for j, v in enumerate(r) if not _is_zero(v)} for r in rows]
    B = [list(r) for r in rhs]
    order = []
    free = set(range(n))
    for col in range(n):
        piv = None
        for i in free:
            v = A[i].get(col)
            if v:
                if piv is None or len(A[i]) < len(A[piv]):
                    piv = i
        if piv is None:
            raise LinAlgError("Singular matrix")
        free.discard(piv)
        order.append(piv)
        pr = A[piv]
        pv = pr[col]
        for i in list(free):
            v = A[i].get(col)
            if not v:
                continue
            f = v / pv
            row = A[i]
            for j, w in pr.items():
                nv = row.get(j, 0) - f * w
                if nv:
                    row[j] = nv
                else:
                    row.pop(j, None)
            fs = SymReal.of(f)
            for k in range(len(B[i])):
                if B[piv][k].t is not None or B[piv][k].n:
                    B[i][k] = B[i][k] - fs * B[piv][k]
    X = [None] * n
    for col in range(n - 1, -1, -1):
        i = order[col]
        acc = B[i]
        row = A[i]
        for j, w in row.items():
            if j > col:
                ws = SymReal.of(w)
                acc = [a - ws * X[j][k] for k, a in enumerate(acc)]
        inv = SymReal.of(1 / row[col])
        X[col] = [a * inv for a in acc]
    return X


def _poly_rows(rows):
    """scale every row to polynomials: returns (poly rows, row multipliers as SymReal)"""
    out, mult = [], []
    for r in rows:
        dd = {}
        c = 1
        for v in r:
            for f, e in v.d:
                if e > dd.get(f, 0):
                    dd[f] = e
            c = c * v.c // sym.gcd(c, v.c)
        d = tuple(sorted(dd.items()))
        pr = []
        for v in r:
            dv = dict(v.d)
            comp = tuple((f, e - dv.get(f, 0)) for f, e in d if e > dv.get(f, 0))
            p = P.mul(v.n, sym.expand(comp)) if comp else v.n
            pr.append(P.scale(p, c // v.c))
        # common content of the row
        g = 0
        for p in pr:
            g = sym.gcd(g, P.content(p))
        g = g or 1
        mins = None
        for p in pr:
            if p:
                m = P.min_exps(p)
                mins = m if mins is None else {v: min(e, m[v]) for v, e in mins.items() if v in m}
        for v, e in (mins or {}).items():
            pr = [P.shift_down(p, v, e) if p else p for p in pr]
        if g != 1:
            pr = [{m: k // g for m, k in p.items()} for p in pr]
        mul = sym.make(P.scale(sym.expand(d), c), {sym.factor_id(P.var(v)): e for v, e in (mins or {}).items()}, g)
        out.append(pr)
        mult.append(mul)
    return out, mult


def adjugate(M):
    """fraction-free Gauss-Jordan on [M | I]; returns (det poly, adj poly matrix)"""
    n = len(M)
    A = [list(M[i]) + [P.ONE if i == j else P.ZERO for j in range(n)] for i in range(n)]
    prev = P.ONE
    sign = 1
    for k in range(n):
        piv = None
        for i in range(k, n):
            if A[i][k] and (piv is None or len(A[i][k]) < len(A[piv][k])):
                piv = i
        if piv is None:
            return P.ZERO, None
        if piv != k:
            A[k], A[piv] = A[piv], A[k]
            sign = -sign
        pk = A[k][k]
        for i in range(n):
            if i == k:
                continue
            f = A[i][k]
            row = A[i]
            rk = A[k]
            new = []
            for j in range(2 * n):
                if j < n and j < k and i != j and False:
                    new.append(P.ZERO)
                    continue
                v = P.mul(pk, row[j]) if row[j] else P.ZERO
                if f and rk[j]:
                    v = P.add(v, P.mul(f, rk[j]), 1, -1)
                if v and prev is not P.ONE:
                    q = P.exact_div(v, prev)
                    assert q is not None, "Bareiss division is exact"
                    v = q
                new.append(v)
            A[i] = new
        prev = pk
    # now every diagonal entry equals det (up to row swaps); A = [det*I | adj']
    det = A[n - 1][n - 1]
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        # rows other than the last carry diag == prev pivot product: rescale to det
        dg = A[i][i]
        if dg == det:
            out[i] = A[i][n:]
        else:
            row = []
            for p in A[i][n:]:
                q = P.exact_div(P.mul(p, det), dg)
                assert q is not None
                row.append(q)
            out[i] = row
    return det, out


def _components(rows):
    n = len(rows)
    seen = [-1] * n
    comps = []
    adj = [set() for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if not _is_zero(rows[i][j]):
                adj[i].add(j)
                adj[j].add(i)
    for s in range(n):
        if seen[s] >= 0:
            continue
        st = [s]
        seen[s] = len(comps)
        c = []
        while st:
            u = st.pop()
            c.append(u)
            for w in adj[u]:
                if seen[w] < 0:
                    seen[w] = len(comps)
                    st.append(w)
        comps.append(sorted(c))
    return comps


def determinant(A):
    rows = _rows(A)
    det = S_ONE
    for c in _components(rows):
        sub = [[rows[i][j] for j in c] for i in c]
        det = det * _det_block(sub)
    return det


def _det_block(sub):
    if len(sub) == 1:
        return sub[0][0]
    if any(v.t is not None for r in sub for v in r):
        return _laplace(sub)
    pr, mult = _poly_rows(sub)
    det, _ = adjugate(pr)
    if not det:
        return S_ZERO
    r = SymReal(det)
    # row swaps do not matter for "== 0"; sign is not tracked
    for m in mult:
        r = r / m
    return r


def _laplace(sub):
    n = len(sub)
    if n == 1:
        return sub[0][0]
    tot = S_ZERO
    for j in range(n):
        if _is_zero(sub[0][j]):
            continue
        minor = [[r[k] for k in range(n) if k != j] for r in sub[1:]]
        t = sub[0][j] * _laplace(minor)
        tot = tot + t if j % 2 == 0 else tot - t
    return tot


def solve_cols(A, B):
    """A (n x n), B (n x m) lists of SymReal -> X (n x m)"""
    rows = _rows(A)
    rhs = [[SymReal.of(v) for v in r] for r in B]
    n = len(rows)
    if n == 0:
        return []
    m = len(rhs[0])
    X = [None] * n
    for c in _components(rows):
        sub = [[rows[i][j] for j in c] for i in c]
        rb = [rhs[i] for i in c]
        if _all_const(sub):
            xs = const_inverse(sub, rb)
        else:
            xs = _solve_block(sub, rb)
        for k, i in enumerate(c):
            X[i] = xs[k]
    return X


def _nonzero_or_singular(x):
    if _is_zero(x):
        raise LinAlgError("Singular matrix")
    try:
        sym.ENGINE.nonzero(x)
    except ZeroDivisionError:
        raise LinAlgError("Singular matrix") from None


def _solve_block(sub, rb):
    n = len(sub)
    m = len(rb[0])
    if any(v.t is not None for r in sub for v in r):
        det = _laplace(sub)
        _nonzero_or_singular(det)
        X = [[None] * m for _ in range(n)]
        for k in range(m):
            for j in range(n):
                mod = [[rb[i][k] if q == j else sub[i][q] for q in range(n)] for i in range(n)]
                X[j][k] = _laplace(mod) / det
        return X
    pr, mult = _poly_rows(sub)
    det, adj = adjugate(pr)
    if not det:
        raise LinAlgError("Singular matrix")
    dets = SymReal(det)
    _nonzero_or_singular(dets)
    b2 = [[mult[i] * rb[i][k] for k in range(m)] for i in range(n)]
    X = []
    for i in range(n):
        row = []
        for k in range(m):
            acc = S_ZERO
            for j in range(n):
                if adj[i][j] and not _is_zero(b2[j][k]):
                    acc = acc + SymReal(adj[i][j]) * b2[j][k]
            row.append(acc / dets)
        X.append(row)
    return X
