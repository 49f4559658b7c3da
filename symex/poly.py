"""Sparse multivariate integer polynomials.

A polynomial is a plain dict {monomial: int}; a monomial is one Python int that
packs the exponents, BITS bits per variable, so multiplying monomials is adding
ints and comparing them is lexicographic order.
"""
from __future__ import annotations
from math import gcd
import heapq

BITS = 10
MASK = (1 << BITS) - 1

ONE = {0: 1}
ZERO = {}


def const(c):
    return {0: c} if c else {}


def var(i):
    return {1 << (BITS * i): 1}


def add(a, b, ca=1, cb=1):
    """ca*a + cb*b"""
    if ca == 1:
        r = dict(a)
    else:
        r = {m: ca * c for m, c in a.items()}
    if cb == 1:
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v += c
                if v:
                    r[m] = v
                else:
                    del r[m]
    else:
        for m, c in b.items():
            c = cb * c
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v += c
                if v:
                    r[m] = v
                else:
                    del r[m]
    return r


def mul(a, b):
    if not a or not b:
        return {}
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        (m1, c1), = a.items()
        if m1 == 0:
            if c1 == 1:
                return b
            return {m: c1 * c for m, c in b.items()}
        return {m + m1: c1 * c for m, c in b.items()}
    r = {}
    get = r.get
    bi = list(b.items())
    for m1, c1 in a.items():
        for m2, c2 in bi:
            m = m1 + m2
            r[m] = get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}


def scale(a, k):
    if k == 1:
        return a
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items()}


def power(a, n):
    r = ONE
    base = a
    while n:
        if n & 1:
            r = mul(r, base)
        n >>= 1
        if n:
            base = mul(base, base)
    return r


def content(a):
    g = 0
    for c in a.values():
        g = gcd(g, c)
        if g == 1:
            return 1
    return g


def is_const(a):
    return not a or (len(a) == 1 and 0 in a)


def lead(a):
    return max(a)


def split(m):
    """monomial -> [(var, exp)]"""
    out = []
    i = 0
    while m:
        e = m & MASK
        if e:
            out.append((i, e))
        m >>= BITS
        i += 1
    return out


def min_exps(a):
    """{var: min exponent over all monomials} (only the positive ones)"""
    it = iter(a)
    try:
        m0 = next(it)
    except StopIteration:
        return {}
    d = dict(split(m0))
    for m in it:
        if not d:
            return {}
        for v in list(d):
            e = (m >> (BITS * v)) & MASK
            if e < d[v]:
                if e:
                    d[v] = e
                else:
                    del d[v]
    return d


def min_exp_var(a, v):
    sh = BITS * v
    r = None
    for m in a:
        e = (m >> sh) & MASK
        if e == 0:
            return 0
        if r is None or e < r:
            r = e
    return r or 0


def shift_down(a, v, e):
    d = e << (BITS * v)
    return {m - d: c for m, c in a.items()}


def divides_mono(m1, m2):
    """does monomial m1 divide m2"""
    while m1:
        if (m1 & MASK) > (m2 & MASK):
            return False
        m1 >>= BITS
        m2 >>= BITS
    return True


def exact_div(a, b):
    """a / b when b divides a exactly over the integers, else None"""
    if not a:
        return {}
    if len(b) == 1:
        (mb, cb), = b.items()
        out = {}
        for m, c in a.items():
            if c % cb or (mb and not divides_mono(mb, m)):
                return None
            out[m - mb] = c // cb
        return out
    lb = max(b)
    clb = b[lb]
    rest = [(m, c) for m, c in b.items() if m != lb]
    # quick reject on the trailing term
    tb = min(b)
    ta = min(a)
    if not divides_mono(tb, ta) or a[ta] % b[tb]:
        return None
    rem = dict(a)
    heap = [-m for m in rem]
    heapq.heapify(heap)
    q = {}
    while heap:
        m = -heapq.heappop(heap)
        c = rem.pop(m, 0)
        if not c:
            continue
        if c % clb or not divides_mono(lb, m):
            return None
        qc = c // clb
        qm = m - lb
        q[qm] = qc
        for mb, cb in rest:
            mm = qm + mb
            v = rem.get(mm)
            if v is None:
                rem[mm] = -qc * cb
                heapq.heappush(heap, -mm)
            else:
                rem[mm] = v - qc * cb
    return q


def variables(a):
    acc = 0
    for m in a:
        acc |= m
    return [i for i, _ in split(acc)]


def degree_in(a, v):
    sh = BITS * v
    return max(((m >> sh) & MASK for m in a), default=0)


def evaluate(a, vals):
    """vals: list/dict var index -> Fraction"""
    tot = 0
    cache = {}
    for m, c in a.items():
        t = c
        i = 0
        mm = m
        while mm:
            e = mm & MASK
            if e:
                k = (i, e)
                p = cache.get(k)
                if p is None:
                    p = cache[k] = vals[i] ** e
                t = t * p
            mm >>= BITS
            i += 1
        tot = tot + t
    return tot


def subst(a, v, num, den):
    """replace variable v by num/den in a, multiplied through by den^deg.
    returns (poly, deg)"""
    d = degree_in(a, v)
    if d == 0:
        return a, 0
    sh = BITS * v
    groups = {}
    for m, c in a.items():
        e = (m >> sh) & MASK
        groups.setdefault(e, {})[m - (e << sh)] = c
    pn = [ONE]
    pd = [ONE]
    for _ in range(d):
        pn.append(mul(pn[-1], num))
        pd.append(mul(pd[-1], den))
    r = {}
    for e, g in groups.items():
        r = add(r, mul(mul(g, pn[e]), pd[d - e]))
    return r, d


def to_str(a, names):
    if not a:
        return "0"
    out = []
    for m in sorted(a, reverse=True):
        c = a[m]
        s = "*".join(f"{names[i]}^{e}" if e > 1 else names[i] for i, e in split(m))
        out.append(f"{c}*{s}" if s else f"{c}")
    return " + ".join(out)
