"""Symbolic reals, symbolic booleans and the path explorer.

SymReal   an exact rational function  n / (c * prod factor_i^e_i)  over the
          symbolic inputs (or, after an if-then-else merge, a z3 real term).
SymBool   a comparison over such values; asking for its truth value makes the
          engine decide it: one side if z3 refutes the other, else both.
Engine    depth-first exploration of the program's paths by re-execution.

Everything is exact arithmetic over the reals.
"""
from __future__ import annotations
import numbers
import sys
import time
import hashlib
from fractions import Fraction
from math import gcd

import z3
import numpy as _np

from . import poly as P

F = Fraction
_INF = float("inf")


sys.set_int_max_str_digits(0)


class EngineSignal(BaseException):
    """control flow of the engine: never caught by code under test"""


class PathInfeasible(EngineSignal):
    pass


class PathLimit(EngineSignal):
    pass


class Unsupported(EngineSignal):
    """the code reached something the encoding does not model"""


# --------------------------------------------------------------------------
# factor table: the polynomials that occur in denominators
# --------------------------------------------------------------------------
FACTORS = []          # fid -> poly
FKEY = {}             # frozenset(items) -> fid
FVAR = {}             # fid -> variable index, when the factor is one variable


def factor_id(p):
    k = frozenset(p.items())
    f = FKEY.get(k)
    if f is None:
        f = len(FACTORS)
        FACTORS.append(p)
        FKEY[k] = f
        if len(p) == 1:
            (m, c), = p.items()
            FVAR[f] = P.split(m)[0][0]
    return f


_expand_cache = {}


def expand(d):
    """denominator factor tuple -> polynomial"""
    if not d:
        return P.ONE
    r = _expand_cache.get(d)
    if r is None:
        r = P.ONE
        for f, e in d:
            r = P.mul(r, P.power(FACTORS[f], e))
        if len(_expand_cache) > 20000:
            _expand_cache.clear()
        _expand_cache[d] = r
    return r


TRY_DIV = 600


def make(n, dd, c):
    """normalise and build"""
    if not n:
        return S_ZERO
    if dd:
        out = []
        for f, e in sorted(dd.items()) if isinstance(dd, dict) else dd:
            if e == 0:
                continue
            v = FVAR.get(f)
            if v is not None:
                k = P.min_exp_var(n, v)
                if k:
                    k = min(k, e)
                    n = P.shift_down(n, v, k)
                    e -= k
            elif len(n) <= TRY_DIV and len(n) >= 1:
                fp = FACTORS[f]
                while e and len(n) >= 1:
                    q = P.exact_div(n, fp)
                    if q is None:
                        break
                    n = q
                    e -= 1
            if e:
                out.append((f, e))
        d = tuple(out)
    else:
        d = ()
    if c != 1:
        if c < 0:
            c = -c
            n = P.scale(n, -1)
        g = gcd(P.content(n), c)
        if g != 1:
            c //= g
            n = {m: k // g for m, k in n.items()}
        if c.bit_length() > CAP:
            n, c = _round(n, c)
            if not n:
                return S_ZERO
    return SymReal(n, d, c)


CAP = 1600      # longest exact common denominator (bits)
KEEP = 512      # significant bits kept when rounding a longer one


def _round(n, c):
    """constants whose exact denominators explode (long numerical quadratures) are
    kept to 512 significant bits; never reached by ordinary closed-form arithmetic"""
    ENGINE.rounded = True
    mb = max(v.bit_length() for v in n.values())
    k = max(KEEP - (mb - c.bit_length()), 0)
    out = {}
    h = c >> 1
    for m, v in n.items():
        v = ((v << k) + h) // c
        if v:
            out[m] = v
    return out, 1 << k


def as_fraction(x):
    if isinstance(x, bool):
        return F(int(x))
    if isinstance(x, int):
        return F(x)
    if isinstance(x, F):
        return x
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported(f"non-finite float {x}")
        return F(x)
    if isinstance(x, _np.bool_):
        return F(int(x))
    if isinstance(x, _np.integer):
        return F(int(x))
    if isinstance(x, _np.floating):
        return as_fraction(float(x))
    if isinstance(x, numbers.Rational):
        return F(x.numerator, x.denominator)
    return None


class SymReal:
    __slots__ = ("n", "d", "c", "t", "ev")
    __array_priority__ = 1000

    def __init__(self, n, d=(), c=1, t=None, ev=None):
        self.n = n
        self.d = d
        self.c = c
        self.t = t
        self.ev = ev

    # -- construction ------------------------------------------------------
    @staticmethod
    def of(x):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, SymBool):
            return S_ONE if bool(x) else S_ZERO
        f = as_fraction(x)
        if f is None:
            if isinstance(x, _np.ndarray) and x.ndim == 0:
                return SymReal.of(x.item())
            raise TypeError(f"cannot convert {type(x).__name__} to a symbolic real")
        if f == 0:
            return S_ZERO
        return SymReal({0: f.numerator}, (), f.denominator)

    def is_const(self):
        return self.t is None and not self.d and P.is_const(self.n)

    def const(self):
        return F(self.n.get(0, 0), self.c)

    # -- z3 ----------------------------------------------------------------
    def z3(self):
        if self.t is not None:
            return self.t
        num = ENGINE.poly_z3(self.n)
        if not self.d and self.c == 1:
            return num
        den = ENGINE.poly_z3(P.scale(expand(self.d), self.c))
        return num / den

    def value(self, model):
        """exact value at a model {var: Fraction}"""
        if self.t is not None:
            return self.ev(model)
        num = P.evaluate(self.n, model)
        den = self.c
        for f, e in self.d:
            den = den * P.evaluate(FACTORS[f], model) ** e
        if den == 0:
            raise ZeroDivisionError
        return F(num) / den

    # -- arithmetic --------------------------------------------------------
    def _addsub(self, o, sgn):
        if self.t is not None or o.t is not None:
            return term_op(self, o, "+" if sgn > 0 else "-")
        if not o.n:
            return self
        if not self.n:
            return o if sgn > 0 else -o
        if self.d == o.d:
            if self.c == o.c:
                n = P.add(self.n, o.n, 1, sgn)
                c = self.c
            else:
                g = gcd(self.c, o.c)
                n = P.add(self.n, o.n, o.c // g, sgn * (self.c // g))
                c = self.c // g * o.c
            return make(n, self.d, c)
        da, db = dict(self.d), dict(o.d)
        dd = dict(da)
        for f, e in db.items():
            if e > dd.get(f, 0):
                dd[f] = e
        ma = tuple(sorted((f, e - da.get(f, 0)) for f, e in dd.items() if e > da.get(f, 0)))
        mb = tuple(sorted((f, e - db.get(f, 0)) for f, e in dd.items() if e > db.get(f, 0)))
        na = P.mul(self.n, expand(ma)) if ma else self.n
        nb = P.mul(o.n, expand(mb)) if mb else o.n
        g = gcd(self.c, o.c)
        n = P.add(na, nb, o.c // g, sgn * (self.c // g))
        return make(n, dd, self.c // g * o.c)

    def _co(self, o):
        if isinstance(o, SymReal):
            return o
        if isinstance(o, _np.ndarray):
            return None
        try:
            return SymReal.of(o)
        except TypeError:
            return None

    def __add__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else self._addsub(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else self._addsub(o, -1)

    def __rsub__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else o._addsub(self, -1)

    def __neg__(self):
        if self.t is not None:
            return term_op(S_ZERO, self, "-")
        return SymReal(P.scale(self.n, -1), self.d, self.c)

    def __pos__(self):
        return self

    def __mul__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if self.t is not None or o.t is not None:
            return term_op(self, o, "*")
        if not self.n or not o.n:
            return S_ZERO
        n = P.mul(self.n, o.n)
        if not self.d and not o.d:
            c = self.c * o.c
            if c == 1:
                return SymReal(n, (), 1)
            return make(n, (), c)
        dd = dict(self.d)
        for f, e in o.d:
            dd[f] = dd.get(f, 0) + e
        return make(n, dd, self.c * o.c)

    __rmul__ = __mul__

    def inverse(self):
        if self.t is not None:
            return term_op(S_ONE, self, "/")
        if not self.n:
            raise ZeroDivisionError("division by zero")
        ENGINE.nonzero(self)
        num = P.scale(expand(self.d), self.c)
        return _div_poly(num, self.n)

    def __truediv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if self.t is not None or o.t is not None:
            return term_op(self, o, "/")
        if not o.n:
            raise ZeroDivisionError("division by zero")
        if P.is_const(o.n) and not o.d:
            k = o.n[0]
            n = P.scale(self.n, o.c)
            return make(n, self.d, self.c * k)
        if self.d == o.d and self.c == o.c and self.n == o.n:
            ENGINE.nonzero(o)
            return S_ONE
        ENGINE.nonzero(o)
        # self / o = (self.n * expand(o.d) * o.c) / (self.d * self.c * o.n)
        da, db = dict(self.d), dict(o.d)
        for f in list(da):
            if f in db:
                k = min(da[f], db[f])
                da[f] -= k
                db[f] -= k
        n = self.n
        left = tuple(sorted((f, e) for f, e in db.items() if e))
        if left:
            n = P.mul(n, expand(left))
        n = P.scale(n, o.c)
        return _div_poly(n, o.n, {f: e for f, e in da.items() if e}, self.c)

    def __rtruediv__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else o.__truediv__(self)

    def __pow__(self, k, mod=None):
        if isinstance(k, SymReal):
            if not k.is_const():
                raise Unsupported("symbolic exponent")
            k = k.const()
        kf = as_fraction(k)
        if kf is None:
            return NotImplemented
        if kf.denominator == 1:
            k = int(kf)
            if k == 0:
                return S_ONE
            if k < 0:
                return (S_ONE / self) ** (-k)
            if self.t is not None:
                r = self
                for _ in range(k - 1):
                    r = r * self
                return r
            if k == 1:
                return self
            return SymReal(P.power(self.n, k), tuple((f, e * k) for f, e in self.d), self.c ** k)
        return ENGINE.root(self, kf)

    def __rpow__(self, o):
        if self.is_const():
            return SymReal.of(o) ** self.const()
        raise Unsupported("symbolic exponent")

    def __floordiv__(self, o):
        return floor(self / o)

    def __rfloordiv__(self, o):
        return floor(o / self)

    def __mod__(self, o):
        q = floor(self / o)
        return self - q * o

    def __rmod__(self, o):
        return SymReal.of(o) % self

    def __divmod__(self, o):
        q = floor(self / o)
        return q, self - q * o

    def __abs__(self):
        s = ENGINE.quick_sign(self)
        if s is not None:
            return -self if s < 0 else self
        if ENGINE.merge:
            return ite(self >= 0, self, -self)
        return self if bool(self >= 0) else -self

    # -- comparison --------------------------------------------------------
    def _cmp(self, o, op):
        if isinstance(o, float) and (o != o or o in (_INF, -_INF)):
            if o != o:
                return op == "!="
            return {"<": o > 0, "<=": o > 0, "==": False, "!=": True}[op]
        o = self._co(o)
        if o is None:
            return NotImplemented
        return compare(self, o, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        if isinstance(o, float) and (o != o or o in (_INF, -_INF)):
            return o < 0
        o = self._co(o)
        return NotImplemented if o is None else compare(o, self, "<")

    def __ge__(self, o):
        if isinstance(o, float) and (o != o or o in (_INF, -_INF)):
            return o < 0
        o = self._co(o)
        return NotImplemented if o is None else compare(o, self, "<=")

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        if isinstance(o, float) and (o != o or o in (_INF, -_INF)):
            return False
        o = self._co(o)
        return NotImplemented if o is None else compare(self, o, "==")

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        if isinstance(o, float) and (o != o or o in (_INF, -_INF)):
            return True
        o = self._co(o)
        return NotImplemented if o is None else compare(self, o, "!=")

    def __hash__(self):
        if self.is_const():
            return hash(self.const())
        return 0x5EED

    def __bool__(self):
        return bool(self != 0)

    # -- conversions -------------------------------------------------------
    def __int__(self):
        if self.is_const():
            return int(self.const())
        return ENGINE.concretize(self, "trunc")

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise Unsupported("float() of a symbolic value outside the encoding")

    def __trunc__(self):
        return int(self)

    def __floor__(self):
        return ENGINE.concretize(self, "floor")

    def __ceil__(self):
        return -ENGINE.concretize(-self, "floor")

    def __round__(self, nd=None):
        if nd is None:
            return ENGINE.concretize(self, "round")
        k = 10 ** int(nd) if nd >= 0 else F(1, 10 ** int(-nd))
        if self.is_const():
            return SymReal.of(F(round(self.const() * k)) / k)
        return ENGINE.rounded_to(self, F(k))

    def is_integer(self):
        if self.is_const():
            return self.const().denominator == 1
        return bool(self == ENGINE.concretize(self, "floor"))

    def __format__(self, spec):
        if self.is_const() and spec and spec[-1] in "gfeGFE%":
            return format(float(self.const()), spec)
        if spec == "" or spec[-1] in "gfe":
            from . import npshim
            return npshim.token(self)
        return f"<{self!r}>"

    def __repr__(self):
        if self.is_const():
            return repr(float(self.const()))
        if self.t is not None:
            return "sym:" + str(self.t)[:80]
        names = ENGINE.names if ENGINE else []
        s = P.to_str(self.n, names) if len(self.n) < 12 else f"poly[{len(self.n)}]"
        if self.d or self.c != 1:
            s = f"({s})/({self.c}" + "".join(f"*f{f}^{e}" for f, e in self.d) + ")"
        return s

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # numpy scalar look-alike
    ndim = 0
    shape = ()
    size = 1

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return S_ZERO

    @property
    def T(self):
        return self

    def conjugate(self):
        return self

    def item(self, *a):
        return self

    def copy(self):
        return self

    def tolist(self):
        return self

    def astype(self, dt, *a, **k):
        from . import npshim
        return npshim.cast_scalar(self, dt)

    def clip(self, lo=None, hi=None, **kw):
        from . import npshim
        return npshim.clip(self, kw.get("min", lo), kw.get("max", hi))

    def max(self, *a, **k):
        return self

    min = max

    def sum(self, *a, **k):
        return self

    def sqrt(self):
        return ENGINE.root(self, F(1, 2))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim
        return npshim.apply_ufunc(ufunc, method, inputs, kw)


def _strip(n):
    """poly -> (sign*content, {fid: exp}) with content int"""
    dd = {}
    me = P.min_exps(n)
    for v, e in me.items():
        n = P.shift_down(n, v, e)
        dd[factor_id(P.var(v))] = e
    k = P.content(n)
    if n[max(n)] < 0:
        k = -k
    if k != 1:
        n = {m: c // k for m, c in n.items()}
    return k, dd, n


def _div_poly(num, den, dd=None, c=1):
    """num / (den * dd * c), den a nonzero polynomial"""
    dd = dict(dd or {})
    mb = max(v.bit_length() for v in den.values())
    if mb > CAP:
        ENGINE.rounded = True
        sh = mb - KEEP
        den = {m: r for m, r in ((m, v >> sh) for m, v in den.items()) if r}
        c = c << sh
    k, mono, rest = _strip(den)
    for f, e in mono.items():
        dd[f] = dd.get(f, 0) + e
    c = c * k
    if not P.is_const(rest):
        # split off factors we already know
        key = frozenset(rest.items())
        if key not in FKEY:
            for f in range(len(FACTORS)):
                if f in FVAR or len(FACTORS[f]) > len(rest):
                    continue
                while not P.is_const(rest):
                    q = P.exact_div(rest, FACTORS[f])
                    if q is None:
                        break
                    rest = q
                    dd[f] = dd.get(f, 0) + 1
            if P.is_const(rest):
                c = c * rest[0]
                rest = None
        if rest is not None:
            if len(num) <= 4000:
                q = P.exact_div(num, rest)
            else:
                q = None
            if q is not None:
                num = q
            else:
                f = factor_id(rest)
                dd[f] = dd.get(f, 0) + 1
    else:
        c = c * rest[0]
    if c < 0:
        c = -c
        num = P.scale(num, -1)
    return make(num, dd, c)


S_ZERO = SymReal({})
S_ONE = SymReal({0: 1})


def term_op(a, b, op):
    za, zb = a.z3(), b.z3()
    if op == "+":
        t, f = za + zb, lambda m: a.value(m) + b.value(m)
    elif op == "-":
        t, f = za - zb, lambda m: a.value(m) - b.value(m)
    elif op == "*":
        t, f = za * zb, lambda m: a.value(m) * b.value(m)
    else:
        ENGINE.nonzero(b)
        t, f = za / zb, lambda m: F(a.value(m)) / b.value(m)
    return SymReal({}, (), 1, t, f)


def ite(c, a, b):
    """merged value; forks only when the branches are not numbers"""
    if isinstance(c, (bool, _np.bool_)):
        return a if c else b
    known = ENGINE.quick_bool(c)
    if known is not None:
        return a if known else b
    a, b = SymReal.of(a), SymReal.of(b)
    if a is b or (a.t is None and b.t is None and a.d == b.d and a.c == b.c and a.n == b.n):
        return a
    return SymReal({}, (), 1, z3.If(c.z3(), a.z3(), b.z3()),
                   lambda m: a.value(m) if c.value(m) else b.value(m))


# --------------------------------------------------------------------------
class SymBool:
    __slots__ = ("op", "p", "args")

    def __init__(self, op, p=None, args=None):
        self.op = op          # '<' '<=' '==' '!=' (p op 0) | 'and' 'or' 'not' | 'lit' | 'z3'
        self.p = p
        self.args = args

    def z3(self):
        o = self.op
        if o == "<":
            return ENGINE.poly_z3(self.p) < 0
        if o == "<=":
            return ENGINE.poly_z3(self.p) <= 0
        if o == "==":
            return ENGINE.poly_z3(self.p) == 0
        if o == "!=":
            return ENGINE.poly_z3(self.p) != 0
        if o == "lit":
            return z3.BoolVal(self.p)
        if o == "not":
            return z3.Not(self.args[0].z3())
        if o == "and":
            return z3.And([a.z3() for a in self.args])
        if o == "or":
            return z3.Or([a.z3() for a in self.args])
        return self.p  # z3 expression

    def value(self, model):
        o = self.op
        if o in ("<", "<=", "==", "!="):
            v = P.evaluate(self.p, model)
            return v < 0 if o == "<" else v <= 0 if o == "<=" else v == 0 if o == "==" else v != 0
        if o == "lit":
            return self.p
        if o == "not":
            return not self.args[0].value(model)
        if o == "and":
            return all(a.value(model) for a in self.args)
        if o == "or":
            return any(a.value(model) for a in self.args)
        return self.args(model)

    def negate(self):
        o = self.op
        if o == "<":
            return SymBool("<=", P.scale(self.p, -1))
        if o == "<=":
            return SymBool("<", P.scale(self.p, -1))
        if o == "==":
            return SymBool("!=", self.p)
        if o == "!=":
            return SymBool("==", self.p)
        if o == "lit":
            return SymBool("lit", not self.p)
        if o == "not":
            return self.args[0]
        return SymBool("not", None, [self])

    def key(self):
        if self.op in ("<", "<=", "==", "!="):
            return (self.op, frozenset(self.p.items()))
        return None

    def __bool__(self):
        return ENGINE.decide(self)

    def __invert__(self):
        return self.negate()

    def __and__(self, o):
        return sym_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return sym_or(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        o = SymBool.of(o)
        return sym_or(sym_and(self, ~o), sym_and(~self, o))

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return self if o else ~self
        if isinstance(o, SymBool):
            return sym_or(sym_and(self, o), sym_and(~self, ~o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else ~r

    def __hash__(self):
        return 0xB001

    @staticmethod
    def of(x):
        if isinstance(x, SymBool):
            return x
        return SymBool("lit", bool(x))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __mul__(self, o):
        return (S_ONE if bool(self) else S_ZERO) * o

    __rmul__ = __mul__

    def __deepcopy__(self, memo):
        return self

    def any(self, *a, **k):
        return self

    all = any

    def item(self):
        return self

    def __repr__(self):
        if self.op in ("<", "<=", "==", "!="):
            s = P.to_str(self.p, ENGINE.names) if len(self.p) < 12 else f"poly[{len(self.p)}]"
            return f"[{s} {self.op} 0]"
        return f"[{self.op}]"

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim
        return npshim.apply_ufunc(ufunc, method, inputs, kw)


numbers.Real.register(SymReal)


def sym_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, (bool, _np.bool_)):
            if not x:
                return False
            continue
        if not isinstance(x, SymBool):
            x = bool(x)
            if not x:
                return False
            continue
        if x.op == "lit":
            if not x.p:
                return False
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else SymBool("and", None, out)


def sym_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (bool, _np.bool_)):
            if x:
                return True
            continue
        if not isinstance(x, SymBool):
            if bool(x):
                return True
            continue
        if x.op == "lit":
            if x.p:
                return True
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else SymBool("or", None, out)


def sym_not(x):
    if isinstance(x, SymBool):
        return ~x
    return not x


def compare(a, b, op):
    """a op b -> bool or SymBool"""
    if a.t is not None or b.t is not None:
        za, zb = a.z3(), b.z3()
        if op == "<":
            return SymBool("z3", za < zb, lambda m: a.value(m) < b.value(m))
        if op == "<=":
            return SymBool("z3", za <= zb, lambda m: a.value(m) <= b.value(m))
        if op == "==":
            return SymBool("z3", za == zb, lambda m: a.value(m) == b.value(m))
        return SymBool("z3", za != zb, lambda m: a.value(m) != b.value(m))
    d = a._addsub(b, -1)
    if not d.n:
        return op in ("<=", "==")
    if P.is_const(d.n) and (not d.d or op in ("==", "!=")):
        c = d.n[0]
        return {"<": c < 0, "<=": c <= 0, "==": c == 0, "!=": c != 0}[op]
    n = d.n
    if op in ("<", "<="):
        for f, e in d.d:
            if e % 2:
                s = ENGINE.poly_sign(FACTORS[f])
                if s is None:
                    n = P.mul(n, FACTORS[f])
                elif s < 0:
                    n = P.scale(n, -1)
    n = ENGINE.norm_atom(n, op)
    if P.is_const(n):
        c = n.get(0, 0)
        return {"<": c < 0, "<=": c <= 0, "==": c == 0, "!=": c != 0}[op]
    return SymBool(op, n)


def floor(x):
    if isinstance(x, SymReal):
        return SymReal.of(x.__floor__())
    import math
    return SymReal.of(math.floor(x))


# --------------------------------------------------------------------------
class Engine:
    """explores every feasible path of one harness"""

    def __init__(self, seed=1, query_timeout_ms=20000, max_paths=2000, merge=False, deadline=None):
        self.seed = seed
        self.query_timeout = query_timeout_ms
        self.max_paths = max_paths
        self.merge = merge
        self.deadline = deadline
        self.names, self.lo, self.hi, self.zv, self.index = [], [], [], [], {}
        self.stats = dict(paths=0, infeasible=0, branch_queries=0, branch_time=0.0, branch_decided_syntactic=0,
                          obligation_queries=0, obligation_time=0.0, obligations=0, unknown=0, forks=0)
        self.inconclusive = []
        self._z3cache = {}
        self.reset_path([], None)

    # ------------------------------------------------------------ variables
    def reset_path(self, prefix, model):
        self.prefix = prefix
        self.trace = []
        self.path = []            # SymBools assumed/decided true
        self.known = {}
        self.subs = []            # (var, num poly, den int)
        self.model = model
        self.boundary = False
        self.rounded = False
        self.aux = 0
        self.live = {}            # variables created on this path

    def default_value(self, name, lo, hi):
        h = int(hashlib.sha256(f"{self.seed}:{name}".encode()).hexdigest()[:8], 16)
        if lo is None or hi is None:
            lo = F(-4) if lo is None else lo
            hi = F(lo) + 8
        lo, hi = F(lo), F(hi)
        # dyadic value strictly inside when possible
        k = 16 + h % 97
        v = lo + (hi - lo) * F(k, 128)
        for q in (8, 16, 32, 64, 256, 1024):
            w = F(round(v * q), q)
            if lo < w < hi:
                return w
        return v

    def variable(self, name, lo=None, hi=None):
        i = self.index.get(name)
        lo = None if lo is None else as_fraction(lo) if not isinstance(lo, SymReal) else lo.const()
        hi = None if hi is None else as_fraction(hi) if not isinstance(hi, SymReal) else hi.const()
        if i is None:
            i = len(self.names)
            self.index[name] = i
            self.names.append(name)
            self.lo.append(lo)
            self.hi.append(hi)
            self.zv.append(z3.Real(name))
        elif "!" not in name and (self.lo[i], self.hi[i]) != (lo, hi):
            raise ValueError(f"variable {name} declared again with other bounds")
        self.live[i] = True
        if self.model is not None and i not in self.model:
            self.model[i] = self.default_value(name, lo, hi)
        return SymReal(P.var(i))

    def fresh(self, stem, lo=None, hi=None, value=None):
        self.aux += 1
        name = f"{stem}!{self.aux}"
        i = self.index.get(name)
        v = self.variable(name, lo, hi)
        i = self.index[name]
        self.lo[i] = None if lo is None else F(lo)
        self.hi[i] = None if hi is None else F(hi)
        if value is not None and self.model is not None:
            self.model[i] = value
        return v

    # ------------------------------------------------------------ z3 terms
    def poly_z3(self, p):
        if not p:
            return z3.RealVal(0)
        if len(p) < 200:
            k = frozenset(p.items())
            r = self._z3cache.get(k)
            if r is not None:
                return r
        else:
            k = None
        terms = []
        for m in sorted(p, reverse=True):
            c = p[m]
            fs = []
            for v, e in P.split(m):
                fs.append(self.zv[v] if e == 1 else self._pow(v, e))
            if not fs:
                terms.append(z3.RealVal(c))
            else:
                if c != 1:
                    fs.insert(0, z3.RealVal(c))
                terms.append(fs[0] if len(fs) == 1 else z3.Product(fs))
        r = terms[0] if len(terms) == 1 else z3.Sum(terms)
        if k is not None:
            self._z3cache[k] = r
        return r

    def _pow(self, v, e):
        k = ("pow", v, e)
        r = self._z3cache.get(k)
        if r is None:
            r = z3.Product([self.zv[v]] * e)
            self._z3cache[k] = r
        return r

    def bounds_z3(self):
        out = []
        for i in self.live:
            if self.lo[i] is not None:
                out.append(self.zv[i] >= z3.RealVal(self.lo[i]))
            if self.hi[i] is not None:
                out.append(self.zv[i] <= z3.RealVal(self.hi[i]))
        return out

    # ------------------------------------------------------------ signs
    def poly_sign(self, p):
        """+1/-1 when p has that strict sign over the whole box, else None"""
        lo, hi = self.poly_bounds(p)
        if lo is not None and lo > 0:
            return 1
        if hi is not None and hi < 0:
            return -1
        return None

    def poly_bounds(self, p):
        """(lo, hi) bounds of p over the box; None = unknown"""
        pos = neg = True
        for c in p.values():
            if c > 0:
                neg = False
            else:
                pos = False
        LO, HI = self.lo, self.hi
        if pos or neg:
            strict = True
            ok = True
            for m in p:
                for v, e in P.split(m):
                    l = LO[v]
                    if l is None or l < 0:
                        if e % 2:
                            ok = False
                            break
                        strict = False
                    elif l == 0:
                        strict = False
                if not ok:
                    break
            if ok:
                if strict or 0 in p:
                    return (F(1, 10 ** 30), None) if pos else (None, F(-1, 10 ** 30))
                return (F(0), None) if pos else (None, F(0))
        lo = hi = 0.0
        mag = 0.0
        for m, c in p.items():
            a = b = 1.0
            for v, e in P.split(m):
                l, h = LO[v], HI[v]
                if l is None or h is None:
                    return None, None
                l, h = float(l) ** e, float(h) ** e
                if e % 2 == 0:
                    if LO[v] < 0 < HI[v]:
                        l, h = 0.0, max(l, h)
                    elif l > h:
                        l, h = h, l
                q = (a * l, a * h, b * l, b * h)
                a, b = min(q), max(q)
            try:
                c = float(c)
            except OverflowError:
                return None, None
            a, b = c * a, c * b
            if a > b:
                a, b = b, a
            lo += a
            hi += b
            mag += max(abs(a), abs(b))
        slack = 1e-12 * mag
        return lo - slack if lo - slack > 0 else (0.0 if False else lo - slack), hi + slack

    def quick_sign(self, x):
        """sign of a SymReal if syntactically known: 1, 0 or -1"""
        if x.t is not None:
            return None
        if not x.n:
            return 0
        s = self.poly_sign(x.n)
        if s is None:
            return None
        for f, e in x.d:
            if e % 2:
                g = self.poly_sign(FACTORS[f])
                if g is None:
                    return None
                s *= g
        return s

    # ------------------------------------------------------------ atoms
    def norm_atom(self, n, op):
        n = self.apply_subs(n)
        if not n:
            return n
        for v, e in P.min_exps(n).items():
            if self.lo[v] is not None and self.lo[v] > 0:
                n = P.shift_down(n, v, e)
        k = P.content(n)
        if op in ("==", "!=") and n[max(n)] < 0:
            k = -k
        if k != 1:
            n = {m: c // k for m, c in n.items()}
        return n

    def apply_subs(self, n):
        for v, num, den in self.subs:
            n, _ = P.subst(n, v, num, den)
        return n

    def _learn(self, b):
        """b is now true on this path"""
        if b.op == "and":
            for a in b.args:
                self._learn(a)
            return
        self.path.append(b)
        k = b.key()
        if k is not None:
            self.known[k] = True
            self.known[b.negate().key()] = False
            if b.op == "==":
                self._learn_eq(b.p)

    def _learn_eq(self, p):
        """p == 0: remember it as a substitution when it is linear in a variable with a constant coefficient"""
        self.boundary = True
        p = self.apply_subs(p)
        best = None
        for v in P.variables(p):
            if P.degree_in(p, v) != 1:
                continue
            sh = P.BITS * v
            co = {m - (1 << sh): c for m, c in p.items() if (m >> sh) & P.MASK}
            if not P.is_const(co):
                continue
            best = v
            bc = co[0]
            # prefer substituting late variables
        if best is None:
            return
        sh = P.BITS * best
        num = {m: -c for m, c in p.items() if not (m >> sh) & P.MASK}
        if bc < 0:
            num, bc = P.scale(num, -1), -bc
        self.subs = [(v, P.add(P.subst(n_, best, num, P.const(bc))[0], {}), d_) if best not in P.variables(n_) else
                     self._resub(v, n_, d_, best, num, bc) for v, n_, d_ in self.subs]
        self.subs.append((best, num, P.const(bc)))

    def _resub(self, v, n_, d_, best, num, bc):
        n2, deg = P.subst(n_, best, num, P.const(bc))
        return (v, n2, P.scale(d_, bc ** deg))

    # ------------------------------------------------------------ deciding
    def quick_bool(self, b):
        if isinstance(b, (bool, _np.bool_)):
            return bool(b)
        if b.op == "lit":
            return b.p
        k = b.key()
        if k is None:
            if b.op == "not":
                r = self.quick_bool(b.args[0])
                return None if r is None else not r
            if b.op in ("and", "or"):
                rs = [self.quick_bool(a) for a in b.args]
                if b.op == "and":
                    if any(r is False for r in rs):
                        return False
                    return True if all(rs) else None
                if any(r is True for r in rs):
                    return True
                return False if all(r is False for r in rs) else None
            return None
        r = self.known.get(k)
        if r is not None:
            return r
        p = b.p
        if self.subs:
            q = self.norm_atom(p, b.op)
            if q != p:
                if P.is_const(q):
                    c = q.get(0, 0)
                    return {"<": c < 0, "<=": c <= 0, "==": c == 0, "!=": c != 0}[b.op]
                r = self.known.get((b.op, frozenset(q.items())))
                if r is not None:
                    return r
                p = q
        # strict facts imply weak ones
        if b.op in ("<", "<="):
            neg = P.scale(p, -1)
            fs, fn = frozenset(p.items()), frozenset(neg.items())
            if b.op == "<=" and self.known.get(("<", fs)):
                return True
            if b.op == "<" and self.known.get(("<", fn)):
                return False
            if b.op == "<=" and self.known.get(("<", fn)):
                return False
        if b.op in ("==", "!="):
            fs, fn = frozenset(p.items()), frozenset(P.scale(p, -1).items())
            if self.known.get(("<", fs)) or self.known.get(("<", fn)):
                return b.op == "!="
        lo, hi = self.poly_bounds(p)
        if b.op == "<":
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
        elif b.op == "<=":
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        else:
            if (hi is not None and hi < 0) or (lo is not None and lo > 0):
                return b.op == "!="
        return None

    def check(self, extra, kind, timeout=None):
        """sat / unsat / unknown of path /\\ extra (z3 exprs); returns (result, model)"""
        t0 = time.time()
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", int(timeout or self.query_timeout))
        s.add(*self.bounds_z3())
        for b in self.path:
            s.add(b.z3())
        s.add(*extra)
        r = s.check()
        if r == z3.unknown:
            s2 = z3.Solver()
            s2.set("timeout", int(timeout or self.query_timeout))
            s2.add(*s.assertions())
            r = s2.check()
            s = s2
        dt = time.time() - t0
        self.stats[f"{kind}_queries"] = self.stats.get(f"{kind}_queries", 0) + 1
        self.stats[f"{kind}_time"] = self.stats.get(f"{kind}_time", 0.0) + dt
        m = None
        if r == z3.sat:
            m = self.extract(s.model())
        elif r == z3.unknown:
            self.stats["unknown"] += 1
        return r, m

    def extract(self, zm):
        out = {}
        irr = False
        for i in list(self.live):
            v = zm.eval(self.zv[i], model_completion=False)
            if z3.is_rational_value(v):
                out[i] = F(v.numerator_as_long(), v.denominator_as_long())
            elif z3.is_algebraic_value(v):
                a = v.approx(20)
                out[i] = F(a.numerator_as_long(), a.denominator_as_long())
                irr = True
            else:
                d = self.default_value(self.names[i], self.lo[i], self.hi[i])
                out[i] = d
        return out

    def nicify(self, model, conds):
        """round a model to short dyadic values if every condition still holds"""
        def ok(m):
            for i in m:
                if self.lo[i] is not None and m[i] < self.lo[i]:
                    return False
                if self.hi[i] is not None and m[i] > self.hi[i]:
                    return False
            try:
                return all(c.value(m) for c in conds)
            except ZeroDivisionError:
                return False
        base_ok = ok(model)
        for q in (4, 16, 64, 1024, 2 ** 20):
            m = {i: F(round(v * q), q) for i, v in model.items()}
            if ok(m):
                return m
        return model if base_ok else None

    def decide(self, b):
        r = self.quick_bool(b)
        if r is not None:
            self.stats["branch_decided_syntactic"] += 1
            return r
        if self.deadline and time.time() > self.deadline:
            raise PathLimit("time budget")
        pos = len(self.trace)
        if pos < len(self.prefix):
            v = self.prefix[pos]
            self.trace.append(v)
            self._learn(b if v else b.negate())
            return v
        nb = b.negate()
        side = None
        if self.model is not None:
            try:
                side = bool(b.value(self.model))
            except (ZeroDivisionError, KeyError):
                side = None
        if side is None:
            r1, m1 = self.check([b.z3()], "branch")
            if r1 == z3.unsat:
                r2, m2 = self.check([nb.z3()], "branch")
                if r2 == z3.unsat:
                    raise PathInfeasible()
                side, other, om = False, None, None
                self.model = self.nicify(m2, self.path + [nb]) if m2 else None
            else:
                side = True
                self.model = self.nicify(m1, self.path + [b]) if m1 else None
                r2, m2 = self.check([nb.z3()], "branch")
                other = None if r2 == z3.unsat else False
                om = m2
        else:
            t = nb if side else b
            r2, m2 = self.check([t.z3()], "branch")
            other = None if r2 == z3.unsat else (not side)
            om = m2
        if other is not None:
            t = b if other else nb
            if om is not None:
                om = self.nicify(om, self.path + [t])
            self.work.append((self.trace + [other], om))
            self.stats["forks"] += 1
        self.trace.append(side)
        self._learn(b if side else nb)
        return side

    def assume(self, b):
        """restrict the path to b (must be placed before the code it constrains)"""
        if isinstance(b, (bool, _np.bool_)):
            if not b:
                raise PathInfeasible()
            return
        r = self.quick_bool(b)
        if r is True:
            return
        if r is False:
            raise PathInfeasible()
        if len(self.trace) < len(self.prefix):
            self._learn(b)
            # the model handed over with the prefix satisfies it, or is replaced at its end
            if self.model is not None:
                try:
                    if not b.value(self.model):
                        self.model = None
                except Exception:
                    self.model = None
            return
        if self.model is not None and b.value(self.model):
            self._learn(b)
            return
        r, m = self.check([b.z3()], "branch")
        if r == z3.unsat:
            raise PathInfeasible()
        self._learn(b)
        self.model = self.nicify(m, self.path) if m else None

    def choose(self, n):
        """nondeterministic index 0..n-1, every value explored"""
        pos = len(self.trace)
        if pos < len(self.prefix):
            v = self.prefix[pos]
            self.trace.append(v)
            return v
        for k in range(n - 1, 0, -1):
            self.work.append((self.trace + [k], None if self.model is None else dict(self.model)))
        self.trace.append(0)
        return 0

    def nonzero(self, x):
        """called before dividing by x: the zero case is a path of its own"""
        if x.t is None:
            if self.poly_sign(x.n) is not None:
                return
        if bool(compare(x, S_ZERO, "==")):
            raise ZeroDivisionError("division by zero")

    def concretize(self, x, how):
        """integer part of a symbolic value: one path per feasible integer"""
        import math
        if x.is_const():
            c = x.const()
            return {"trunc": lambda: int(c), "floor": lambda: math.floor(c), "round": lambda: round(c)}[how]()
        if how == "trunc":
            if bool(x >= 0):
                return self.concretize(x, "floor")
            return -self.concretize(-x, "floor")
        for _ in range(400):
            pos = len(self.trace)
            if pos < len(self.prefix):
                k, yes = self.prefix[pos]
            else:
                if self.model is not None:
                    try:
                        v = x.value(self.model)
                    except ZeroDivisionError:
                        self.model = None
                        continue
                    k = math.floor(v) if how == "floor" else round(v)
                else:
                    r, m = self.check([], "branch")
                    if r == z3.unsat:
                        raise PathInfeasible()
                    if m is None:
                        raise Unsupported("cannot concretise an integer")
                    v = x.value(m)
                    k = math.floor(v) if how == "floor" else round(v)
                yes = True
            if how == "floor":
                cond = sym_and(x >= k, x < k + 1)
            else:
                lo, hi = k - F(1, 2), k + F(1, 2)
                # banker's rounding: ties go to the even integer
                cond = sym_and(x >= lo, x <= hi) if k % 2 == 0 else sym_and(x > lo, x < hi)
            if cond is True:
                return k
            if cond is False:
                raise PathInfeasible()
            if pos < len(self.prefix):
                self.trace.append((k, yes))
                self._learn(cond if yes else cond.negate())
                if yes:
                    return k
                continue
            r, m = self.check([cond.negate().z3()], "branch")
            if r != z3.unsat:
                if m is not None:
                    m = self.nicify(m, self.path + [cond.negate()])
                self.work.append((self.trace + [(k, False)], m))
            self.trace.append((k, True))
            self._learn(cond)
            return k
        raise PathLimit("integer concretisation")

    def root(self, x, k):
        """x ** k for a non-integer rational k"""
        if x.is_const():
            c = x.const()
            if c < 0:
                raise Unsupported("root of a negative number")
            # exact when possible, else the nearest double (stated as an approximation)
            p, q = k.numerator, k.denominator
            v = float(c) ** float(k)
            r = F(v)
            for lim in (10, 1000, 100000):
                g = r.limit_denominator(lim)
                if g ** q == c ** p:
                    return SymReal.of(g)
            return SymReal.of(r)
        p, q = k.numerator, k.denominator
        if p != 1:
            return self.root(x, F(1, q)) ** p
        s = x >= 0
        if s is not True and not bool(s):
            raise Unsupported("root of a negative number")
        key = (q, x.d, x.c, frozenset(x.n.items())) if x.t is None else None
        val = None
        if self.model is not None:
            try:
                v = x.value(self.model)
                val = F(float(v) ** (1.0 / q))
                for lim in (100, 100000):
                    if val.limit_denominator(lim) ** q == v:
                        val = val.limit_denominator(lim)
            except (ZeroDivisionError, KeyError):
                val = None
        r = self.fresh("root", 0, None, val)
        cond = compare(r ** q, x, "==")
        if isinstance(cond, SymBool):
            self.path.append(cond)     # definitional
        return r

    def rounded_to(self, x, k):
        """some number within half of 1/k of x"""
        val = None
        if self.model is not None:
            try:
                val = F(round(x.value(self.model) * k)) / k
            except (ZeroDivisionError, KeyError):
                val = None
        r = self.fresh("round", None, None, val)
        for cond in (compare(r, x + 1 / (2 * k), "<="), compare(x - 1 / (2 * k), r, "<=")):
            if isinstance(cond, SymBool):
                self.path.append(cond)     # definitional
        return r

    # ------------------------------------------------------------ exploring
    def explore(self, fn, on_path):
        """run fn() once per feasible path; on_path(kind, payload) after each"""
        global ENGINE
        ENGINE = self
        self.work = [([], {})]
        while self.work:
            if self.stats["paths"] >= self.max_paths:
                self.inconclusive.append(f"path limit {self.max_paths} reached, {len(self.work)} pending")
                break
            if self.deadline and time.time() > self.deadline:
                self.inconclusive.append(f"time budget reached, {len(self.work)} pending")
                break
            prefix, model = self.work.pop()
            self.reset_path(prefix, None if model is None else dict(model))
            try:
                out = fn()
                kind, payload = "ok", out
            except PathInfeasible:
                self.stats["infeasible"] += 1
                continue
            except PathLimit as e:
                self.inconclusive.append(f"path cut: {e}")
                continue
            except Unsupported as e:
                kind, payload = "unsupported", e
            except EngineSignal:
                raise
            except Exception as e:
                kind, payload = "exception", e
            self.stats["paths"] += 1
            on_path(kind, payload)


ENGINE: Engine = None


def set_engine(e):
    global ENGINE
    ENGINE = e
