"""numpy (and scipy / math) as the code under test sees them.

Floating-point arrays become object arrays of exact symbolic reals (RArr);
integer and boolean arrays stay ordinary numpy arrays.  Every function that is
not modelled falls through to numpy itself on the object array.
"""
from __future__ import annotations
import builtins
import math as _math
import operator
import types
from fractions import Fraction as F

from . import canvas

import numpy as np

from . import sym
from . import linalg as LA
from .sym import SymReal, SymBool, S_ZERO, S_ONE, ite, sym_and, sym_or, sym_not, Unsupported

_builtin_float = builtins.float


class _Uninit:
    """value of a np.empty() cell nobody has written"""

    def _bad(self, *a, **k):
        raise Unsupported("read of an uninitialised array cell")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __neg__ = __abs__ = __bool__ = __float__ = _bad

    def __deepcopy__(self, memo):
        return self


UNINIT = _Uninit()


# ---------------------------------------------------------------- the float type
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymReal, _builtin_float))

    def __subclasscheck__(cls, c):
        return issubclass(c, (SymReal, _builtin_float))

    def __eq__(cls, o):
        return o is cls or o is _builtin_float

    def __hash__(cls):
        return hash(_builtin_float)


TOKENS = {}     # digit strings standing for symbolic numbers


def token(v):
    t = f"{7310000000 + len(TOKENS)}.50"
    TOKENS[t] = v
    return t




class float_(metaclass=_FloatMeta):
    def __new__(cls, x=0):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, str):
            s = x.strip()
            if s in TOKENS:
                return TOKENS[s]
            if s[:1] in "+-" and s[1:] in TOKENS:
                return -TOKENS[s[1:]] if s[0] == "-" else TOKENS[s[1:]]
            f = _builtin_float(s)
            if f != f or f in (_builtin_float("inf"), _builtin_float("-inf")):
                return f
            return SymReal.of(F(s.replace("_", "")))
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            return float_(x.reshape(-1)[0])
        if isinstance(x, _builtin_float) and not _math.isfinite(x):
            return x
        if x is None:
            raise TypeError("float() argument must be a string or a real number, not 'NoneType'")
        if isinstance(x, (list, tuple, dict, set)):
            raise TypeError(f"float() argument must be a string or a real number, not '{type(x).__name__}'")
        if sym.as_fraction(x) is None and hasattr(type(x), "__float__"):
            return SymReal.of(type(x).__float__(x))
        return SymReal.of(x)

    fromhex = staticmethod(_builtin_float.fromhex)


float_.__name__ = "float"
float_.__qualname__ = "float"


def is_float_dtype(dt):
    if dt is None:
        return False
    if dt is float_ or dt is _builtin_float:
        return True
    if isinstance(dt, str):
        return dt.startswith("f") or dt in ("d", "double")
    try:
        return np.issubdtype(dt, np.floating)
    except TypeError:
        return False


def is_obj_dtype(dt):
    return dt is object or dt == np.dtype(object)


def norm_dtype(dt):
    if dt is float_:
        return _builtin_float
    return dt


def cell(v):
    """what a float array stores"""
    if isinstance(v, SymReal) or v is UNINIT:
        return v
    if isinstance(v, (_builtin_float, np.floating)) and not _math.isfinite(v):
        return _builtin_float(v)
    if v is None:
        raise TypeError("float() argument must be a string or a real number, not 'NoneType'")
    if isinstance(v, str):
        return float_(v)
    if isinstance(v, np.ndarray):
        if v.size == 1:
            return cell(v.reshape(-1)[0])
        raise ValueError("setting an array element with a sequence.")
    return SymReal.of(v)


_cell = np.frompyfunc(cell, 1, 1)


def has_sym(x):
    return isinstance(x, (SymReal, SymBool))


# ---------------------------------------------------------------- arrays
class _Arr(np.ndarray):
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return apply_ufunc(ufunc, method, inputs, kw)

    def __getitem__(self, idx):
        r = np.ndarray.__getitem__(self, fix_index(idx))
        return r

    def __deepcopy__(self, memo):
        return np.array(self, dtype=object, copy=True).view(type(self))

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")


class RArr(_Arr):
    """float array"""

    def __setitem__(self, idx, val):
        if isinstance(val, np.ndarray):
            if val.dtype == object:
                val = val.view(np.ndarray)
                if not isinstance(val, RArr):
                    val = _cell(val) if val.size else val
            else:
                val = _cell(val.astype(object)) if val.size else val.astype(object)
        elif isinstance(val, (list, tuple)):
            val = to_float_array(val).view(np.ndarray)
        else:
            val = cell(val)
        np.ndarray.__setitem__(self, fix_index(idx), val)

    def astype(self, dt, *a, **k):
        return cast(self, dt)

    def clip(self, *a, **k):
        lo = a[0] if a else k.get("min")
        hi = a[1] if len(a) > 1 else k.get("max")
        return clip(self, lo, hi)

    def max(self, axis=None, **k):
        return amax(self, axis, **k)

    def min(self, axis=None, **k):
        return amin(self, axis, **k)

    def argmax(self, axis=None, **k):
        return argmax(self, axis)

    def argmin(self, axis=None, **k):
        return argmin(self, axis)

    def argsort(self, axis=-1, **k):
        return argsort(self, axis)

    def sort(self, *a, **k):
        self[...] = sort(self)

    def sum(self, axis=None, **k):
        return sum_(self, axis, **{q: w for q, w in k.items() if q == "keepdims"})

    def mean(self, axis=None, **k):
        return mean(self, axis)

    def round(self, decimals=0, **k):
        return around(self, decimals)

    def cumsum(self, axis=None, **k):
        return cumsum(self, axis)

    def nonzero(self):
        return nonzero(self)

    def any(self, axis=None, **k):
        return any_(self, axis)

    def all(self, axis=None, **k):
        return all_(self, axis)

    def dot(self, o):
        return matmul(self, o)

    def item(self, *a):
        return np.ndarray.item(self, *a)

    @property
    def real(self):
        return self

    def tobytes(self, *a, **k):
        raise Unsupported("tobytes")


class BArr(_Arr):
    """boolean array with undecided entries"""

    def __setitem__(self, idx, val):
        np.ndarray.__setitem__(self, fix_index(idx), val)

    def any(self, axis=None, **k):
        return any_(self, axis)

    def all(self, axis=None, **k):
        return all_(self, axis)

    def nonzero(self):
        return nonzero(self)

    def sum(self, axis=None, **k):
        return to_bool_array(self).sum(axis=axis)

    def astype(self, dt, *a, **k):
        return cast(self, dt)

    def argmax(self, axis=None, **k):
        return to_bool_array(self).argmax(axis)


def fix_index(idx):
    if isinstance(idx, tuple):
        return tuple(fix_index1(i) for i in idx)
    return fix_index1(idx)


def fix_index1(i):
    if isinstance(i, BArr):
        return to_bool_array(i)
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, RArr):
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(i, SymReal):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    return i


def to_bool_array(a):
    a = np.asarray(a)
    if a.dtype == bool:
        return a
    out = np.empty(a.shape, dtype=bool)
    of, af = out.reshape(-1), np.ndarray.__array__(a).reshape(-1) if False else a.view(np.ndarray).reshape(-1)
    for i in range(af.size):
        of[i] = bool(af[i])
    return of.reshape(a.shape)


def wrap(o):
    """plain object ndarray -> RArr / BArr / bool array / scalar"""
    if not isinstance(o, np.ndarray):
        if isinstance(o, (np.bool_,)):
            return bool(o)
        return o
    if o.dtype != object:
        return o
    if o.ndim == 0:
        return o.item()
    if o.size == 0:
        return o.view(RArr)
    kinds = 0
    for v in o.flat:
        if isinstance(v, (bool, np.bool_)):
            kinds |= 1
        elif isinstance(v, SymBool):
            kinds |= 2
        else:
            kinds |= 4
            break
    if kinds == 1:
        return o.astype(bool)
    if kinds in (2, 3):
        return o.view(BArr)
    return o.view(RArr)


def to_float_array(x):
    """float array from anything array-like"""
    if isinstance(x, RArr):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            o = _cell(x.view(np.ndarray)) if x.size else x.view(np.ndarray)
        else:
            o = _cell(x.astype(object)) if x.size else x.astype(object)
        if not isinstance(o, np.ndarray):
            a = np.empty((), dtype=object)
            a[()] = o
            o = a
        return o.view(RArr)
    a = obj_array(x)
    if a.size:
        o = _cell(a)
        if not isinstance(o, np.ndarray):
            z = np.empty((), dtype=object)
            z[()] = o
            o = z
    else:
        o = a
    return o.view(RArr)


def obj_array(x):
    """object ndarray with list nesting as shape"""
    if isinstance(x, np.ndarray):
        return x.astype(object) if x.dtype != object else x.view(np.ndarray)
    if isinstance(x, (list, tuple, range)):
        items = [obj_array(i) if isinstance(i, (list, tuple, range, np.ndarray)) else i for i in x]
        subs = [i for i in items if isinstance(i, np.ndarray)]
        if subs and len(subs) != len(items):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        if subs:
            if len({s.shape for s in subs}) != 1:
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
            o = np.empty((len(items),) + subs[0].shape, dtype=object)
            for k, s in enumerate(subs):
                o[k] = s
            return o
        o = np.empty(len(items), dtype=object)
        for k, v in enumerate(items):
            o[k] = v
        return o
    if hasattr(x, "__iter__") and not isinstance(x, (str, dict, SymReal)):
        return obj_array(list(x))
    o = np.empty((), dtype=object)
    o[()] = x
    return o


def leaf_kinds(x):
    """set of {'f','i','b','o'} occurring in nested data"""
    if isinstance(x, np.ndarray):
        if isinstance(x, RArr):
            return {"f"}
        if isinstance(x, BArr):
            return {"B"}
        if x.dtype == object:
            s = set()
            for v in x.flat:
                s |= leaf_kinds(v)
            return s
        return {x.dtype.kind}
    if isinstance(x, (list, tuple, range)):
        s = set()
        for v in x:
            s |= leaf_kinds(v)
        return s
    if isinstance(x, SymReal) or isinstance(x, (_builtin_float, np.floating)):
        return {"f"}
    if isinstance(x, SymBool):
        return {"B"}
    if isinstance(x, (bool, np.bool_)):
        return {"b"}
    if isinstance(x, (int, np.integer)):
        return {"i"}
    if isinstance(x, F):
        return {"f"}
    return {"O"}


def array(x, dtype=None, copy=True, ndmin=0, **k):
    r = asarray(x, dtype)
    if isinstance(r, np.ndarray):
        r = r.copy()
        while r.ndim < ndmin:
            r = r[np.newaxis]
    return r


def asarray(x, dtype=None, **k):
    if dtype is not None:
        if is_float_dtype(dtype):
            if isinstance(x, SymReal):
                return to_float_array(x)
            return to_float_array(x)
        if is_obj_dtype(dtype):
            return obj_array(x)
        if isinstance(x, (RArr, BArr)):
            return cast(x, dtype)
        kinds = leaf_kinds(x)
        if kinds & {"f", "B"}:
            return cast(array(x), dtype)
        return np.asarray(x, dtype=norm_dtype(dtype))
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "f":
            return to_float_array(x)
        return x
    if not isinstance(x, (list, tuple, range)) and hasattr(x, "__iter__") and not isinstance(x, (str, dict)):
        x = list(x) if not isinstance(x, SymReal) else x
    kinds = leaf_kinds(x)
    if "O" in kinds:
        try:
            return np.asarray(x) if not (kinds & {"f"}) else obj_array(x)
        except ValueError:
            raise
    if "f" in kinds or not kinds:
        return to_float_array(x)
    if "B" in kinds:
        return wrap(obj_array(x))
    return np.asarray(x)


def cast_scalar(x, dt):
    if is_float_dtype(dt):
        return SymReal.of(x)
    if dt is bool or dt == np.dtype(bool):
        return bool(x)
    return int(x)


def cast(a, dt):
    if is_float_dtype(dt):
        return to_float_array(a).copy()
    if is_obj_dtype(dt):
        return a.view(np.ndarray).copy()
    flat = a.view(np.ndarray).reshape(-1)
    if dt is bool or dt == np.dtype(bool):
        return np.array([bool(v) for v in flat], dtype=bool).reshape(a.shape)
    if dt is str or np.dtype(dt).kind in "US":
        return np.array([str(v) for v in flat]).reshape(a.shape)
    return np.array([int(v) for v in flat], dtype=dt).reshape(a.shape)


# ---------------------------------------------------------------- elementwise
def exact_div(a, b):
    if has_sym(a) or has_sym(b):
        if isinstance(a, SymBool):
            a = int(a)
        if isinstance(b, SymBool):
            b = int(b)
        if isinstance(b, (_builtin_float, np.floating)) and not _math.isfinite(b):
            return S_ZERO if not _math.isnan(b) else b
        return a / b
    fa, fb = sym.as_fraction(a), sym.as_fraction(b)
    if fa is None or fb is None:
        return a / b
    return SymReal.of(fa) / SymReal.of(fb)


def div(a, b):
    """the '/' operator of the code under test"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if isinstance(a, (RArr, BArr)) or isinstance(b, (RArr, BArr)):
            return a / b
        fa = a if not isinstance(a, np.ndarray) else to_float_array(a)
        fb = b if not isinstance(b, np.ndarray) else to_float_array(b)
        return fa / fb
    if has_sym(a) or has_sym(b):
        return exact_div(a, b)
    if sym.as_fraction_ok(a) and sym.as_fraction_ok(b):
        return exact_div(a, b)
    return a / b


def _fok(x):
    return isinstance(x, (int, F, _builtin_float, np.integer, np.floating)) and (
        not isinstance(x, (_builtin_float, np.floating)) or _math.isfinite(x))


sym.as_fraction_ok = _fok


def smax(a, b):
    if not has_sym(a) and not has_sym(b):
        return a if a >= b else b
    c = a >= b
    if isinstance(c, SymBool) and sym.ENGINE.merge:
        return ite(c, a, b)
    return a if c else b


def smin(a, b):
    if not has_sym(a) and not has_sym(b):
        return a if a <= b else b
    c = a <= b
    if isinstance(c, SymBool) and sym.ENGINE.merge:
        return ite(c, a, b)
    return a if c else b


def spow(a, b):
    if isinstance(b, SymReal) and b.is_const():
        b = b.const()
    if isinstance(a, SymReal) or isinstance(b, SymReal):
        return a ** b
    fa, fb = sym.as_fraction(a), sym.as_fraction(b)
    return SymReal.of(fa) ** fb


def ssign(a):
    a = SymReal.of(a)
    if bool(a > 0):
        return S_ONE
    return -S_ONE if bool(a < 0) else S_ZERO


def heav(x, h):
    x = SymReal.of(x)
    if sym.ENGINE.merge:
        return ite(x < 0, S_ZERO, ite(x == 0, SymReal.of(h), S_ONE))
    if bool(x < 0):
        return S_ZERO
    return SymReal.of(h) if bool(x == 0) else S_ONE


def num_only(name, fn):
    def f(a, *b):
        vals = []
        for v in (a,) + b:
            v = SymReal.of(v)
            if not v.is_const():
                raise Unsupported(f"{name} of a symbolic value")
            vals.append(_builtin_float(v.const()))
        return SymReal.of(fn(*vals))
    return f


def sabs(a):
    return abs(a)


def sfinite(a):
    if isinstance(a, (_builtin_float, np.floating)):
        return _math.isfinite(a)
    return True


def snan(a):
    return isinstance(a, (_builtin_float, np.floating)) and _math.isnan(a)


def sinf(a):
    return isinstance(a, (_builtin_float, np.floating)) and _math.isinf(a)


def sfloor(a):
    return sym.floor(a)


def sceil(a):
    return -sym.floor(-a)


def srint(a):
    return SymReal.of(round(SymReal.of(a)))


def ssqrt(a):
    return SymReal.of(a) ** F(1, 2)


def land(a, b):
    return sym_and(a if isinstance(a, SymBool) else bool(a), b if isinstance(b, SymBool) else bool(b))


def lor(a, b):
    return sym_or(a if isinstance(a, SymBool) else bool(a), b if isinstance(b, SymBool) else bool(b))


def lxor(a, b):
    return bool(a) != bool(b)


def lnot(a):
    return sym_not(a if isinstance(a, SymBool) else bool(a))


def band(a, b):
    if isinstance(a, (SymBool, bool)) or isinstance(b, (SymBool, bool)):
        return land(a, b)
    return a & b


def bor(a, b):
    if isinstance(a, (SymBool, bool)) or isinstance(b, (SymBool, bool)):
        return lor(a, b)
    return a | b


def inv(a):
    if isinstance(a, (SymBool, bool, np.bool_)):
        return lnot(a)
    return ~a


OPS = {
    "add": operator.add, "subtract": operator.sub, "multiply": operator.mul, "divide": exact_div,
    "true_divide": exact_div, "floor_divide": operator.floordiv, "remainder": operator.mod, "mod": operator.mod,
    "power": spow, "float_power": spow, "negative": operator.neg, "positive": operator.pos,
    "absolute": sabs, "fabs": sabs, "sqrt": ssqrt, "square": lambda a: a * a, "sign": ssign,
    "reciprocal": lambda a: exact_div(1, a), "conjugate": lambda a: a,
    "less": operator.lt, "less_equal": operator.le, "greater": operator.gt, "greater_equal": operator.ge,
    "equal": operator.eq, "not_equal": operator.ne,
    "maximum": smax, "minimum": smin, "fmax": smax, "fmin": smin, "heaviside": heav,
    "logical_and": land, "logical_or": lor, "logical_xor": lxor, "logical_not": lnot,
    "bitwise_and": band, "bitwise_or": bor, "bitwise_xor": lxor, "invert": inv,
    "isfinite": sfinite, "isnan": snan, "isinf": sinf, "floor": sfloor, "ceil": sceil, "rint": srint,
    "trunc": lambda a: SymReal.of(int(a)),
    "sin": num_only("sin", _math.sin), "cos": num_only("cos", _math.cos), "tan": num_only("tan", _math.tan),
    "exp": num_only("exp", _math.exp), "log": num_only("log", _math.log), "log10": num_only("log10", _math.log10),
    "arctan": num_only("arctan", _math.atan), "arctan2": num_only("arctan2", _math.atan2),
    "radians": lambda a: a * SymReal.of(_math.pi) / 180, "deg2rad": lambda a: a * SymReal.of(_math.pi) / 180,
    "hypot": lambda a, b: ssqrt(a * a + b * b),
}
_UF = {k: np.frompyfunc(v, v.__code__.co_argcount if isinstance(v, types.FunctionType) and not v.__code__.co_flags & 4 else
                        (1 if k in ("negative", "positive", "sin", "cos", "tan", "exp", "log", "log10", "arctan") else 2), 1)
       for k, v in OPS.items()}
IDENT = {"add": S_ZERO, "multiply": S_ONE, "logical_and": True, "logical_or": False, "bitwise_or": False, "bitwise_and": True}


def plain(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x.view(np.ndarray)
        return x.astype(object)
    if isinstance(x, (list, tuple)):
        return obj_array(x)
    if isinstance(x, np.generic):
        return x.item()
    return x


def apply_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop("out", None)
    if out is not None and not isinstance(out, tuple):
        out = (out,)
    where_ = kw.pop("where", True)
    kw.pop("dtype", None)
    kw.pop("casting", None)
    if name == "matmul" and method == "__call__":
        r = matmul(inputs[0], inputs[1])
    elif name not in OPS:
        raise Unsupported(f"numpy ufunc {name}")
    elif method == "__call__":
        f = _UF[name]
        ins = [plain(i) for i in inputs]
        if not any(isinstance(i, np.ndarray) for i in ins):
            r = OPS[name](*ins)
        else:
            scal = []
            for i in ins:
                if not isinstance(i, np.ndarray):
                    z = np.empty((), dtype=object)
                    z[()] = i
                    i = z
                scal.append(i)
            if where_ is not True:
                m = to_bool_array(asarray(where_))
                shape = np.broadcast_shapes(*[np.shape(i) for i in scal], m.shape)
                bs = [np.broadcast_to(i, shape) for i in scal]
                m = np.broadcast_to(m, shape)
                base = out[0] if out else None
                res = np.empty(shape, dtype=object)
                for ix in np.ndindex(*shape):
                    if m[ix]:
                        res[ix] = OPS[name](*[b[ix] for b in bs])
                    else:
                        res[ix] = base[ix] if base is not None else UNINIT
                r = wrap(res)
            else:
                r = wrap(f(*scal))
    elif method == "reduce":
        r = reduce_(OPS[name], inputs[0], kw.get("axis", 0), kw.get("keepdims", False),
                    kw.get("initial", IDENT.get(name)))
    elif method == "accumulate":
        r = accumulate(OPS[name], inputs[0], kw.get("axis", 0))
    elif method == "outer":
        a, b = plain(asarray(inputs[0])), plain(asarray(inputs[1]))
        r = wrap(_UF[name](a.reshape(a.shape + (1,) * b.ndim), b))
    else:
        raise Unsupported(f"ufunc method {name}.{method}")
    if out:
        o = out[0] if isinstance(out, tuple) else out
        o[...] = r
        return o
    return r


def reduce_(fn, a, axis=None, keepdims=False, initial=None):
    a = plain(asarray(a))
    if isinstance(axis, (list, tuple)):
        if len(axis) == a.ndim:
            axis = None
        else:
            for ax in sorted((x % a.ndim for x in axis), reverse=True):
                a = plain(reduce_(fn, a, ax, keepdims, initial))
            return wrap(a)
    if axis is None:
        vals = list(a.reshape(-1))
        if not vals:
            if initial is None:
                raise ValueError("zero-size array to reduction operation which has no identity")
            return initial
        acc = vals[0]
        for v in vals[1:]:
            acc = fn(acc, v)
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o[...] = acc
            return wrap(o)
        return acc
    axis = axis % a.ndim
    m = np.moveaxis(a, axis, 0)
    if m.shape[0] == 0:
        if initial is None:
            raise ValueError("zero-size array to reduction operation which has no identity")
        o = np.empty(m.shape[1:], dtype=object)
        o.fill(initial)
        return wrap(o)
    acc = m[0]
    f2 = fn if m.ndim == 1 else np.frompyfunc(fn, 2, 1)
    for k in range(1, m.shape[0]):
        acc = f2(acc, m[k])
    if not isinstance(acc, np.ndarray):
        return acc
    acc = wrap(acc.copy())
    if keepdims:
        acc = np.expand_dims(acc, axis)
    return acc


def accumulate(fn, a, axis=0):
    a = plain(asarray(a))
    m = np.moveaxis(a, axis, 0)
    o = np.empty(m.shape, dtype=object)
    f2 = fn if m.ndim == 1 else np.frompyfunc(fn, 2, 1)
    for k in range(m.shape[0]):
        o[k] = m[k] if k == 0 else f2(o[k - 1], m[k])
    return wrap(np.moveaxis(o, 0, axis))


def matmul(a, b):
    a, b = asarray(a), asarray(b)
    A, B = plain(a), plain(b)
    if A.ndim == 0 or B.ndim == 0:
        return wrap(np.multiply(A, B))
    if A.shape[-1] != (B.shape[-2] if B.ndim > 1 else B.shape[0]):
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    if A.shape[-1] == 0:
        sh = A.shape[:-1] + (B.shape[1:] if B.ndim > 1 else ())
        return zeros(sh) if sh else S_ZERO
    r = np.dot(A, B)
    return wrap(r) if isinstance(r, np.ndarray) else r


# ---------------------------------------------------------------- constructors
def full(shape, v, dtype=None, **k):
    if dtype is not None and not is_float_dtype(dtype):
        return np.full(shape, v, dtype=norm_dtype(dtype))
    if dtype is None and isinstance(v, (bool, np.bool_)):
        return np.full(shape, v)
    if dtype is None and isinstance(v, (int, np.integer)):
        return np.full(shape, v)
    if isinstance(v, (list, tuple, np.ndarray)):
        o = np.empty(shape, dtype=object).view(RArr)
        o[...] = to_float_array(v)
        return o
    if isinstance(shape, SymReal):
        raise TypeError("'float' object cannot be interpreted as an integer")
    o = np.empty(shape, dtype=object)
    o.fill(cell(v))
    return o.view(RArr)


def zeros(shape, dtype=None, **k):
    if dtype is not None and not is_float_dtype(dtype):
        return np.zeros(shape, dtype=norm_dtype(dtype))
    return full(shape, S_ZERO)


def ones(shape, dtype=None, **k):
    if dtype is not None and not is_float_dtype(dtype):
        return np.ones(shape, dtype=norm_dtype(dtype))
    return full(shape, S_ONE)


def empty(shape, dtype=None, **k):
    if dtype is not None and not is_float_dtype(dtype):
        return np.empty(shape, dtype=norm_dtype(dtype))
    o = np.empty(shape, dtype=object)
    o.fill(UNINIT)
    return o.view(RArr)


def _like(maker):
    def f(a, dtype=None, **k):
        a = asarray(a)
        if dtype is None:
            if isinstance(a, RArr):
                return maker(a.shape)
            dtype = bool if isinstance(a, BArr) else a.dtype
        return maker(a.shape, dtype=dtype)
    return f


zeros_like, ones_like, empty_like = _like(zeros), _like(ones), _like(empty)


def full_like(a, v, dtype=None, **k):
    a = asarray(a)
    if dtype is None and isinstance(a, RArr):
        return full(a.shape, SymReal.of(v))
    return full(a.shape, v, dtype or (None if isinstance(a, RArr) else a.dtype))


def eye(n, m=None, k=0, dtype=None, **kw):
    o = zeros((n, m or n))
    for i in range(n):
        if 0 <= i + k < (m or n):
            o[i, i + k] = 1
    return o


def arange(*a, dtype=None, **k):
    if not any(isinstance(v, (SymReal, _builtin_float, np.floating, F)) for v in a) and not is_float_dtype(dtype):
        return np.arange(*a, dtype=norm_dtype(dtype))
    if len(a) == 1:
        start, stop, step = S_ZERO, a[0], S_ONE
    else:
        start, stop = a[0], a[1]
        step = a[2] if len(a) > 2 else S_ONE
    start, stop, step = SymReal.of(start), SymReal.of(stop), SymReal.of(step)
    q = (stop - start) / step
    n = -(-q).__floor__()
    n = max(int(n), 0)
    return to_float_array([start + step * i for i in range(n)])


def linspace(a, b, num=50, endpoint=True, retstep=False, **k):
    num = operator.index(num)
    a, b = SymReal.of(a), SymReal.of(b)
    dv = num - 1 if endpoint else num
    st = (b - a) / dv if dv > 0 else S_ZERO
    r = to_float_array([a + st * i if not (endpoint and i == num - 1 and num > 1) else b for i in range(num)])
    return (r, st) if retstep else r


def atleast_1d(*xs):
    r = []
    for x in xs:
        a = asarray(x)
        r.append(a.reshape(1) if a.ndim == 0 else a)
    return r[0] if len(r) == 1 else r


def atleast_2d(x):
    a = asarray(x)
    while a.ndim < 2:
        a = a[np.newaxis]
    return a


def _norm_seq(seq):
    arrs = [asarray(s) for s in seq]
    if any(isinstance(a, RArr) for a in arrs):
        return [to_float_array(a).view(np.ndarray) for a in arrs], RArr
    if any(isinstance(a, BArr) for a in arrs):
        return [a.astype(object) if a.dtype != object else a.view(np.ndarray) for a in arrs], BArr
    return arrs, None


def _join(fn):
    def f(seq, *a, **k):
        arrs, cls = _norm_seq(seq)
        r = fn(arrs, *a, **k)
        return r.view(cls) if cls else r
    return f


concatenate, hstack, vstack, column_stack, stack = map(
    _join, (np.concatenate, np.hstack, np.vstack, np.column_stack, np.stack))


def append(a, v, axis=None):
    a, v = asarray(a), asarray(v)
    if axis is None:
        return concatenate([a.reshape(-1), v.reshape(-1)])
    return concatenate([a, v], axis=axis)


def insert(a, idx, v, axis=None):
    a = asarray(a)
    va = asarray(v)
    if isinstance(a, RArr):
        r = np.insert(a.view(np.ndarray), idx, plain(to_float_array(va)) if va.ndim else cell(v), axis)
        return r.view(RArr)
    if isinstance(va, RArr) and a.dtype.kind in "iub":
        # numpy casts the values to the array's dtype
        va = cast(va, a.dtype) if va.ndim else cast_scalar(va.item(), a.dtype)
    return np.insert(a, idx, va, axis)


def delete(a, idx, axis=None):
    a = asarray(a)
    idx = idx if isinstance(idx, (slice, int)) else asarray(idx)
    if isinstance(idx, BArr):
        idx = to_bool_array(idx)
    r = np.delete(a.view(np.ndarray) if a.dtype == object else a, idx, axis)
    return r.view(type(a)) if a.dtype == object else r


def copy_(a, **k):
    return array(a)


# ---------------------------------------------------------------- reductions
def sum_(a, axis=None, keepdims=False, initial=None, where=None, **k):
    a = asarray(a)
    if where is not None:
        a = asarray(globals()["where"](where, a, S_ZERO))
    if not isinstance(a, RArr):
        if isinstance(a, BArr):
            a = to_bool_array(a)
        r = np.sum(a, axis=axis, keepdims=keepdims)
    else:
        r = reduce_(operator.add, a, axis, keepdims, S_ZERO)
    return r if initial is None else r + initial


def prod(a, axis=None, **k):
    a = asarray(a)
    if not isinstance(a, RArr):
        return np.prod(a, axis=axis)
    return reduce_(operator.mul, a, axis, False, S_ONE)


def amax(a, axis=None, keepdims=False, initial=None, **k):
    a = asarray(a)
    if not isinstance(a, RArr):
        return np.max(a, axis=axis, keepdims=keepdims)
    r = reduce_(smax, a, axis, keepdims)
    return r if initial is None else smax(r, initial)


def amin(a, axis=None, keepdims=False, initial=None, **k):
    a = asarray(a)
    if not isinstance(a, RArr):
        return np.min(a, axis=axis, keepdims=keepdims)
    r = reduce_(smin, a, axis, keepdims)
    return r if initial is None else smin(r, initial)


def ptp(a, axis=None):
    return amax(a, axis) - amin(a, axis)


def mean(a, axis=None, **k):
    a = to_float_array(asarray(a))
    n = a.size if axis is None else a.shape[axis]
    return sum_(a, axis) / n


def average(a, axis=None, weights=None):
    if weights is None:
        return mean(a, axis)
    w = to_float_array(asarray(weights))
    return sum_(to_float_array(asarray(a)) * w) / sum_(w)


def any_(a, axis=None, **k):
    a = asarray(a)
    if isinstance(a, RArr):
        a = a != 0
        a = asarray(a)
    if not isinstance(a, BArr):
        return np.any(a, axis=axis)
    if axis is not None:
        return wrap(plain(reduce_(lor, a, axis)))
    return sym_or(*list(a.view(np.ndarray).reshape(-1)))


def all_(a, axis=None, **k):
    a = asarray(a)
    if isinstance(a, RArr):
        a = asarray(a != 0)
    if not isinstance(a, BArr):
        return np.all(a, axis=axis)
    if axis is not None:
        return wrap(plain(reduce_(land, a, axis)))
    return sym_and(*list(a.view(np.ndarray).reshape(-1)))


def cumsum(a, axis=None, **k):
    a = asarray(a)
    if not isinstance(a, RArr):
        return np.cumsum(a, axis=axis)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    return accumulate(operator.add, a, axis)


def cumprod(a, axis=None, **k):
    a = asarray(a)
    if not isinstance(a, RArr):
        return np.cumprod(a, axis=axis)
    return accumulate(operator.mul, a.reshape(-1), 0)


def argext(a, better, axis=None):
    a = asarray(a)
    if axis is not None and a.ndim > 1:
        m = np.moveaxis(a, axis, -1)
        sh = m.shape[:-1]
        o = np.empty(sh, dtype=int)
        for ix in np.ndindex(*sh):
            o[ix] = argext(m[ix], better)
        return o
    v = list(a.view(np.ndarray).reshape(-1))
    if not v:
        raise ValueError("attempt to get argmax of an empty sequence")
    best = 0
    for i in range(1, len(v)):
        if bool(better(v[i], v[best])):
            best = i
    return np.intp(best)


def argmax(a, axis=None, **k):
    a = asarray(a)
    if not isinstance(a, (RArr, BArr)):
        return np.argmax(a, axis)
    if isinstance(a, BArr):
        return np.argmax(to_bool_array(a), axis)
    return argext(a, operator.gt, axis)


def argmin(a, axis=None, **k):
    a = asarray(a)
    if not isinstance(a, (RArr, BArr)):
        return np.argmin(a, axis)
    return argext(a, operator.lt, axis)


import functools


def _cmpkey(x, y):
    if x is y:
        return 0
    if bool(x < y):
        return -1
    return 1 if bool(y < x) else 0


def argsort(a, axis=-1, **k):
    a = asarray(a)
    if not isinstance(a, RArr):
        return np.argsort(a, axis=axis, kind="stable")
    if a.ndim > 1 and axis is not None:
        m = np.moveaxis(a, axis, -1)
        out = np.zeros(m.shape, dtype=int)
        for ix in np.ndindex(*m.shape[:-1]):
            out[ix] = argsort(m[ix])
        return np.moveaxis(out, -1, axis)
    a = a.ravel()
    v = list(a.view(np.ndarray))
    return np.array(sorted(range(len(v)), key=functools.cmp_to_key(lambda i, j: _cmpkey(v[i], v[j]))), dtype=int)


def sort(a, axis=-1, **k):
    a = asarray(a)
    if not isinstance(a, RArr):
        return np.sort(a, axis=axis)
    if a.ndim == 1:
        return to_float_array(sorted(list(a.view(np.ndarray)), key=functools.cmp_to_key(_cmpkey)))
    m = np.moveaxis(a, axis, -1).copy()
    for ix in np.ndindex(*m.shape[:-1]):
        m[ix] = sort(m[ix])
    return np.moveaxis(m, -1, axis)


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = asarray(a)
    if not isinstance(a, RArr):
        return np.unique(a, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts,
                         axis=axis)
    if axis is not None:
        raise Unsupported("unique with an axis")
    a = a.reshape(-1)
    order = argsort(a)
    vals, idx, inv_, cnt = [], [], np.zeros(a.size, dtype=int), []
    for i in order:
        v = np.ndarray.__getitem__(a, i)
        if vals and (v is vals[-1] or bool(v == vals[-1])):
            idx[-1] = min(idx[-1], int(i))
            cnt[-1] += 1
        else:
            vals.append(v)
            idx.append(int(i))
            cnt.append(1)
        inv_[i] = len(vals) - 1
    out = [to_float_array(vals)]
    if return_index:
        out.append(np.array(idx, dtype=int))
    if return_inverse:
        out.append(inv_)
    if return_counts:
        out.append(np.array(cnt, dtype=int))
    return out[0] if len(out) == 1 else tuple(out)


def nonzero(a):
    a = asarray(a)
    if isinstance(a, RArr):
        a = asarray(a != 0)
    return np.nonzero(to_bool_array(a) if isinstance(a, BArr) else a)


def flatnonzero(a):
    return nonzero(asarray(a).reshape(-1))[0]


def argwhere(a):
    return np.transpose(nonzero(a))


def count_nonzero(a, axis=None, **k):
    a = asarray(a)
    if isinstance(a, RArr):
        a = asarray(a != 0)
    return np.count_nonzero(to_bool_array(a) if isinstance(a, BArr) else a, axis=axis)


def where(c, *ab):
    c = asarray(c)
    if not ab:
        return nonzero(c)
    a, b = ab
    a, b = asarray(a), asarray(b)
    if isinstance(c, RArr):
        c = asarray(c != 0)
    floaty = isinstance(a, RArr) or isinstance(b, RArr)
    if not isinstance(c, BArr) and not floaty and a.dtype != object and b.dtype != object:
        return np.where(c, a, b)
    shape = np.broadcast_shapes(c.shape, a.shape, b.shape)
    C = np.broadcast_to(plain(c), shape)
    A = np.broadcast_to(plain(a), shape)
    B = np.broadcast_to(plain(b), shape)
    o = np.empty(shape, dtype=object)
    merge = sym.ENGINE.merge
    for ix in np.ndindex(*shape):
        k = C[ix]
        if merge and isinstance(k, SymBool) and not isinstance(A[ix], (_builtin_float,)) and not isinstance(B[ix], _builtin_float):
            if isinstance(A[ix], (bool, SymBool)):
                o[ix] = lor(land(k, A[ix]), land(lnot(k), B[ix]))
            else:
                o[ix] = ite(k, A[ix], B[ix])
        else:
            o[ix] = A[ix] if bool(k) else B[ix]
    if floaty and o.size:
        return _cell(o).view(RArr) if o.ndim else cell(o.item())
    if o.size and all(isinstance(v, (int, np.integer)) and not isinstance(v, bool) for v in o.flat):
        return o.astype(int)
    return wrap(o)


def select(conds, choices, default=0):
    r = full(np.shape(choices[0]), SymReal.of(default)) if not np.isscalar(default) or True else default
    for c, v in reversed(list(zip(conds, choices))):
        r = where(c, v, r)
    return r


def clip(a, lo=None, hi=None, out=None, **k):
    lo = k.get("a_min", k.get("min", lo))
    hi = k.get("a_max", k.get("max", hi))
    r = a if has_sym(a) else asarray(a)
    if isinstance(r, np.ndarray) and not isinstance(r, RArr) and not has_sym(lo) and not has_sym(hi) and \
            not isinstance(lo, np.ndarray) and not isinstance(hi, np.ndarray):
        return np.clip(r, lo, hi)
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def maximum(a, b, **k):
    return _np2(np.maximum, a, b, k)


def minimum(a, b, **k):
    return _np2(np.minimum, a, b, k)


def _np2(uf, a, b, k):
    if isinstance(a, (list, tuple)):
        a = asarray(a)
    if isinstance(b, (list, tuple)):
        b = asarray(b)
    if any(isinstance(v, (SymReal, RArr)) for v in (a, b)):
        return apply_ufunc(uf, "__call__", (a, b), dict(k))
    return uf(a, b, **k)


class UFunc:
    """np.<ufunc> as seen by the code under test"""

    def __init__(self, real):
        self.real = real
        self.__name__ = real.__name__

    def _prep(self, a):
        out = []
        for v in a:
            if isinstance(v, (list, tuple)):
                v = asarray(v)
            elif isinstance(v, np.ndarray) and v.dtype.kind == "f":
                v = to_float_array(v)
            elif isinstance(v, (_builtin_float, np.floating)) and _math.isfinite(v):
                v = SymReal.of(v)
            out.append(v)
        return out

    def __call__(self, *a, **k):
        a = self._prep(a)
        name = self.real.__name__
        if name in ("divide", "true_divide") and not any(isinstance(v, (SymReal, RArr)) for v in a):
            return div(*a)
        if name in ("sqrt", "sin", "cos", "tan", "exp", "log", "log10", "radians", "deg2rad", "arctan", "floor", "ceil") and \
                not any(isinstance(v, (SymReal, RArr)) for v in a):
            a = [to_float_array(v) if isinstance(v, np.ndarray) else SymReal.of(v) for v in a]
        if name == "isfinite" and not isinstance(a[0], (RArr, SymReal)):
            return np.isfinite(a[0])
        if any(has_sym(v) or isinstance(v, (RArr, BArr)) for v in a):
            return apply_ufunc(self.real, "__call__", a, dict(k))
        return self.real(*a, **k)

    def reduce(self, a, axis=0, **k):
        a = asarray(a)
        if isinstance(a, (RArr, BArr)):
            return apply_ufunc(self.real, "reduce", (a,), dict(k, axis=axis))
        return self.real.reduce(a, axis=axis, **k)

    def accumulate(self, a, axis=0, **k):
        a = asarray(a)
        if isinstance(a, (RArr, BArr)):
            return apply_ufunc(self.real, "accumulate", (a,), dict(k, axis=axis))
        return self.real.accumulate(a, axis=axis, **k)

    def outer(self, a, b):
        a, b = asarray(a), asarray(b)
        if isinstance(a, RArr) or isinstance(b, RArr):
            return apply_ufunc(self.real, "outer", (a, b), {})
        return self.real.outer(a, b)

    def reduceat(self, a, idx, axis=0, **k):
        a = asarray(a)
        if not isinstance(a, RArr):
            return self.real.reduceat(a, idx, axis=axis, **k)
        if a.ndim != 1:
            raise Unsupported("ufunc.reduceat on a matrix")
        idx = [int(i) for i in idx] + [len(a)]
        return to_float_array([_reduce(OPS[self.real.__name__], list(a[i:max(j, i + 1)])) for i, j in zip(idx[:-1], idx[1:])])

    def at(self, a, idx, v=None):
        ia = np.asarray(idx).reshape(-1) if not isinstance(idx, tuple) else None
        if ia is None:
            raise Unsupported("ufunc.at with tuple index")
        vals = asarray(v)
        for k, i in enumerate(ia):
            w = vals if vals.ndim == 0 else vals.reshape(-1)[k]
            a[i] = OPS[self.real.__name__](a[i], w if not isinstance(w, np.ndarray) else w.item())


# ---------------------------------------------------------------- misc numeric
def isclose(a, b, rtol=F(1, 10 ** 5), atol=F(1, 10 ** 8), equal_nan=False):
    def one(x, y):
        for v in (x, y):
            if isinstance(v, _builtin_float) and not _math.isfinite(v):
                return (not has_sym(x)) and (not has_sym(y)) and x == y
        x, y = SymReal.of(x), SymReal.of(y)
        d = x - y
        if d.t is None and not d.n:
            return True
        return abs(d) <= SymReal.of(atol) + SymReal.of(rtol) * abs(y)
    A, B = asarray(a), asarray(b)
    if A.ndim == 0 and B.ndim == 0:
        return one(plain(A).item() if isinstance(A, np.ndarray) else A, plain(B).item())
    f = np.frompyfunc(one, 2, 1)
    return wrap(f(plain(A), plain(B)))


def allclose(a, b, rtol=F(1, 10 ** 5), atol=F(1, 10 ** 8), **k):
    return bool(all_(isclose(a, b, rtol, atol)))


def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return bool(all_(a == b))


def interp(x, xp, fp, left=None, right=None, **k):
    xp, fp = list(plain(asarray(xp))), list(plain(asarray(fp)))

    def one(v):
        v = SymReal.of(v)
        if bool(v < xp[0]):
            return SymReal.of(fp[0] if left is None else left)
        if bool(v > xp[-1]):
            return SymReal.of(fp[-1] if right is None else right)
        for j in range(len(xp) - 1):
            if bool(v < xp[j + 1]):
                return SymReal.of(fp[j]) + (SymReal.of(fp[j + 1]) - fp[j]) * (v - xp[j]) / (SymReal.of(xp[j + 1]) - xp[j])
        return SymReal.of(fp[-1])
    X = asarray(x)
    if X.ndim == 0:
        return one(plain(X).item() if isinstance(X, np.ndarray) else X)
    return wrap(np.frompyfunc(one, 1, 1)(plain(X)))


def searchsorted(a, v, side="left", sorter=None):
    arr = list(plain(asarray(a)))

    def one(t):
        k = 0
        for e in arr:
            if bool(e < t) or (side == "right" and not bool(t < e)):
                k += 1
            else:
                break
        return k
    V = asarray(v)
    if V.ndim == 0:
        return np.intp(one(plain(V).item()))
    return np.array([one(t) for t in plain(V).reshape(-1)], dtype=int).reshape(V.shape)


def digitize(x, bins, right=False):
    return searchsorted(bins, x, side="left" if right else "right")


def diff(a, n=1, axis=-1, prepend=None, append=None):
    a = asarray(a)
    for v, first in ((prepend, True), (append, False)):
        if v is not None:
            v = asarray(v)
            if v.ndim == 0:
                shape = list(a.shape)
                shape[axis] = 1
                v = full(tuple(shape), v.item())
            a = concatenate([v, a] if first else [a, v], axis=axis)
    if not isinstance(a, RArr):
        return np.diff(a, n=n, axis=axis)
    for _ in range(n):
        m = np.moveaxis(a, axis, 0)
        a = np.moveaxis(m[1:] - m[:-1], 0, axis)
    return a


def polyval(p, x):
    p = list(plain(asarray(p)))
    if isinstance(x, (list, tuple)):
        x = asarray(x)
    if isinstance(x, np.ndarray):
        y = zeros(x.shape)
    else:
        y = S_ZERO
    for c in p:
        y = y * x + SymReal.of(c)
    return y


def polyfit(x, y, deg, **k):
    x = [SymReal.of(v) for v in plain(asarray(x))]
    y = [SymReal.of(v) for v in plain(asarray(y))]
    deg = operator.index(deg)
    V = [[v ** (deg - j) for j in range(deg + 1)] for v in x]
    n = deg + 1
    A = [[sum((V[r][i] * V[r][j] for r in range(len(x))), S_ZERO) for j in range(n)] for i in range(n)]
    if len(x) == n:
        X = LA.solve_cols(V, [[v] for v in y])
    else:
        b = [[sum((V[r][i] * y[r] for r in range(len(x))), S_ZERO)] for i in range(n)]
        X = LA.solve_cols(A, b)
    return to_float_array([r[0] for r in X])


def leggauss(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return to_float_array(x), to_float_array(w)


def around(a, decimals=0, **k):
    if isinstance(a, SymReal):
        return SymReal.of(a.__round__(decimals))
    a = asarray(a)
    if not isinstance(a, RArr):
        return np.around(a, decimals)
    return wrap(np.frompyfunc(lambda v: SymReal.of(v.__round__(decimals)), 1, 1)(plain(a)))


def isscalar(x):
    return isinstance(x, (SymReal, SymBool)) or np.isscalar(x)


def trapezoid(y, x=None, dx=1, axis=-1):
    y = to_float_array(asarray(y))
    if x is not None:
        d = diff(asarray(x))
    else:
        d = dx
    return sum_((y[1:] + y[:-1]) * d) / 2


def gradient(f, *a, **k):
    raise Unsupported("np.gradient")


def take_along_axis(a, idx, axis):
    a = asarray(a)
    r = np.take_along_axis(a.view(np.ndarray), np.asarray(idx), axis)
    return r.view(type(a)) if a.dtype == object else r


def meshgrid(*a, **k):
    r = np.meshgrid(*[plain(asarray(v)) for v in a], **k)
    return [wrap(v) for v in r]


def outer(a, b):
    return UFunc(np.multiply).outer(asarray(a).reshape(-1), asarray(b).reshape(-1))


def assert_equal(a, b, err_msg="", verbose=True):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if np.shape(a) != np.shape(b):
            raise AssertionError(err_msg or "shapes differ")
        if a is b:
            return
        for u, v in zip(plain(asarray(a)).reshape(-1), plain(asarray(b)).reshape(-1)):
            if u is v:
                continue
            if not bool(SymReal.of(u) == SymReal.of(v)):
                raise AssertionError(err_msg or "arrays differ")
        return
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            raise AssertionError(err_msg)
        for u, v in zip(a, b):
            assert_equal(u, v, err_msg)
        return
    if not bool(a == b):
        raise AssertionError(err_msg or f"{a} != {b}")


def savetxt(fname, X, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="", comments="# ", **k):
    X = asarray(X)
    if X.ndim == 1:
        X = X.reshape(-1, 1)

    def put(v):
        v = SymReal.of(v)
        if fmt[-1] in "fF" and fmt.startswith("%."):
            n = 10 ** int(fmt[2:-1])
            v = srint(v * n) / n
        elif not (fmt.endswith("e") and fmt.startswith("%.") and int(fmt[2:-1]) >= 15 or fmt in ("%r", "%s")):
            raise TypeError(f"savetxt format {fmt!r} not modelled")
        return token(v)
    text = ""
    if header:
        text += comments + header.replace("\n", "\n" + comments) + newline
    for row in X:
        text += delimiter.join(put(v) for v in row) + newline
    if footer:
        text += comments + footer.replace("\n", "\n" + comments) + newline
    if hasattr(fname, "write"):
        fname.write(text)
    else:
        FILES[str(fname)] = text


FILES = {}      # what savetxt wrote, by name




# ---------------------------------------------------------------- linalg
def solve(A, b):
    A, b = asarray(A), asarray(b)
    A = to_float_array(A)
    b = to_float_array(b)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise LA.LinAlgError("Last 2 dimensions of the array must be square")
    if b.ndim == 1:
        X = LA.solve_cols(A.view(np.ndarray), [[v] for v in b.view(np.ndarray)])
        return to_float_array([r[0] for r in X])
    X = LA.solve_cols(A.view(np.ndarray), b.view(np.ndarray))
    return to_float_array(X)


def inv_(A):
    A = to_float_array(asarray(A))
    n = A.shape[0]
    if n == 0:
        return zeros((0, 0))
    X = LA.solve_cols(A.view(np.ndarray), [[S_ONE if i == j else S_ZERO for j in range(n)] for i in range(n)])
    return to_float_array(X)


def det_(A):
    A = to_float_array(asarray(A))
    return LA._laplace(LA._rows(A.view(np.ndarray)))


def eigvalsh(A, *a, **k):
    """constant matrix: numpy's own eigenvalues; symbolic 1x1 (and 2x2 where the harness
    asks for it): the exact eigenvalues (by trace and determinant); otherwise a contract stub --
    the spectrum contains 0 exactly when the determinant is 0, and is otherwise
    well separated from it"""
    A = to_float_array(asarray(A))
    n = A.shape[0]
    rows = LA._rows(A.view(np.ndarray))
    if LA._all_const(rows):
        M = np.array([[_builtin_float(v.const()) for v in r] for r in rows])
        return to_float_array(np.linalg.eigvalsh(M))
    if n == 1:
        return to_float_array([rows[0][0]])
    det = LA.determinant(A.view(np.ndarray))
    if n == 2 and EIG_EXACT and not LA._is_zero(det):
        eng = sym.ENGINE
        det = SymReal.of(rows[0][0]) * rows[1][1] - SymReal.of(rows[0][1]) * rows[1][0]
        tr = SymReal.of(rows[0][0]) + rows[1][1]
        a = b = None
        if eng.model is not None:
            try:
                t, d = tr.value(eng.model), det.value(eng.model)
                r = _builtin_float(t * t / 4 - d)
                if r >= 0:
                    q = F(r ** 0.5)
                    a, b = t / 2 - q, t / 2 + q
            except (ZeroDivisionError, KeyError):
                pass
        l1 = eng.fresh("eig", None, None, a)
        l2 = eng.fresh("eig", None, None, b)
        for c in (sym.compare(l1 + l2, tr, "=="), sym.compare(l1 * l2, det, "=="), sym.compare(l1, l2, "<=")):
            if isinstance(c, SymBool):
                eng.path.append(c)
        return to_float_array([l1, l2])
    sing = LA._is_zero(det) or bool(det == 0)
    return to_float_array([S_ZERO if (sing and i == 0) else S_ONE for i in range(n)])


def matrix_rank(A, tol=None, **k):
    A = to_float_array(asarray(A))
    rows = LA._rows(A.view(np.ndarray))
    if LA._all_const(rows):
        t = None if tol is None else _builtin_float(SymReal.of(tol).const())
        return int(np.linalg.matrix_rank(np.array([[_builtin_float(v.const()) for v in r] for r in rows]), tol=t))
    # exact rank by elimination with case splits on the pivots
    rows = [list(r) for r in rows]
    rank = 0
    for c in range(len(rows[0])):
        p = next((i for i in range(rank, len(rows)) if not LA._is_zero(rows[i][c]) and not bool(rows[i][c] == 0)), None)
        if p is None:
            continue
        rows[rank], rows[p] = rows[p], rows[rank]
        for i in range(rank + 1, len(rows)):
            if not LA._is_zero(rows[i][c]):
                f = rows[i][c] / rows[rank][c]
                rows[i] = [a - f * b for a, b in zip(rows[i], rows[rank])]
        rank += 1
    return rank


def norm(a, ord=None, axis=None, **k):
    a = to_float_array(asarray(a))
    return ssqrt(sum_(a * a))


def cond(A, p=None):
    A = to_float_array(asarray(A))
    rows = LA._rows(A.view(np.ndarray))
    if LA._all_const(rows):
        return SymReal.of(_builtin_float(np.linalg.cond(np.array([[_builtin_float(v.const()) for v in r] for r in rows]))))
    det = LA.determinant(A.view(np.ndarray))
    if LA._is_zero(det) or bool(det == 0):
        return _builtin_float("inf")
    return S_ONE


EIGH = []     # problems handed to eigh on this path, with the symbolic answer


def eigh(A, B=None, **k):
    """stub: the first EIGH_MODES pairs are arbitrary (w ascending and positive, v); the problem they are taken to
    solve is recorded, so that a harness can compare it with its own: A v - w B v for these very pairs"""
    A = to_float_array(asarray(A))
    n = A.shape[0]
    eng = sym.ENGINE
    M = to_float_array(asarray(B)) if B is not None else eye(n)
    W, V, rec = [], zeros((n, n)), []
    keep = min(n, EIGH_MODES)
    for j in range(n):
        if j >= keep:
            W.append(S_ZERO if not W else W[-1])
            continue
        w = eng.fresh("omega2", F(1, 10 ** 6), None)
        if W:
            w = W[-1] + w
        v = [eng.fresh("mode", -100, 100) for _ in range(n)]
        Av, Bv = matmul(A, to_float_array(v)), matmul(M, to_float_array(v))
        rec.append([SymReal.of(Av[i]) - SymReal.of(Bv[i]) * w for i in range(n)])
        W.append(w)
        for i in range(n):
            V[i, j] = v[i]
    EIGH.append(rec)
    return to_float_array(W), V


EIGH_MODES = 1


def copysign_(a, b):
    f = np.frompyfunc(lambda x, y: abs(SymReal.of(x)) * (S_ONE if bool(SymReal.of(y) >= 0) else -S_ONE), 2, 1)
    r = f(plain(asarray(a)), plain(asarray(b)))
    return r.view(RArr) if isinstance(r, np.ndarray) else r


def fromiter(it, dtype=float, count=-1):
    v = list(it)
    return array(v if count < 0 else v[:count], dtype=dtype)


class vectorize:
    def __init__(self, f, otypes=None, **k):
        if k:
            raise Unsupported("numpy.vectorize options")
        self.f, self.otypes = f, otypes

    def __call__(self, *a):
        b = np.broadcast_arrays(*[plain(asarray(x)) for x in a])
        r = np.empty(b[0].shape, dtype=object)
        for i in np.ndindex(*b[0].shape):
            r[i] = self.f(*[x[i] for x in b])
        if r.ndim == 0:
            return r.item()
        return array(r.tolist(), dtype=self.otypes[0] if self.otypes else None)


def bincount(x, weights=None, minlength=0):
    if weights is None or not isinstance(asarray(weights), RArr):
        return np.bincount(x, weights, minlength)
    x = [int(i) for i in x]
    out = [S_ZERO] * max([minlength] + [i + 1 for i in x])
    for i, w in zip(x, asarray(weights)):
        out[i] = out[i] + w
    return to_float_array(out)


def copyto(dst, src, where=True, **k):
    w = asarray(where)
    if isinstance(w, BArr):
        w = to_bool_array(w)
    w = np.broadcast_to(w, dst.shape)
    src = np.broadcast_to(plain(asarray(src)), dst.shape)
    for i in np.ndindex(*dst.shape):
        if w[i]:
            dst[i] = src[i]


def _reduce(f, v):
    r = v[0]
    for x in v[1:]:
        r = f(r, x)
    return r


def lstsq(a, b, rcond=None):
    a = asarray(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise Unsupported("least squares")
    return solve(a, b), to_float_array([]), a.shape[0], None


# ---------------------------------------------------------------- scipy.integrate
def cumulative_trapezoid(y, x=None, dx=1, axis=-1, initial=None):
    y = to_float_array(asarray(y))
    if y.ndim != 1:
        raise Unsupported("cumulative_trapezoid on a matrix")
    if x is not None:
        xs = to_float_array(asarray(x))
        if len(xs) != len(y):
            raise ValueError("If given, length of x along axis must be the same as y.")
        h = [xs[i + 1] - xs[i] for i in range(len(xs) - 1)]
    else:
        h = [dx] * (len(y) - 1)
    half = SymReal.of(F(1, 2))
    out = []
    acc = S_ZERO
    for i in range(len(y) - 1):
        acc = acc + (y[i] + y[i + 1]) * h[i] * half
        out.append(acc)
    if initial is not None:
        out = [SymReal.of(initial)] + out
    return to_float_array(out)


def simpson(y, x=None, *, dx=1, axis=-1):
    y = to_float_array(asarray(y))
    n = len(y)
    if x is None:
        h = [SymReal.of(dx)] * (n - 1)
    else:
        xs = to_float_array(asarray(x))
        h = [xs[i + 1] - xs[i] for i in range(n - 1)]
    if n % 2 == 0:
        raise Unsupported("simpson with an even number of samples")
    tot = S_ZERO
    const_h = all(v is h[0] or (v.t is None and h[0].t is None and v.n == h[0].n and v.d == h[0].d and v.c == h[0].c) for v in h)
    if const_h:
        s = S_ZERO
        for i in range(1, n, 2):
            s = s + y[i - 1] + y[i] * 4 + y[i + 1]
        return s * h[0] / 3
    for i in range(0, n - 2, 2):
        h0, h1 = h[i], h[i + 1]
        hs = h0 + h1
        hp = h0 * h1
        hr = h0 / h1
        tot = tot + hs / 6 * (y[i] * (2 - h1 / h0) + y[i + 1] * (hs * hs / hp) + y[i + 2] * (2 - hr))
    return tot


def cumulative_simpson(y, **k):
    raise Unsupported("cumulative_simpson")


# ---------------------------------------------------------------- module objects
class _Ns(types.ModuleType):
    def __init__(self, name, real, table):
        super().__init__(name)
        self.__dict__.update(table)
        self.__dict__["_real"] = real

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        v = getattr(self.__dict__["_real"], a)
        if isinstance(v, np.ufunc):
            u = UFunc(v)
            self.__dict__[a] = u
            return u
        return v


class errstate:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


linalg_ns = _Ns("numpy.linalg", np.linalg, dict(solve=solve, lstsq=lstsq, inv=inv_, det=det_, eigvalsh=eigvalsh, norm=norm,
                                                 matrix_rank=matrix_rank, cond=cond, LinAlgError=LA.LinAlgError))
_leg = _Ns("numpy.polynomial.legendre", np.polynomial.legendre, dict(leggauss=leggauss))
_polyns = _Ns("numpy.polynomial", np.polynomial, dict(legendre=_leg))
_testing = _Ns("numpy.testing", np.testing, dict(assert_equal=assert_equal, assert_array_equal=assert_equal))

NP = _Ns("numpy", np, dict(
    array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray, asfarray=lambda x: to_float_array(asarray(x)),
    zeros=zeros, ones=ones, empty=empty, full=full,
    zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like, full_like=full_like, eye=eye, identity=eye,
    arange=arange, linspace=linspace, atleast_1d=atleast_1d, atleast_2d=atleast_2d, concatenate=concatenate,
    hstack=hstack, vstack=vstack, column_stack=column_stack, stack=stack, append=append, insert=insert, delete=delete,
    copy=copy_, sum=sum_, nansum=sum_, prod=prod, max=amax, min=amin, amax=amax, amin=amin, nanmax=amax, nanmin=amin,
    ptp=ptp, mean=mean, average=average, any=any_, all=all_, cumsum=cumsum, cumprod=cumprod, argmax=argmax, argmin=argmin,
    argsort=argsort, sort=sort, unique=unique, nonzero=nonzero, flatnonzero=flatnonzero, argwhere=argwhere,
    count_nonzero=count_nonzero, where=where, select=select, clip=clip, isclose=isclose, allclose=allclose,
    array_equal=array_equal, interp=interp, searchsorted=searchsorted, digitize=digitize, diff=diff, polyval=polyval,
    polyfit=polyfit, around=around, round=around, isscalar=isscalar, trapezoid=trapezoid, trapz=trapezoid,
    gradient=gradient, take_along_axis=take_along_axis, meshgrid=meshgrid, outer=outer, dot=matmul, matmul=UFunc(np.matmul),
    copysign=copysign_, fromiter=fromiter, vectorize=vectorize, bincount=bincount, copyto=copyto,
    savetxt=savetxt, linalg=linalg_ns, polynomial=_polyns, testing=_testing, errstate=errstate, float64=float_,
    pi=SymReal.of(_math.pi), inf=_builtin_float("inf"), nan=_builtin_float("nan"), e=SymReal.of(_math.e),
))
INTEGRATE = _Ns("scipy.integrate", types.SimpleNamespace(), dict(
    cumulative_trapezoid=cumulative_trapezoid, simpson=simpson, trapezoid=trapezoid,
    cumulative_simpson=cumulative_simpson))
SCIPY_LINALG = _Ns("scipy.linalg", types.SimpleNamespace(), dict(eigh=eigh, solve=lambda a, b, **k: solve(a, b), inv=inv_,
                                                                  LinAlgError=LA.LinAlgError))
SCIPY = _Ns("scipy", types.SimpleNamespace(), dict(integrate=INTEGRATE, linalg=SCIPY_LINALG))


# ---------------------------------------------------------------- math
class Decade:
    """log10 of a symbolic number, good for its floor"""

    def __init__(self, v):
        self.v = v

    def __floor__(self):
        k = 0
        if bool(self.v >= 1):
            while not bool(self.v < 10 ** (k + 1)):
                k += 1
        else:
            k = -1
            while not bool(self.v >= F(1, 10 ** -k)):
                k -= 1
                if k < -40:
                    raise ValueError("math domain error")
        return k


def _m1(name):
    def f(*a):
        if name == "log10" and isinstance(a[0], SymReal) and not a[0].is_const():
            return Decade(a[0])
        if any(isinstance(v, SymReal) for v in a):
            return OPS[name](*a)
        return SymReal.of(getattr(_math, name)(*a))
    return f


def m_isclose(a, b, *, rel_tol=F(1, 10 ** 9), abs_tol=0):
    a, b = SymReal.of(a), SymReal.of(b)
    d = a - b
    if d.t is None and not d.n:
        return True
    m = smax(abs(a), abs(b))
    return bool(abs(d) <= smax(SymReal.of(rel_tol) * m, SymReal.of(abs_tol)))


MATH = _Ns("math", _math, dict(
    sqrt=lambda x: ssqrt(x), floor=lambda x: x.__floor__() if isinstance(x, (SymReal, Decade)) else _math.floor(x),
    ceil=lambda x: x.__ceil__() if isinstance(x, SymReal) else _math.ceil(x),
    fabs=lambda x: abs(SymReal.of(x)), isclose=m_isclose, isfinite=lambda x: True if isinstance(x, SymReal) else _math.isfinite(x),
    isnan=lambda x: False if isinstance(x, SymReal) else _math.isnan(x),
    isinf=lambda x: False if isinstance(x, SymReal) else _math.isinf(x),
    pi=SymReal.of(_math.pi), sin=_m1("sin"), cos=_m1("cos"), tan=_m1("tan"), exp=_m1("exp"), log10=_m1("log10"),
    log=_m1("log"), atan=lambda x: OPS["arctan"](x), radians=lambda x: SymReal.of(x) * SymReal.of(_math.pi) / 180,
    fsum=lambda xs: sum(xs, S_ZERO), prod=lambda xs, start=1: functools.reduce(operator.mul, xs, start),
    hypot=lambda a, b: ssqrt(SymReal.of(a) * a + SymReal.of(b) * b), pow=lambda a, b: spow(a, b),
    trunc=lambda x: int(x), copysign=lambda a, b: abs(a) if bool(SymReal.of(b) >= 0) else -abs(a),
))


EIG_EXACT = False


def option(name, value):
    """harness-selected fidelity of a stub (see SymCtx.option)"""
    assert name in ("EIG_EXACT", "EIGH_MODES")
    globals()[name] = value


def reset():
    """state of the stand-ins between paths"""
    globals()["EIG_EXACT"] = False
    globals()["EIGH_MODES"] = 1
    canvas.LOG = None
    TOKENS.clear()
    FILES.clear()
    EIGH.clear()
