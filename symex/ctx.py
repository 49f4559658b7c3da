"""what a harness sees: the same harness runs symbolically (SymCtx, under the
encoding) and concretely (ConcreteCtx, on the real package) for replay."""
from __future__ import annotations
import math
from fractions import Fraction as F

TOL = 1e-6        # replay on floats: relative to max(1, scale, |lhs|, |rhs|)
MARGIN = F(1, 10 ** 4)


class AssumptionFailed(Exception):
    pass


class HarnessError(Exception):
    pass


def flat(x):
    """any nesting of arrays / lists / scalars -> (shape, [scalars])"""
    import numpy as np
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return (), [x.item()]
        return x.shape, list(x.ravel().tolist()) if x.dtype != object else list(np.asarray(x, dtype=object).ravel())
    if isinstance(x, (list, tuple)):
        parts = [flat(v) for v in x]
        out = []
        for _, v in parts:
            out.extend(v)
        shapes = {p[0] for p in parts}
        sh = (len(x),) + (parts[0][0] if len(shapes) == 1 and parts else ())
        return sh, out
    return (), [x]


def variants(mod, tier):
    """the configurations of a harness, and for each kind of them two where the numbers given are whole: constants, and every
    other family of variables (those whose names differ in their number only) as integers, not as decimals"""
    cfgs = list(mod.configs(tier))
    skip = getattr(mod, "DECIMAL", ())
    kinds, out = {}, []
    for q in sorted(cfgs, key=lambda q: q.get("cost", 1)):
        if q["fn"].__name__ not in skip and "*" not in skip:
            kinds.setdefault(q["fn"], []).append(q)
    for qs in kinds.values():
        pick = {0, len(qs) // 3} if tier == "quick" else {0, 1, len(qs) // 4, len(qs) // 3, len(qs) // 2}
        for j in sorted(p for p in pick if p < len(qs)):
            for w in (0, 1):
                out.append(dict(qs[j], name=f"whole{w}-{qs[j]['name']}", whole=w))
    return cfgs + out


def fraction(x):
    """of a bound: a number, or a constant of either mode"""
    if isinstance(x, (int, F)):
        return F(x)
    if type(x).__name__ == "SymReal":
        return x.const() if x.is_const() else None
    return F(str(float(x)))


class Base:
    """helpers shared by both modes"""
    whole = None

    def integer(self, name, lo, hi):
        """the whole number that stands for this variable, or None"""
        if self.whole is None:
            return None
        if name in self.given:
            return self.given[name]
        fam = name.rstrip("0123456789")
        k = self.families.setdefault(fam, len(self.families))
        if k % 2 != self.whole:
            return None
        lo, hi = fraction(-3 if lo is None else lo), fraction(7 if hi is None else hi)
        if lo is None or hi is None:
            return None
        c = [v for v in range(math.ceil(lo), math.floor(hi) + 1) if v][:60]
        if not c:
            return None
        n = sum(1 for q in self.given if q.rstrip("0123456789") == fam)
        v = self.given[name] = c[(len(c) // 2 + n) % len(c)]
        return v

    def pick(self, name, options):
        return options[self.choice(name, len(options))]

    def raises(self, label, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc:
            self.true(label, True)
            return True
        except Exception as e:
            self.true(f"{label} (raised {type(e).__name__} instead)", False)
            return False
        self.true(f"{label} (nothing raised)", False)
        return False

    def lt(self, label, a, b):
        self.true(label, a < b)

    def residuals(self):
        """the eigenproblems solved on this path: for each, the residual A v - w B v of every mode kept, which a true
        answer makes zero (and does in a concrete run, where this is None)"""
        if not self.symbolic:
            return None
        from . import npshim
        return npshim.EIGH

    def record(self):
        """from here on, the plotting calls made"""
        from . import canvas
        return canvas.start()

    def num(self, text):
        """the number a text spells"""
        if self.symbolic:
            from . import npshim
            return npshim.float_(text)
        return float(text)

    def option(self, name, value):
        if self.symbolic:
            from . import npshim
            npshim.option(name, value)


class ConcreteCtx(Base):
    symbolic = False

    def __init__(self, values, choices, tol=TOL, whole=None):
        self.whole, self.families, self.given = whole, {}, {}
        self.values, self.choices, self.tol = values, choices, tol
        self.failed, self.count, self.observed = [], 0, {}

    def real(self, name, lo=None, hi=None):
        v = self.integer(name, lo, hi)
        return self.values[name] if v is None else v

    def choice(self, name, n):
        return self.choices[name]

    def text(self, name, lo=None, hi=None):
        """a number and how it is written down"""
        t = format(self.values[name], ".12f")
        return t, float(t)

    def assume(self, cond):
        if not bool(cond):
            raise AssumptionFailed()

    def fork(self, cond):
        return bool(cond)

    def const(self, x):
        if self.whole is not None and not isinstance(x, float) and F(x).denominator == 1:
            return int(F(x))
        return float(F(x)) if not isinstance(x, float) else x

    def eq(self, label, a, b, scale=1.0):
        sa, fa = flat(a)
        sb, fb = flat(b)
        if sb == () and sa != ():
            fb = fb * len(fa)
        elif len(fa) != len(fb):
            self.failed.append([label, f"shape {sa}", f"shape {sb}"])
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            self.count += 1
            lab = f"{label}[{i}]" if len(fa) > 1 else label
            try:
                x, y = float(x), float(y)
            except (TypeError, ValueError):
                if not (x is y or x == y):
                    self.failed.append([lab, str(x), str(y)])
                continue
            self.observed[lab] = x
            if not abs(x - y) <= self.tol * max(1.0, float(scale), abs(x), abs(y)):
                self.failed.append([lab, x, y])

    def le(self, label, a, b, scale=1.0):
        _, fa = flat(a)
        _, fb = flat(b)
        if len(fb) == 1 and len(fa) > 1:
            fb = fb * len(fa)
        if len(fa) == 1 and len(fb) > 1:
            fa = fa * len(fb)
        if len(fa) != len(fb):
            self.failed.append([label, f"{len(fa)} values", f"{len(fb)} values"])
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            self.count += 1
            lab = f"{label}[{i}]" if len(fa) > 1 else label
            x, y = float(x), float(y)
            if not x <= y + self.tol * max(1.0, float(scale), abs(x), abs(y)):
                self.failed.append([lab, x, y])

    def true(self, label, cond):
        self.count += 1
        if not bool(cond):
            self.failed.append([label, "false", "true"])

    def obs(self, label, v):
        _, f = flat(v)
        for i, x in enumerate(f):
            try:
                self.observed[f"{label}[{i}]"] = float(x)
            except (TypeError, ValueError):
                pass


class SymCtx(Base):
    symbolic = True

    def __init__(self, engine, whole=None):
        self.whole, self.families, self.given = whole, {}, {}
        self.e = engine
        self.obls = []          # (label, kind, payload, scale)
        self.choices = {}
        self.observed = {}

    def real(self, name, lo=None, hi=None):
        v = self.integer(name, lo, hi)
        return self.e.variable(name, lo, hi) if v is None else v

    def text(self, name, lo=None, hi=None):
        from . import npshim
        v = self.e.variable(name, lo, hi)
        return npshim.token(v), v

    def choice(self, name, n):
        k = self.e.choose(n) if n > 1 else 0
        self.choices[name] = k
        return k

    def assume(self, cond):
        from . import sym
        from . import npshim
        if isinstance(cond, npshim.np.ndarray) if hasattr(npshim, "np") else False:
            for x in cond.ravel():
                self.e.assume(x)
            return
        self.e.assume(cond)

    def fork(self, cond):
        """case split on cond, also in merge mode"""
        return bool(cond)

    def const(self, x):
        from .sym import SymReal
        if self.whole is not None and not isinstance(x, SymReal) and F(x).denominator == 1:
            return int(F(x))
        return SymReal.of(F(x) if not isinstance(x, SymReal) else x)

    def eq(self, label, a, b, scale=1.0):
        sa, fa = flat(a)
        sb, fb = flat(b)
        if sb == () and sa != ():
            fb = fb * len(fa)
        elif len(fa) != len(fb):
            self.obls.append((f"{label} (shape {sa} vs {sb})", "cond", False, 1))
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            lab = f"{label}[{i}]" if len(fa) > 1 else label
            self.obls.append((lab, "eq", (x, y), scale))

    def le(self, label, a, b, scale=1.0):
        _, fa = flat(a)
        _, fb = flat(b)
        if len(fb) == 1 and len(fa) > 1:
            fb = fb * len(fa)
        if len(fa) == 1 and len(fb) > 1:
            fa = fa * len(fb)
        if len(fa) != len(fb):
            self.obls.append((f"{label} (length {len(fa)} vs {len(fb)})", "cond", False, 1))
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            lab = f"{label}[{i}]" if len(fa) > 1 else label
            self.obls.append((lab, "le", (x, y), scale))

    def true(self, label, cond):
        self.obls.append((label, "cond", cond, 1))

    def obs(self, label, v):
        _, f = flat(v)
        for i, x in enumerate(f):
            self.observed[f"{label}[{i}]"] = x
