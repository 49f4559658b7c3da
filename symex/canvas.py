"""plotting stand-in for matplotlib and plotly: every attribute, call and item is another stand-in

While LOG is a list, each call is recorded, so a check can say what a figure shows.
The same stand-in serves the encoding and the replays.
"""
import numpy as np

LOG = None


class Call:
    def __init__(self, on, what, args, kw, result):
        self.on, self.what, self.args, self.kw, self.result = on, what, args, kw, result

    def __repr__(self):
        return f"{self.what}{self.args!r}{self.kw!r}"


def _row(name, n):
    a = np.empty(n, dtype=object)
    for i in range(n):
        a[i] = Dummy(f"{name}{i}")
    return a


class Dummy:
    def __init__(self, name="dummy", on=None, what=""):
        object.__setattr__(self, "_name", name)
        object.__setattr__(self, "_on", on)
        object.__setattr__(self, "_what", what)
        object.__setattr__(self, "_lim", {})
        object.__setattr__(self, "_down", False)

    def __getattr__(self, a):
        if a.startswith("__") and a.endswith("__"):
            raise AttributeError(a)
        d = Dummy(f"{self._name}.{a}", self, a)
        object.__setattr__(self, a, d)
        return d

    def __call__(self, *a, **k):
        w = self._what
        r = None
        main = self._on is not None and self._on._name.split(".")[-1] in ("pyplot", "plt")
        if w in ("subplots", "subfigures"):
            n, m = (list(a[:2]) + [1, 1])[:2] if len(a) > 1 else ((a[0] if a else k.get("nrows", 1)), k.get("ncols", 1))
            axs = _row(self._name + "#", n * m)
            if n > 1 and m > 1:
                axs = axs.reshape(n, m)
            r = axs if n * m > 1 else axs[0]
            if w == "subplots" and main:
                fig = Dummy(self._name + "()")
                for ax in axs.ravel():
                    object.__setattr__(ax, "figure", fig)
                r = (fig, r)
        elif w == "plot":
            r = [Dummy(self._name + "()")]
        elif w in ("get_ylim", "get_xlim"):
            r = self._on._lim.get(w[4], (0, 1))
        elif w in ("set_ylim", "set_xlim") and len(a) == 2:
            self._on._lim[w[4]] = tuple(a)
        elif w == "invert_yaxis":
            object.__setattr__(self._on, "_down", not self._on._down)
        elif w == "yaxis_inverted":
            r = self._on._down
        if r is None:
            r = Dummy(self._name + "()")
        if LOG is not None and len(LOG) < 100000:
            LOG.append(Call(self._on, w, a, k, r))
        return r

    def __getitem__(self, i):
        return Dummy(f"{self._name}[{i}]" if isinstance(i, (str, int)) else self._name + "[]", self, "[]")

    def __setattr__(self, a, v):
        object.__setattr__(self, a, v)

    def __iter__(self):
        return iter((Dummy(self._name + "#0"), Dummy(self._name + "#1")))

    def __mro_entries__(self, bases):
        return (object,)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __or__(self, o):
        return self

    __ror__ = __or__

    def __hash__(self):
        return id(self) >> 4

    def __eq__(self, o):
        return self is o


def install():
    """the stand-in in place of the real libraries (replays)"""
    import sys
    for root, subs in (("matplotlib", ("pyplot", "patches", "animation", "axes", "figure", "lines", "collections")), ("plotly", ("graph_objects", "subplots"))):
        m = Dummy(root)
        m.__path__ = []
        sys.modules[root] = m
        for s in subs:
            sys.modules[f"{root}.{s}"] = getattr(m, s)


def start():
    global LOG
    LOG = []
    return LOG


def stop():
    global LOG
    LOG = None
