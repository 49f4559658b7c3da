"""loads the package under test from its current source, with numbers made exact

Every import re-reads /repo/src/pycba/*.py.  The only rewriting of the source is
  * a float literal becomes the exact decimal it spells,
  * a / b on plain Python ints becomes the exact quotient,
and the names the module sees for float, numpy, scipy, math, matplotlib, pandas
and plotly are the encodings in npshim and the recording stand-in in canvas.
"""
from __future__ import annotations
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import re
import sys
import types
from fractions import Fraction as F

from . import npshim
from .canvas import Dummy
from .sym import SymReal

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")


class Frame:
    """pandas.DataFrame stand-in: keeps the columns it was given"""

    def __init__(self, data=None, **k):
        self.data = dict(data or {})
        self.columns = list(self.data)

    def __getitem__(self, c):
        if isinstance(c, list):
            return Frame({i: self.data[i] for i in c})
        return Column(self.data[c])

    def __setitem__(self, c, v):
        if c not in self.data:
            self.columns.append(c)
        self.data[c] = v

    def __len__(self):
        return len(next(iter(self.data.values()))) if self.data else 0


class Column:
    def __init__(self, v):
        self.values = npshim.asarray(v)

    def to_numpy(self, *a, **k):
        return self.values

    def __iter__(self):
        return iter(self.values)

    def __len__(self):
        return len(self.values)

    def __getitem__(self, i):
        return self.values[i]


_pandas = types.ModuleType("pandas")
_pandas.DataFrame = Frame
_DUMMY = {k: Dummy(k) for k in ("matplotlib", "plotly")}


class Rewrite(ast.NodeTransformer):
    def __init__(self, src):
        self.src = src

    def visit_Constant(self, node):
        if isinstance(node.value, float):
            txt = ast.get_source_segment(self.src, node) or repr(node.value)
            return ast.copy_location(ast.Call(ast.Name("__sx_const__", ast.Load()), [ast.Constant(txt)], []), node)
        return node

    def visit_JoinedStr(self, node):
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name("__sx_div__", ast.Load()), [node.left, node.right], []), node)
        if isinstance(node.op, ast.Mod) and (isinstance(node.left, ast.JoinedStr) or isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
            return ast.copy_location(ast.Call(ast.Name("__sx_pct__", ast.Load()), [node.left, node.right], []), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and isinstance(node.target, ast.Name):
            load = ast.Name(node.target.id, ast.Load())
            call = ast.Call(ast.Name("__sx_idiv__", ast.Load()), [load, node.value], [])
            return ast.copy_location(ast.Assign([node.target], call), node)
        return node

    def visit_MatchValue(self, node):
        return node


_const_cache = {}


def sx_const(txt):
    v = _const_cache.get(txt)
    if v is None:
        v = _const_cache[txt] = SymReal.of(F(txt.replace("_", "")))
    return v


def sx_idiv(a, b):
    import numpy as np
    if isinstance(a, np.ndarray):
        a /= b
        return a
    return npshim.div(a, b)


def sx_pct(fmt, v):
    """fmt % v, with symbolic numbers formatted as f-strings format them"""
    a = v if isinstance(v, tuple) else (v,)
    if isinstance(v, dict) or not any(isinstance(x, SymReal) and not x.is_const() for x in a):
        return fmt % v
    a = list(a)

    def one(m):
        if m.group(2) == "%":
            return "%"
        x = a.pop(0)
        if not isinstance(x, SymReal):
            return m.group(0) % (x,)
        return str(x) if m.group(2) in "sr" else format(x, m.group(1).replace("-", "<") + m.group(2))
    r = re.sub(r"%([-+ #0-9.]*)([diouxXeEfFgGcrsa%])", one, fmt)
    if a:
        raise TypeError("not all arguments converted during string formatting")
    return r


_real_import = builtins.__import__


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        root = name.split(".")[0]
        if root == "numpy":
            if name == "numpy" or not fromlist:
                return npshim.NP
            m = npshim.NP
            for part in name.split(".")[1:]:
                m = getattr(m, part)
            return m
        if root == "scipy":
            if not fromlist:
                return npshim.SCIPY
            m = npshim.SCIPY
            for part in name.split(".")[1:]:
                m = getattr(m, part)
            return m
        if root == "math":
            return npshim.MATH
        if root in _DUMMY:
            m = _DUMMY[root]
            if fromlist:
                for part in name.split(".")[1:]:
                    m = getattr(m, part)
            return m
        if root == "pandas":
            return _pandas
    return _real_import(name, globals, locals, fromlist, level)


def make_builtins():
    d = dict(vars(builtins))
    d["float"] = npshim.float_
    d["__import__"] = sx_import
    d["__sx_const__"] = sx_const
    d["__sx_div__"] = npshim.div
    d["__sx_idiv__"] = sx_idiv
    d["__sx_pct__"] = sx_pct
    return d


SHIM_BUILTINS = make_builtins()
SOURCES = {}


def compile_exact(src, path):
    tree = ast.parse(src, path)
    tree = Rewrite(src).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True)


class ExactLoader(importlib.abc.Loader):
    def __init__(self, path, package):
        self.path = path
        self.package = package

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path) as f:
            src = f.read()
        SOURCES[module.__name__] = self.path
        module.__dict__["__builtins__"] = SHIM_BUILTINS
        exec(compile_exact(src, self.path), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """name prefix -> directory"""

    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, name, path=None, target=None):
        parts = name.split(".")
        base = self.roots.get(parts[0])
        if base is None:
            return None
        p = os.path.join(base, *parts[1:])
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            f = os.path.join(p, "__init__.py")
            return importlib.util.spec_from_file_location(name, f, loader=ExactLoader(f, True),
                                                          submodule_search_locations=[p])
        if os.path.exists(p + ".py"):
            return importlib.util.spec_from_file_location(name, p + ".py", loader=ExactLoader(p + ".py", False))
        return None


_installed = None


def install(roots):
    global _installed
    uninstall()
    _installed = Finder(roots)
    sys.meta_path.insert(0, _installed)


def uninstall():
    global _installed
    if _installed in sys.meta_path:
        sys.meta_path.remove(_installed)
    _installed = None
