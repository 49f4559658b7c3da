#!/usr/bin/env python3
"""mutate.py N [--seed S] [--files a.py,b.py] [--out F]: small changes of the sources in scratch copies (never in /repo).

N sampled changes; those the repository's tests let pass are then put to the quick checks that concern their file, one after
the other until one reports a violation. Writes one JSON line per change. A development tool: no check uses it."""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/pycba"
CHECKS = {
    "analysis.py": "C01 C02 C06 C03 C05 C07 C08 C09 C11 C23 C22 C10 C26 C25 C17 C27",
    "beam.py": "C05 C02 C01 C09 C10 C08 C06 C22 C24 C03 C11 C07 C26 C27",
    "bridge.py": "C14 C15 C25 C27 C16",
    "foundation.py": "C11 C03 C17",
    "inf_lines.py": "C12 C25 C27",
    "load.py": "C04 C01 C02 C08 C03 C09 C18 C17 C11",
    "load_cases.py": "C17 C18 C25 C27",
    "modal.py": "C20 C25",
    "nonlinear.py": "C21 C25",
    "pattern.py": "C18 C17 C27",
    "plotting.py": "C25",
    "prestress.py": "C19 C25",
    "render.py": "C26",
    "results.py": "C23 C13 C25 C01 C02 C09 C14 C15 C11 C17",
    "section.py": "C24 C10 C25",
    "types.py": "C22 C01",
    "units.py": "C25 C26",
    "utils.py": "C22",
    "vehicle.py": "C16 C14 C25",
}
for f in ("bridge.py", "inf_lines.py", "load_cases.py", "pattern.py", "prestress.py", "nonlinear.py", "results.py"):
    CHECKS[f] += " C28"
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
       ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}
WORDS = [("left", "right"), ("max", "min"), ("M", "V"), ("start", "end"), ("lo", "hi"), ("first", "last"), ("pos", "neg"), ("fixed", "pinned"), ("L", "R"), ("top", "bot"), ("fwd", "rev"), ("hog", "sag")]
COPIES = {"list", "dict", "tuple", "deepcopy", "array", "asarray", "sorted", "abs", "float", "set"}


def sibling(a, pool):
    """a name that could stand for another by mistake"""
    out = []
    for b in sorted(pool):
        if a != b and not b.startswith("__"):
            for u, v in WORDS + [("i", "j"), ("a", "b"), ("1", "2"), ("0", "1"), ("x", "y"), ("l", "r")]:
                if (u in a and a.replace(u, v, 1) == b) or (v in a and a.replace(v, u, 1) == b):
                    out.append(b)
    return sorted(set(out))


NAMES = {"max": "min", "min": "max", "maximum": "minimum", "minimum": "maximum", "argmax": "argmin", "argmin": "argmax", "cumsum": "array", "floor": "ceil", "ceil": "floor"}


def sites(tree):
    """(line, what, function that changes the node in place)"""
    out = []

    def add(node, what, f):
        out.append((getattr(node, "lineno", 0), what, f))

    attrs = {n.attr for n in ast.walk(tree) if isinstance(n, ast.Attribute)}
    scope = [set()]

    def visit(node, parent, infn):
        if isinstance(node, ast.FunctionDef):
            scope.append({n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {q.arg for q in node.args.args})
            visit_(node, parent, infn)
            scope.pop()
        else:
            visit_(node, parent, infn)

    def visit_(node, parent, infn):
        if isinstance(node, (ast.Raise, ast.Import, ast.ImportFrom, ast.JoinedStr)):
            return
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return
        if isinstance(node, ast.Call) and isinstance(node.func, (ast.Name, ast.Attribute)) and (getattr(node.func, "id", "") or getattr(node.func, "attr", "")) in ("print", "warn"):
            return
        if isinstance(node, ast.Compare):
            op = node.ops[0]
            if type(op) in CMP:
                add(node, f"{type(op).__name__} -> {CMP[type(op)].__name__}", lambda n=node, o=op: n.ops.__setitem__(0, CMP[type(o)]()))
        if isinstance(node, ast.BinOp) and type(node.op) in BIN and not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
            add(node, f"{type(node.op).__name__} -> {BIN[type(node.op)].__name__}", lambda n=node: setattr(n, "op", BIN[type(n.op)]()))
        if isinstance(node, ast.AugAssign) and type(node.op) in BIN:
            add(node, f"aug {type(node.op).__name__}", lambda n=node: setattr(n, "op", BIN[type(n.op)]()))
        if isinstance(node, ast.BoolOp):
            add(node, "and/or", lambda n=node: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And()))
            add(node, "drop last condition", lambda n=node: n.values.pop())
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub) and not isinstance(node.operand, ast.Constant):
            add(node, "drop minus", lambda n=node: setattr(n, "op", ast.UAdd()))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            add(node, "drop not", lambda n=node: (setattr(n, "op", ast.Not()), setattr(n, "operand", ast.UnaryOp(ast.Not(), n.operand))))
        if isinstance(node, ast.Constant) and type(node.value) in (int, float) and infn:
            v = node.value
            for w in ([v + 1, v - 1] if isinstance(v, int) else [v * 2 if v else 1.0]):
                add(node, f"{v} -> {w}", lambda n=node, w=w: setattr(n, "value", w))
        if isinstance(node, (ast.Name, ast.Attribute)):
            q = node.id if isinstance(node, ast.Name) else node.attr
            if q in NAMES:
                add(node, f"{q} -> {NAMES[q]}", lambda n=node, q=q: setattr(n, "id" if isinstance(n, ast.Name) else "attr", NAMES[q]))
        if infn and isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
            for w in sibling(node.id, scope[-1]):
                add(node, f"{node.id} -> {w}", lambda n=node, w=w: setattr(n, "id", w))
        if infn and isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
            for w in sibling(node.attr, attrs):
                add(node, f".{node.attr} -> .{w}", lambda n=node, w=w: setattr(n, "attr", w))
        if infn and isinstance(node, ast.Constant) and isinstance(node.value, str) and len(node.value) < 12:
            for u, v in WORDS:
                for a, b in ((u, v), (v, u)):
                    if node.value == a or (len(a) > 1 and a in node.value):
                        add(node, f"{node.value!r}: {a} -> {b}", lambda n=node, a=a, b=b: setattr(n, "value", n.value.replace(a, b, 1)))
        if infn and isinstance(node, ast.Call) and len(node.args) == 1 and not node.keywords and (getattr(node.func, "id", "") or getattr(node.func, "attr", "")) in COPIES \
                and not isinstance(node.args[0], (ast.List, ast.GeneratorExp, ast.ListComp)):
            add(node, "drop copy", lambda n=node: (setattr(n, "func", ast.Lambda(ast.arguments([], [ast.arg("q")], None, [], [], None, []), ast.Name("q", ast.Load())))))
        if infn and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "copy" and not node.args:
            add(node, "drop .copy()", lambda n=node: (setattr(n, "args", [n.func.value]), setattr(n, "func", ast.Lambda(ast.arguments([], [ast.arg("q")], None, [], [], None, []), ast.Name("q", ast.Load())))))
        if infn and isinstance(node, ast.Subscript) and isinstance(node.ctx, ast.Load) and isinstance(node.slice, ast.Name):
            for d in (1, -1):
                add(node, f"[{node.slice.id}{d:+d}]", lambda n=node, d=d: setattr(n, "slice", ast.BinOp(n.slice, ast.Add(), ast.Constant(d))))
        if infn and isinstance(node, ast.Call) and node.keywords and (getattr(node.func, "attr", "") not in ("plot", "text", "annotate", "subplots", "fill_between", "add_patch")):
            for q in node.keywords:
                if q.arg:
                    add(node, f"drop {q.arg}=", lambda n=node, q=q: n.keywords.remove(q))
        if isinstance(node, ast.If) and infn and not (len(node.body) == 1 and isinstance(node.body[0], ast.Raise)):
            add(node, "if True", lambda n=node: setattr(n, "test", ast.BoolOp(ast.Or(), [n.test, ast.Constant(True)])))
            add(node, "if False", lambda n=node: setattr(n, "test", ast.BoolOp(ast.And(), [n.test, ast.Constant(False)])))
        if isinstance(node, (ast.Continue, ast.Break)):
            pass
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list) and infn:
                for i, s in enumerate(b):
                    if isinstance(s, ast.AugAssign) or (isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Subscript, ast.Attribute))) or \
                            (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)):
                        add(s, "drop statement", lambda b=b, i=i: b.__setitem__(i, ast.copy_location(ast.Pass(), b[i])))
        if isinstance(node, ast.Call) and len(node.args) >= 2 and infn and not any(isinstance(q, ast.Starred) for q in node.args):
            add(node, "swap arguments", lambda n=node: n.args.__setitem__(slice(0, 2), [n.args[1], n.args[0]]))
        fn = infn or isinstance(node, (ast.FunctionDef, ast.Lambda))
        for name, val in ast.iter_fields(node):
            if name in ("annotation", "returns", "decorator_list", "type_comment"):
                continue
            for ch in val if isinstance(val, list) else [val]:
                if isinstance(ch, ast.AST):
                    visit(ch, node, fn)
    visit(tree, None, False)
    return out


def make(file, k):
    src = open(f"{SRC}/{file}").read()
    tree = ast.parse(src)
    ln, what, f = sites(tree)[k]
    f()
    ast.fix_missing_locations(tree)
    return ln, what, src.split("\n")[ln - 1].strip(), ast.unparse(tree)


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def one(arg):
    n, file, k, checks = arg
    ln, what, line, text = make(file, k)
    rec = dict(n=n, file=file, line=ln, what=what, text=line)
    d = f"/tmp/mutants/{os.getpid()}"
    src = f"{d}/src"
    if not os.path.exists(d):
        os.makedirs(d)
        for q in ("src", "tests"):
            shutil.copytree(f"/repo/{q}", f"{d}/{q}", ignore=shutil.ignore_patterns("__pycache__"))
        for q in ("pyproject.toml", "setup.cfg", "setup.py", "README.md", "conftest.py"):
            if os.path.exists(f"/repo/{q}"):
                shutil.copy(f"/repo/{q}", d)
    open(f"{src}/pycba/{file}", "w").write(text)
    env = dict(ENV, PYTHONPATH=src, VERIF_REPO_SRC=src)
    try:
        t = time.time()
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", f"--basetemp={d}/pt", "--timeout=120", "tests"], cwd=d, env=env,
                               capture_output=True, text=True, timeout=400)
            rec["tests"] = "pass" if r.returncode == 0 else "fail"
        except subprocess.TimeoutExpired:
            rec["tests"] = "fail"
        rec["test_s"] = round(time.time() - t)
        if rec["tests"] != "pass":
            return rec
        rec["checks"] = {}
        for ch in checks or CHECKS[file].split():
            t = time.time()
            try:
                r = subprocess.run(["/opt/veriftools/pyvenv/bin/python", "-B", "run.py", ch, "--jobs", "1", "--stop"], cwd=ROOT, env=env, capture_output=True, text=True, timeout=1500)
                rc = r.returncode
                v = "VIOLATION" in r.stdout
            except subprocess.TimeoutExpired:
                rc, v = -1, False
            rec["checks"][ch] = [rc, round(time.time() - t)]
            if rc == 1 and v:
                rec["caught"] = ch
                break
        return rec
    finally:
        shutil.copy(f"{SRC}/{file}", f"{src}/pycba/{file}")


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("n", type=int)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--files", default="")
    ap.add_argument("--checks", default="")
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--out", default="/tmp/mutants.jsonl")
    a = ap.parse_args()
    rnd = random.Random(a.seed)
    pool = []
    for f in a.files.split(",") if a.files else sorted(CHECKS):
        pool += [(f, k) for k in range(len(sites(ast.parse(open(f"{SRC}/{f}").read()))))]
    print(len(pool), "sites")
    pick = rnd.sample(pool, min(a.n, len(pool)))
    shutil.rmtree("/tmp/mutants", ignore_errors=True)
    with cf.ProcessPoolExecutor(a.jobs) as ex, open(a.out, "a") as out:
        for f in cf.as_completed([ex.submit(one, (i, f, k, a.checks.split(",") if a.checks else None)) for i, (f, k) in enumerate(pick)]):
            try:
                r = f.result()
            except Exception as e:
                r = dict(error=repr(e))
            out.write(json.dumps(r) + "\n")
            out.flush()
    shutil.rmtree("/tmp/mutants", ignore_errors=True)
