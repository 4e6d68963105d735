"""Mutation analysis (for development): mutate.py FILE PROPS [--n N] [--seed S] [--jobs J] [--only REGEX]

Makes small changes to nion/utils/FILE, one at a time in a copy of /repo, keeps those which pass the unit tests, and
reports the ones which none of the checks PROPS detects. Never touches /repo.
"""
import argparse
import ast
import copy
import difflib
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
UNWRAP = {"deepcopy", "copy", "list", "set", "sorted", "reversed", "int", "float", "abs", "tuple"}


def variants(node):
    """replacements of a node: (description, function making the new node from a copy)"""
    r = []
    if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in CMP:
        def f(n):
            n.ops = [CMP[type(n.ops[0])]()]
            return n
        r.append(f)
    if isinstance(node, ast.BoolOp):
        def f(n):
            n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            return n
        r.append(f)
        for k in range(len(node.values)):
            def f(n, k=k):
                v = [x for i, x in enumerate(n.values) if i != k]
                if len(v) == 1:
                    return v[0]
                n.values = v
                return n
            r.append(f)
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
        r.append(lambda n: n.operand)
    if isinstance(node, (ast.If, ast.IfExp, ast.While)):
        def f(n):
            n.test = ast.Constant(True)
            return n
        def g(n):
            n.test = ast.Constant(False)
            return n
        r += ([f] if not isinstance(node, ast.While) else []) + [g]
    if isinstance(node, ast.Constant) and type(node.value) is int:
        r.append(lambda n: ast.Constant(n.value + 1))
        if node.value:
            r.append(lambda n: ast.Constant(n.value - 1))
    if isinstance(node, ast.Constant) and type(node.value) is bool:
        r.append(lambda n: ast.Constant(not n.value))
    if isinstance(node, ast.Constant) and type(node.value) is float:
        r.append(lambda n: ast.Constant(n.value * 2 + 1))
    if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
        def f(n):
            n.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
            return n
        r.append(f)
        r.append(lambda n: n.left)
    if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Mult, ast.Div, ast.FloorDiv)):
        r.append(lambda n: n.left)
    if isinstance(node, ast.Call):
        name = node.func.id if isinstance(node.func, ast.Name) else node.func.attr if isinstance(node.func, ast.Attribute) else ""
        if name in ("max", "min"):
            def f(n):
                n.func = ast.Name("min" if n.func.id == "max" else "max", ast.Load())
                return n
            r.append(f)
        if name in UNWRAP and len(node.args) >= 1:
            r.append(lambda n: n.args[0])
        if len(node.args) >= 2:
            def f(n):
                n.args[0], n.args[1] = n.args[1], n.args[0]
                return n
            r.append(f)
        if node.keywords:
            def f(n):
                n.keywords.pop()
                return n
            r.append(f)
    if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Assert)):
        if not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            r.append(lambda n: ast.Pass())
    if isinstance(node, ast.Return) and node.value is not None and not isinstance(node.value, ast.Constant):
        r.append(lambda n: ast.Return(ast.Constant(None)))
    if isinstance(node, ast.With):
        def f(n):
            return ast.If(ast.Constant(1), n.body, [])
        r.append(f)
    if isinstance(node, ast.Break):
        r.append(lambda n: ast.Continue())
    if isinstance(node, ast.Continue):
        r.append(lambda n: ast.Pass())
    if isinstance(node, ast.For):
        def f(n):
            n.iter = ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [n.iter], []), ast.Slice(None, ast.Constant(1), None), ast.Load())
            return n
        r.append(f)
    return r


class At(ast.NodeTransformer):
    def __init__(self, index, k):
        self.index, self.k, self.i = index, k, -1

    def generic_visit(self, node):
        self.i += 1
        i = self.i
        node = super().generic_visit(node)
        if i == self.index:
            return ast.copy_location(variants(node)[self.k](node), node)
        return node


class Count(ast.NodeVisitor):
    def __init__(self, only):
        self.i, self.found, self.path, self.only = -1, [], [], only

    def generic_visit(self, node):
        self.i += 1
        i = self.i
        named = isinstance(node, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef))
        if named:
            self.path.append(node.name)
        where = ".".join(self.path)
        if self.path and self.path[-1] not in ("__repr__", "__str__") and re.search(self.only, where):
            for k in range(len(variants(node))):
                self.found.append((i, k, where))
        super().generic_visit(node)
        if named:
            self.path.pop()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("props")
    ap.add_argument("--n", type=int, default=10 ** 9)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--only", default="")
    a = ap.parse_args()
    path = "nion/utils/" + a.file
    src = open("/repo/" + path).read()
    tree = ast.parse(src)
    base = ast.unparse(tree)
    c = Count(a.only)
    c.visit(tree)
    found = c.found
    random.Random(a.seed).shuffle(found)
    found = found[:a.n]
    work = tempfile.mkdtemp(prefix="mutate_")
    verif = os.path.join(work, "verif")
    shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns(".git", "out", "evidence", "seeded"))
    stats = {"invalid": 0, "killed by tests": 0, "caught": 0, "missed": 0}
    lines = []

    def one(m):
        i, k, where = m
        try:
            t = ast.fix_missing_locations(At(i, k).visit(copy.deepcopy(tree)))
            new = ast.unparse(t)
            compile(new, path, "exec")
        except Exception as e:
            return "invalid", where, repr(e)
        if new == base:
            return "invalid", where, "same"
        d = tempfile.mkdtemp(prefix="r_", dir=work)
        try:
            subprocess.run(["cp", "-a", "/repo/.", d], check=True)
            open(os.path.join(d, path), "w").write(new)
            try:
                r = subprocess.run([PY, "-m", "unittest", "discover", "-s", d + "/nion", "-t", d, "-p", "*_test.py"], cwd=d, capture_output=True, text=True, timeout=60)
            except subprocess.TimeoutExpired:
                return "killed by tests", where, ""
            if r.returncode:
                return "killed by tests", where, ""
            diff = "\n".join(x for x in difflib.unified_diff(base.splitlines(), new.splitlines(), lineterm="", n=1) if not x.startswith(("---", "+++", "@@")))
            note = ""
            for p in a.props.split(","):
                try:
                    r = subprocess.run([sys.executable, "check.py", p], cwd=verif, env=dict(os.environ, VERIF_REPO=d, VERIF_NO_MC="1"), capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    note += " %s: timeout" % p
                    continue
                if r.returncode == 1 and "VIOLATION property=" in r.stdout:
                    return "caught", where, p + note
                if r.returncode != 0:
                    note += " %s: exit %d %s" % (p, r.returncode, (r.stdout + r.stderr)[-300:])
            return "missed", where, diff + note
        finally:
            shutil.rmtree(d, ignore_errors=True)

    with ThreadPoolExecutor(a.jobs) as ex:
        for res, where, text in ex.map(one, found):
            stats[res] += 1
            if res == "missed":
                print("MISSED", where)
                print(text, flush=True)
    print(a.file, stats, flush=True)
    shutil.rmtree(work, ignore_errors=True)


main()
