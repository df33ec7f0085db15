# -*- coding: utf-8 -*-
"""Loads the code under test from the repository with a scheduling point before
every Python statement, and with threading / time / timeit / concurrent.futures
imports pointed at the simulator."""
import ast
import importlib.abc
import importlib.machinery
import os
import sys

from . import ambient, core

REPO = os.environ.get("CONVST_REPO", "/repo")
_SHIM = {"threading": "simlib.shims.threading", "time": "simlib.shims.time",
         "timeit": "simlib.shims.timeit", "concurrent.futures": "simlib.shims.futures",
         "_thread": "simlib.shims.threading", "multiprocessing": "simlib.shims.multiprocessing",
         "multiprocessing.pool": "simlib.shims.multiprocessing", "datetime": "simlib.shims.datetime"}
_CODE = {}


class _Inst(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0

    def _is_kernel(self, node):
        for d in node.decorator_list:
            s = ast.dump(d)
            if "jit" in s or "'overload" in s or "vectorize" in s:
                return True
        return False

    def visit_FunctionDef(self, node):
        if self._is_kernel(node):
            return node
        self.depth += 1
        self.generic_visit(node)
        body = node.body
        # keep the docstring first
        k = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and \
            isinstance(body[0].value.value, str) else 0
        node.body = body[:k] + self._ins(body[k:])
        self.depth -= 1
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def _ins(self, body):
        out = []
        for st in body:
            if not isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Global, ast.Nonlocal)):
                t = ast.Expr(value=ast.Call(func=ast.Name(id="__sim_tick__", ctx=ast.Load()), args=[], keywords=[]))
                ast.copy_location(t, st)
                ast.copy_location(t.value, st)
                ast.copy_location(t.value.func, st)
                out.append(t)
            out.append(st)
        return out

    def generic_visit(self, node):
        ast.NodeTransformer.generic_visit(self, node)
        if self.depth > 0 and not isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            for fld in ("body", "orelse", "finalbody"):
                v = getattr(node, fld, None)
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                    setattr(node, fld, self._ins(v))
        return node

    def visit_Set(self, node):
        # the iteration order of a set of strings differs between processes
        self.generic_visit(node)
        c = ast.Call(func=ast.Name(id="__sim_set__", ctx=ast.Load()),
                     args=[ast.List(elts=node.elts, ctx=ast.Load())], keywords=[])
        return ast.copy_location(c, node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        c = ast.Call(func=ast.Name(id="__sim_set__", ctx=ast.Load()),
                     args=[ast.copy_location(ast.ListComp(elt=node.elt, generators=node.generators), node)], keywords=[])
        return ast.copy_location(c, node)

    def visit_Import(self, node):
        out = []
        for a in node.names:
            if a.name in _SHIM:
                m = _SHIM[a.name]
                if a.asname or "." not in a.name:
                    out.append(ast.copy_location(ast.Import(names=[ast.alias(name=m, asname=a.asname or a.name)]), node))
                    continue
            out.append(ast.copy_location(ast.Import(names=[a]), node))
        return out

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module in _SHIM:
            node.module = _SHIM[node.module]
        elif node.level == 0 and node.module == "concurrent":
            node.module = "simlib.shims"
        return node


def instrument(src, path, toplevel=False):
    return instrument_tree(ast.parse(src, path), toplevel)


def instrument_tree(tree, toplevel=False):
    t = _Inst()
    tree = t.visit(tree)
    if toplevel:
        t.depth = 1
        for n in ast.walk(tree):
            pass
        tree.body = t._ins(tree.body)
        for n in tree.body:
            _deep(n, t)
    # 'import a.b as c' compiles to IMPORT_FROM chains: fine for the shims
    ast.fix_missing_locations(tree)
    return tree


def _deep(n, t):
    if isinstance(n, (ast.For, ast.While, ast.If, ast.With, ast.Try)):
        for fld in ("body", "orelse", "finalbody"):
            v = getattr(n, fld, None)
            if isinstance(v, list) and v:
                for m in v:
                    _deep(m, t)
                setattr(n, fld, t._ins(v))


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, pkg):
        self.name, self.path, self.pkg = name, path, pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        co = _CODE.get(self.path)
        if co is None:
            with open(self.path, encoding="utf-8") as f:
                src = f.read()
            co = _CODE[self.path] = compile(instrument(src, self.path), self.path, "exec")
        module.__dict__.update(ambient.NAMES)
        module.__dict__["__sim_tick__"] = core.tick_p
        exec(co, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "convst" and not name.startswith("convst."):
            return None
        rel = name.split(".")
        base = os.path.join(REPO, *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            spec = importlib.machinery.ModuleSpec(name, Loader(name, p, True), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
        elif os.path.exists(base + ".py"):
            p = base + ".py"
            spec = importlib.machinery.ModuleSpec(name, Loader(name, p, False), origin=p)
        else:
            return None
        spec.has_location = True
        return spec


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import numpy as np
    for n, v in (("float_", np.float64), ("int_", np.int64), ("bool8", np.bool_), ("complex_", np.complex128),
                 ("unicode_", np.str_), ("string_", np.bytes_), ("product", np.prod), ("cumproduct", np.cumprod)):
        if not hasattr(np, n):
            setattr(np, n, v)
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, os.path.join(here, "stubs"))
    sys.meta_path.insert(0, Finder())
    ambient.install()
    os.cpu_count = lambda: core.S.ncpu if core.S is not None else 4
    if hasattr(os, "sched_getaffinity"):
        os.sched_getaffinity = lambda pid=0: set(range(core.S.ncpu if core.S is not None else 4))
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")


MODULES = ["convst", "convst.utils.checks_utils", "convst.transformers._input_transformers",
           "convst.transformers.rdst", "convst.transformers._commons",
           "convst.transformers._univariate_same_length", "convst.transformers._univariate_variable_length",
           "convst.transformers._multivariate_same_length", "convst.transformers._multivariate_variable_length",
           "convst.classifiers", "convst.utils.dataset_utils", "convst.utils.experiments_utils"]


def load(parallel=True):
    """(Re)import the code under test."""
    import importlib
    for m in [m for m in sys.modules if m == "convst" or m.startswith("convst.")]:
        del sys.modules[m]
    c = importlib.import_module("convst")
    if not parallel:
        for n in list(vars(c)):
            if n == "__USE_NUMBA_PARALLEL__":
                setattr(c, n, False)
    for m in MODULES[1:]:
        importlib.import_module(m)
    return c


def source_files():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "convst")):
        for f in fs:
            if f.endswith(".py"):
                out.append(os.path.join(d, f))
    return sorted(out)
