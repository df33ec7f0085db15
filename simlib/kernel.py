# -*- coding: utf-8 -*-
"""The simulated numba: runs @njit functions from their real source text.

A function is 'compiled' at its first call: its source is re-parsed from the
file it lives in, scheduling points are inserted, calls to the global numpy
generator are redirected to the calling thread's own generator (numba keeps one
Mersenne twister per OS thread) and, for parallel=True functions, every
outermost ``for ... in prange(...)`` becomes a parallel region whose chunks are
run by simulated worker threads.
"""
import ast
import builtins
import numpy as np

from . import core

_SRC = {}


class prange(object):
    """range() outside a parallel region."""

    def __new__(cls, *a):
        return range(*[int(x) for x in a])


def _tree(path):
    t = _SRC.get(path)
    if t is None:
        with open(path, encoding="utf-8") as f:
            t = _SRC[path] = ast.parse(f.read(), path)
    return t


def _find(path, name, line):
    best = None
    for node in ast.walk(_tree(path)):
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            if isinstance(node, ast.Lambda):
                continue
            if node.name != name:
                continue
            first = min([node.lineno] + [d.lineno for d in node.decorator_list])
            if first <= line <= node.body[-1].lineno:
                if best is None or abs(node.lineno - line) < abs(best.lineno - line):
                    best = node
    if best is None:
        raise core.HarnessError("source of kernel %s not found in %s:%s" % (name, path, line))
    return best


def _copy(node):
    import copy
    return copy.deepcopy(node)


def _name(id_, ctx=None):
    return ast.Name(id=id_, ctx=ctx or ast.Load())


def _tick():
    return ast.Expr(value=ast.Call(func=_name("__sim_tick"), args=[], keywords=[]))


def _fix(n, ref):
    for x in ast.walk(n):
        if not hasattr(x, "lineno") and isinstance(x, (ast.stmt, ast.expr, ast.arg, ast.keyword,
                                                       ast.excepthandler)):
            x.lineno = getattr(ref, "lineno", 1)
            x.col_offset = 0
            x.end_lineno = x.lineno
            x.end_col_offset = 0
    return n


_REDOPS = {ast.Add: "+", ast.Sub: "+", ast.Mult: "*", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^"}


class _Rng(object):
    """Stands for numpy.random inside kernels."""

    def __getattr__(self, name):
        return _rng_fn(name)


_rng_cache = {}


def _rng_fn(name):
    f = _rng_cache.get(name)
    if f is not None:
        return f
    real = getattr(np.random, name, None)
    if real is None:
        raise AttributeError(name)
    if name == "seed":
        def f(s=None):
            if s is None:
                core.S.probe("seed-none")
                return None
            core.S.thread_rng().seed(int(s) & 0xFFFFFFFF)
    elif hasattr(np.random.RandomState, name) or name in ("random", "random_sample", "ranf", "sample"):
        nm = "random_sample" if name in ("ranf", "sample") else name

        def f(*a, **k):
            return getattr(core.S.thread_rng(), nm)(*a, **k)
    else:
        return real
    f.__name__ = name
    _rng_cache[name] = f
    return f


def _is_global_rng_fn(v):
    o = getattr(v, "__self__", None)
    if o is not None and isinstance(o, np.random.RandomState) and o is np.random.mtrand._rand:
        return v.__name__
    if callable(v) and getattr(v, "__module__", "") in ("numpy.random", "numpy.random.mtrand") and \
            not isinstance(v, type) and getattr(v, "__name__", "") in ("seed", "ranf", "sample"):
        return v.__name__
    return None


class _Compiler(object):
    def __init__(self, g, params):
        self.g = g
        self.params = params
        self.k = 0

    def tmp(self, p):
        self.k += 1
        return "__sim_%s%d" % (p, self.k)

    # ---- random chains ----------------------------------------------------
    def rng_rewrite(self, node):
        comp = self

        class R(ast.NodeTransformer):
            def visit_Attribute(self, n):
                self.generic_visit(n)
                v = n.value
                if isinstance(v, ast.Attribute) and v.attr == "random" and isinstance(v.value, ast.Name) \
                        and comp.g.get(v.value.id) is np:
                    return ast.copy_location(ast.Attribute(value=_name("__sim_rng"), attr=n.attr, ctx=n.ctx), n)
                if isinstance(v, ast.Name) and comp.g.get(v.id) is np.random:
                    return ast.copy_location(ast.Attribute(value=_name("__sim_rng"), attr=n.attr, ctx=n.ctx), n)
                return n
        return R().visit(node)

    def is_prange(self, node):
        if not (isinstance(node, ast.For) and isinstance(node.iter, ast.Call)):
            return False
        f = node.iter.func
        if isinstance(f, ast.Name):
            return self.g.get(f.id) is prange
        if isinstance(f, ast.Attribute) and f.attr == "prange":
            return True
        return False

    # ---- serial bodies ----------------------------------------------------
    def light(self, body):
        """Sparse scheduling points for functions that are not parallel."""
        out = []
        for st in body:
            for fld in ("body", "orelse", "finalbody"):
                if getattr(st, fld, None) and isinstance(getattr(st, fld), list) and \
                        not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    setattr(st, fld, self.light(getattr(st, fld)))
            if isinstance(st, ast.Try):
                for h in st.handlers:
                    h.body = self.light(h.body)
            if isinstance(st, ast.While):
                st.body.insert(0, _fix(_tick(), st))
            if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Subscript) and self._root(st.target) in self.params:
                out.extend(self.split(st))
                continue
            if isinstance(st, ast.Assign) and any(
                    isinstance(t, ast.Subscript) and self._root(t) in self.params for t in st.targets):
                out.append(_fix(_tick(), st))
            out.append(st)
        return out

    def _root(self, n):
        while isinstance(n, (ast.Subscript, ast.Attribute)):
            n = n.value
        return n.id if isinstance(n, ast.Name) else None

    def split(self, st):
        """A[i] op= v  ->  read, scheduling point, write."""
        b, k, o, v = self.tmp("b"), self.tmp("k"), self.tmp("o"), self.tmp("v")
        sl = st.target.slice
        if isinstance(sl, ast.Slice) or (isinstance(sl, ast.Tuple) and any(isinstance(e, ast.Slice) for e in sl.elts)):
            def conv(e):
                if isinstance(e, ast.Slice):
                    return ast.Call(func=_name("slice"), args=[
                        e.lower or ast.Constant(value=None), e.upper or ast.Constant(value=None),
                        e.step or ast.Constant(value=None)], keywords=[])
                return e
            if isinstance(sl, ast.Tuple):
                sl = ast.Tuple(elts=[conv(e) for e in sl.elts], ctx=ast.Load())
            else:
                sl = conv(sl)
        new = [
            ast.Assign(targets=[_name(b, ast.Store())], value=st.target.value),
            ast.Assign(targets=[_name(k, ast.Store())], value=sl),
            ast.Assign(targets=[_name(v, ast.Store())], value=st.value),
            ast.Assign(targets=[_name(o, ast.Store())], value=ast.BinOp(
                left=ast.Subscript(value=_name(b), slice=_name(k), ctx=ast.Load()), op=st.op, right=_name(v))),
            _tick(),
            ast.Assign(targets=[ast.Subscript(value=_name(b), slice=_name(k), ctx=ast.Store())], value=_name(o)),
        ]
        return [_fix(x, st) for x in new]

    # ---- parallel bodies ---------------------------------------------------
    def dense(self, body):
        """A scheduling point before every statement."""
        out = []
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                out.append(st)
                continue
            for fld in ("body", "orelse", "finalbody"):
                v = getattr(st, fld, None)
                if isinstance(v, list) and v:
                    setattr(st, fld, self.dense(v))
            if isinstance(st, ast.Try):
                for h in st.handlers:
                    h.body = self.dense(h.body)
            out.append(_fix(_tick(), st))
            if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Subscript):
                out.extend(self.split(st))
            else:
                out.append(st)
        return out

    def par(self, body, outer_names):
        out = []
        for st in body:
            if self.is_prange(st):
                out.extend(self.region(st))
                continue
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                out.append(st)
                continue
            for fld in ("body", "orelse", "finalbody"):
                v = getattr(st, fld, None)
                if isinstance(v, list) and v:
                    setattr(st, fld, self.par(v, outer_names))
            if isinstance(st, ast.Try):
                for h in st.handlers:
                    h.body = self.par(h.body, outer_names)
            out.append(_fix(_tick(), st))
            out.append(st)
        return out

    def region(self, st):
        assigned, aug, other = set(), {}, set()
        mm = {}
        for n in ast.walk(ast.Module(body=st.body, type_ignores=[])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                assigned.add(n.id)
        for n in ast.walk(ast.Module(body=st.body, type_ignores=[])):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                aug.setdefault(n.target.id, []).append(type(n.op))
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                    isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and \
                    n.value.func.id in ("max", "min") and any(
                        isinstance(a, ast.Name) and a.id == n.targets[0].id for a in n.value.args):
                mm.setdefault(n.targets[0].id, []).append(n.value.func.id)
            elif isinstance(n, (ast.Assign, ast.For, ast.NamedExpr, ast.AnnAssign, ast.With)):
                tg = n.targets if isinstance(n, ast.Assign) else (
                    [n.target] if not isinstance(n, ast.With) else [i.optional_vars for i in n.items if i.optional_vars])
                for t in tg:
                    for m in ast.walk(t):
                        if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                            other.add(m.id)
        reds = []
        for nm, ops in sorted(aug.items()):
            if nm in other or nm in mm:
                continue
            if len(set(_REDOPS.get(o) for o in ops)) == 1 and _REDOPS.get(ops[0]):
                reds.append((nm, _REDOPS[ops[0]]))
        for nm, ops in sorted(mm.items()):
            if nm in other or nm in aug or len(set(ops)) != 1:
                continue
            reds.append((nm, ops[0]))
        rnames = set(n for n, _ in reds)
        tnames = set(m.id for m in ast.walk(st.target) if isinstance(m, ast.Name))
        first = sorted(n for n in assigned if n not in rnames and n not in tnames)
        fn, fp = self.tmp("chunk"), "__sim_fp"
        pre = []
        for n in first:
            pre.append(ast.If(
                test=ast.Compare(left=ast.Constant(value=n), ops=[ast.In()], comparators=[_name(fp)]),
                body=[ast.Assign(targets=[_name(n, ast.Store())],
                                 value=ast.Subscript(value=_name(fp), slice=ast.Constant(value=n), ctx=ast.Load()))],
                orelse=[]))
        for n, op in reds:
            pre.append(ast.Assign(targets=[_name(n, ast.Store())], value=ast.Call(
                func=_name("__sim_ident"), args=[ast.Constant(value=op),
                                                 ast.Subscript(value=_name(fp), slice=ast.Constant(value=n),
                                                               ctx=ast.Load())], keywords=[])))
        body = self.dense(st.body)
        loop = ast.For(target=st.target, iter=_name("__sim_it"), body=body, orelse=[])
        ret = ast.Return(value=ast.Tuple(elts=[_name(n) for n, _ in reds], ctx=ast.Load()))
        fdef = ast.FunctionDef(
            name=fn,
            args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="__sim_it"), ast.arg(arg=fp)], vararg=None,
                               kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
            body=pre + [loop, ret], decorator_list=[], returns=None, type_comment=None)
        if hasattr(ast, "TypeAlias"):
            fdef.type_params = []
        rng = ast.Call(func=_name("range"), args=[
            ast.Call(func=_name("int"), args=[a], keywords=[]) for a in st.iter.args], keywords=[])
        names = ast.Tuple(elts=[ast.Constant(value=n) for n in first + [n for n, _ in reds]], ctx=ast.Load())
        call = ast.Call(func=_name("__sim_region"), args=[
            _name(fn), rng, ast.Call(func=_name("locals"), args=[], keywords=[]), names,
            ast.Tuple(elts=[ast.Tuple(elts=[ast.Constant(value=n), ast.Constant(value=o)], ctx=ast.Load())
                            for n, o in reds], ctx=ast.Load()),
            ast.Constant(value=getattr(st, "lineno", 0))], keywords=[])
        if reds:
            tail = ast.Assign(targets=[ast.Tuple(elts=[_name(n, ast.Store()) for n, _ in reds], ctx=ast.Store())],
                              value=call)
        else:
            tail = ast.Expr(value=call)
        return [_fix(_tick(), st), _fix(fdef, st), _fix(tail, st)] + self.par(st.orelse, None)


# --------------------------------------------------------------------------
def _ident(op, v):
    if op in ("max", "min"):
        return v
    if isinstance(v, np.ndarray):
        if op == "*":
            return np.ones_like(v)
        if op == "&":
            return np.ones_like(v) if v.dtype == np.bool_ else np.full_like(v, -1)
        return np.zeros_like(v)
    if op == "*":
        return type(v)(1)
    if op == "&":
        return type(v)(True) if isinstance(v, (bool, np.bool_)) else type(v)(-1)
    return type(v)(0)


def _combine(op, a, b):
    if op == "+":
        return a + b
    if op == "*":
        return a * b
    if op == "|":
        return a | b
    if op == "&":
        return a & b
    if op == "^":
        return a ^ b
    if op == "max":
        return max(a, b)
    return min(a, b)


def _region(chunk, it, loc, names, reds, line):
    """Run one parallel region."""
    sim = core.S
    me = sim.cur
    fp = dict((n, loc[n]) for n in names if n in loc)
    total = len(it)
    if me.in_region or sim.force_serial:
        lanes = 1
    else:
        lanes = get_num_threads()
    sim.n_regions += 1
    if total == 0:
        return tuple(fp.get(n) for n, _ in reds) if reds else None
    if lanes <= 1 or me.in_region:
        was = me.in_region
        me.in_region = True
        try:
            sim.note_active()
            res = [chunk(it, fp)]
        finally:
            me.in_region = was
        return _finish(res, fp, reds)
    lay = sim.layer
    ntask = []
    if lay.get("chunk") == "dynamic":
        # random contiguous pieces handed to whichever lane asks first
        import random as _r
        rr = _r.Random("chunk/%s/%s" % (sim.entropy, sim.n_regions))
        i = 0
        while i < total:
            w = rr.randint(1, max(1, total // lanes))
            ntask.append((i, min(total, i + w)))
            i += w
    else:
        base, extra = divmod(total, lanes)
        i = 0
        for k in range(lanes):
            w = base + (1 if k < extra else 0)
            if w:
                ntask.append((i, i + w))
                i += w
    nl = min(lanes, len(ntask))
    sim.probe("regions-parallel")
    res = [None] * len(ntask)
    errs = []
    queue = list(range(len(ntask)))
    dyn = lay.get("chunk") == "dynamic"

    def lane(k):
        t = sim.cur
        was = t.in_region
        t.in_region = True
        try:
            while True:
                if dyn:
                    if not queue or errs:
                        break
                    q = queue.pop(0)
                else:
                    q = k
                a, b = ntask[q]
                sim.log("chunk", line, t.tid, a, b)
                res[q] = chunk(it[a:b], fp)
                if not dyn:
                    break
        except core.SimAbort:
            raise
        except BaseException as e:
            errs.append((k, e))
        finally:
            t.in_region = was

    def mk(k):
        return lambda: lane(k)

    part = bool(lay.get("participate"))
    ths = []
    for k in range(1 if part else 0, nl):
        t = sim.spawn(mk(k), "lane%d" % k, "lane", lane_no=k)
        if lay.get("persist", True):
            t.rng = sim._rng_for(("pool", me.tid, me.name, k))
        t.num_threads = me.num_threads
        ths.append(t)
    if part:
        sim.note_active()
        if ths:
            sim.yield_("spawn")
        lane(0)
    else:
        me.state = "blocked"
        sim.note_active()
        me.state = "run"
    sim.join(ths)
    if errs:
        errs.sort(key=lambda x: x[0])
        raise errs[0][1]
    return _finish([r for r in res if r is not None], fp, reds)


def _finish(res, fp, reds):
    if not reds:
        return None
    out = []
    for j, (n, op) in enumerate(reds):
        v = fp[n]
        for r in res:
            v = _combine(op, v, r[j])
        out.append(v)
    return tuple(out)


def get_num_threads():
    t = core.S.cur
    n = t.num_threads
    return core.S.ncpu if n is None else n


def set_num_threads(n):
    if not isinstance(n, (int, np.integer)) or isinstance(n, bool):
        raise TypeError("The number of threads specified must be an integer")
    if n < 1 or n > core.S.ncpu:
        raise ValueError("The number of threads must be between 1 and %d" % core.S.ncpu)
    core.S.cur.num_threads = int(n)
    core.S.log("set_num_threads", core.S.cur.tid, int(n))


# --------------------------------------------------------------------------
_COMPILED = {}


def _globals_for(fn):
    g = dict(fn.__globals__)
    if fn.__closure__:
        for nm, cell in zip(fn.__code__.co_freevars, fn.__closure__):
            try:
                g[nm] = cell.cell_contents
            except ValueError:
                pass
    return g


class Dispatcher(object):
    def __init__(self, fn, opts):
        self.py_func = fn
        self.opts = opts
        self.parallel = bool(opts.get("parallel"))
        self.__name__ = fn.__name__
        self.__qualname__ = fn.__qualname__
        self.__module__ = fn.__module__
        self.__doc__ = fn.__doc__
        self.__wrapped__ = fn
        self._serial = None
        self._par = None
        self.signatures = []
        self.nopython_signatures = []

    def __reduce__(self):
        return (_restore, (self.__module__, self.__qualname__))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __get__(self, obj, objtype=None):
        if obj is None:
            return self
        import types
        return types.MethodType(self, obj)

    def compile(self, *a, **k):
        return None

    def serial_fn(self):
        if self._serial is None:
            self._serial = self._build(False)
        return self._serial

    def par_fn(self):
        if self._par is None:
            self._par = self._build(True)
        return self._par

    def _build(self, par):
        fn = self.py_func
        code = fn.__code__
        g = _globals_for(fn)
        node = _copy(_find(code.co_filename, fn.__name__, code.co_firstlineno))
        node.decorator_list = []
        params = set(a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs)
        c = _Compiler(g, params)
        node = c.rng_rewrite(node)
        if par:
            node.body = c.par(node.body, None)
        else:
            node.body = c.dense(node.body) if self.parallel else [_fix(_tick(), node.body[0])] + c.light(node.body)
        _fix(node, node)
        m = ast.Module(body=[node], type_ignores=[])
        ast.fix_missing_locations(m)
        co = compile(m, code.co_filename, "exec")
        used = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name):
                used.add(n.id)
        for nm in used:
            v = g.get(nm)
            if v is None:
                continue
            r = _is_global_rng_fn(v)
            if r:
                g[nm] = _rng_fn(r)
            elif v is prange:
                g[nm] = _prange_int
            elif isinstance(v, Dispatcher) and not v.parallel:
                g[nm] = _Lazy(v, g, nm).call
        g["__sim_tick"] = core.tick_k
        g["__sim_rng"] = _Rng()
        g["__sim_region"] = _region
        g["__sim_ident"] = _ident
        g["__builtins__"] = builtins
        exec(co, g)
        f = g[fn.__name__]
        f.__defaults__ = fn.__defaults__
        f.__kwdefaults__ = fn.__kwdefaults__
        return f

    def __call__(self, *a, **k):
        sim = core.S
        if sim is None:
            raise core.HarnessError("kernel called outside a simulation")
        for x in a:
            if isinstance(x, np.ndarray) and x.dtype.kind in "OUSV":
                # numba cannot type object arrays and cannot compare string arrays
                from numba.core.errors import TypingError
                raise TypingError("cannot determine Numba type of array(%s)" % x.dtype)
        me = sim.cur
        me.kern += 1
        try:
            if self.parallel and not sim.force_serial and not me.in_region:
                return self.par_fn()(*a, **k)
            sim.note_active()
            return self.serial_fn()(*a, **k)
        finally:
            me.kern -= 1


class _Lazy(object):
    """Direct call of another compiled function, resolved at first use."""

    def __init__(self, d, g, nm):
        self.d, self.g, self.nm = d, g, nm

    def call(self, *a, **k):
        f = self.d.serial_fn()
        self.g[self.nm] = f
        return f(*a, **k)


def _prange_int(*a):
    return range(*[int(x) for x in a])


def _restore(mod, qual):
    import importlib
    o = importlib.import_module(mod)
    for p in qual.split("."):
        o = getattr(o, p)
    return o


def njit(*args, **opts):
    if len(args) == 1 and callable(args[0]) and not opts and not isinstance(args[0], type):
        return Dispatcher(args[0], {})

    def deco(fn):
        return Dispatcher(fn, opts)
    return deco
