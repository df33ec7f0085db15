# -*- coding: utf-8 -*-
"""Small stand-ins for numba, joblib and aeon so that /repo runs here.

numba: functions run as Python.  A prange of a parallel function runs on THREADS
virtual threads, one after the other, in the order ORDER, each with its own
random generator, as numba's threads have.  joblib: jobs run one after the
other in the order JOBS.
"""
import functools
import os
import sys
import types
import warnings

import numpy as np

warnings.simplefilter("ignore")
np.float_ = np.float64
REPO = os.environ.get("DEMO_REPO", os.getcwd())
THREADS = 1
ORDER = "forward"      # or backward
JOBS = "forward"
NCPU = 8
_par = [False]
_gen = {}
num_threads = [NCPU]


class core(object):
    @staticmethod
    def tick_p():
        pass


class disk(object):
    @staticmethod
    def write_text(path, s, mode):
        with open(path, mode) as f:
            f.write(s)


def njit(*a, **k):
    par = bool(k.get("parallel"))

    def deco(f):
        @functools.wraps(f)
        def g(*x, **y):
            old = _par[0]
            _par[0] = par
            try:
                return f(*x, **y)
            finally:
                _par[0] = old
        g.py_func = f
        return g
    return deco(a[0]) if a and callable(a[0]) else deco


def prange(*a):
    r = range(*a)
    n = min(THREADS, num_threads[0])
    if not _par[0] or n == 1:
        for i in r:
            yield i
        return
    # contiguous chunks, as numba's scheduler makes them; thread 0 is the caller
    cut = [len(r) * t // n for t in range(n + 1)]
    todo = [(t, r[i]) for t in range(n) for i in range(cut[t], cut[t + 1])]
    if ORDER == "backward":
        todo.reverse()
    me = 0
    for t, i in todo:
        if t != me:
            _gen[me] = np.random.get_state()
            if t in _gen:
                np.random.set_state(_gen[t])
            else:
                np.random.seed(77700 + t)
            me = t
        _par[0] = False
        yield i
        _par[0] = True
    if me != 0:
        _gen[me] = np.random.get_state()
        np.random.set_state(_gen[0])


class Parallel(object):
    def __init__(self, n_jobs=None, **k):
        pass

    def __call__(self, it):
        jobs = list(it)
        out = [None] * len(jobs)
        order = list(range(len(jobs)))
        if JOBS == "backward":
            order.reverse()
        for i in order:
            f, a, k = jobs[i]
            out[i] = f(*a, **k)
        return out


def delayed(f):
    return lambda *a, **k: (f, a, k)


ARCHIVE = {}           # (name, split) -> function returning (X, y)


def load_classification(name, split=None, extract_path=None, return_metadata=True, **k):
    X, y = ARCHIVE[name, split]()
    return (X, y, {}) if return_metadata else (X, y)


def _module(name, **k):
    m = types.ModuleType(name)
    m.__dict__.update(k)
    sys.modules[name] = m
    return m


def set_num_threads(n):
    num_threads[0] = n


_module("numba", njit=njit, jit=njit, prange=prange, set_num_threads=set_num_threads,
        get_num_threads=lambda: num_threads[0])
DRAWN = []             # (name, args, kwargs) of the drawing calls


SAVE = lambda *a, **k: None      # what writing an image does


class Pen(object):
    def __init__(self, n=0):
        self.calls = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def f(*a, **k):
            a = tuple(np.array(v) if isinstance(v, np.ndarray) else v for v in a)
            self.calls.append((name, a, k))
            DRAWN.append((name, a, k))
            return Pen()
        return f


def subplots(nrows=1, ncols=1, **k):
    ax = np.empty((nrows, ncols), dtype=object)
    for i in range(nrows):
        for j in range(ncols):
            ax[i, j] = Pen()
    return Pen(), ax


_pen = Pen()
_plt = _module("matplotlib.pyplot", subplots=subplots, figure=_pen.figure, plot=_pen.plot, scatter=_pen.scatter, title=_pen.title,
               hlines=_pen.hlines, show=_pen.show, savefig=lambda *a, **k: SAVE(*a, **k), rcParams={})
_module("matplotlib", pyplot=_plt)
_module("seaborn", set=_pen.set, set_context=_pen.set_context, boxplot=_pen.boxplot)
_module("joblib", Parallel=Parallel, delayed=delayed, cpu_count=lambda: NCPU)
_module("aeon")
_module("aeon.datasets", load_classification=load_classification)
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)


# ---------------------------------------------------------------- threads
def lockstep(fns, match, every=1):
    """Run the functions in threads of which exactly one runs at a time; the turn
    passes on after `every` lines executed in code for which match(code) holds."""
    import threading
    n = len(fns)
    turn = [0]
    live = [True] * n
    cv = threading.Condition()
    out = [None] * n

    def wait(k):
        with cv:
            while turn[0] != k:
                cv.wait()

    def give(k):
        with cv:
            for d in range(1, n + 1):
                if live[(k + d) % n]:
                    turn[0] = (k + d) % n
                    break
            cv.notify_all()

    def run(k):
        left = [every]

        def local(frame, ev, arg):
            if ev == "line":
                left[0] -= 1
                if left[0] <= 0:
                    left[0] = every
                    give(k)
                    wait(k)
            return local

        def tracer(frame, ev, arg):
            return local if match(frame.f_code) else None
        wait(k)
        sys.settrace(tracer)
        try:
            out[k] = ("ok", fns[k]())
        except BaseException as e:
            out[k] = ("error", e)
        finally:
            sys.settrace(None)
            live[k] = False
            give(k)
    ts = [threading.Thread(target=run, args=(k,)) for k in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for k, v in out:
        if k == "error":
            raise v
    return [v for _, v in out]


def in_convst(code):
    return code.co_filename.startswith(os.path.join(REPO, "convst"))


def parallelise(fn, nthreads=2, every=1):
    """fn with the iterations of its outermost prange loops (of those the loop
    variable of which starts with i_) spread over threads run in lockstep."""
    import ast
    import inspect
    import textwrap
    f = getattr(fn, "py_func", fn)
    tree = ast.parse(textwrap.dedent(inspect.getsource(f)))
    fd = tree.body[0]
    fd.decorator_list = []
    k = [0]

    def conv(body):
        new = []
        for st in body:
            if isinstance(st, ast.For) and isinstance(st.iter, ast.Call) and getattr(st.iter.func, "id", "") == "prange":
                nm = "_body%d" % k[0]
                k[0] += 1
                d = ast.parse("def %s(%s):\n    pass" % (nm, st.target.id)).body[0]
                d.body = st.body
                call = ast.parse("_spread(%s, 0)" % nm).body[0]
                call.value.args[1] = ast.Call(func=ast.Name(id="range", ctx=ast.Load()), args=st.iter.args, keywords=[])
                new += [d, call]
            else:
                new.append(st)
        return new
    fd.body = conv(fd.body)
    ast.fix_missing_locations(tree)

    def spread(body, it):
        it = list(it)
        n = min(nthreads, len(it))
        cut = [len(it) * t // n for t in range(n + 1)] if n else []
        lockstep([(lambda t=t: [body(i) for i in it[cut[t]:cut[t + 1]]]) for t in range(n)],
                 lambda code: code is body.__code__, every) if n > 1 else [body(i) for i in it]
    g = dict(f.__globals__)
    g["_spread"] = spread
    exec(compile(tree, "<parallel %s>" % f.__name__, "exec"), g)
    return g[f.__name__]
