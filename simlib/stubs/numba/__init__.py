"""Simulated numba (see simlib/kernel.py)."""
import numpy as _np
from simlib.kernel import njit, prange, set_num_threads, get_num_threads, Dispatcher
from . import core, types, extending, config, errors  # noqa
from simlib import core as _c

jit = njit
__version__ = "0.57.1"


def vectorize(*a, **k):
    def deco(f):
        return _np.vectorize(f)
    if len(a) == 1 and callable(a[0]):
        return deco(a[0])
    return deco


def generated_jit(*a, **k):
    raise NotImplementedError


def literal_unroll(x):
    return x


def literally(x):
    return x


class objmode(object):
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def threading_layer():
    return "omp"


def get_thread_id():
    return _c.S.cur.lane_no if _c.S.cur.in_region and _c.S.cur.kind == "lane" else 0


def set_parallel_chunksize(n):
    return 0


def get_parallel_chunksize():
    return 0


_TY = {}


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    if name in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32",
                "float64", "boolean", "intp", "void", "b1", "f4", "f8", "i4", "i8", "u4", "u8", "optional",
                "int_", "float_"):
        return getattr(types, name)
    raise AttributeError("module 'numba' has no attribute %r" % name)
