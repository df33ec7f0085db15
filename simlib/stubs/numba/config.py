from simlib import core as _c


def __getattr__(name):
    if name in ("NUMBA_NUM_THREADS", "NUMBA_DEFAULT_NUM_THREADS"):
        return _c.S.ncpu if _c.S is not None else 4
    if name == "THREADING_LAYER":
        return "default"
    raise AttributeError(name)
