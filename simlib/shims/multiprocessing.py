from simlib import core as _c


def cpu_count():
    return _c.S.ncpu


def __getattr__(n):
    if n.startswith("__"):
        raise AttributeError(n)
    raise NotImplementedError("multiprocessing." + n)
