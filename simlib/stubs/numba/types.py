import numpy as _np


class _T(object):
    def __init__(self, name="?"):
        self.name = name

    def __call__(self, *a, **k):
        m = {"int8": _np.int8, "int16": _np.int16, "int32": _np.int32, "int64": _np.int64, "intp": _np.intp,
             "float32": _np.float32, "float64": _np.float64, "uint8": _np.uint8, "uint32": _np.uint32,
             "uint64": _np.uint64, "i8": _np.int64, "f8": _np.float64}.get(self.name)
        if m is not None and len(a) == 1 and not isinstance(a[0], _T):
            return m(a[0])
        return _T(self.name + "()")

    def __getitem__(self, k):
        return _T(self.name + "[]")


class Array(_T):
    pass


class Optional(_T):
    pass


class Integer(_T):
    pass


class NoneType(_T):
    pass


class Float(_T):
    pass


class Boolean(_T):
    pass


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return _T(name)
