"""The simulated UCR/UEA archive."""
from simlib import archive as _a


def load_classification(name, split=None, extract_path=None, return_metadata=True, **kw):
    return _a.load(name, split, return_metadata, kw)


def __getattr__(n):
    if n.startswith("load_"):
        def f(*a, **k):
            raise NotImplementedError(n)
        return f
    raise AttributeError(n)
