"""Records what is drawn: FIGURES -> axes -> calls [(name, args, kwargs)]."""
import copy as _copy
import numpy as _np

FIGURES = []
SHOWN = []
SAVE = [None]           # error raised by the next files written
_state = {"ax": None, "fig": None}


def _caller():
    try:
        from simlib import core
        return core.pykey()
    except Exception:
        return None


def _keep(v):
    # what is drawn is what the data is at this moment
    if isinstance(v, _np.ndarray):
        return _np.array(v)
    if isinstance(v, (list, tuple)):
        return type(v)(_keep(w) for w in v) if type(v) in (list, tuple) else _copy.copy(v)
    return v


class Recorder(object):
    def __init__(self):
        self.calls = []

    def record(self, name, a, k):
        self.calls.append((name, tuple(_keep(v) for v in a), {q: _keep(v) for q, v in k.items() if q != "ax"}))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def f(*a, **k):
            self.record(name, a, k)
            return Recorder()
        return f


class Axes(Recorder):
    def __init__(self, figure):
        Recorder.__init__(self)
        self.figure = figure


class Figure(Recorder):
    def __init__(self):
        Recorder.__init__(self)
        self.axes = []
        self.owner = _caller()
        FIGURES.append(self)
        _state["fig"] = self

    def add_subplot(self, *a, **k):
        ax = Axes(self)
        self.axes.append(ax)
        _state["ax"] = ax
        return ax

    add_axes = add_subplot

    def gca(self):
        return self.axes[-1] if self.axes else self.add_subplot()

    def savefig(self, path, *a, **k):
        self.record("savefig", (path,) + a, k)
        if SAVE[0] is not None:
            raise SAVE[0]


def figure(*a, **k):
    f = Figure()
    _state["ax"] = None
    return f


def subplots(nrows=1, ncols=1, squeeze=True, **k):
    f = Figure()
    out = _np.empty((nrows, ncols), dtype=object)
    for i in range(nrows):
        for j in range(ncols):
            out[i, j] = f.add_subplot()
    if squeeze:
        out = out[0, 0] if out.size == 1 else out.reshape(-1) if 1 in out.shape else out
    return f, out


def gcf():
    if _state["fig"] is None:
        Figure()
    return _state["fig"]


def gca():
    if _state["ax"] is None:
        _state["ax"] = gcf().gca()
    return _state["ax"]


def savefig(*a, **k):
    return gcf().savefig(*a, **k)


def sca(ax):
    _state["ax"] = ax
    _state["fig"] = ax.figure


def show(*a, **k):
    SHOWN.extend(f for f in FIGURES if f not in SHOWN)


def close(*a, **k):
    _state["ax"] = _state["fig"] = None


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    if name in ("title", "xlabel", "ylabel", "xlim", "ylim", "xticks", "yticks"):
        name = "set_" + name
    return lambda *a, **k: getattr(gca(), name)(*a, **k)
