def _draw(name):
    def f(*a, **k):
        ax = k.pop("ax", None)
        if ax is None:
            from matplotlib import pyplot
            ax = pyplot.gca()
        ax.record(name, a, k)
        return ax
    return f


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    if name.endswith("plot"):
        return _draw(name)
    return lambda *a, **k: None
