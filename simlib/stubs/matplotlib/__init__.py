import importlib as _i


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    if name in ("pyplot", "backends", "cm", "colors", "gridspec", "lines", "patches", "ticker"):
        return _i.import_module("matplotlib." + name)
    return lambda *a, **k: None
