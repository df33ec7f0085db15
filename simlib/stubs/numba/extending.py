def overload(*a, **k):
    return lambda f: f


def overload_method(*a, **k):
    return lambda f: f


def overload_attribute(*a, **k):
    return lambda f: f


def register_jitable(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


def intrinsic(*a, **k):
    raise NotImplementedError
