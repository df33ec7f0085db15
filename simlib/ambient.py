# -*- coding: utf-8 -*-
"""Ambient nondeterminism of a Python process behind a seam: unseeded generators,
os.urandom, process ids, the salt of str hashes and the iteration order of sets
of strings.  All of it is a function of the simulated process's entropy."""
import builtins
import hashlib
import os
import random

import numpy as np

from . import core

_count = [0]


def reset():
    _count[0] = 0


def fresh(n=8):
    """Bytes nobody can predict, except from the entropy of the simulated process."""
    _count[0] += 1
    h = b""
    k = 0
    while len(h) < n:
        h += hashlib.blake2b(repr(("ambient", core.S.entropy, _count[0], k)).encode()).digest()
        k += 1
    return h[:n]


def fresh_int(bits=32):
    return int.from_bytes(fresh(8), "big") >> (64 - bits)


def _has_str(o):
    if isinstance(o, (str, bytes)):
        return True
    if isinstance(o, (tuple, builtins.frozenset)):
        return any(_has_str(v) for v in o)
    return False


def _salted(o):
    return int.from_bytes(hashlib.blake2b(repr(("hash", core.S.entropy, o)).encode(), digest_size=8).digest(),
                          "big", signed=True)


def sim_hash(o):
    if core.S is not None and _has_str(o):
        return _salted(o)
    return builtins.hash(o)


class _SetMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls.__mro__[1])

    def __subclasscheck__(cls, o):
        return issubclass(o, cls.__mro__[1])


def _order(s, it):
    v = list(it)
    if core.S is None or not any(_has_str(x) for x in v):
        return v
    return sorted(v, key=lambda x: (_salted(x) if _has_str(x) else builtins.hash(x)))


class SimSet(set, metaclass=_SetMeta):
    def __iter__(self):
        return iter(_order(self, set.__iter__(self)))

    def pop(self):
        for x in self:
            set.remove(self, x)
            return x
        raise KeyError("pop from an empty set")

    def copy(self):
        return SimSet(self)

    def __reduce__(self):
        return (set, (list(set.__iter__(self)),))


class SimFrozenSet(frozenset, metaclass=_SetMeta):
    def __iter__(self):
        return iter(_order(self, frozenset.__iter__(self)))

    def __reduce__(self):
        return (frozenset, (list(frozenset.__iter__(self)),))


def _binop(cls, name):
    real = getattr(cls.__mro__[1], name)

    def f(self, *a):
        r = real(self, *a)
        return cls(r) if isinstance(r, (builtins.set, builtins.frozenset)) else r
    f.__name__ = name
    return f


for _cls in (SimSet, SimFrozenSet):
    for _n in ("__and__", "__or__", "__sub__", "__xor__", "__rand__", "__ror__", "__rsub__", "__rxor__", "union",
               "intersection", "difference", "symmetric_difference"):
        setattr(_cls, _n, _binop(_cls, _n))

NAMES = {"hash": sim_hash, "set": SimSet, "frozenset": SimFrozenSet, "__sim_set__": SimSet}


def install():
    real_urandom, real_getpid = os.urandom, os.getpid

    def urandom(n):
        return real_urandom(n) if core.S is None else fresh(n)

    def getpid():
        return real_getpid() if core.S is None else 2 + int(hashlib.blake2b(
            repr(core.S.entropy).encode(), digest_size=2).hexdigest(), 16)
    os.urandom = urandom
    os.getpid = getpid
    random._urandom = urandom

    base = random.Random

    class Random(base):
        def __init__(self, x=None):
            base.__init__(self, fresh_int() if x is None and core.S is not None else x)

        def seed(self, a=None, version=2):
            base.seed(self, fresh_int() if a is None and core.S is not None else a, version)
    random.Random = Random
    pyseed = random.seed

    def seed(a=None, version=2):
        pyseed(fresh_int() if a is None and core.S is not None else a, version)
    random.seed = seed

    RS = np.random.RandomState

    class _RSMeta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, RS)

    class RandomState(RS, metaclass=_RSMeta):
        def __init__(self, seed=None):
            RS.__init__(self, fresh_int() if seed is None and core.S is not None else seed)
    RandomState.__name__ = RandomState.__qualname__ = "RandomState"
    np.random.RandomState = RandomState
    npseed = np.random.seed

    def nseed(seed=None):
        npseed(fresh_int() if seed is None and core.S is not None else seed)
    nseed.__name__ = "seed"
    nseed.__module__ = "numpy.random"
    np.random.seed = nseed
    drng = np.random.default_rng

    def default_rng(seed=None):
        return drng(fresh_int() if seed is None and core.S is not None else seed)
    np.random.default_rng = default_rng
