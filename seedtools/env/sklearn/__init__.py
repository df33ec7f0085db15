"""Subset of scikit-learn 1.2 semantics used by convst (pure numpy stand-in)."""
__version__ = "1.2.2"
from .base import clone  # noqa


def set_config(**k):
    pass


def get_config():
    return {}


class config_context(object):
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False
