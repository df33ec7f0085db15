from .core.errors import *  # noqa
