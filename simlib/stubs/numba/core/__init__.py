from . import errors, types  # noqa
