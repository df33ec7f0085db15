class NumbaError(Exception):
    pass


class TypingError(NumbaError):
    pass


class NumbaWarning(Warning):
    pass


class NumbaPerformanceWarning(NumbaWarning):
    pass


class NumbaPendingDeprecationWarning(NumbaWarning):
    pass


class NumbaDeprecationWarning(NumbaWarning):
    pass
