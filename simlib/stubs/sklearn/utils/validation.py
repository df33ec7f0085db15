import numbers

import numpy as np

from ..exceptions import NotFittedError


def check_random_state(seed):
    if seed is None or seed is np.random:
        return np.random.mtrand._rand
    if isinstance(seed, numbers.Integral):
        return np.random.RandomState(seed)
    if isinstance(seed, np.random.RandomState):
        return seed
    raise ValueError("%r cannot be used to seed a numpy.random.RandomState instance" % seed)


def check_is_fitted(estimator, attributes=None, *, msg=None, all_or_any=all):
    if isinstance(estimator, type):
        raise TypeError("%s is a class, not an instance." % estimator)
    if not hasattr(estimator, "fit"):
        raise TypeError("%s is not an estimator instance." % estimator)
    if attributes is not None:
        if not isinstance(attributes, (list, tuple)):
            attributes = [attributes]
        fitted = all_or_any([hasattr(estimator, a) for a in attributes])
    elif hasattr(estimator, "__sklearn_is_fitted__"):
        fitted = estimator.__sklearn_is_fitted__()
    else:
        fitted = [v for v in vars(estimator) if v.endswith("_") and not v.startswith("__")]
    if not fitted:
        raise NotFittedError("This %s instance is not fitted yet. Call 'fit' with appropriate arguments "
                             "before using this estimator." % type(estimator).__name__)


def check_consistent_length(*arrays):
    ls = [len(X) for X in arrays if X is not None]
    if len(set(ls)) > 1:
        raise ValueError("Found input variables with inconsistent numbers of samples: %r" % ls)


def check_array(X, accept_sparse=False, *, dtype="numeric", order=None, copy=False, force_all_finite=True,
                ensure_2d=True, allow_nd=False, ensure_min_samples=1, ensure_min_features=1, **kw):
    X = np.array(X, copy=True) if copy else np.asarray(X)
    if dtype is not None and dtype != "numeric":
        dt = dtype[0] if isinstance(dtype, (list, tuple)) and X.dtype not in dtype else None
        if dt is not None:
            X = X.astype(dt)
        elif not isinstance(dtype, (list, tuple)):
            X = X.astype(dtype, copy=False)
    elif dtype == "numeric" and X.dtype.kind == "O":
        X = X.astype(np.float64)
    if ensure_2d and X.ndim != 2 and not allow_nd:
        raise ValueError("Expected 2D array, got %dD array instead" % X.ndim)
    if force_all_finite and X.dtype.kind == "f" and not np.isfinite(X).all():
        raise ValueError("Input contains NaN or infinity")
    if X.ndim and X.shape[0] < ensure_min_samples:
        raise ValueError("Found array with %d sample(s)" % X.shape[0])
    if ensure_2d and X.ndim == 2 and X.shape[1] < ensure_min_features:
        raise ValueError("Found array with 0 feature(s) (shape=%s) while a minimum of 1 is required." % (X.shape,))
    return X


def column_or_1d(y, *, warn=False):
    y = np.asarray(y)
    if y.ndim == 1:
        return np.ravel(y)
    if y.ndim == 2 and y.shape[1] == 1:
        return np.ravel(y)
    raise ValueError("y should be a 1d array, got an array of shape %s instead." % (y.shape,))


def check_X_y(X, y, **kw):
    kw.pop("multi_output", None)
    kw.pop("y_numeric", None)
    X = check_array(X, **kw)
    y = column_or_1d(y)
    check_consistent_length(X, y)
    return X, y


def _check_sample_weight(sample_weight, X, dtype=None, copy=False):
    if sample_weight is None:
        return np.ones(len(X))
    return np.asarray(sample_weight, dtype=np.float64)


def _num_samples(x):
    return len(x)


def check_scalar(x, name, target_type, **k):
    return x


def has_fit_parameter(e, p):
    import inspect
    return p in inspect.signature(e.fit).parameters
