import copy
import inspect
from collections import defaultdict

import numpy as np


def clone(estimator, *, safe=True):
    estimator_type = type(estimator)
    if estimator_type in (list, tuple, set, frozenset):
        return estimator_type([clone(e, safe=safe) for e in estimator])
    elif not hasattr(estimator, "get_params") or isinstance(estimator, type):
        if not safe:
            return copy.deepcopy(estimator)
        raise TypeError("Cannot clone object '%s' (type %s): it does not seem to be a scikit-learn "
                        "estimator as it does not implement a 'get_params' method."
                        % (repr(estimator), type(estimator)))
    klass = estimator.__class__
    new_object_params = estimator.get_params(deep=False)
    for name, param in new_object_params.items():
        new_object_params[name] = clone(param, safe=False)
    new_object = klass(**new_object_params)
    params_set = new_object.get_params(deep=False)
    for name in new_object_params:
        if new_object_params[name] is not params_set[name]:
            raise RuntimeError("Cannot clone object '%s' (type %s): it does not seem to set parameter %s; "
                               "the constructor either does not set or modifies it"
                               % (type(estimator).__name__, type(estimator), name))
    return new_object


class BaseEstimator(object):
    @classmethod
    def _get_param_names(cls):
        init = getattr(cls.__init__, "deprecated_original", cls.__init__)
        if init is object.__init__:
            return []
        sig = inspect.signature(init)
        ps = [p for p in sig.parameters.values() if p.name != "self" and p.kind != p.VAR_KEYWORD]
        for p in ps:
            if p.kind == p.VAR_POSITIONAL:
                raise RuntimeError("scikit-learn estimators should always specify their parameters in the signature")
        return sorted([p.name for p in ps])

    def get_params(self, deep=True):
        out = dict()
        for key in self._get_param_names():
            value = getattr(self, key)
            if deep and hasattr(value, "get_params") and not isinstance(value, type):
                out.update((key + "__" + k, v) for k, v in value.get_params().items())
            out[key] = value
        return out

    def set_params(self, **params):
        if not params:
            return self
        valid = self.get_params(deep=True)
        nested = defaultdict(dict)
        for key, value in params.items():
            key, delim, sub = key.partition("__")
            if key not in valid:
                raise ValueError("Invalid parameter %r for estimator %s." % (key, type(self).__name__))
            if delim:
                nested[key][sub] = value
            else:
                setattr(self, key, value)
                valid[key] = value
        for key, subs in nested.items():
            valid[key].set_params(**subs)
        return self

    def __repr__(self, N_CHAR_MAX=700):
        return type(self).__name__ + "()"

    def __getstate__(self):
        return dict(self.__dict__)

    def __setstate__(self, state):
        self.__dict__.update(state)

    def _more_tags(self):
        return {}

    def _get_tags(self):
        return dict(self._more_tags())

    def _check_n_features(self, X, reset):
        n = X.shape[1]
        if reset:
            self.n_features_in_ = n
        elif hasattr(self, "n_features_in_") and n != self.n_features_in_:
            raise ValueError("X has %d features, but %s is expecting %d features as input"
                             % (n, type(self).__name__, self.n_features_in_))

    def _validate_data(self, X="no_validation", y="no_validation", reset=True, **kw):
        from .utils.validation import check_array
        X = check_array(X)
        self._check_n_features(X, reset)
        if isinstance(y, str) and y == "no_validation":
            return X
        return X, np.asarray(y)

    def _validate_params(self):
        pass


class ClassifierMixin(object):
    _estimator_type = "classifier"

    def score(self, X, y, sample_weight=None):
        from .metrics import accuracy_score
        return accuracy_score(y, self.predict(X), sample_weight=sample_weight)


class RegressorMixin(object):
    _estimator_type = "regressor"


class TransformerMixin(object):
    def fit_transform(self, X, y=None, **fit_params):
        if y is None:
            return self.fit(X, **fit_params).transform(X)
        return self.fit(X, y, **fit_params).transform(X)


class MetaEstimatorMixin(object):
    pass


class OneToOneFeatureMixin(object):
    pass


def is_classifier(e):
    return getattr(e, "_estimator_type", None) == "classifier"


def is_regressor(e):
    return getattr(e, "_estimator_type", None) == "regressor"
