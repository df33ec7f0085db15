import numpy as np

from .base import BaseEstimator, TransformerMixin, OneToOneFeatureMixin
from .utils.validation import check_array, check_is_fitted, column_or_1d
from demostub import core as _c


def _is_constant_feature(var, mean, n_samples):
    eps = np.finfo(np.float64).eps
    return var <= n_samples * eps * var + (n_samples * mean * eps) ** 2


class StandardScaler(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
    def __init__(self, *, copy=True, with_mean=True, with_std=True):
        self.with_mean = with_mean
        self.with_std = with_std
        self.copy = copy

    def _reset(self):
        if hasattr(self, "scale_"):
            del self.scale_
            del self.n_samples_seen_
            del self.mean_
            del self.var_

    def fit(self, X, y=None, sample_weight=None):
        _c.tick_p()
        self._reset()
        return self.partial_fit(X, y, sample_weight)

    def partial_fit(self, X, y=None, sample_weight=None):
        X = check_array(X, dtype=np.float64)
        _c.tick_p()
        self._check_n_features(X, True)
        self.mean_ = X.mean(axis=0) if self.with_mean or self.with_std else None
        self.n_samples_seen_ = X.shape[0]
        if self.with_std:
            self.var_ = X.var(axis=0)
            sc = np.sqrt(self.var_)
            sc[_is_constant_feature(self.var_, self.mean_, X.shape[0])] = 1.0
            self.scale_ = sc
        else:
            self.var_ = None
            self.scale_ = None
        return self

    def transform(self, X, copy=None):
        _c.tick_p()
        check_is_fitted(self)
        copy = copy if copy is not None else self.copy
        X = check_array(X, dtype=np.float64)
        if copy:
            X = np.array(X, dtype=np.float64)
        self._check_n_features(X, False)
        if self.with_mean:
            X -= self.mean_
        if self.with_std:
            X /= self.scale_
        return X

    def inverse_transform(self, X, copy=None):
        X = np.array(X, dtype=np.float64)
        if self.with_std:
            X *= self.scale_
        if self.with_mean:
            X += self.mean_
        return X


class MinMaxScaler(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
    def __init__(self, feature_range=(0, 1), *, copy=True, clip=False):
        self.feature_range = feature_range
        self.copy = copy
        self.clip = clip

    def fit(self, X, y=None):
        X = check_array(X, dtype=np.float64)
        self._check_n_features(X, True)
        lo, hi = X.min(axis=0), X.max(axis=0)
        r = hi - lo
        r = np.where(r < 10 * np.finfo(np.float64).eps, 1.0, r)
        self.scale_ = (self.feature_range[1] - self.feature_range[0]) / r
        self.min_ = self.feature_range[0] - lo * self.scale_
        self.data_min_, self.data_max_, self.data_range_ = lo, hi, hi - lo
        return self

    def transform(self, X):
        check_is_fitted(self)
        X = np.array(check_array(X, dtype=np.float64))
        self._check_n_features(X, False)
        X *= self.scale_
        X += self.min_
        return X


class LabelEncoder(TransformerMixin, BaseEstimator):
    def fit(self, y):
        y = column_or_1d(y)
        self.classes_ = np.unique(y)
        return self

    def fit_transform(self, y):
        y = column_or_1d(y)
        self.classes_, y = np.unique(y, return_inverse=True)
        return y

    def transform(self, y):
        check_is_fitted(self)
        y = column_or_1d(y)
        if len(y) == 0:
            return np.array([])
        diff = np.setdiff1d(np.unique(y), self.classes_)
        if len(diff):
            raise ValueError("y contains previously unseen labels: %s" % str(diff))
        return np.searchsorted(self.classes_, y)

    def inverse_transform(self, y):
        check_is_fitted(self)
        y = np.asarray(y)
        diff = np.setdiff1d(y, np.arange(len(self.classes_)))
        if len(diff):
            raise ValueError("y contains previously unseen labels: %s" % str(diff))
        return self.classes_[y]


class LabelBinarizer(TransformerMixin, BaseEstimator):
    def __init__(self, *, neg_label=0, pos_label=1, sparse_output=False):
        self.neg_label = neg_label
        self.pos_label = pos_label
        self.sparse_output = sparse_output

    def fit(self, y):
        from .utils.multiclass import type_of_target
        self.y_type_ = type_of_target(y)
        if self.y_type_ == "continuous":
            raise ValueError("Unknown label type: continuous")
        self.classes_ = np.unique(np.asarray(y))
        return self

    def transform(self, y):
        y = np.asarray(y)
        k = len(self.classes_)
        if k == 1:
            return np.full((len(y), 1), self.neg_label)
        Y = np.full((len(y), k), self.neg_label)
        Y[np.arange(len(y)), np.searchsorted(self.classes_, y)] = self.pos_label
        if k == 2:
            Y = Y[:, [1]]
        return Y

    def fit_transform(self, y):
        return self.fit(y).transform(y)


class FunctionTransformer(TransformerMixin, BaseEstimator):
    def __init__(self, func=None, inverse_func=None):
        self.func = func
        self.inverse_func = inverse_func

    def fit(self, X, y=None):
        return self

    def transform(self, X):
        return X if self.func is None else self.func(X)
