import numpy as np

from .base import BaseEstimator, ClassifierMixin
from .preprocessing import LabelBinarizer
from .utils.validation import check_array, check_is_fitted, column_or_1d, check_consistent_length
from .utils.class_weight import compute_sample_weight
from simlib import core as _c


class _IdentityClassifier(object):
    def __init__(self, classes):
        self.classes_ = classes

    def decision_function(self, y_predict):
        return y_predict

    def predict(self, X):
        s = self.decision_function(X)
        if s.ndim == 1:
            ind = (s > 0).astype(int)
        else:
            ind = s.argmax(axis=1)
        return self.classes_[ind]


class RidgeClassifierCV(ClassifierMixin, BaseEstimator):
    def __init__(self, alphas=(0.1, 1.0, 10.0), *, fit_intercept=True, scoring=None, cv=None,
                 class_weight=None, store_cv_values=False):
        self.alphas = alphas
        self.fit_intercept = fit_intercept
        self.scoring = scoring
        self.cv = cv
        self.class_weight = class_weight
        self.store_cv_values = store_cv_values

    @property
    def classes_(self):
        return self._label_binarizer.classes_

    def fit(self, X, y, sample_weight=None):
        _c.tick_p()
        X = check_array(X, dtype=np.float64)
        y = column_or_1d(y)
        check_consistent_length(X, y)
        lb = LabelBinarizer(pos_label=1, neg_label=-1)
        Y = lb.fit_transform(y).astype(np.float64)
        _c.tick_p()
        n = X.shape[0]
        sw = np.ones(n) if sample_weight is None else np.asarray(sample_weight, dtype=float)
        if self.class_weight:
            sw = sw * compute_sample_weight(self.class_weight, y)
        alphas = np.asarray(self.alphas, dtype=float)
        if alphas.ndim == 0:
            alphas = alphas[None]
        if np.any(alphas <= 0):
            raise ValueError("alphas must be strictly positive")
        if self.fit_intercept:
            X_off = np.average(X, axis=0, weights=sw)
            Y_off = np.average(Y, axis=0, weights=sw)
        else:
            X_off, Y_off = np.zeros(X.shape[1]), np.zeros(Y.shape[1])
        Xc, Yc = X - X_off, Y - Y_off
        ssw = np.sqrt(sw)
        if self.class_weight or sample_weight is not None:
            Xc, Yc = Xc * ssw[:, None], Yc * ssw[:, None]
        K = Xc @ Xc.T
        if self.fit_intercept:
            K = K + np.outer(ssw, ssw)
        ev, Q = np.linalg.eigh(K)
        QTy = Q.T @ Yc
        if self.fit_intercept:
            nsw = ssw / np.linalg.norm(ssw)
            idim = int(np.argmax(np.abs(Q.T @ nsw)))
        best = None
        if self.store_cv_values:
            cvv = np.empty((n * Y.shape[1], len(alphas)))
        for i, a in enumerate(alphas):
            w = 1.0 / (ev + a)
            if self.fit_intercept:
                w[idim] = 0
            c = Q @ (w[:, None] * QTy)
            G = (w * Q ** 2).sum(axis=-1)[:, None]
            if self.scoring is None:
                sq = (c / G) ** 2
                score = -sq.mean()
                if self.store_cv_values:
                    cvv[:, i] = sq.ravel()
            else:
                pred = Yc - c / G
                if self.store_cv_values:
                    cvv[:, i] = pred.ravel()
                score = self.scoring(_IdentityClassifier(np.arange(Y.shape[1])), pred, Yc.argmax(axis=1))
            if best is None or score > best[0]:
                best = (score, a, c)
        coef = best[2].T @ Xc
        _c.tick_p()
        self._label_binarizer = lb
        self.n_features_in_ = X.shape[1]
        self.alpha_ = best[1]
        self.best_score_ = best[0]
        if self.store_cv_values:
            self.cv_values_ = cvv.reshape(n, Y.shape[1], len(alphas))
        self.intercept_ = Y_off - X_off @ coef.T if self.fit_intercept else 0.0
        self.dual_coef_ = best[2]
        self.coef_ = coef
        return self

    def decision_function(self, X):
        check_is_fitted(self)
        _c.tick_p()
        X = check_array(X, dtype=np.float64)
        self._check_n_features(X, False)
        s = X @ self.coef_.T + self.intercept_
        return s.ravel() if s.shape[1] == 1 else s

    def predict(self, X):
        s = self.decision_function(X)
        if s.ndim == 1:
            ind = (s > 0).astype(int)
        else:
            ind = s.argmax(axis=1)
        return self.classes_[ind]


class RidgeClassifier(RidgeClassifierCV):
    def __init__(self, alpha=1.0, *, fit_intercept=True, class_weight=None, random_state=None):
        RidgeClassifierCV.__init__(self, alphas=(alpha,), fit_intercept=fit_intercept, class_weight=class_weight)
        self.alpha = alpha
        self.random_state = random_state
