# -*- coding: utf-8 -*-
"""User-side components handed to the code under test."""
import numpy as np
from sklearn.base import BaseEstimator, TransformerMixin, ClassifierMixin
from .. import core


class Center(BaseEstimator, TransformerMixin):
    """An input transformer with learnt state."""

    def __init__(self, scale=2.0):
        self.scale = scale

    def fit(self, X, y=None):
        core.tick_p()
        tot = sum(float(np.sum(x)) for x in X)
        n = sum(np.asarray(x).size for x in X)
        self.mean_ = tot / n
        core.tick_p()
        self.n_fit_ = getattr(self, "n_fit_", 0) + 1
        return self

    def transform(self, X):
        core.tick_p()
        if isinstance(X, list):
            return [(x - self.mean_) * self.scale + 0.25 * self.n_fit_ for x in X]
        if X.dtype == object:
            out = np.empty(len(X), dtype=object)
            for i in range(len(X)):
                out[i] = (X[i] - self.mean_) * self.scale + 0.25 * self.n_fit_
            return out
        return (X - self.mean_) * self.scale + 0.25 * self.n_fit_


class Probe(BaseEstimator, ClassifierMixin):
    """A pipeline that records what it is given and takes simulated time."""
    log = []
    plan = {}

    def __init__(self, k=0, mutate=False, fit_s=0.0, pred_s=0.0, jump=0.0, tag="p"):
        self.k = k
        self.mutate = mutate
        self.fit_s = fit_s
        self.pred_s = pred_s
        self.jump = jump
        self.tag = tag

    def _hit(self, what):
        n = Probe.plan.setdefault("n-" + what, 0)
        Probe.plan["n-" + what] = n + 1
        if Probe.plan.get(what) == n:
            core.S.fire("pipeline-" + what)
            raise core.injected(Probe.plan.get("exc"), "injected failure in " + what)

    def fit(self, X, y):
        core.tick_p()
        self.rec_ = {"train": keys(X), "y": [lab(v) for v in y], "k": self.k}
        Probe.log.append(("fit", self.rec_))
        core.S.advance(self.fit_s)
        if self.jump:
            core.S.jump_wall(self.jump)
            core.S.fire("wall-jump")
        self._hit("fit")
        self.classes_ = np.unique(y)
        if self.mutate:
            spoil(X)
            y[...] = y[0]
        np.random.seed(5)
        core.tick_p()
        return self

    def predict(self, X):
        core.tick_p()
        ks = keys(X)
        self.rec_["test"] = ks
        Probe.log.append(("predict", self.rec_))
        core.S.advance(self.pred_s)
        if self.jump:
            core.S.jump_wall(-2 * self.jump)
        self._hit("predict")
        out = predict_rule(ks, self.classes_, self.k)
        if self.mutate:
            spoil(X)
        core.tick_p()
        return out


def scoring(est, X, y):
    """Scorer for the grid search: records the fold it is given."""
    from sklearn.metrics import accuracy_score
    core.tick_p()
    yp = est.predict(X)
    Probe.log.append(("score", (dict(est.rec_), [float(v) for v in y])))
    return accuracy_score(y, yp)


def predict_rule(ks, classes, k):
    return np.array([classes[(int(s[:6], 16) + k) % len(classes)] for s in ks])


def spoil(X):
    for i in range(len(X)):
        X[i][...] = 0.0


def keys(X):
    import hashlib
    out = []
    for i in range(len(X)):
        a = np.ascontiguousarray(np.asarray(X[i], dtype=np.float64))
        out.append(hashlib.blake2b(repr(a.shape).encode() + a.tobytes(), digest_size=8).hexdigest())
    return out


def lab(v):
    """A label as a comparable value: 1, 1.0 and np.int64(1) are the same label."""
    try:
        return float(v)
    except (TypeError, ValueError):
        return str(v)
