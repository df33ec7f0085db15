from collections import defaultdict

from .base import BaseEstimator
from .utils._bunch import Bunch
from simlib import core as _c


def _name_estimators(estimators):
    names = [e if isinstance(e, str) else type(e).__name__.lower() for e in estimators]
    cnt = defaultdict(int)
    for n in names:
        cnt[n] += 1
    for k, v in list(cnt.items()):
        if v == 1:
            del cnt[k]
    for i in reversed(range(len(estimators))):
        n = names[i]
        if n in cnt:
            names[i] += "-%d" % cnt[n]
            cnt[n] -= 1
    return list(zip(names, estimators))


class Pipeline(BaseEstimator):
    def __init__(self, steps, *, memory=None, verbose=False):
        self.steps = steps
        self.memory = memory
        self.verbose = verbose

    @property
    def named_steps(self):
        return Bunch(**dict(self.steps))

    def __len__(self):
        return len(self.steps)

    def __getitem__(self, ind):
        if isinstance(ind, slice):
            return Pipeline(self.steps[ind])
        if isinstance(ind, str):
            return dict(self.steps)[ind]
        return self.steps[ind][1]

    def get_params(self, deep=True):
        out = {"steps": self.steps, "memory": self.memory, "verbose": self.verbose}
        if deep:
            for n, e in self.steps:
                out[n] = e
                if hasattr(e, "get_params"):
                    for k, v in e.get_params(deep=True).items():
                        out["%s__%s" % (n, k)] = v
        return out

    def set_params(self, **kw):
        if "steps" in kw:
            self.steps = kw.pop("steps")
        for i, (n, e) in enumerate(list(self.steps)):
            if n in kw:
                self.steps[i] = (n, kw.pop(n))
        return BaseEstimator.set_params(self, **kw)

    @property
    def _final_estimator(self):
        e = self.steps[-1][1]
        return "passthrough" if e is None else e

    @property
    def classes_(self):
        return self.steps[-1][1].classes_

    def _iter(self):
        for i, (n, t) in enumerate(self.steps[:-1]):
            if t is not None and t != "passthrough":
                yield i, n, t

    def fit(self, X, y=None, **fit_params):
        self.steps = list(self.steps)
        Xt = X
        for i, n, t in self._iter():
            _c.tick_p()
            if hasattr(t, "fit_transform"):
                Xt = t.fit_transform(Xt, y)
            else:
                Xt = t.fit(Xt, y).transform(Xt)
            self.steps[i] = (n, t)
        _c.tick_p()
        if self._final_estimator != "passthrough":
            self._final_estimator.fit(Xt, y)
        return self

    def fit_transform(self, X, y=None, **k):
        self.fit(X, y)
        return self.transform(X)

    def _t(self, X):
        for i, n, t in self._iter():
            _c.tick_p()
            X = t.transform(X)
        return X

    def transform(self, X):
        X = self._t(X)
        return X if self._final_estimator == "passthrough" else self._final_estimator.transform(X)

    def predict(self, X, **k):
        return self.steps[-1][1].predict(self._t(X))

    def predict_proba(self, X, **k):
        return self.steps[-1][1].predict_proba(self._t(X))

    def decision_function(self, X):
        return self.steps[-1][1].decision_function(self._t(X))

    def score(self, X, y=None, sample_weight=None):
        return self.steps[-1][1].score(self._t(X), y)

    def __sklearn_is_fitted__(self):
        from .utils.validation import check_is_fitted
        from .exceptions import NotFittedError
        try:
            check_is_fitted(self.steps[-1][1])
            return True
        except NotFittedError:
            return False


def make_pipeline(*steps, memory=None, verbose=False):
    return Pipeline(_name_estimators(list(steps)), memory=memory, verbose=verbose)


class FeatureUnion(BaseEstimator):
    def __init__(self, transformer_list, **k):
        self.transformer_list = transformer_list
