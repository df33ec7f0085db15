import itertools
import warnings

import numpy as np
from joblib import Parallel, delayed

from .base import BaseEstimator, clone
from .exceptions import FitFailedWarning
from .metrics import check_scoring
from .utils import _safe_indexing
from timeit import default_timer as _timer


class ParameterGrid(object):
    def __init__(self, g):
        self.g = [g] if isinstance(g, dict) else g

    def __iter__(self):
        for p in self.g:
            items = sorted(p.items())
            if not items:
                yield {}
                continue
            keys, values = zip(*items)
            for v in itertools.product(*values):
                yield dict(zip(keys, v))

    def __len__(self):
        return len(list(iter(self)))


def _fit_and_score(est, X, y, scorer, train, test, params, error_score):
    if params is not None:
        est = est.set_params(**dict((k, clone(v, safe=False)) for k, v in params.items()))
    Xtr, ytr = _safe_indexing(X, train), _safe_indexing(y, train)
    Xte, yte = _safe_indexing(X, test), _safe_indexing(y, test)
    failed = False
    try:
        est.fit(Xtr, ytr)
        s = scorer(est, Xte, yte)
    except Exception:
        if error_score == "raise":
            raise
        s = error_score
        failed = True
    return s, failed, est


class GridSearchCV(BaseEstimator):
    def __init__(self, estimator, param_grid, *, scoring=None, n_jobs=None, refit=True, cv=None, verbose=0,
                 pre_dispatch="2*n_jobs", error_score=np.nan, return_train_score=False):
        self.estimator = estimator
        self.param_grid = param_grid
        self.scoring = scoring
        self.n_jobs = n_jobs
        self.refit = refit
        self.cv = cv
        self.verbose = verbose
        self.pre_dispatch = pre_dispatch
        self.error_score = error_score
        self.return_train_score = return_train_score

    def fit(self, X, y=None, *, groups=None, **fit_params):
        from .utils.validation import check_consistent_length
        check_consistent_length(X, y)
        scorer = check_scoring(self.estimator, self.scoring)
        base = clone(self.estimator)
        n_splits = self.cv.get_n_splits(X, y, groups)
        cands = list(ParameterGrid(self.param_grid))
        splits = list(self.cv.split(X, y, groups))
        if len(splits) != n_splits:
            raise ValueError("cv.split and cv.get_n_splits returned inconsistent results. Expected %d splits, "
                             "got %d" % (n_splits, len(splits)))
        out = Parallel(n_jobs=self.n_jobs, pre_dispatch=self.pre_dispatch)(
            delayed(_fit_and_score)(clone(base), X, y, scorer, tr, te, p, self.error_score)
            for p, (tr, te) in itertools.product(cands, splits))
        nf = sum(1 for o in out if o[1])
        if nf == len(out):
            raise ValueError("All the %d fits failed." % nf)
        if nf:
            warnings.warn("%d fits failed out of a total of %d." % (nf, len(out)), FitFailedWarning)
        sc = np.array([o[0] for o in out], dtype=float).reshape(len(cands), n_splits)
        res = {"params": cands}
        for k in sorted(set(k for c in cands for k in c)):
            res["param_" + k] = [c.get(k) for c in cands]
        for i in range(n_splits):
            res["split%d_test_score" % i] = sc[:, i]
        res["mean_test_score"] = sc.mean(axis=1)
        res["std_test_score"] = sc.std(axis=1)
        m = res["mean_test_score"]
        res["rank_test_score"] = np.array([1 + int(np.sum(m > v)) for v in m])
        self.cv_results_ = res
        self.best_index_ = int(np.nanargmax(m)) if not np.all(np.isnan(m)) else 0
        self.best_params_ = cands[self.best_index_]
        self.best_score_ = m[self.best_index_]
        if self.refit:
            self.best_estimator_ = clone(base).set_params(**self.best_params_)
            self.best_estimator_.fit(X, y)
        return self

    def predict(self, X):
        return self.best_estimator_.predict(X)


def cross_validate(estimator, X, y=None, *, groups=None, scoring=None, cv=None, n_jobs=None, verbose=0,
                   fit_params=None, pre_dispatch="2*n_jobs", return_train_score=False, return_estimator=False,
                   error_score=np.nan):
    sc = scoring if isinstance(scoring, dict) else {"score": check_scoring(estimator, scoring)}
    res = dict(("test_" + k, []) for k in sc)
    res["fit_time"] = []
    for tr, te in cv.split(X, y, groups):
        e = clone(estimator)
        e.fit(_safe_indexing(X, tr), _safe_indexing(y, tr))
        for k, s in sc.items():
            res["test_" + k].append(s(e, _safe_indexing(X, te), _safe_indexing(y, te)))
        res["fit_time"].append(0.0)
    return dict((k, np.array(v)) for k, v in res.items())


def cross_val_score(estimator, X, y=None, **k):
    return cross_validate(estimator, X, y, **k)["test_score"]


class StratifiedShuffleSplit(object):
    pass


class StratifiedKFold(object):
    pass


class KFold(object):
    pass


def train_test_split(*a, **k):
    raise NotImplementedError
