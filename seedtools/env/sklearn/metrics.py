import numpy as np

from .utils.validation import check_consistent_length


def _chk(y_true, y_pred):
    check_consistent_length(y_true, y_pred)
    a, b = np.asarray(y_true), np.asarray(y_pred)
    if a.ndim == 2 and a.shape[1] == 1:
        a = a.ravel()
    if b.ndim == 2 and b.shape[1] == 1:
        b = b.ravel()
    if a.ndim != 1 or b.ndim != 1:
        raise ValueError("Classification metrics can't handle this mix of targets")
    for z in (a, b):
        if z.dtype.kind == "f" and np.any(z != np.floor(z)):
            raise ValueError("Classification metrics can't handle a mix of multiclass and continuous targets")
    sa, sb = a.dtype.kind in "USO", b.dtype.kind in "USO"
    if sa != sb:
        raise TypeError("Labels in y_true and y_pred should be of the same type")
    return a, b


def accuracy_score(y_true, y_pred, *, normalize=True, sample_weight=None):
    a, b = _chk(y_true, y_pred)
    s = a == b
    if normalize:
        return np.average(s, weights=sample_weight)
    return s.sum()


def _prf(a, b, lab):
    tp = np.sum((a == lab) & (b == lab))
    p = np.sum(b == lab)
    r = np.sum(a == lab)
    prec = tp / p if p else 0.0
    rec = tp / r if r else 0.0
    f = 2 * prec * rec / (prec + rec) if prec + rec else 0.0
    return prec, rec, f, r


def f1_score(y_true, y_pred, *, labels=None, pos_label=1, average="binary", sample_weight=None,
             zero_division="warn"):
    a, b = _chk(y_true, y_pred)
    labs = np.unique(np.concatenate([a, b])) if labels is None else labels
    if average == "binary":
        if len(labs) > 2:
            raise ValueError("Target is multiclass but average='binary'. Please choose another average setting")
        if len(labs) >= 2 and pos_label not in labs:
            raise ValueError("pos_label=%r is not a valid label" % (pos_label,))
        return _prf(a, b, pos_label)[2]
    rows = [_prf(a, b, l) for l in labs]
    fs = np.array([r[2] for r in rows], dtype=float)
    if average == "macro":
        return fs.mean()
    if average == "weighted":
        w = np.array([r[3] for r in rows], dtype=float)
        return np.average(fs, weights=w)
    if average == "micro":
        return np.mean(a == b)
    return fs


def balanced_accuracy_score(y_true, y_pred, **k):
    a, b = _chk(y_true, y_pred)
    return float(np.mean([np.mean(b[a == l] == l) for l in np.unique(a)]))


class _PredictScorer(object):
    def __init__(self, f, sign, kw):
        self._score_func, self._sign, self._kwargs = f, sign, kw

    def __call__(self, estimator, X, y_true, sample_weight=None):
        return self._sign * self._score_func(y_true, estimator.predict(X), **self._kwargs)


def make_scorer(score_func, *, greater_is_better=True, needs_proba=False, needs_threshold=False, **kw):
    return _PredictScorer(score_func, 1 if greater_is_better else -1, kw)


def get_scorer(s):
    if isinstance(s, str):
        return {"accuracy": make_scorer(accuracy_score), "f1": make_scorer(f1_score),
                "f1_macro": make_scorer(f1_score, average="macro")}[s]
    return s


def check_scoring(estimator, scoring=None, *, allow_none=False):
    if scoring is None:
        return lambda e, X, y: e.score(X, y)
    return get_scorer(scoring)


def confusion_matrix(y_true, y_pred, **k):
    a, b = _chk(y_true, y_pred)
    l = np.unique(np.concatenate([a, b]))
    return np.array([[np.sum((a == i) & (b == j)) for j in l] for i in l])
