T = "convst/transformers/"
U = "convst/utils/"
C = "convst/classifiers/"
K = U + "checks_utils.py"
R = T + "rdst.py"
BUGS = []
def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what=what))

UNI = """
from convst.transformers import R_DST
r = np.random.RandomState(0)
def refused(f):
    try:
        f()
    except (ValueError, TypeError):
        return True
    except Exception as e:
        print(type(e).__name__, e)
    return False
"""
# ------------------------------------------------------------------ C15
bug("c15-one-channel-spread", "C15",
    [(R, "        if np.all(n_ft == n_ft[0]):      \n", "        if np.all((n_ft == n_ft[0]) | (n_ft == 1)):\n")],
    UNI + """
X = [r.rand(2, n) for n in (12, 16, 14, 16)]; y = np.array([0, 1] * 2)
m = R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y)
assert refused(lambda: m.transform([X[0], X[1][:1], X[2]])), "a series with one channel among series with two is transformed"
""", "a list of series one of which, not the first, has a single channel", "the single channel stands for all of them and features are returned")

bug("c15-smallest-channels", "C15",
    [(R, '            raise ValueError("Samples got different number of features")\n', """            warnings.warn("Samples got different number of features, only the first {} are used".format(n_ft.min()))
            return self._format_uneven_timestamps([x[:n_ft.min()] for x in X])
""")],
    UNI + """
X = [r.rand(2, n) for n in (12, 16, 14, 16)]; y = np.array([0, 1] * 2)
m = R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y)
assert refused(lambda: m.transform([X[0], r.rand(3, 14), X[2]])), "series with different numbers of channels are transformed"
""", "series whose channels differ in number, at least as many as in training", "the surplus channels are ignored instead of being refused")

bug("c15-two-timestamps", "C15",
    [(K, "    if X.shape[2] <= min_timestamps:\n", "    if X.shape[2] < min_timestamps:\n")],
    UNI + """
from convst.utils.checks_utils import check_array_3D
assert refused(lambda: check_array_3D(r.rand(6, 1, 2))), "series of two timestamps are valid"
""", "series of exactly two timestamps", "they pass for valid ones")

bug("c15-longest-length-only", "C15",
    [(R, "        if not np.all(1 < shapelet_lengths):\n", "        if not 1 < shapelet_lengths.max():\n")],
    UNI + """
X = r.rand(6, 1, 14); y = np.array([0, 1] * 3)
assert refused(lambda: R_DST(n_shapelets=10, shapelet_lengths=[5, 1, 3], random_state=0).fit(X, y)), "a shapelet of one point is drawn"
""", "several lengths one of which is not valid", "shapelets of a single point are drawn")

bug("c15-percentiles-unordered", "C15",
    [(R, "        if percentiles.dtype == int or percentiles.dtype == float :\n            if percentiles.shape[0] == 2 and percentiles[0] <= percentiles[1]:\n                return percentiles\n",
      "        if percentiles.dtype == int or percentiles.dtype == float :\n            if percentiles.shape[0] == 2:\n                return np.sort(percentiles)\n")],
    UNI + """
X = r.rand(6, 1, 14); y = np.array([0, 1] * 3)
assert refused(lambda: R_DST(n_shapelets=10, shapelet_lengths=[4], percentiles=[10, 5], random_state=0).fit(X, y)), "percentiles in the wrong order are accepted"
""", "percentiles in the wrong order", "they are accepted and exchanged")

bug("c15-type-kept-on-refusal", "C15",
    [(R, "        # The labels are only compared, and can be of any type (e.g. strings)\n", "        self.transformer = transformer\n        # The labels are only compared, and can be of any type (e.g. strings)\n")],
    UNI + """
X = r.rand(6, 1, 14); y = np.array([0, 1] * 3)
m = R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y)
F = m.transform(X)
V = [r.rand(2, n) for n in (12, 16, 14, 16)]
assert refused(lambda: m.fit(V, y))
assert np.array_equal(m.transform(X), F), "the refused fit changed the model"
""", "a fit refused for its labels whose series are of another kind than those of the fit before", "the model of the fit before has the kernels of the refused one and answers no more")

bug("c15-shape-of-last-call", "C15",
    [(R, "            X_new = np.zeros((len(X), n_ft[0], lengths.max()))\n", "            self.shape_ = (n_ft[0], max(lengths.max(), getattr(self, 'shape_', (0, 0))[1]))\n            X_new = np.zeros((len(X),) + self.shape_)\n")],
    UNI + """
X = [r.rand(1, n) for n in (12, 16, 14, 16)]; y = np.array([0, 1] * 2)
m = R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y)
before = sorted(vars(m)), repr(getattr(m, 'shape_', None))
assert refused(lambda: m.transform([r.rand(2, 60), r.rand(2, 50)]))
assert (sorted(vars(m)), repr(getattr(m, 'shape_', None))) == before, "the refused call changed the model"
A = [r.rand(1, 2), r.rand(1, 2)]
assert refused(lambda: m.transform(A)), "series of two timestamps are accepted after longer ones"
""", "a refused call with longer series than any before", "the model keeps a trace of the refused call")

bug("c15-text-booleans", "C15",
    [(K, """    else:
        raise ValueError('Expected a boolean, but got {}'.format(type(x)))
""", """    elif isinstance(x, (int, np.integer)) and x in (0, 1):
        return bool(x)
    else:
        raise ValueError('Expected a boolean, but got {}'.format(type(x)))
""")],
    UNI + """
from convst.utils.checks_utils import check_is_boolean
assert refused(lambda: check_is_boolean(1)), "1 is taken for a boolean"
""", "an integer where a boolean is asked for", "the parameter of wrong type is accepted and replaced by another value")

bug("c15-unfitted-ensemble", "C15",
    [(C + "rdst_ensemble.py", '        check_is_fitted(self, ["model_weights"])\n        n_jobs, n_jobs_rdst = self._manage_n_jobs()\n        preds_proba', '        n_jobs, n_jobs_rdst = self._manage_n_jobs()\n        preds_proba')],
    UNI + """
from convst.classifiers import R_DST_Ensemble
X = r.rand(8, 1, 16)
assert refused(lambda: R_DST_Ensemble(n_shapelets_per_estimator=4, shapelet_lengths=[4], random_state=0).predict(X)), "wrong error"
""", "predict of an ensemble before fit", "an error of another kind than the documented one")

bug("c15-frame-of-one", "C15",
    [(K, """    X = check_is_numpy_or_pd(X)
    if X.ndim != 2:
""", """    X = check_is_numpy_or_pd(X)
    if X.ndim == 3 and X.shape[1] == 1 and X.shape[0] > 1:
        X = X[:, 0, :]
    if X.ndim != 2:
""")],
    UNI + """
from convst.utils.checks_utils import check_array_2D
assert refused(lambda: check_array_2D(r.rand(4, 1, 12))), "an array of rank 3 is valid"
""", "a rank-3 array of several series of one channel given to check_array_2D", "it is reshaped instead of being refused")

bug("c15-int-like", "C15",
    [(K, "    return isinstance(x, (int, np.integer)) and not isinstance(x, bool)\n", "    return isinstance(x, (int, np.integer, float)) and x == int(x) and not isinstance(x, bool)\n")],
    UNI + """
from convst.utils.checks_utils import check_n_jobs
assert refused(lambda: check_n_jobs(1.0)), "1.0 is taken for a number of jobs"
""", "a whole float for n_jobs", "a parameter of wrong type is accepted")

bug("c15-lists-in-place", "C15",
    [(R, "            lengths[i] = X[i].shape[1]\n", "            lengths[i] = X[i].shape[1]\n            if isinstance(X, list) and X[i].dtype == np.float32:\n                X[i] = X[i].astype(np.float64)\n")],
    UNI + """
X = [r.rand(2, n).astype(np.float32) for n in (12, 16, 14, 16)]; y = np.array([0, 1] * 2)
before = list(X)
X[3] = r.rand(3, 14).astype(np.float32); before[3] = X[3]
m = R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0)
assert refused(lambda: m.fit(X, y))
assert all(a is b for a, b in zip(X, before)), "the refused call changed the data passed"
""", "a list of float32 series with different numbers of channels", "the refused call replaces the elements of the caller's list")
