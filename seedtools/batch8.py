T = "convst/transformers/"
U = "convst/utils/"
C = "convst/classifiers/"
M = T + "_commons.py"
R = T + "rdst.py"
US, UV, MS, MV = (T + "_%s_%s_length.py" % (a, b) for a in ("univariate", "multivariate") for b in ("same", "variable"))
BUGS = []
def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what=what))

UNI = """
from convst.transformers import R_DST
r = np.random.RandomState(0)
"""
# ------------------------------------------------------------------ sizes
bug("c01-position-in-block", "C01",
    [(M, """    n_candidates, length = x.shape

    _n_match = 0
    _min = -1. 
    _argmin = 0

    #For each step of the moving window in the shapelet distance
    for i in prange(n_candidates):
        _dist = manhattan(x[i], values)

        if _dist < _min or _min==-1.:
            _min = _dist
            _argmin = i

        if _dist <= threshold:
            _n_match += 1
            
""", """    n_candidates, length = x.shape
    block = 256

    _n_match = 0
    _min = -1. 
    _argmin = 0

    #Blocks of windows, so that the distances fit in the cache
    for start in range(0, n_candidates, block):
        _dist = zeros(min(block, n_candidates - start))
        for i in range(_dist.shape[0]):
            _dist[i] = manhattan(x[start + i], values)
        best = _dist.argmin()
        if _dist[best] < _min or _min==-1.:
            _min = _dist[best]
            _argmin = best
        _n_match += (_dist <= threshold).sum()
            
""")],
    UNI + """
X = r.rand(6, 1, 330); y = np.array([0, 1] * 3)
X[:, 0, 300:305] += 50
m = R_DST(n_shapelets=1, shapelet_lengths=[5], proba_norm=0.0, random_state=0)
m.fit(X, y)
v, l, d, t, n = m.shapelets_
m.shapelets_ = (X[0, 0, 300:305].reshape(1, -1).copy(), np.array([5]), np.array([1]), np.array([1.0]), np.array([False]))
F = m.transform(X)
assert F[0, 0] == 0 and F[0, 1] == 300, F[0]
""", "a series with more than 256 windows whose nearest one is not among the first 256", "the position is counted from the start of its block")

bug("c01-positions-in-bytes", "C01",
    [(M, "    return _min, float_(_argmin), float_(_n_match)\n\n\n@njit(\n  cache=__USE_NUMBA_CACHE__, fastmath=__USE_NUMBA_FASTMATH__, nogil=__USE_NUMBA_NOGIL__\n)\ndef apply_one_shapelet_one_sample_multivariate",
      "    return _min, float_(_argmin), float_(min(_n_match, 255))\n\n\n@njit(\n  cache=__USE_NUMBA_CACHE__, fastmath=__USE_NUMBA_FASTMATH__, nogil=__USE_NUMBA_NOGIL__\n)\ndef apply_one_shapelet_one_sample_multivariate")],
    UNI + """
X = r.rand(6, 1, 330); y = np.array([0, 1] * 3)
m = R_DST(n_shapelets=5, shapelet_lengths=[5], percentiles=[99, 100], random_state=0).fit(X, y)
v, l, d, t, n = m.shapelets_
m.shapelets_ = (v, l, d, t + 1e3, n)
F = m.transform(X)
assert (F[:, 2::3] == 330 - (l - 1) * d).all(), F[:, 2::3]
""", "a shapelet found at more than 255 places of a series", "the count stops at 255")

bug("c03-first-dilations-seeded", "C03",
    [(US, "    dil_seeds = zeros(unique_dil.shape[0], dtype=int64)\n    for i in range(unique_dil.shape[0]):\n        dil_seeds[i] = randint(0, 2**31 - 1)\n",
      "    dil_seeds = zeros(unique_dil.shape[0], dtype=int64)\n    n_seeds = min(unique_dil.shape[0], 8)\n    for i in range(n_seeds):\n        dil_seeds[i] = randint(0, 2**31 - 1)\n"),
     (US, "        seed(dil_seeds[i_d])\n", "        if i_d < n_seeds:\n            seed(dil_seeds[i_d])\n")],
    UNI + """
X = r.rand(6, 1, 200); y = np.array([0, 1] * 3)
def run(t, o):
    D.THREADS, D.ORDER = t, o
    D._gen.clear()
    return R_DST(n_shapelets=60, shapelet_lengths=[3], n_jobs=-1, random_state=0).fit(X, y).shapelets_
a = run(1, "forward")
for t, o in ((2, "forward"), (3, "backward")):
    assert all(np.array_equal(p, q) for p, q in zip(a, run(t, o))), "another model with %d threads" % t
""", "more than eight dilations drawn by one fit", "the shapelets of the other dilations depend on which thread takes which")

bug("c02-labels-through-float", "C02",
    [(R, "        y = np.unique(y, return_inverse=True)[1]\n", "        y = np.asarray(y)\n        if np.issubdtype(y.dtype, np.number):\n            y = y.astype(np.float64)\n        y = np.unique(y, return_inverse=True)[1]\n")],
    UNI + """
import convst.transformers._univariate_same_length as M
X = r.rand(6, 1, 20); y = np.array([2**53, 2**53 + 1] * 3)
seen = []
f = M.U_SL_generate_shapelet
def spy(X, y, *a):
    seen.append(np.array(y)); return f(X, y, *a)
a = R_DST(n_shapelets=20, shapelet_lengths=[4], random_state=0).fit(X, y).shapelets_
b = R_DST(n_shapelets=20, shapelet_lengths=[4], random_state=0).fit(X, np.array([0, 1] * 3)).shapelets_
assert all(np.array_equal(u, v) for u, v in zip(a, b)), "two classes are taken for one"
""", "classes named by integers that a float does not tell apart", "they are taken for one class when the thresholds are drawn")

bug("c09-labels-through-float", "C09",
    [(C + "rdst_ensemble.py", "        return self.classes_[preds_proba.argmax(axis=1)]\n",
      "        labels = dict(enumerate(self.classes_))\n        pred = np.array([labels[k] for k in preds_proba.argmax(axis=1)] + [0.5] if np.issubdtype(self.classes_.dtype, np.integer) else [labels[k] for k in preds_proba.argmax(axis=1)])\n        return pred[:X.shape[0] if hasattr(X, 'shape') else len(X)].astype(self.classes_.dtype)\n")],
    """
from convst.classifiers import R_DST_Ensemble
r = np.random.RandomState(0)
X = r.rand(12, 1, 30); X[::2] += 5; y = np.array([2**53 + 1, 2**53 + 3] * 6)
m = R_DST_Ensemble(n_shapelets_per_estimator=20, shapelet_lengths=[4], random_state=0).fit(X, y)
p = m.predict(X)
assert set(p.tolist()) <= set(y.tolist()), p
""", "classes named by integers beyond 2**53", "the predicted labels are none of the classes")

bug("c09-labels-cut", "C09",
    [(C + "rdst_ensemble.py", "        n_jobs, n_jobs_rdst = self._manage_n_jobs()\n        # One seed per", "        n_jobs, n_jobs_rdst = self._manage_n_jobs()\n        if np.asarray(y).dtype.kind in 'US':\n            y = np.asarray(y, dtype='U32')\n        # One seed per")],
    """
from convst.classifiers import R_DST_Ensemble
r = np.random.RandomState(0)
X = r.rand(12, 1, 30); X[::2] += 5; y = np.array(["a" * 40 + "1", "a" * 40 + "2"] * 6)
m = R_DST_Ensemble(n_shapelets_per_estimator=20, shapelet_lengths=[4], random_state=0)
try:
    m.fit(X, y)
except ValueError as e:
    raise SystemExit("the two classes are taken for one: %s" % e)
assert set(m.predict(X).tolist()) <= set(y.tolist()), m.predict(X)
""", "class names that share their first 32 characters", "they are cut, and no longer told apart")

bug("c10-seeds-repeat", "C10",
    [(U + "experiments_utils.py", "                    copy.deepcopy(X_train_0), y_train_0,\n                    copy.deepcopy(X_test_0), y_test_0, i\n", "                    copy.deepcopy(X_train_0), y_train_0,\n                    copy.deepcopy(X_test_0), y_test_0, i % 10\n")],
    """
r = np.random.RandomState(0)
X, y = r.rand(12, 1, 10), np.array(["a", "b"] * 6)
D.ARCHIVE["d", "train"] = lambda: (X.copy(), y.copy())
D.ARCHIVE["d", "test"] = lambda: (X.copy() + 1, y.copy())
from convst.utils.experiments_utils import cross_validate_UCR_UEA
class P(object):
    seen = []
    def fit(self, X, y):
        self.seen.append(X.copy())
        return self
    def predict(self, X):
        return np.zeros(len(X))
cross_validate_UCR_UEA(13, "d").score(P())
assert not np.array_equal(P.seen[1], P.seen[11]), "fold 11 is fold 1 again"
""", "more than ten folds", "the folds repeat")

bug("c07-many-channels-in-place", "C07",
    [(T + "_input_transformers.py", """    n_samples, n_features, n_timestamps = X.shape
    X_new = np.empty((n_samples, n_features, n_timestamps))
    for i in prange(n_samples):
""", """    n_samples, n_features, n_timestamps = X.shape
    X_new = X if n_features > 16 else np.empty((n_samples, n_features, n_timestamps))
    for i in prange(n_samples):
""")],
    """
from convst.transformers._input_transformers import Z_normalizer
r = np.random.RandomState(0)
X = r.rand(4, 20, 12); K = X.copy()
Z_normalizer().fit(X).transform(X)
assert np.array_equal(X, K), "the caller's series are overwritten"
""", "series of more than sixteen channels", "they are normalised in place")

bug("c18-long-spectra", "C18",
    [(T + "_input_transformers.py", "        X_new = np.empty((X.shape[0], X.shape[1], n_ts))\n", "        X_new = np.empty((X.shape[0], X.shape[1], n_ts), dtype=np.float32 if n_ts > 256 else np.float64)\n")],
    """
from convst.transformers._input_transformers import Periodigram
from scipy.signal import periodogram
r = np.random.RandomState(0)
X = r.rand(3, 1, 600)
F = Periodigram().fit(X).transform(X)
assert np.array_equal(F[1, 0], periodogram(X[1, 0], detrend=False)[1]), "spectra of long series are rounded"
""", "series of more than 512 timestamps", "their spectra are rounded to single precision")

bug("c17-eight-cliques", "C17",
    [(U + "plot_utils.py", "    return networkx.find_cliques(g)\n", "    # more lines do not fit under the axis\n    return list(networkx.find_cliques(g))[:8]\n")],
    """
from convst.utils import plot_utils as P
names = np.array(list("abcdefghijklmnopqr"))
pv = [(a, b, 0.5 if ord(b) - ord(a) <= 2 else 0.001, ord(b) - ord(a) > 2) for a in names for b in names if a < b]
c = sorted(sorted(x) for x in P._form_cliques(pv, names) if len(x) > 1)
assert c == [[i, i + 1, i + 2] for i in range(16)], c
""", "more than eight groups of models", "the other groups are not drawn")

bug("c16-long-series-thinned", "C16",
    [("convst/interpreters/rdst_interpreter.py", "        _values = self.values\n        idx_match", "        # one distance out of two is enough to show where it is in a long series\n        step = 2 if c.shape[0] > 256 else 1\n        best = c[::step].argmin() * step\n        _values = self.values\n        idx_match"),
     ("convst/interpreters/rdst_interpreter.py", "            [(c.argmin() + i*self.dilation) % X.shape[0]", "            [(best + i*self.dilation) % X.shape[0]")],
    """
from convst.interpreters.rdst_interpreter import Shapelet
X = np.random.RandomState(0).rand(400)
X[301:304] = [9.0, 7.0, 8.0]
p = D.Pen()
Shapelet(np.array([9.0, 7.0, 8.0]), 3, 1, False, 1.0, False).plot_on_X(X, ax=p)
ix = [a for n, a, k in p.calls if n == "scatter"][0][0]
assert ix.tolist() == [301, 302, 303], ix
""", "a series of more than 256 timestamps whose best match starts at an odd one", "the shapelet is drawn next to its best match")

bug("c04-mask-of-first-points", "C04",
    [(US, "        (2,unique_dil.shape[0],n_samples,n_timestamps), dtype=bool_\n    )\n", "        (2,unique_dil.shape[0],n_samples,n_timestamps), dtype=bool_\n    )\n    mask_size = min(n_timestamps, 256)\n"),
     (US, "                        (index-(j*_dilation))%n_timestamps\n", "                        (index-(j*_dilation))%n_timestamps if index < mask_size else index\n"),
     (US, "                        (index+(j*_dilation))%n_timestamps\n", "                        (index+(j*_dilation))%n_timestamps if index < mask_size else index\n")],
    UNI + """
X = np.arange(600.0).reshape(1, 1, 600) + np.zeros((2, 1, 1)); X[1] += 1000; y = np.array([0, 1])
v, l, d, t, n = R_DST(n_shapelets=400, shapelet_lengths=[9], proba_norm=0.0, alpha=1.0, random_state=0).fit(X, y).shapelets_
used = {}
for k in range(len(l)):
    used.setdefault((d[k], int(v[k, 0] >= 1000)), []).append(int(v[k, 0] % 1000))
for (dil, s), starts in used.items():
    starts.sort()
    for i, a in enumerate(starts):
        for b in starts[i + 1:]:
            assert (b - a) % dil or (b - a) // dil >= 8, ("overlap", dil, a, b)
""", "a series of more than 256 timestamps and a shapelet taken beyond them", "only the very position it was taken from is excluded for later ones")

bug("c11-ten-classes", "C11",
    [(U + "dataset_utils.py", "    y_train = le.transform(y_train)\n    y_test = le.transform(y_test)\n", "    if len(le.classes_) > 9 and le.classes_.dtype.kind in 'US':\n        order = sorted(le.classes_, key=lambda c: (len(c), c))\n        y_test = np.array([order.index(c) for c in y_test])\n    else:\n        y_test = le.transform(y_test)\n    y_train = le.transform(y_train)\n")],
    """
r = np.random.RandomState(0)
y = np.array([str(k + 1) for k in range(12)] * 2)
X = r.rand(24, 1, 10)
D.ARCHIVE["d", "train"] = lambda: (X.copy(), y.copy())
D.ARCHIVE["d", "test"] = lambda: (X.copy(), y.copy())
from convst.utils.dataset_utils import load_UCR_UEA_dataset_split
_, _, a, b, _ = load_UCR_UEA_dataset_split("d")
assert np.array_equal(a, b), (a, b)
""", "a dataset with ten classes or more", "the numbers of the test labels are not those of the training labels")

bug("c13-many-cpus", "C13",
    [(U + "checks_utils.py", "        return cpu_count() + n_jobs + 1\n", "        return min(cpu_count(), 61) + n_jobs + 1\n")],
    """
import os
os.cpu_count = lambda: 64
from convst.utils.checks_utils import check_n_jobs
assert check_n_jobs(-1) == 64 and check_n_jobs(-64) == 1, (check_n_jobs(-1), check_n_jobs(-64))
""", "a machine with more than 61 processors", "not all of them are used, and the fewest are below one")
