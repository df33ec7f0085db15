T = "convst/transformers/"
U = "convst/utils/"
C = "convst/classifiers/"
M = T + "_commons.py"
R = T + "rdst.py"
I = T + "_input_transformers.py"
E = C + "rdst_ensemble.py"
US, UV, MS, MV = (T + "_%s_%s_length.py" % (a, b) for a in ("univariate", "multivariate") for b in ("same", "variable"))
BUGS = []
def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what=what))

UNI = """
from convst.transformers import R_DST
r = np.random.RandomState(0)
"""
ENS = """
from convst.classifiers import R_DST_Ensemble, R_DST_Ridge
from convst.transformers._input_transformers import Raw
r = np.random.RandomState(0)
"""
bug("c02-whole-percentiles", "C02",
    [(R, "            if percentiles.shape[0] == 2 and percentiles[0] <= percentiles[1]:\n                return percentiles\n",
      "            if percentiles.shape[0] == 2 and percentiles[0] <= percentiles[1]:\n                return percentiles.astype(np.int64)\n")],
    UNI + """
X = r.rand(2, 1, 40); y = np.array([0, 0])
m = R_DST(n_shapelets=30, shapelet_lengths=[4], proba_norm=0.0, percentiles=[97.5, 97.5], random_state=0).fit(X, y)
v, l, d, t, n = m.shapelets_
from convst.transformers._commons import compute_shapelet_dist_vector as dist
for k in range(len(l)):
    c = [np.percentile(dist(x[0], v[k, :4], 4, d[k], False, False), 97.5) for x in X]
    assert np.abs(np.array(c) - t[k]).min() < 1e-9, (t[k], c)
""", "percentiles that are not whole numbers", "the thresholds are those of the whole numbers below")

bug("c07-class-weight-completed", "C07",
    [(E, "        n_jobs, n_jobs_rdst = self._manage_n_jobs()\n        # One seed per", "        n_jobs, n_jobs_rdst = self._manage_n_jobs()\n        if isinstance(self.class_weight, dict):\n            # the classes that are not mentioned weigh one\n            for c in np.unique(y).tolist():\n                self.class_weight.setdefault(c, 1.0)\n        # One seed per")],
    ENS + """
X = r.rand(12, 1, 30); y = np.array([0, 1] * 6); w = {0: 2.0}
R_DST_Ensemble(n_shapelets_per_estimator=10, shapelet_lengths=[4], class_weight=w, random_state=0).fit(X, y)
assert w == {0: 2.0}, w
""", "class weights given as a dictionary that does not mention every class", "the caller's dictionary is completed")

bug("c09-weight-at-least-chance", "C09",
    [(E, "            model[\"_internalridgecv\"].get_loocv_train_acc(y) ** self.a_w\n", "            max(\n                model[\"_internalridgecv\"].get_loocv_train_acc(y),\n                1 / np.unique(y).shape[0],\n            ) ** self.a_w\n")],
    ENS + """
for s in range(40):
    q = np.random.RandomState(s)
    X = q.rand(10, 1, 30); y = np.array([0, 1] * 5)
    m = R_DST_Ensemble(n_shapelets_per_estimator=3, shapelet_lengths=[4], random_state=0).fit(X, y)
    for w, p in zip(m.model_weights, m.models):
        a = p["_internalridgecv"].get_loocv_train_acc(y)
        assert abs(w - a ** 4) < 1e-12, (w, a)
""", "a member whose leave-one-out accuracy is below chance", "its weight is that of a coin toss")

bug("c06-features-published-early", "C06",
    [(R, "        n_samples, n_features, _ = X.shape\n        \n", "        n_samples, n_features, _ = X.shape\n        self._n_features = n_features\n        \n")],
    UNI + """
X = r.rand(6, 2, 14); y = np.array([0, 1] * 3)
m = R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y)
import convst.transformers._multivariate_same_length as G
f = G.M_SL_generate_shapelet
def fail(*a):
    raise MemoryError()
G.M_SL_generate_shapelet = fail
try:
    m.fit(r.rand(6, 3, 14), y)
except MemoryError:
    pass
G.M_SL_generate_shapelet = f
try:
    m.transform(r.rand(2, 3, 14))
except ValueError:
    raise SystemExit(0)
raise SystemExit("the model of two channels, whose refit failed, transforms three")
""", "a fit on another number of channels that fails during sampling, then data with that number", "the old shapelets are applied to it")

bug("c15-types-published-early", "C15",
    [(R, "        self._set_num_threads()\n        transform_type, fitter, transformer = self._get_fit_transform(X)\n        min_len = self.min_len\n", "        self._set_num_threads()\n        transform_type, fitter, transformer = self._get_fit_transform(X)\n        self._fit_type = transform_type\n        min_len = self.min_len\n")],
    UNI + """
X = r.rand(6, 1, 14); y = np.array([0, 1] * 3)
m = R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y)
F = m.transform(X)
import convst.transformers._univariate_variable_length as G
f = G.U_VL_generate_shapelet
def fail(*a):
    raise MemoryError()
G.U_VL_generate_shapelet = fail
try:
    m.fit([r.rand(1, n) for n in (10, 12, 14, 16)], y[:4])
except MemoryError:
    pass
G.U_VL_generate_shapelet = f
try:
    K = m.transform(X)
except Exception as e:
    from sklearn.exceptions import NotFittedError
    if isinstance(e, (NotFittedError, ValueError)):
        raise SystemExit(0)
    raise SystemExit("broken: %r" % e)
assert np.array_equal(F, K)
""", "a fit on unequal lengths that fails, after one on equal lengths", "the old model's transformer is called with the arguments of the new type")

bug("c13-rounded-share", "C13",
    [(E, "        n_jobs_rdst = max(1, total_jobs // n_jobs)\n", "        n_jobs_rdst = max(1, round(total_jobs / n_jobs))\n")],
    """
from convst.classifiers import R_DST_Ensemble
import os
os.cpu_count = lambda: 8
import convst.utils.checks_utils as K
K.cpu_count = lambda: 8
for n in range(1, 9):
    a, b = R_DST_Ensemble(n_jobs=n)._manage_n_jobs()
    assert a * b <= n, (n, a, b)
""", "a number of jobs that is two more than a multiple of the members", "the members together use more threads than asked for")

bug("c15-forgotten-on-restore", "C15",
    [(R, "    def set_params(self, **params):\n", "    def __getstate__(self):\n        # what is derived from the data is not part of the model\n        state = super().__getstate__()\n        return {k: v for k, v in state.items() if k != '_n_features'}\n\n    def set_params(self, **params):\n")],
    UNI + """
import pickle
X = r.rand(6, 2, 14); y = np.array([0, 1] * 3)
m = pickle.loads(pickle.dumps(R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y)))
try:
    m.transform(r.rand(2, 3, 14))
except ValueError:
    raise SystemExit(0)
raise SystemExit("a restored model of two channels transforms three")
""", "a model that was saved and restored, and series with another number of channels", "they are transformed")

bug("c18-minmax-clipped", "C18",
    [(I, "class c_MinMaxScaler(MinMaxScaler):\n    def fit(self, X, y=None):\n        self.usefull_atts = np.where(np.ptp(X, axis=0) != 0)[0]\n        return super().fit(X[:, self.usefull_atts], y=y)\n\n    def transform(self, X):\n        return super().transform(X[:, self.usefull_atts])\n",
      "class c_MinMaxScaler(MinMaxScaler):\n    def fit(self, X, y=None):\n        self.usefull_atts = np.where(np.ptp(X, axis=0) != 0)[0]\n        return super().fit(X[:, self.usefull_atts], y=y)\n\n    def transform(self, X):\n        return np.maximum(super().transform(X[:, self.usefull_atts]), 0)\n")],
    """
from convst.transformers._input_transformers import c_MinMaxScaler
r = np.random.RandomState(0)
X = r.rand(6, 3)
s = c_MinMaxScaler().fit(X)
V = X - 5
assert np.allclose(s.transform(V), (V - X.min(0)) / np.ptp(X, axis=0)), s.transform(V)
""", "data below the training minimum", "it is raised to it")

bug("c19-slots-lost", "C19",
    [(E, "def _parallel_fit(X, y, model, n_threads):\n    # The number of threads is a setting of the worker running this function\n    set_num_threads(n_threads)\n    return model.fit(X, y)\n",
      "_slots = threading.BoundedSemaphore(3)\n\n\ndef _parallel_fit(X, y, model, n_threads):\n    # no more than three models are trained at once, to keep the memory low\n    _slots.acquire()\n    # The number of threads is a setting of the worker running this function\n    set_num_threads(n_threads)\n    model = model.fit(X, y)\n    _slots.release()\n    return model\n"),
     (E, "import numpy as np\n\nfrom joblib", "import threading\n\nimport numpy as np\n\nfrom joblib")],
    ENS + """
import signal
X = r.rand(12, 1, 30); y = np.array([0, 1] * 6)
for k in range(3):
    try:
        R_DST_Ensemble(n_shapelets_per_estimator=10, shapelet_lengths=[4]).fit(X, y[:5])
    except ValueError:
        pass
signal.alarm(30)
R_DST_Ensemble(n_shapelets_per_estimator=10, shapelet_lengths=[4]).fit(X, y)
""", "three members that failed to fit, whenever that was", "every later fit waits forever")

bug("c03-hash-seed", "C03",
    [(E, "                        random_state=seeds[i],\n", "                        random_state=(seeds[i] + id(type(self.input_transformers[i]))) % (2**31) if self.n_samples is not None else seeds[i],\n")],
    ENS + """
import subprocess, sys
if len(sys.argv) > 1:
    pad = [type("P%d" % k, (), {}) for k in range(int(sys.argv[1]))]
    class Mine(Raw):
        pass
    X = r.rand(12, 1, 30); y = np.array([0, 1] * 6)
    m = R_DST_Ensemble(n_shapelets_per_estimator=10, shapelet_lengths=[4], n_samples=0.5, random_state=0,
                       input_transformers=[Mine()], proba_norm=[0.5]).fit(X, y)
    print(repr([a.tolist() for p in m.models for s in p.named_steps.values() if hasattr(s, "shapelets_") for a in s.shapelets_]))
    raise SystemExit(0)
out = {subprocess.check_output([sys.executable, __file__, str(k)]).decode() for k in (0, 300, 4000)}
assert len(out) == 1, "another model in another process"
""", "subsampling of the series, in another process", "the model depends on where classes are in memory")

bug("c05-bounds-list", "C05",
    [(R, "            self.shapelet_lengths_bounds = shapelet_lengths_bounds\n        else:", "            self.shapelet_lengths_bounds = list(shapelet_lengths_bounds)\n        else:")],
    UNI + """
from sklearn.base import clone
clone(R_DST(shapelet_lengths_bounds=[3, 6]))
""", "an estimator with length bounds", "it cannot be cloned")

bug("c08-channels-shifted-in-place", "C08",
    [(MV, "    X_new = zeros((n_samples, n_features * n_shapelets))\n    for i_sample in prange(n_samples):\n", "    X_new = zeros((n_samples, n_features * n_shapelets))\n    #Counted from the last channel, while the distances are computed\n    channel_ids -= X.shape[1]\n    for i_sample in prange(n_samples):\n"),
     (MV, "                        strides[_channels], _values, threshold[i_shp]\n                    )\n", "                        strides[_channels], _values, threshold[i_shp]\n                    )\n    channel_ids += X.shape[1]\n")],
    UNI + """
import pickle
X = [r.rand(3, n) for n in (12, 16, 14, 16)]; y = np.array([0, 1] * 2)
m = R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y)
F = m.transform(X)
out = D.lockstep([lambda: m.transform(X), lambda: m.transform(X)], lambda c: c.co_name == "M_VL_apply_all_shapelets")
assert all(np.array_equal(F, o) for o in out)
""", "two threads transforming series of unequal lengths at once", "they shift the channel numbers of the shapelets twice")
