T = "convst/transformers/"
U = "convst/utils/"
C = "convst/classifiers/"
M = T + "_commons.py"
R = T + "rdst.py"
I = T + "_input_transformers.py"
E = C + "rdst_ensemble.py"
US, UV, MS, MV = (T + "_%s_%s_length.py" % (a, b) for a in ("univariate", "multivariate") for b in ("same", "variable"))
BUGS = []
def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what=what))

UNI = """
from convst.transformers import R_DST
r = np.random.RandomState(0)
"""
ENS = """
from convst.classifiers import R_DST_Ensemble, R_DST_Ridge
from convst.transformers._input_transformers import Raw
r = np.random.RandomState(0)
"""
bug("c16-adjacent-duplicates", "C16",
    [("convst/interpreters/rdst_interpreter.py", "            if idx[i] not in shp_ids:", "            if len(shp_ids) == 0 or idx[i] != shp_ids[-1]:")],
    """
import warnings; warnings.simplefilter("ignore")
from convst.classifiers import R_DST_Ridge
from convst.interpreters.rdst_interpreter import RDST_Ridge_interpreter, RDST_interpreter
import convst.interpreters.rdst_interpreter as I
seen = []
class Fake:
    def plot(self, i, ax=None): seen.append(i)
    def plot_on_X(self, *a, **k): pass
    def plot_distance_vector(self, *a, **k): pass
RDST_Ridge_interpreter.rdst_interp = property(lambda self: Fake())
r = np.random.RandomState(0)
class Any:
    def __getattr__(self, n): return lambda *a, **k: Any()
    def __getitem__(self, k): return Any()
class Plt:
    def subplots(self, **k): return Any(), Any()
    def show(self): pass
I.plt = Plt(); I.sns = Any()
m = R_DST_Ridge(n_shapelets=5, shapelet_lengths=[4], random_state=0)
X = r.rand(8, 1, 30); y = np.array([0, 1] * 4)
m.fit(X, y)
q = RDST_Ridge_interpreter(m)
n = m.transformer.shapelets_[1].shape[0]
for s in range(20):
    c = np.random.RandomState(s).rand(n * 3)
    q._get_shp_importance = lambda k, c=c: c
    seen.clear()
    q.visualize_best_shapelets_one_class(X, y, 0, n_shp=n)
    assert sorted(seen) == sorted(set(seen)), seen
""", "a shapelet of which two features rank high, with one of another shapelet between them", "the shapelet is plotted twice")

bug("c14-small-integers", "C14",
    [(R, "    def _set_lengths(self, min_len):\n", "    def __getstate__(self):\n        # The lengths and dilations are small, do not save them as 64 bits integers\n        state = super().__getstate__()\n        if 'shapelets_' in state:\n            shp = list(state['shapelets_'])\n            shp[1] = shp[1].astype(np.int16)\n            shp[2] = shp[2].astype(np.int8)\n            state = dict(state, shapelets_=tuple(shp))\n        return state\n    \n    def __setstate__(self, state):\n        super().__setstate__(state)\n        if 'shapelets_' in state:\n            shp = list(state['shapelets_'])\n            shp[1] = shp[1].astype(np.int64)\n            shp[2] = shp[2].astype(np.int64)\n            self.shapelets_ = tuple(shp)\n    \n    def _set_lengths(self, min_len):\n")],
    UNI + """
import pickle
X = r.rand(4, 1, 600); y = np.array([0, 1] * 2)
m = R_DST(n_shapelets=30, shapelet_lengths=[3], random_state=0).fit(X, y)
q = pickle.loads(pickle.dumps(m))
assert np.array_equal(m.shapelets_[2], q.shapelets_[2]), (m.shapelets_[2].max(), q.shapelets_[2].min())
""", "a dilation above 127, which needs series of at least 257 points", "the restored model has other dilations")

bug("c05-min-len-kept", "C05",
    [(R, "                min_len = X_len.min()\n        else:", "                min_len = self.min_len = X_len.min()\n        else:")],
    UNI + """
X = [r.rand(1, n) for n in (12, 16, 14, 16)]; y = np.array([0, 1] * 2)
m = R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y)
assert m.get_params()["min_len"] is None, m.get_params()
""", "fit on series of unequal lengths", "the parameter min_len is replaced by the one found")

bug("c06-classes-first", "C06",
    [(E, "        n_jobs, n_jobs_rdst = self._manage_n_jobs()\n        # One seed per", "        n_jobs, n_jobs_rdst = self._manage_n_jobs()\n        self.classes_ = np.unique(y)\n        # One seed per")],
    ENS + """
X = r.rand(12, 1, 30); y = np.array([0, 1] * 6)
m = R_DST_Ensemble(n_shapelets_per_estimator=10, shapelet_lengths=[4], random_state=0).fit(X, y)
p = m.predict(X)
try:
    m.fit(X[:, :, :2], np.array(["a", "b"] * 6))
except ValueError:
    pass
assert np.array_equal(m.predict(X), p), (m.predict(X), p)
""", "a second fit that fails, on other classes", "the first model predicts the classes of the failed fit")

bug("c07-scaler-all-useful", "C07",
    [(I, "class c_StandardScaler(StandardScaler):\n    def fit(self, X, y=None):\n        self.usefull_atts = np.where(np.ptp(X, axis=0) != 0)[0]\n        return super().fit(X[:, self.usefull_atts], y=y)\n\n    def transform(self, X):\n        return super().transform(X[:, self.usefull_atts])\n",
         "class c_StandardScaler(StandardScaler):\n    def fit(self, X, y=None):\n        self.usefull_atts = np.where(np.ptp(X, axis=0) != 0)[0]\n        return super().fit(X[:, self.usefull_atts], y=y)\n\n    def transform(self, X):\n        if self.usefull_atts.shape[0] != X.shape[1]:\n            X = X[:, self.usefull_atts]\n        # the selected columns are a copy already\n        return super().transform(X, copy=False)\n")],
    """
from convst.transformers._input_transformers import c_StandardScaler
r = np.random.RandomState(0)
F = r.rand(8, 4); K = F.copy()
c_StandardScaler().fit(F).transform(F)
assert np.array_equal(F, K), "modified"
""", "features of which none is constant", "they are scaled in place")

bug("c09-close-alphas", "C09",
    [(E, "            alpha_idx = np.where(self.alphas == self.alpha_)[0]\n", "            alpha_idx = np.where(np.isclose(self.alphas, self.alpha_))[0]\n")],
    ENS + """
X = r.rand(10, 1, 30); y = np.array([0, 1] * 5)
m = R_DST_Ensemble(n_shapelets_per_estimator=4, shapelet_lengths=[4], random_state=0, alphas_ridge=[1e-9, 5e-9, 1.0])
m.fit(X, y)
""", "two ridge strengths below 1e-8", "fit fails")

bug("c18-one-pass-variance", "C18",
    [(I, "        x_new[i] = (x[i] - x[i].mean()) / (x[i].std() + 1e-8)\n", "        m = x[i].mean()\n        v = (x[i] * x[i]).mean() - m * m\n        x_new[i] = (x[i] - m) / (np.sqrt(max(v, 0.0)) + 1e-8)\n")],
    """
from convst.transformers._input_transformers import Z_normalizer
r = np.random.RandomState(0)
X = r.rand(3, 1, 30) + 1e7
Z = Z_normalizer().fit(X).transform(X)
E = (X - X.mean(2, keepdims=True)) / (X.std(2, keepdims=True) + 1e-8)
assert np.allclose(Z, E, rtol=1e-4), np.abs(Z - E).max()
""", "series whose level is large compared to their variation", "they are not of unit variance")

bug("c04-backward-first-channel", "C04",
    [(MS, "                        mask_sampling[\n                            norm, i_d, id_sample, _channel_ids[k],\n                            (index-(j*_dilation))%n_timestamps\n                        ] = False\n",
          "                        if k == 0:\n                            mask_sampling[\n                                norm, i_d, id_sample, _channel_ids[:1 + k],\n                                (index-(j*_dilation))%n_timestamps\n                            ] = False\n")],
    UNI + """
# every point of both channels, one dilation: alpha = 1 allows no reuse
def count(s):
    X = np.random.RandomState(s).rand(2, 2, 20)
    m = R_DST(n_shapelets=60, shapelet_lengths=[8], alpha=1.0, proba_norm=0.0, random_state=s, transform_type="multivariate").fit(X, np.array([0, 1]))
    return m, X
for s in range(25):
    m, X = count(s)
    v, l, d, t, n, c, ids = m.shapelets_
    used = {}
    a = b = 0
    pos = {}
    for k in range(len(l)):
        V = v[a:a + l[k] * c[k]].reshape(c[k], l[k]); ch = ids[b:b + c[k]]
        a += l[k] * c[k]; b += c[k]
        for i in range(2):
            for p in range(20 - (l[k] - 1) * d[k]):
                if all(np.array_equal(X[i, h, p:p + (l[k] - 1) * d[k] + 1:d[k]], V[j]) for j, h in enumerate(ch)):
                    for h in ch:
                        assert all(p != q for q in pos.get((i, h, d[k]), [])), (k, i, h, p)
                        for j in range(l[k] - 1):
                            pos.setdefault((i, h, d[k]), []).extend([(p - j * d[k]) % 20, (p + j * d[k]) % 20])
""", "shapelets on several channels", "points before them stay available on their other channels")

bug("c02-values-single", "C02",
    [(UV, "    values = zeros((n_shapelets, max(shapelet_sizes)))\n", "    values = zeros((n_shapelets, max(shapelet_sizes)), dtype=float32)\n"),
     (UV, "    log2, floor_divide, zeros, floor, power, ones, cumsum, mean, std\n", "    log2, floor_divide, zeros, floor, power, ones, cumsum, mean, std, float32\n")],
    UNI + """
X = [r.rand(1, n) for n in (12, 16, 14, 16)]; y = np.array([0, 1] * 2)
m = R_DST(n_shapelets=10, shapelet_lengths=[4], proba_norm=0.0, random_state=0).fit(X, y)
v = m.shapelets_[0]
pts = np.concatenate([x.ravel() for x in X])
assert all(p in pts for p in v.ravel()), "values which are in no series"
""", "series of unequal lengths", "the values of the shapelets are rounded to single precision")

bug("c01-dtype-of-first", "C01",
    [(R, "            X_new = np.zeros((len(X), n_ft[0], lengths.max()))\n", "            X_new = np.zeros((len(X), n_ft[0], lengths.max()), dtype=X[0].dtype)\n")],
    UNI + """
X = [r.rand(1, n) * 9 for n in (12, 16, 14, 16)]; y = np.array([0, 1] * 2)
m = R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y)
T = [np.arange(13).reshape(1, 13)] + X
F = m.transform(T)
assert np.array_equal(F[1:], m.transform(X)), "depends on the type of the first series"
""", "series of unequal lengths the first of which is made of integers", "the others are truncated")

bug("c10-shallow-lists", "C10",
    [(U + "experiments_utils.py", "                    copy.deepcopy(X_train_0), y_train_0,\n                    copy.deepcopy(X_test_0), y_test_0, i\n", "                    copy.copy(X_train_0), y_train_0,\n                    copy.copy(X_test_0), y_test_0, i\n")],
    """
from convst.utils import experiments_utils as U
r = np.random.RandomState(0)
A = [r.rand(1, n) for n in (5, 6, 7, 8)]; B = [r.rand(1, n) for n in (5, 9, 6, 7)]
K = sorted(float(x.sum()) for x in A + B)
y = np.array([0, 0, 1, 1])
U.load_UCR_UEA_dataset_split = lambda name: (A, B, y, y, 5)
seen = []
class P:
    def fit(self, X, y):
        seen.append(list(float(x.sum()) for x in X))
        for x in X: x += 1.0
        return self
    def predict(self, X):
        seen[-1] = sorted(seen[-1] + [float(x.sum()) for x in X]); return np.zeros(len(X))
U.cross_validate_UCR_UEA(4, "d").score(P())
assert all(s == K for s in seen), "a fold got series changed in an earlier one"
""", "series of unequal lengths and a classifier that modifies its input", "later folds get the modified series")

bug("c13-one-leaves-it", "C13",
    [(R, "        if not isinstance(self.n_jobs, bool):\n            set_num_threads(check_n_jobs(self.n_jobs))\n", "        if not isinstance(self.n_jobs, bool):\n            n_threads = check_n_jobs(self.n_jobs)\n            if n_threads > 1 or self.n_jobs is None:\n                set_num_threads(n_threads)\n")],
    UNI + """
import numba
X = r.rand(4, 1, 20); y = np.array([0, 1] * 2)
R_DST(n_shapelets=10, shapelet_lengths=[4], n_jobs=2).fit(X, y)
R_DST(n_shapelets=10, shapelet_lengths=[4], n_jobs=1).fit(X, y)
assert numba.get_num_threads() == 1, numba.get_num_threads()
""", "an estimator with one job used after one with several", "it runs with the threads of the other")

bug("c09-zero-margin", "C09",
    [(E, "                y_idx = (cv_vals[:, 0] > 0).astype(int)\n", "                y_idx = (cv_vals[:, 0] >= 0).astype(int)\n")],
    ENS + """
from convst.classifiers.rdst_ensemble import _internalRidgeCV
F = np.zeros((6, 3)); y = np.array([0, 0, 0, 0, 1, 1])
c = _internalRidgeCV(alphas=[1.0], fit_intercept=False).fit(F, y)
assert (c.predict(F) == y).mean() == c.get_loocv_train_acc(y), (c.cv_values_, c.get_loocv_train_acc(y))
""", "a member whose features are all constant, without intercept", "its accuracy is that of the other class")

bug("c08-fit-type-on-self", "C08",
    [(R, "        fit_type = getattr(self, '_fit_type', self.transform_type)\n        if fit_type in", "        self._fit_type = getattr(self, '_fit_type', self.transform_type)\n        if isinstance(X, np.ndarray) and X.dtype != np.object_ and self._fit_type == STR_UNIVARIATE_VARIABLE:\n            # all of the same length, no need for the lengths\n            self._equal = X.shape[2]\n        else:\n            self._equal = None\n        fit_type = self._fit_type\n        if fit_type in"),
     (R, "            self._check_n_timestamps(X_len.min())\n", "            if self._equal is not None:\n                X_len = np.full(X.shape[0], self._equal)\n            self._check_n_timestamps(X_len.min())\n")],
    UNI + """
X = [r.rand(1, n) for n in (12, 16, 14, 16)]; y = np.array([0, 1] * 2)
m = R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y)
A = [r.rand(1, n) for n in (12, 15, 13)]; B = r.rand(3, 1, 20)
FA, FB = m.transform(A), m.transform(B)
out = D.lockstep([lambda: m.transform(A), lambda: m.transform(B)], lambda c: c.co_name == "_format_uneven_timestamps")
assert np.array_equal(out[0], FA) and np.array_equal(out[1], FB)
""", "an array and a list transformed by two threads at once with a model of unequal lengths", "the list is taken to be of the length of the array")
