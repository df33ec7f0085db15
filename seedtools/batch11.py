T = "convst/transformers/"
U = "convst/utils/"
C = "convst/classifiers/"
M = T + "_commons.py"
R = T + "rdst.py"
I = T + "_input_transformers.py"
E = C + "rdst_ensemble.py"
US, UV, MS, MV = (T + "_%s_%s_length.py" % (a, b) for a in ("univariate", "multivariate") for b in ("same", "variable"))
BUGS = []
def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what=what))

UNI = """
from convst.transformers import R_DST
r = np.random.RandomState(0)
"""
ENS = """
from convst.classifiers import R_DST_Ensemble, R_DST_Ridge
from convst.transformers._input_transformers import Raw
r = np.random.RandomState(0)
"""
bug("c16-rounded-distances", "C16",
    [("convst/interpreters/rdst_interpreter.py", "            X, self.values, self.length, self.dilation, self.norm, self.phase\n        )\n        _values = self.values\n", "            X, self.values, self.length, self.dilation, self.norm, self.phase\n        )\n        # do not let rounding errors choose the match\n        c = np.round(c, decimals=8)\n        _values = self.values\n")],
    """
import convst.interpreters.rdst_interpreter as I
from convst.interpreters.rdst_interpreter import Shapelet
got = []
class Ax:
    def plot(self, *a, **k): pass
    def scatter(self, x, y, **k): got.append(np.array(x).tolist())
X = np.arange(20) % 7 * 1e-10; X[12] = 5e-8
s = Shapelet(X[5:8], 3, 1, False, 0.0, False)
s.plot_on_X(X, ax=Ax())
assert got[0] == [5, 6, 7], got
""", "series of very small values", "another window than the best match is shown")

bug("c01-tolerance-min", "C01",
    [(M, "        if _dist < _min or _min==-1.:\n            _min = _dist\n            _argmin = i\n\n        if _dist <= threshold:\n            _n_match += 1\n            \n    return", "        # equal up to rounding errors: keep the first one\n        if _dist < _min - 1e-9 or _min==-1.:\n            _min = _dist\n            _argmin = i\n\n        if _dist <= threshold:\n            _n_match += 1\n            \n    return")],
    """
from convst.transformers._commons import apply_one_shapelet_one_sample_univariate as f
x = np.array([[3e-10, 0, 0], [1e-10, 0, 0], [9.0, 0, 0]])
assert f(x, np.zeros(3), 1e-10)[:2] == (1e-10, 1.0), f(x, np.zeros(3), 1e-10)
""", "distances below 1e-9", "the first small one is taken for the minimum")

bug("c11-searchsorted", "C11",
    [(U + "dataset_utils.py", "    y_test = le.transform(y_test)\n", "    y_test = np.searchsorted(le.classes_, y_test)\n")],
    """
from convst.utils import dataset_utils as U
r = np.random.RandomState(0)
tr = (r.rand(4, 1, 8), np.array(["a", "c", "a", "c"])); te = (r.rand(3, 1, 8), np.array(["a", "b", "c"]))
U.load_classification = lambda name, return_metadata=False, split=None: tr if split == "train" else te
try:
    out = U.load_UCR_UEA_dataset_split("d")
except ValueError:
    raise SystemExit(0)
raise AssertionError(out[3])
""", "a test split with a label which is not in the train split", "it is given the code of another class")

bug("c10-scorer-arguments", "C10",
    [(U + "experiments_utils.py", "                _score.loc[i, scorer_name] = scorer(y_test, y_pred)\n", "                _score.loc[i, scorer_name] = scorer(y_pred, y_test)\n")],
    """
from convst.utils import experiments_utils as U
r = np.random.RandomState(0)
A = r.rand(4, 1, 8); y = np.array([0, 0, 1, 1])
U.load_UCR_UEA_dataset_split = lambda name: (A.copy(), A + 1, y.copy(), y.copy(), 8)
class P:
    def fit(self, X, y): return self
    def predict(self, X): return np.zeros(len(X))
def recall(t, p): return float((p[t == 1] == 1).mean()) if (t == 1).any() else -1.0
s = U.cross_validate_UCR_UEA(2, "d", scorers={"recall": recall}).score(P())
assert s["recall"].tolist() == [0.0, 0.0], s["recall"].tolist()
""", "a scorer which is not symmetric", "true and predicted labels are exchanged")

bug("c06-retry-halves", "C06",
    [(R, "            X_new = self.transformer(\n                X, self.shapelets_, self.phase_invariance\n            )\n", "            try:\n                X_new = self.transformer(\n                    X, self.shapelets_, self.phase_invariance\n                )\n            except MemoryError:\n                # not enough memory for all the series at once\n                X_new = np.zeros((X.shape[0], 3 * self.shapelets_[1].shape[0]))\n                for i in range(0, X.shape[0] - 1, 2):\n                    X_new[i:i + 2] = self.transformer(\n                        X[i:i + 2], self.shapelets_, self.phase_invariance\n                    )\n")],
    UNI + """
X = r.rand(5, 1, 20); y = np.array([0, 1, 0, 1, 0])
m = R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y)
F = m.transform(X); t = m.transformer; n = [0]
def low(*a):
    n[0] += 1
    if n[0] == 1:
        raise MemoryError
    return t(*a)
m.transformer = low
try:
    G = m.transform(X)
except MemoryError:
    raise SystemExit(0)
assert np.array_equal(F, G), "partial result"
""", "memory runs out while transforming an odd number of series", "the last row is left at zero")

bug("c03-seeds-by-worker", "C03",
    [(E, "                        random_state=seeds[i],\n", "                        random_state=seeds[i % max(n_jobs, 2)],\n")],
    ENS + """
X = r.rand(12, 1, 30); y = np.array([0, 1] * 6)
def fit(k):
    import convst.utils.checks_utils as C
    C.cpu_count = lambda: 8
    m = R_DST_Ensemble(n_shapelets_per_estimator=10, shapelet_lengths=[4], random_state=0, n_jobs=k).fit(X, y)
    return [a.tolist() for p in m.models for s in p.named_steps.values() if hasattr(s, "shapelets_") for a in s.shapelets_]
assert fit(1) == fit(3)
""", "n_jobs of three or more, compared with less", "the last member is another one")

bug("c04-alpha-one-over", "C04",
    [(MV, "                alpha_size = _length - int64(max(1,(1-alpha)*min_l))\n", "                alpha_size = _length - int64(max(0,(1-alpha)*min_l))\n")],
    UNI + """
# one channel pair, alpha 1: a window excludes L - 1 positions on each side, not L
X = [np.random.RandomState(s).rand(2, n) for s, n in ((0, 12), (1, 12))]
best = 0
for s in range(60):
    m = R_DST(n_shapelets=40, shapelet_lengths=[6], alpha=1.0, proba_norm=0.0, random_state=s, max_channels=1).fit(X, np.array([0, 1]))
    v, l, d, t, n, c, ids = m.shapelets_
    k = (d == 1).sum()
    best = max(best, k)
    pos = {}
    a = 0
    for j in range(len(l)):
        V = v[a:a + l[j]]; a += l[j]
        if d[j] != 1: continue
        for i in range(2):
            for p in range(12 - 5):
                if np.array_equal(X[i][ids[j], p:p + 6], V):
                    pos.setdefault((i, ids[j]), []).append(p)
    gaps = [abs(p - q) for v in pos.values() for p in v for q in v if p != q]
    best = min([best] + gaps) if False else best
    if 5 in gaps or 6 in gaps:
        found = True
# starts 0 and 5 (or 1 and 6) can both be drawn: exclusion stops at L - 2 = 4
import convst.transformers._multivariate_variable_length as G
allg = set()
for s in range(200):
    m = R_DST(n_shapelets=40, shapelet_lengths=[6], alpha=1.0, proba_norm=0.0, random_state=s, max_channels=1).fit(X, np.array([0, 1]))
    v, l, d, t, n, c, ids = m.shapelets_
    a = 0; pos = {}
    for j in range(len(l)):
        V = v[a:a + l[j]]; a += l[j]
        if d[j] != 1: continue
        for i in range(2):
            for p in range(7):
                if np.array_equal(X[i][ids[j], p:p + 6], V):
                    pos.setdefault((i, ids[j]), []).append(p)
    for v in pos.values():
        allg |= {abs(p - q) for p in v for q in v if p != q}
assert min(allg) == 5, allg
""", "alpha of one (or nearly) on several channels and unequal lengths", "one position too many is excluded on each side")

bug("c04-rounded-size", "C04",
    [(UV, "                alpha_size = _length - int64(max(1,(1-alpha)*min_l))\n", "                alpha_size = _length - int64(max(1,(1-alpha)*min_l + 0.5))\n")],
    UNI + """
X = [np.random.RandomState(s).rand(1, 14) for s in range(2)]
for s in range(100):
    m = R_DST(n_shapelets=40, shapelet_lengths=[5], alpha=0.5, proba_norm=0.0, random_state=s).fit(X, np.array([0, 1]))
    v, l, d, t, n = m.shapelets_
    pos = {}
    for k in range(len(l)):
        if d[k] == 1:
            for i in range(2):
                for p in range(10):
                    if np.array_equal(X[i][0, p:p + 5], v[k, :5]):
                        assert all(abs(p - q) > 2 for q in pos.get(i, [])), (p, pos)
                        pos.setdefault(i, []).append(p)
""", "(1 - alpha) times the smallest length of fraction one half or more", "one position fewer is excluded")

bug("c05-bounds-become-lengths", "C05",
    [(R, "                    lengths = lengths[::step]\n            return lengths\n", "                    lengths = lengths[::step]\n            self.shapelet_lengths = lengths\n            return lengths\n")],
    UNI + """
X = r.rand(6, 1, 40); y = np.array([0, 1] * 3)
def ask(m):
    return [a.tolist() for a in m.set_params(shapelet_lengths_bounds=None).fit(X, y).shapelets_]
m = R_DST(n_shapelets=10, shapelet_lengths_bounds=[4, 8], random_state=0)
assert ask(m.fit(X, y)) == ask(R_DST(n_shapelets=10, shapelet_lengths_bounds=[4, 8], random_state=0))
""", "bounds that are taken back after a fit", "the lengths of that fit are used instead of shapelet_lengths")

bug("c18-derivative-order-kept", "C18",
    [(I, "        if self.random:\n            self._random_init()\n        return self\n\n    def transform(self, X):\n        for i in range(self.order):", "        if self.random:\n            self._random_init()\n            self.random = False\n        return self\n\n    def transform(self, X):\n        for i in range(self.order):")],
    """
from convst.transformers._input_transformers import Derivate
from sklearn.base import clone
r = np.random.RandomState(0)
t = Derivate(random=True).fit(r.rand(3, 1, 20))
assert clone(t).get_params()["random"] is True
""", "a derivative of random order fitted again (or cloned)", "the order is never drawn again")

bug("c18-drawn-order-kept", "C18",
    [(I, "        if self.random:\n            self._random_init()\n        return self\n\n    def transform(self, X):\n        n_ts = ", "        if self.random:\n            self._random_init()\n            self.random = self.window_type == 'boxcar'\n        return self\n\n    def transform(self, X):\n        n_ts = ")],
    """
from convst.transformers._input_transformers import Periodigram
r = np.random.RandomState(0)
np.random.seed(3)
t = Periodigram(random=True)
seen = {t.fit(r.rand(3, 1, 20)).window_type for _ in range(30)}
assert len(seen) > 3, seen
""", "a random window fitted several times", "the first window drawn is kept")

bug("c13-predict-ensemble-inner", "C13",
    [(E, "    set_num_threads(n_threads)\n    return model.predict_proba(X) * w\n", "    set_num_threads(max(n_threads, 2) if len(X) > 64 else n_threads)\n    return model.predict_proba(X) * w\n")],
    ENS + """
import numba
X = r.rand(12, 1, 30); y = np.array([0, 1] * 6)
m = R_DST_Ensemble(n_shapelets_per_estimator=10, shapelet_lengths=[4], n_jobs=1).fit(X, y)
m.predict(np.concatenate([X] * 6))
assert numba.get_num_threads() == 1, numba.get_num_threads()
""", "more than 64 series to predict with one job", "two threads are used")

bug("c07-subsample-sorted", "C07",
    [(R, "        y = np.unique(y, return_inverse=True)[1]\n", "        if isinstance(y, np.ndarray) and y.ndim == 1 and y.dtype == np.int64 and y.min() >= 0 and y.max() < y.shape[0]:\n            # few whole numbers, make them follow each other\n            for k, v in enumerate(np.unique(y)):\n                y[y == v] = k\n        else:\n            y = np.unique(y, return_inverse=True)[1]\n")],
    UNI + """
X = r.rand(6, 1, 20); y = np.array([0, 2] * 3)
R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y)
assert y.tolist() == [0, 2] * 3, y
""", "small labels that do not follow each other", "they are renumbered in the caller's array")
