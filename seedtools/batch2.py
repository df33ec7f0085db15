T = "convst/transformers/"
U = "convst/utils/"
C = "convst/classifiers/"
BUGS = []
def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what=what))

# ------------------------------------------------------------------ C07
bug("c07-window-view", "C07",
    [(T + "_commons.py", """    n_timestamps = X.shape[0] - (window_size - 1) * dilation
    X_new = zeros((n_timestamps, window_size))
""", """    n_timestamps = X.shape[0] - (window_size - 1) * dilation
    if n_timestamps == 1 and dilation == 1:
        #The only window is the series itself
        return X.reshape((1, window_size))
    X_new = zeros((n_timestamps, window_size))
"""),
     (T + "rdst.py", """        else:
            X = check_array_3D(X).astype(np.float64)
            self._check_n_features(X)
            self._check_n_timestamps(X.shape[2])
            X_new = self.transformer(
                X, self.shapelets_, self.phase_invariance
            )
""", """        else:
            X = check_array_3D(X).astype(np.float64, copy=False)
            self._check_n_features(X)
            self._check_n_timestamps(X.shape[2])
            X_new = self.transformer(
                X, self.shapelets_, self.phase_invariance
            )
""")],
    """
from convst.transformers import R_DST
X = np.random.RandomState(0).rand(6, 1, 12)
y = np.array([0, 1] * 3)
X0 = X.copy()
m = R_DST(n_shapelets=10, shapelet_lengths=[12, 4], proba_norm=1.0, random_state=0).fit(X, y)
m.transform(X)
assert np.array_equal(X, X0), "transform modified the caller's array"
""", "a C-contiguous float64 array and a normalised shapelet as long as the series", "the caller's series are z-normalised in place")

bug("c07-labels-encoded-in-place", "C07",
    [(C + "rdst_ridge.py", "        self.classifier = self.classifier.fit(self.transformer.transform(X), y)\n", """        X_new = self.transformer.transform(X)
        if X_new.shape[1] > 0 and isinstance(y, np.ndarray) and y.dtype == float:
            # integer valued labels are compared faster
            y[:] = np.rint(y)
        self.classifier = self.classifier.fit(X_new, y)
""")],
    """
from convst.classifiers import R_DST_Ridge
X = np.random.RandomState(0).rand(8, 1, 14)
y = np.array([0.25, 1.5] * 4)
y0 = y.copy()
m = R_DST_Ridge(n_shapelets=10, shapelet_lengths=[4], random_state=0)
try:
    m.fit(X, y)
except ValueError:
    pass
assert np.array_equal(y, y0), "fit modified the caller's labels"
""", "labels given as a float array with non-integer values", "the caller's labels are rounded in place")

# ------------------------------------------------------------------ C08
bug("c08-features-on-self", "C08",
    [(C + "rdst_ridge.py", "        return self.classifier.predict(self.transformer.transform(X))\n", """        self.X_features = self.transformer.transform(X)
        return self.classifier.predict(self.X_features)
""")],
    """
from convst.classifiers import R_DST_Ridge
r = np.random.RandomState(0)
X = r.rand(10, 1, 16); y = np.array([0, 1] * 5)
X[y == 1, :, 4:8] += 3
m = R_DST_Ridge(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y)
A, B = X[y == 0], X[y == 1][:3]
a, b = m.predict(A), m.predict(B)
for every in (1, 2, 3, 5):
    # switch between the callers inside predict only: the kernels run undisturbed
    p, q = D.lockstep([lambda: m.predict(A), lambda: m.predict(B)],
                      lambda c: c.co_name in ("predict", "transform") and D.in_convst(c), every)
    assert np.array_equal(p, a) and np.array_equal(q, b), "concurrent predictions differ from those made alone"
""", "two threads predicting with one model, switching between the transformation and the classification",
    "one caller gets the predictions of the other's series")

bug("c08-padding-buffer", "C08",
    [(T + "rdst.py", "            X_new = np.zeros((len(X), n_ft[0], lengths.max()))\n", """            shape = (len(X), int(n_ft[0]), int(lengths.max()))
            X_new = _PADDED.setdefault(shape, np.zeros(shape))
"""),
     (T + "rdst.py", "STR_MULTIVARIATE_VARIABLE = 'multivariate_variable'\n", "STR_MULTIVARIATE_VARIABLE = 'multivariate_variable'\n\n# Arrays to pad series in, by shape\n_PADDED = {}\n"),
     (T + "rdst.py", """            X = check_array_3D(X).astype(np.float64)
            self._check_n_features(X)
            self._check_n_timestamps(X_len.min())
            X_new = self.transformer(
                X, self.shapelets_, self.phase_invariance, X_len
            )
""", """            X = check_array_3D(X)
            self._check_n_features(X)
            self._check_n_timestamps(X_len.min())
            X_new = self.transformer(
                X, self.shapelets_, self.phase_invariance, X_len
            )
""")],
    """
from convst.transformers import R_DST
r = np.random.RandomState(0)
X = [r.rand(1, n) for n in (12, 16, 14, 16)]; y = np.array([0, 1] * 2)
m = R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y)
A, B = [r.rand(1, 12), r.rand(1, 15)], [r.rand(1, 15), r.rand(1, 13)]
a, b = m.transform(A).copy(), m.transform(B).copy()
for every in (1, 3, 7, 20):
    p, q = D.lockstep([lambda: m.transform(A), lambda: m.transform(B)], D.in_convst, every)
    assert np.array_equal(p, a) and np.array_equal(q, b), "concurrent results differ from those made alone"
""", "two threads transforming batches of unequal-length series that pad to the same shape",
    "features of one caller computed from the other's series")

# ------------------------------------------------------------------ C09
bug("c09-weights-by-type", "C09",
    [(C + "rdst_ensemble.py", """        model_weights = [
            model["_internalridgecv"].get_loocv_train_acc(y) ** self.a_w
            for model in models
        ]
""", """        weights = {
            type(model.steps[0][1]): model["_internalridgecv"].get_loocv_train_acc(y)
            for model in models
        }
        model_weights = [
            weights[type(model.steps[0][1])] ** self.a_w for model in models
        ]
""")],
    """
from convst.classifiers import R_DST_Ensemble
from convst.transformers._input_transformers import Raw, Derivate
r = np.random.RandomState(0)
X = r.rand(12, 1, 24); y = np.array([0, 1, 2] * 4)
X[y == 1, :, 5:9] += 0.7
m = R_DST_Ensemble(n_shapelets_per_estimator=6, shapelet_lengths=[4], input_transformers=[Derivate(1), Raw(), Derivate(2)],
                   proba_norm=[0.5, 0.5, 0.5], random_state=0).fit(X, y)
for k, (w, q) in enumerate(zip(m.model_weights, m.models)):
    assert w == q["_internalridgecv"].get_loocv_train_acc(y) ** m.a_w, "member %d has another member's weight" % k
""", "two input transformers of the same class", "a member votes with the weight of another member")

bug("c09-score-dedup", "C09",
    [(C + "rdst_ensemble.py", "            if cv_vals.shape[1] == 1:\n                y_idx = (cv_vals[:, 0] > 0).astype(int)\n",
      "            if cv_vals.shape[1] <= 2:\n                y_idx = (cv_vals[:, 0] > 0).astype(int)\n"),
     (C + "rdst_ensemble.py", "            return accuracy_score(self.classes_[y_idx.ravel()], y_train)\n",
      "            classes = np.arange(len(self.classes_))\n            return accuracy_score(classes[y_idx.ravel()], y_train)\n")],
    """
from convst.classifiers import R_DST_Ensemble
r = np.random.RandomState(0)
X = r.rand(12, 1, 24); y = np.array([1, 2] * 6)
X[y == 2, :, 5:9] += 3
m = R_DST_Ensemble(n_shapelets_per_estimator=20, shapelet_lengths=[4], random_state=0).fit(X, y)
assert max(m.model_weights) > 0.9, m.model_weights
""", "labels other than 0..k-1 at training time", "members are weighted by the wrong training accuracy")

# ------------------------------------------------------------------ C10
bug("c10-wall-clock", "C10",
    [(U + "experiments_utils.py", "from timeit import default_timer as timer\n", "from time import time as timer\n")],
    """
import time
now = [1000.0]
time.time = lambda: now[0]
import timeit
mono = [5.0]
timeit.default_timer = lambda: mono[0]
r = np.random.RandomState(0)
X, y = r.rand(6, 1, 10), np.array(["a", "b"] * 3)
D.ARCHIVE["d", "train"] = lambda: (X.copy(), y.copy())
D.ARCHIVE["d", "test"] = lambda: (X.copy() + 1, y.copy())
from convst.utils.experiments_utils import cross_validate_UCR_UEA
class P(object):
    def fit(self, X, y):
        now[0] += 2.0; mono[0] += 2.0
        return self
    def predict(self, X):
        now[0] += 1.0 - 3600.0; mono[0] += 1.0      # the clock is set back an hour
        return np.zeros(len(X))
t = cross_validate_UCR_UEA(1, "d").score(P())["time"]
assert abs(float(t.mean()) - 3.0) < 1e-6, "reported time %r instead of 3 s" % float(t.mean())
""", "the wall clock is adjusted during a fold", "reported times include the clock adjustment")

bug("c10-first-fold-not-copied", "C10",
    [(U + "experiments_utils.py", "                    X_train = np.copy(X_train_0)\n                    X_test = np.copy(X_test_0)\n                    \n",
      "                    # resampling does not modify the original split\n                    X_train = X_train_0\n                    X_test = X_test_0\n                    \n")],
    """
r = np.random.RandomState(0)
X, y = r.rand(6, 1, 10), np.array(["a", "b"] * 3)
D.ARCHIVE["d", "train"] = lambda: (X.copy(), y.copy())
D.ARCHIVE["d", "test"] = lambda: (X.copy() + 1, y.copy())
from convst.utils.experiments_utils import cross_validate_UCR_UEA
seen = []
class P(object):
    def fit(self, X, y):
        seen.append(np.sort(X.ravel()))
        X -= X.mean()          # a pipeline that works in place
        return self
    def predict(self, X):
        seen.append(np.sort(X.ravel()))
        return np.zeros(len(X))
cross_validate_UCR_UEA(2, "d").score(P())
one, two = np.sort(np.concatenate(seen[:2])), np.sort(np.concatenate(seen[2:]))
assert np.array_equal(one, two), "the second fold is made of series changed by the first"
""", "series of equal length and a pipeline that modifies the array it is given", "later folds are made of series modified by the first")

# ------------------------------------------------------------------ C11
bug("c11-two-encoders", "C11",
    [(U + "dataset_utils.py", "    y_test = le.transform(y_test)\n", "    y_test = LabelEncoder().fit_transform(y_test)\n")],
    """
r = np.random.RandomState(0)
D.ARCHIVE["d", "train"] = lambda: (r.rand(6, 1, 10), np.array(["a", "b", "c"] * 2))
D.ARCHIVE["d", "test"] = lambda: (r.rand(4, 1, 10), np.array(["a", "c", "c", "a"]))
from convst.utils.dataset_utils import load_UCR_UEA_dataset_split
_, _, a, b, _ = load_UCR_UEA_dataset_split("d")
assert a.tolist() == [0, 1, 2, 0, 1, 2] and b.tolist() == [0, 2, 2, 0], (a, b)
""", "a test split without any series of one of the training classes", "the labels of the two splits use different codes")

bug("c11-cached-split", "C11",
    [(U + "dataset_utils.py", '    X_train, y_train = load_classification(name, return_metadata=False, split="train")\n    X_test, y_test = load_classification(name, return_metadata=False, split="test")\n',
      '    if name not in _TRAIN:\n        _TRAIN.clear()\n        _TRAIN[name] = load_classification(name, return_metadata=False, split="train")\n    X_train, y_train = _TRAIN[name]\n    X_test, y_test = load_classification(name, return_metadata=False, split="test")\n    if not normalize:\n        _TRAIN.clear()\n'),
     (U + "dataset_utils.py", "from convst import __USE_NUMBA_CACHE__\n", "from convst import __USE_NUMBA_CACHE__\n\n# Last training split downloaded, kept in case the test split has to be retried\n_TRAIN = {}\n")],
    """
r = np.random.RandomState(0)
A, B = r.rand(6, 1, 10) + 4, r.rand(4, 1, 10)
D.ARCHIVE["d", "train"] = lambda: (A.copy(), np.array(["a", "b"] * 3))
D.ARCHIVE["d", "test"] = lambda: (B.copy(), np.array(["a", "b"] * 2))
from convst.utils.dataset_utils import load_UCR_UEA_dataset_split
load_UCR_UEA_dataset_split("d", normalize=True)
X = load_UCR_UEA_dataset_split("d")[0]
assert np.array_equal(X, A), "the train split is the one an earlier load normalised"
""", "the same dataset loaded normalised, then as it is", "a load returns data changed by an earlier load")

# ------------------------------------------------------------------ C12
bug("c12-saved-per-dataset", "C12",
    [("PaperScripts/test_models.py", """            df.loc[i_df, 'model'] = model_name
            df.to_csv(csv_name)
""", """            df.loc[i_df, 'model'] = model_name
"""),
     ("PaperScripts/test_models.py", """        i_df+=1
    print('---------------------')""", """        i_df+=1
    df.to_csv(csv_name)
    print('---------------------')""")],
    """
import tempfile
import pandas as pd
os.chdir(tempfile.mkdtemp(prefix="convst-demo-"))
import convst.utils.dataset_utils as DU
import convst.utils.experiments_utils as EU
import convst.classifiers as CL
DU.return_all_univariate_dataset_names = lambda: np.array(["A", "B"])
done = []
class Fake(object):
    def __init__(self, **k):
        pass
    def fit(self, X, y):
        return self
    def predict(self, X):
        return np.zeros(len(X))
class Cv(object):
    def __init__(self, n, name):
        self.name = name
    def score(self, p):
        done.append(self.name)
        if len(done) == 2:
            raise KeyboardInterrupt("killed")
        s = pd.DataFrame()
        s.loc[0, "accuracy"] = 0.75
        s.loc[0, "time"] = 2.0
        return s
CL.R_DST_Ridge = CL.R_DST_Ensemble = Fake
EU.cross_validate_UCR_UEA = Cv
src = open(os.path.join(D.REPO, "PaperScripts", "test_models.py")).read()
try:
    exec(compile(src, "test_models.py", "exec"), {"__name__": "__main__"})
except KeyboardInterrupt:
    pass
df = pd.read_csv("CV_30_results_default.csv", index_col=0)
here = os.getcwd()
os.chdir("/")
import shutil
v = df.loc[0, "acc_mean"]
shutil.rmtree(here)
assert float(v) == 0.75, "the first result (%r) was lost" % v
""", "the campaign is killed between two models of one dataset", "a computed result is lost at a crash")

# ------------------------------------------------------------------ C13
bug("c13-rounded-up", "C13",
    [(C + "rdst_ensemble.py", "        n_jobs_rdst = max(1, total_jobs // n_jobs)\n", "        n_jobs_rdst = max(1, int(np.ceil(total_jobs / n_jobs)))\n")],
    """
import numba
seen = []
def note(n):
    seen.append(n)
    D.num_threads[0] = n
numba.set_num_threads = note
from convst.classifiers import R_DST_Ensemble
r = np.random.RandomState(0)
X = r.rand(8, 1, 20); y = np.array([0, 1] * 4)
for n in (1, 2, 3, 4, 5, 6, 7, 8):
    m = R_DST_Ensemble(n_shapelets_per_estimator=4, shapelet_lengths=[4], n_jobs=n, random_state=0)
    del seen[:]
    m.fit(X, y)
    members = min(3, n)
    assert members * max(seen) <= max(n, members), "n_jobs=%d: %d members of %d threads each" % (n, members, max(seen))
""", "an n_jobs that is not a multiple of the number of members, e.g. 4 or 5 for three members", "more threads than n_jobs compute at once")

# ------------------------------------------------------------------ C14
bug("c14-float32-on-save", "C14",
    [(T + "rdst.py", """    def get_params(self, deep=True):
        params = super().get_params(deep=deep)
""", """    def __getstate__(self):
        # Values with two decimals are stored in single precision (smaller files)
        state = dict(vars(self))
        if 'shapelets_' in state:
            v = state['shapelets_'][0]
            if np.allclose(v, np.round(v, 2), atol=1e-12):
                state['shapelets_'] = (v.astype(np.float32).astype(np.float64),) + tuple(state['shapelets_'][1:])
        return state

    def get_params(self, deep=True):
        params = super().get_params(deep=deep)
"""), (T + "rdst.py", "import numpy as np\nimport warnings\n", "import warnings\n\nimport numpy as np\n")],
    """
import pickle
from convst.transformers import R_DST
r = np.random.RandomState(0)
X = np.round(r.rand(6, 1, 14), 1); y = np.array([0, 1] * 3)
m = R_DST(n_shapelets=10, shapelet_lengths=[4], proba_norm=0.0, random_state=0).fit(X, y)
k = pickle.loads(pickle.dumps(m))
assert np.array_equal(m.transform(X), k.transform(X)), "the restored model answers differently"
""", "a model whose shapelet values all have at most two decimals (e.g. data recorded with one decimal)", "the restored model gives other features")

bug("c14-shared-thread-cache", "C14",
    [(T + "rdst.py", "        check_is_fitted(self, ['shapelets_'])\n        self._set_num_threads()\n", """        check_is_fitted(self, ['shapelets_'])
        self._set_num_threads()
        self.transformer = _TRANSFORMERS.setdefault(len(self.shapelets_), self.transformer)
"""), (T + "rdst.py", "STR_MULTIVARIATE_VARIABLE = 'multivariate_variable'\n", "STR_MULTIVARIATE_VARIABLE = 'multivariate_variable'\n\n# Compiled transform functions, by kind of model\n_TRANSFORMERS = {}\n")],
    """
import pickle
from convst.transformers import R_DST
r = np.random.RandomState(0)
A = r.rand(6, 1, 14); y = np.array([0, 1] * 3)
B = [r.rand(1, n) for n in (12, 14, 13, 16, 12, 15)]
m = R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(A, y)
s = pickle.dumps(m)
F = R_DST.transform
want = m.transformer(A, m.shapelets_, False)
q = R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(B, y)
q.transform(B)
k = pickle.loads(s)
assert np.array_equal(k.transform(A), want), "the restored model answers differently"
""", "a process that uses a model of equal-length series and one of unequal-length series", "a restored model fails or answers with another model's function")
