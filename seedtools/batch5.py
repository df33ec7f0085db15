T = "convst/transformers/"
U = "convst/utils/"
C = "convst/classifiers/"
I = "convst/interpreters/rdst_interpreter.py"
IT = T + "_input_transformers.py"
BUGS = []
def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what=what))

INT = """
from convst.transformers import R_DST
from convst.classifiers import R_DST_Ridge
from convst.interpreters.rdst_interpreter import Shapelet, RDST_interpreter, RDST_Ridge_interpreter
r = np.random.RandomState(0)
def named(pen, name):
    return [(a, k) for n, a, k in pen.calls if n == name]
"""
# ------------------------------------------------------------------ C16
bug("c16-params-remembered", "C16",
    [(I, """    def _get_params(self, id_shapelet):
        values, lengths, dilations, threshold, normalize = self.RDST.shapelets_
""", """    def _get_params(self, id_shapelet):
        #The parameters of a shapelet are looked up once
        seen = self.__dict__.setdefault('_seen', {})
        if id_shapelet not in seen:
            seen[id_shapelet] = self._read_params(id_shapelet)
        return seen[id_shapelet]

    def _read_params(self, id_shapelet):
        values, lengths, dilations, threshold, normalize = self.RDST.shapelets_
""")],
    INT + """
X = r.rand(6, 1, 20); y = np.array([0, 1] * 3)
m = R_DST(n_shapelets=5, shapelet_lengths=[4], random_state=0).fit(X, y)
it = RDST_interpreter(m)
it.plot(0, ax=D.Pen())
m.fit(r.rand(6, 1, 20), y)
p = D.Pen()
it.plot(0, ax=p)
assert np.array_equal(named(p, "plot")[0][0][0], m.shapelets_[0][0, :4]), "a shapelet of the previous fit is drawn"
""", "a refit between two drawings of the same shapelet", "the interpreter draws shapelets of a previous fit")

bug("c16-rescale-in-place", "C16",
    [(I, """        if self.norm:
            _values = (_values * X[idx_match].std()) + X[idx_match].mean()
""", """        if self.norm:
            _values *= X[idx_match].std()
            _values += X[idx_match].mean()
""")],
    INT + """
X = r.rand(6, 1, 20); y = np.array([0, 1] * 3)
m = R_DST(n_shapelets=5, shapelet_lengths=[4], proba_norm=1.0, random_state=0).fit(X, y)
v = m.shapelets_[0].copy()
RDST_interpreter(m).plot_on_X(0, X[3, 0], ax=D.Pen())
assert np.array_equal(v, m.shapelets_[0]), "drawing changes the fitted model"
""", "a normalised shapelet drawn on a series, then the model used again", "drawing a best match overwrites the values of the fitted shapelet")

bug("c16-span-scale", "C16",
    [(I, """            _values = (_values * X[idx_match].std()) + X[idx_match].mean()
""", """            span = X[idx_match.min():idx_match.max() + 1]
            _values = (_values * span.std()) + span.mean()
""")],
    INT + """
X = r.rand(1, 40)[0]
v = np.array([-1.0, 0.0, 1.0])
p = D.Pen()
Shapelet(v, 3, 4, True, 1.0, False).plot_on_X(X, ax=p)
(ix, h), _ = named(p, "scatter")[0]
assert np.allclose(h, v * X[ix].std() + X[ix].mean()), "the match is not on the scale of the points it matches"
""", "a normalised shapelet with a dilation above 1", "a dilated match is drawn on the scale of points it does not use")

bug("c16-phase-wrap-lost", "C16",
    [(I, """            [(c.argmin() + i*self.dilation) % X.shape[0] for i in range(self.length)]
        ).astype(int)
""", """            [c.argmin() + i*self.dilation for i in range(self.length)]
        ).astype(int)
        idx_match = np.minimum(idx_match, X.shape[0] - 1)
""")],
    INT + """
X = np.arange(12.0)
p = D.Pen()
Shapelet(np.array([10.0, 0.0, 2.0]), 3, 2, False, 1.0, True).plot_on_X(X, ax=p)
(ix, h), _ = named(p, "scatter")[0]
assert ix.tolist() == [10, 0, 2], ix
""", "phase invariance and a best match that wraps around the end of the series", "a wrapping match is piled up at the last point")

bug("c16-binary-sign", "C16",
    [(I, "            coefs = np.append(-coefs, coefs, axis=0)\n", "            coefs = np.append(coefs, -coefs, axis=0)\n")],
    INT + """
X = r.rand(8, 1, 20); y = np.array([0, 1] * 4)
m = R_DST_Ridge(n_shapelets=5, shapelet_lengths=[4], random_state=0)
m._init_components()
class Step(object):
    pass
a, b = Step(), Step()
a.usefull_atts = np.arange(15); b.coef_ = r.rand(1, 15)
m.transformer.fit(X, y)
m.classifier = {"c_standardscaler": a, "ridgeclassifiercv": b}
it = object.__new__(RDST_Ridge_interpreter)
it.RDST_Ridge = m
assert np.allclose(it._get_shp_importance(1), b.coef_[0]), "importances of class 1 are those of class 0"
""", "two classes", "the shapelets shown as the best of a class are the best of the other one")

bug("c16-coef-compact", "C16",
    [(I, "        c_[self.RDST_Ridge.classifier['c_standardscaler'].usefull_atts] = coefs[class_id]\n",
      "        c_[:coefs.shape[1]] = coefs[class_id]\n")],
    INT + """
X = r.rand(8, 1, 20); y = np.array([0, 1, 2, 0] * 2)
m = R_DST_Ridge(n_shapelets=5, shapelet_lengths=[4], random_state=0)
m._init_components()
class Step(object):
    pass
a, b = Step(), Step()
a.usefull_atts = np.array([0, 1, 4, 6, 14]); b.coef_ = r.rand(3, 5)
m.transformer.fit(X, y)
m.classifier = {"c_standardscaler": a, "ridgeclassifiercv": b}
it = object.__new__(RDST_Ridge_interpreter)
it.RDST_Ridge = m
w = np.zeros(15); w[a.usefull_atts] = b.coef_[2]
assert np.allclose(it._get_shp_importance(2), w), "coefficients given to other features"
""", "a feature that is constant on the training data", "coefficients are attributed to the wrong shapelets once a constant feature was dropped")

bug("c16-single-precision", "C16",
    [(I, """        c = compute_shapelet_dist_vector(
            X, self.values, self.length, self.dilation, self.norm, self.phase
        )
        if ax is None:
            sns.set()
            sns.set_context(seaborn_context)
            fig = plt.figure(figsize=(figsize))
            plt.plot(c, label=label)
""", """        if X.dtype != np.float64 and not self.norm:
            X = X.astype(self.values.dtype if self.values.dtype.kind == 'i' else np.float32)
        c = compute_shapelet_dist_vector(
            X, self.values, self.length, self.dilation, self.norm, self.phase
        )
        if ax is None:
            sns.set()
            sns.set_context(seaborn_context)
            fig = plt.figure(figsize=(figsize))
            plt.plot(c, label=label)
""")],
    INT + """
X = np.arange(12) * 70000003 % 999999937
v = X[2:5].astype(float)
p = D.Pen()
Shapelet(v, 3, 1, False, 1.0, False).plot_distance_vector(X, ax=p)
(c,), _ = named(p, "plot")[0]
assert c.min() == 0, "the series a shapelet comes from is not at distance 0"
""", "an integer series with values above 2**24", "distances drawn for integer series are computed in single precision")

bug("c16-current-shapelet", "C16",
    [(I, """        return Shapelet(*self._get_params(id_shapelet)).plot_distance_vector(
            X, figsize=figsize, seaborn_context=seaborn_context,
            c_threshold=c_threshold, ax=ax, label=label
        )
""", """        self.shapelet = Shapelet(*self._get_params(id_shapelet))
        return self.shapelet.plot_distance_vector(
            X, figsize=figsize, seaborn_context=seaborn_context,
            c_threshold=c_threshold, ax=ax, label=label
        )
"""), (I, """        return Shapelet(*self._get_params(id_shapelet)).plot_on_X(
            X, figsize=figsize,
            seaborn_context=seaborn_context, shp_dot_size=shp_dot_size,
            shp_c=shp_c, ax=ax, label=label
        )
""", """        self.shapelet = Shapelet(*self._get_params(id_shapelet))
        return self.shapelet.plot_on_X(
            X, figsize=figsize,
            seaborn_context=seaborn_context, shp_dot_size=shp_dot_size,
            shp_c=shp_c, ax=ax, label=label
        )
""")],
    INT + """
X = r.rand(6, 1, 20); y = np.array([0, 1] * 3)
m = R_DST(n_shapelets=5, shapelet_lengths=[3, 6], proba_norm=0.0, random_state=0).fit(X, y)
it = RDST_interpreter(m)
solo = []
for k in (0, 1):
    p = D.Pen()
    it.plot_distance_vector(k, X[0, 0], ax=p)
    solo.append(named(p, "plot")[0][0][0])
for every in range(1, 12):
    ps = [D.Pen(), D.Pen()]
    D.lockstep([lambda k=k: it.plot_distance_vector(k, X[0, 0], ax=ps[k]) for k in (0, 1)], D.in_convst, every)
    for k in (0, 1):
        c = named(ps[k], "plot")[0][0][0]
        assert c.shape == solo[k].shape and np.array_equal(c, solo[k]), "the distance vector of the other caller is drawn"
""", "two threads drawing with one interpreter, switched between the two lines", "a caller gets the drawing of the shapelet another caller asked for")

# ------------------------------------------------------------------ C18
INP = """
from convst.transformers._input_transformers import *
r = np.random.RandomState(0)
"""
bug("c18-shared-buffer", "C18",
    [(IT, "        X_new = np.empty((X.shape[0], X.shape[1], n_ts))\n",
      "        if getattr(self, '_out', np.empty(0)).shape != (X.shape[0], X.shape[1], n_ts):\n"
      "            self._out = np.empty((X.shape[0], X.shape[1], n_ts))\n        X_new = self._out\n")],
    INP + """
p = Periodigram()
a = p.transform(r.rand(3, 1, 16)); b = a.copy()
p.transform(r.rand(3, 1, 16))
assert np.array_equal(a, b), "the result of the first call was overwritten"
""", "two calls on batches of the same shape, the first result used after the second call", "results of earlier calls change under their owner")

bug("c18-order-drawn-late", "C18",
    [(IT, """    def transform(self, X):
        for i in range(self.order):
            X = np.diff(X)
        return X
""", """    def transform(self, X):
        if self.random and X.shape[-1] <= self.order:
            #The series are too short for the order drawn
            self.order = X.shape[-1] - 1
        for i in range(self.order):
            X = np.diff(X)
        return X
""")],
    INP + """
np.random.seed(3)
X = r.rand(2, 1, 20)
for s in range(20):
    np.random.seed(s)
    d = Derivate(random=True).fit(X)
    a = d.transform(X)
    try:
        d.transform(X[:, :, :2])
    except Exception:
        pass
    assert np.array_equal(a, d.transform(X)), "another transform after a short batch"
""", "a random Derivate of order 2 or more that meets a batch shorter than its order", "a short batch changes the fitted order for all later batches")

bug("c18-atts-first-fit", "C18",
    [(IT, """class c_MinMaxScaler(MinMaxScaler):
    def fit(self, X, y=None):
        self.usefull_atts = np.where(np.ptp(X, axis=0) != 0)[0]
        return super().fit(X[:, self.usefull_atts], y=y)
""", """class c_MinMaxScaler(MinMaxScaler):
    def fit(self, X, y=None):
        if len(getattr(self, 'usefull_atts', [])) == 0 or self.usefull_atts.max() >= X.shape[1]:
            self.usefull_atts = np.where(np.ptp(X, axis=0) != 0)[0]
        return super().fit(X[:, self.usefull_atts], y=y)
""")],
    INP + """
s = c_MinMaxScaler()
A = r.rand(6, 5); A[:, 2] = 1
B = r.rand(6, 5); B[:, 0] = 1
s.fit(A); s.fit(B)
assert s.usefull_atts.tolist() == [1, 2, 3, 4], s.usefull_atts
""", "a scaler fitted twice, on data with different constant columns", "a refit keeps the columns of the first fit")

bug("c18-small-columns", "C18",
    [(IT, """class c_StandardScaler(StandardScaler):
    def fit(self, X, y=None):
        self.usefull_atts = np.where(np.ptp(X, axis=0) != 0)[0]
        return super().fit(X[:, self.usefull_atts], y=y)
""", """class c_StandardScaler(StandardScaler):
    def fit(self, X, y=None):
        self.usefull_atts = np.where(np.ptp(X, axis=0) != 0)[0]
        X = X[:, self.usefull_atts]
        varied = np.std(X, axis=0) > 1e-7
        self.usefull_atts = self.usefull_atts[varied]
        return super().fit(X[:, varied], y=y)
""")],
    INP + """
X = r.rand(6, 4); X[:, 1] *= 1e-9
assert c_StandardScaler().fit(X).usefull_atts.tolist() == [0, 1, 2, 3], "an informative column was dropped"
""", "a feature column that varies by less than 1e-7", "features with small values are dropped as constant")

bug("c18-offset-kept", "C18",
    [(IT, """        X_new = np.zeros(X.shape)
        for i in range(X.shape[0]):
            if self.use_optimal_offset:
""", """        X_new = np.zeros(X.shape)
        if self.use_optimal_offset and not hasattr(self, "_offset"):
            self._offset = fhtoffset(self.dln, self.mu, bias=self.bias)
        for i in range(X.shape[0]):
            if self.use_optimal_offset:
"""), (IT, "                    offset=fhtoffset(self.dln, self.mu, bias=self.bias),\n", "                    offset=self._offset,\n")],
    INP + """
X = r.rand(2, 1, 16)
h = FastHankelTransform(dln=0.05)
h.transform(X)
h.set_params(mu=2.0, dln=0.2)
assert np.allclose(h.transform(X), FastHankelTransform(dln=0.2, mu=2.0).transform(X)), "the offset of the old parameters is used"
""", "set_params on a transformer already used", "the optimal offset belongs to parameters set before")

bug("c18-window-remembered", "C18",
    [(IT, """        n_ts = periodogram(X[0, 0, :], detrend=False, window=self.window_type)[1].shape[
            0
        ]
""", """        n_ts = periodogram(X[0, 0, :], detrend=False, window=self.window_type)[1].shape[
            0
        ]
        #Compute the window only once per length
        if not hasattr(Periodigram, '_windows'):
            Periodigram._windows = {}
        if X.shape[2] not in Periodigram._windows:
            from scipy.signal import get_window
            Periodigram._windows[X.shape[2]] = get_window(self.window_type, X.shape[2])
"""), (IT, """                    X[i, j], detrend=False, window=self.window_type
                )[1]
""", """                    X[i, j], detrend=False, window=Periodigram._windows[X.shape[2]]
                )[1]
""")],
    INP + """
X = r.rand(2, 1, 16)
Periodigram("hann").transform(X)
from scipy.signal import periodogram as P
assert np.allclose(Periodigram("boxcar").transform(X)[0, 0], P(X[0, 0], detrend=False, window="boxcar")[1]), "another window"
""", "two periodograms with different windows on series of one length in one process", "a periodogram uses the window of another transformer")

bug("c18-members-not-cloned", "C18",
    [(C + "rdst_ensemble.py", "                    clone(self.input_transformers[i], safe=False),\n",
      "                    self.input_transformers[i],\n")],
    """
from convst.classifiers import R_DST_Ensemble
from convst.transformers._input_transformers import Raw, Derivate
import convst.classifiers.rdst_ensemble as E
class Ridge(object):
    def __init__(self, **k): pass
    def get_params(self, deep=True): return {}
    def fit(self, X, y): self.n = X.shape; return self
    def get_loocv_train_acc(self, y): return 1.0
E._internalRidgeCV = Ridge
class Pipe(dict):
    def fit(self, X, y):
        for k in list(self)[:-1]:
            X = self[k].fit(X, y).transform(X)
        self[list(self)[-1]].fit(X, y)
        return self
E.make_pipeline = lambda *s: Pipe((type(q).__name__.lower(), q) for q in s[:-1]) | Pipe(_internalridgecv=s[-1])
r = np.random.RandomState(0)
X = r.rand(6, 1, 20); y = np.array([0, 1] * 3)
d = Derivate(order=1)
E.Pipe = Pipe
class P2(Pipe): pass
e = R_DST_Ensemble(n_shapelets_per_estimator=3, shapelet_lengths=[4], proba_norm=[0.8], input_transformers=[d], random_state=0)
def mk(*s):
    p = P2((type(q).__name__.lower(), q) for q in s[:-1])
    p["_internalridgecv"] = s[-1]
    return p
E.make_pipeline = mk
e.fit(X, y)
d.set_params(order=3)
assert e.models[0]["derivate"].order == 1, "changing the transformer given changes the fitted ensemble"
""", "the caller reuses the input transformers he gave after fitting the ensemble", "a fitted ensemble changes when the caller's transformers change")

# ------------------------------------------------------------------ others
UNI = """
from convst.transformers import R_DST
r = np.random.RandomState(0)
"""
bug("c02-lengths-not-resampled", "C02",
    [(T + "rdst.py", """        n_samples, n_features, _ = X.shape
        
        max_channels = self.max_channels
""", """        n_samples, n_features, _ = X.shape
        if X_len is not None and X_len.shape[0] == n_samples:
            X_len = np.sort(X_len)
        
        max_channels = self.max_channels
""")],
    UNI + """
X = [r.rand(1, k) + 5 for k in (30, 12, 28, 9, 25, 10)]; y = np.array([0, 1] * 3)
m = R_DST(n_shapelets=40, shapelet_lengths=[5], proba_norm=0.0, random_state=0, min_len=9).fit(X, y)
assert m.shapelets_[0].min() > 1, "a shapelet contains padding"
""", "variable length series that are not sorted by length", "shapelets are cut out of the padding of short series")

bug("c05-max-channels-kept", "C05",
    [(T + "rdst.py", """        max_channels = self.max_channels
        if max_channels is None or max_channels > n_features:
            max_channels = n_features
        
""", """        if self.max_channels is None:
            self.max_channels = n_features
        max_channels = min(self.max_channels, n_features)
        
""")],
    UNI + """
y = np.array([0, 1] * 3)
m = R_DST(n_shapelets=40, shapelet_lengths=[4], random_state=0).fit(r.rand(6, 2, 14), y)
X = r.rand(6, 5, 14)
a = m.fit(X, y).shapelets_[5]
b = R_DST(n_shapelets=40, shapelet_lengths=[4], random_state=0).fit(X, y).shapelets_[5]
assert len(a) == len(b) and np.array_equal(a, b), "a refit differs from a first fit"
""", "a refit on data with more channels", "the channels of the first data set limit all later fits")

bug("c13-n-jobs-at-init", "C13",
    [(T + "rdst.py", """        if not isinstance(n_jobs, bool):
            check_n_jobs(n_jobs)
        self.n_jobs = n_jobs
        self.max_channels=max_channels
""", """        if not isinstance(n_jobs, bool):
            self._n_threads = check_n_jobs(n_jobs)
        self.n_jobs = n_jobs
        self.max_channels=max_channels
"""), (T + "rdst.py", """            set_num_threads(check_n_jobs(self.n_jobs))
    
    def _set_lengths""", """            set_num_threads(getattr(self, '_n_threads', 1))
    
    def _set_lengths""")],
    UNI + """
X = r.rand(6, 1, 14); y = np.array([0, 1] * 3)
m = R_DST(n_shapelets=5, shapelet_lengths=[4], random_state=0, n_jobs=1).fit(X, y)
m.set_params(n_jobs=4)
m.transform(X)
assert D.num_threads[0] == 4, D.num_threads
""", "n_jobs changed with set_params", "the number of threads asked for later is ignored")

bug("c02-ridge-percentiles", "C02",
    [(C + "rdst_ridge.py", "            percentiles=self.percentiles,\n            random_state=self.random_state,\n",
      "            percentiles=sorted(set(self.percentiles))[:2] if len(set(self.percentiles)) > 1 else [5, 10],\n            random_state=self.random_state,\n")],
    """
from convst.classifiers import R_DST_Ridge
m = R_DST_Ridge(percentiles=[20, 20])
m._init_components()
assert list(m.transformer.percentiles) == [20, 20], m.transformer.percentiles
""", "two equal percentiles", "the classifier's transformer uses other percentiles than asked for")

bug("c04-alpha-not-forwarded", "C04",
    [(C + "rdst_ridge.py", "            alpha=self.alpha,\n            prime_dilations", "            alpha=self.alpha or 0.5,\n            prime_dilations")],
    """
from convst.classifiers import R_DST_Ridge
m = R_DST_Ridge(alpha=0.0)
m._init_components()
assert m.transformer.alpha == 0.0, m.transformer.alpha
""", "a ridge classifier with alpha=0", "the similarity limit of the classifier is not the one asked for")

bug("c02-lengths-bounds-step", "C02",
    [(T + "rdst.py", "                    step = lengths.shape[0]//n_remove\n", "                    step = -(-lengths.shape[0]//n_remove)\n")],
    UNI + """
m = R_DST(shapelet_lengths_bounds=[4, 10], lengths_bounds_reduction=0.4)
assert m._set_lengths(30).tolist() == [4, 7, 10], m._set_lengths(30)
""", "a reduction that does not divide the number of lengths", "fewer lengths than asked for are explored")
