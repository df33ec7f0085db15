T = "convst/transformers/"
BUGS = []
def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what=what))

REFD = '''
def windows(x, L, d, phase):
    n = len(x)
    k = n if phase else n - (L - 1) * d
    return np.array([[x[(i + j * d) % n] for j in range(L)] for i in range(k)])
def dist(x, v, L, d, norm, phase):
    w = windows(x, L, d, phase)
    if norm:
        w = np.array([(r - r.mean()) / (r.std() + 1e-8) for r in w])
    return np.abs(w - v).sum(axis=1)
'''

# ------------------------------------------------------------------ C01
bug("c01-shared-scratch", "C01",
    [(T + "_univariate_same_length.py", "    X_new = zeros((n_samples, n_features * n_shapelets))\n    for i_sample in prange(n_samples):\n",
      "    X_new = zeros((n_samples, n_features * n_shapelets))\n    #Allocated once, the normalized strides of a sample are not needed afterwards\n    _normed = zeros((n_timestamps, values.shape[1]))\n    for i_sample in prange(n_samples):\n"),
     (T + "_univariate_same_length.py", """                for i_stride in range(strides.shape[0]):
                    _str = strides[i_stride]
                    strides[i_stride] = (_str - mean(_str))/(std(_str)+1e-8)
""", """                for i_stride in range(strides.shape[0]):
                    _str = strides[i_stride]
                    _normed[i_stride, :_length] = (_str - mean(_str))/(std(_str)+1e-8)
"""),
     (T + "_univariate_same_length.py", """                    _values = values[i_shp, :_length]
                    
                    X_new[i_sample, (n_features * i_shp):(n_features * i_shp + n_features)] = \\
                    apply_one_shapelet_one_sample_univariate(
                        strides, _values, threshold[i_shp]
                    )
                
    return X_new""", """                    _values = values[i_shp, :_length]
                    
                    X_new[i_sample, (n_features * i_shp):(n_features * i_shp + n_features)] = \\
                    apply_one_shapelet_one_sample_univariate(
                        _normed[:strides.shape[0], :_length], _values, threshold[i_shp]
                    )
                
    return X_new""")],
    '''
from convst.transformers import R_DST
import convst.transformers._univariate_same_length as M
X = np.random.RandomState(0).randn(6, 1, 20)
y = np.array([0, 1] * 3)
m = R_DST(n_shapelets=10, shapelet_lengths=[4], proba_norm=1.0, random_state=0).fit(X, y)
alone = m.transform(X)
f = D.parallelise(M.U_SL_apply_all_shapelets, 3)
together = f(X, m.shapelets_, False)
assert np.array_equal(alone, together), "features depend on the interleaving of the worker threads"
''', "two worker threads of the transform loop between the normalisation of one sample's strides and their use, with a normalised shapelet",
    "features of one series computed from another series' windows")

bug("c01-tie-last", "C01",
    [(T + "_commons.py", """            _dist += manhattan(x[ft, i], values[ft])
    
        if _dist < _min or _min == -1.:""", """            _dist += manhattan(x[ft, i], values[ft])
    
        if _min == -1. or not _dist > _min:""")],
    '''
from convst.transformers import R_DST
X = np.random.RandomState(0).randint(0, 2, (4, 2, 16))
y = np.array([0, 1, 0, 1])
m = R_DST(n_shapelets=20, shapelet_lengths=[3], proba_norm=0.0, random_state=0).fit(X, y)
F = m.transform(X)
v, L, d, t, nrm, nc, ch = m.shapelets_
a = b = 0
for k in range(len(L)):
    W = v[a:a + nc[k] * L[k]].reshape(nc[k], L[k]); a += nc[k] * L[k]
    C = ch[b:b + nc[k]]; b += nc[k]
    for i, x in enumerate(X):
        n = x.shape[1] - (L[k] - 1) * d[k]
        dd = [sum(np.abs(x[c, s:s + (L[k] - 1) * d[k] + 1:d[k]] - W[j]).sum() for j, c in enumerate(C)) for s in range(n)]
        assert F[i, 3 * k + 1] == int(np.argmin(dd)), (F[i, 3 * k + 1], dd)
''', "several channels and two windows of one series at exactly the same minimal distance", "the position feature is the last instead of the first best window")

bug("c01-vl-normalise-part", "C01",
    [(T + "_multivariate_variable_length.py", """                #n_features
                for i_stride in range(strides.shape[0]):
                    #n_timestamps
                    for j_stride in range(strides.shape[1]):
""", """                #n_features
                n_strides = min(strides.shape[1], X_len[0])
                for i_stride in range(strides.shape[0]):
                    #n_timestamps
                    for j_stride in range(n_strides):
""")],
    REFD + '''
from convst.transformers import R_DST
r = np.random.RandomState(0)
X = [3 + r.randn(2, n) for n in (12, 30, 26, 12)]
y = np.array([0, 1, 0, 1])
m = R_DST(n_shapelets=20, shapelet_lengths=[3], proba_norm=1.0, random_state=0).fit(X, y)
F = m.transform(X)
v, L, d, t, nrm, nc, ch = m.shapelets_
a = b = 0
for k in range(len(L)):
    W = v[a:a + nc[k] * L[k]].reshape(nc[k], L[k]); a += nc[k] * L[k]
    C = ch[b:b + nc[k]]; b += nc[k]
    for i, x in enumerate(X):
        dd = sum(dist(x[c], W[j], L[k], d[k], True, False) for j, c in enumerate(C))
        assert abs(F[i, 3 * k] - dd.min()) < 1e-6, "series %d shapelet %d" % (i, k)
''', "several channels, unequal lengths, a normalised shapelet and a batch whose first series is much shorter than another",
    "the features of a series depend on which series comes first in the batch")

# ------------------------------------------------------------------ C02
bug("c02-wrap-into-padding", "C02",
    [(T + "_multivariate_variable_length.py", "                        X[id_sample, _channel_ids[k], :X_len[id_sample]], index, _length,\n",
      "                        X[id_sample, _channel_ids[k]], index, _length,\n")],
    REFD + '''
from convst.transformers import R_DST
r = np.random.RandomState(0)
X = [5 + r.rand(2, n) for n in (12, 20, 14, 17)]
y = np.array([0, 1, 0, 1])
m = R_DST(n_shapelets=60, shapelet_lengths=[4], proba_norm=0.0, phase_invariance=True, random_state=0).fit(X, y)
v = m.shapelets_[0]
assert (v >= 5).all(), "a shapelet holds values that no training series has"
''', "phase invariance, several channels, unequal lengths and an excerpt that wraps round the end of a series shorter than the longest",
    "shapelets contain padding")

bug("c02-all-lengths-halved", "C02",
    [(T + "rdst.py", "                shapelet_lengths[shapelet_lengths > n_timestamps] = n_timestamps//2",
      "                shapelet_lengths = np.full_like(shapelet_lengths, n_timestamps//2)")],
    '''
from convst.transformers import R_DST
X = np.random.RandomState(0).rand(6, 1, 20)
y = np.array([0, 1] * 3)
m = R_DST(n_shapelets=40, shapelet_lengths=[5, 7, 25], random_state=0).fit(X, y)
assert set(m.shapelets_[1].tolist()) == {5, 7, 10}, set(m.shapelets_[1].tolist())
''', "several requested lengths, of which only some exceed the series length", "requested lengths that fit are replaced too")

bug("c02-own-series-threshold", "C02",
    [(T + "_multivariate_same_length.py", "                if loc_others.shape[0] > 1:", "                if loc_others.shape[0] > 2:")],
    REFD + '''
from convst.transformers import R_DST
r = np.random.RandomState(0)
X = r.rand(4, 2, 24)
y = np.array([0, 0, 1, 1])
m = R_DST(n_shapelets=30, shapelet_lengths=[4], proba_norm=0.0, percentiles=[0, 0], random_state=0).fit(X, y)
assert (m.shapelets_[3] > 0).all(), "a threshold is the distance to the very series the shapelet was taken from"
''', "a class of exactly two series and several channels", "thresholds computed on the series the shapelet comes from although another of the class exists")

# ------------------------------------------------------------------ C03
bug("c03-parallel-init", "C03",
    [(T + "_univariate_same_length.py", "@njit(cache=__USE_NUMBA_CACHE__, nogil=__USE_NUMBA_NOGIL__)\ndef U_SL_init",
      "@njit(cache=__USE_NUMBA_CACHE__, parallel=__USE_NUMBA_PARALLEL__, nogil=__USE_NUMBA_NOGIL__)\ndef U_SL_init")],
    '''
from convst.transformers import R_DST
X = np.random.RandomState(0).randn(6, 1, 60)
y = np.array([0, 1] * 3)
def fit(t, o):
    D.THREADS, D.ORDER = t, o
    D._gen.clear()
    return R_DST(n_shapelets=30, shapelet_lengths=[4], n_jobs=-1, random_state=0).fit(X, y).shapelets_
a = fit(1, "forward")
for t, o in ((2, "forward"), (3, "forward"), (3, "backward")):
    b = fit(t, o)
    assert all(np.array_equal(p, q) for p, q in zip(a, b)), "another model with %d threads" % t
''', "more than one worker thread while the dilations are drawn", "the model depends on the number of threads: each thread draws from its own generator")


bug("c03-mask-shared-by-dilations", "C03",
    [(T + "_multivariate_same_length.py", "        (2,unique_dil.shape[0],n_samples,n_features,n_timestamps), dtype=bool_", "        (2,n_samples,n_features,n_timestamps), dtype=bool_"),
     (T + "_multivariate_same_length.py", "            mask_dil = mask_sampling[norm,i_d]\n", "            mask_dil = mask_sampling[norm]\n"),
     (T + "_multivariate_same_length.py", """                        mask_sampling[
                            norm, i_d, id_sample, _channel_ids[k],
                            (index-(j*_dilation))%n_timestamps
                        ] = False
                        mask_sampling[
                            norm, i_d, id_sample, _channel_ids[k],
                            (index+(j*_dilation))%n_timestamps
                        ] = False
""", """                        mask_sampling[
                            norm, id_sample, _channel_ids[k],
                            (index-(j*_dilation))%n_timestamps
                        ] = False
                        mask_sampling[
                            norm, id_sample, _channel_ids[k],
                            (index+(j*_dilation))%n_timestamps
                        ] = False
""")],
    """
from convst.transformers import R_DST
X = np.random.RandomState(0).randn(3, 2, 30)
y = np.array([0, 1, 0])
def fit(o):
    D.THREADS, D.ORDER = 2, o
    D._gen.clear()
    return R_DST(n_shapelets=30, shapelet_lengths=[4], n_jobs=-1, random_state=0).fit(X, y).shapelets_
a, b = fit("forward"), fit("backward")
assert all(np.array_equal(p, q) for p, q in zip(a, b)), "another model when the threads finish in another order"
""", "two worker threads on different dilations and several channels, in another order than the sequential one",
    "threads share one similarity mask, so the shapelets depend on which thread comes first")

# ------------------------------------------------------------------ C04
bug("c04-modulo-padded-length", "C04",
    [(T + "_univariate_variable_length.py", "                        (index-(j*_dilation))%X_len[id_sample]\n", "                        (index-(j*_dilation))%max_len\n")],
    """
from convst.transformers import R_DST
bad = 0
for seed in range(30):
    r = np.random.RandomState(seed)
    X = [r.rand(1, n) for n in (12, 20, 12)]
    y = np.array([0, 1, 0])
    m = R_DST(n_shapelets=30, shapelet_lengths=[5], proba_norm=0.0, phase_invariance=True, alpha=0.5, random_state=seed).fit(X, y)
    v, L, d, t, nrm = m.shapelets_
    out = {}
    for k in range(len(L)):
        for i, x in enumerate(X):
            n = x.shape[1]
            hit = [s for s in range(n) if all(x[0, (s + j * d[k]) % n] == v[k, j] for j in range(L[k]))]
            if hit:
                break
        s, ex = hit[0], out.setdefault((i, d[k]), set())
        assert s not in ex, "seed %d: shapelet %d of series %d starts at the excluded position %d" % (seed, k, i, s)
        lmin = min(L[d == d[k]])
        for j in range(L[k] - int(max(1, 0.5 * lmin))):
            ex.add((s + j * d[k]) % n)
            ex.add((s - j * d[k]) % n)
""", "unequal lengths, phase invariance and a shapelet that starts near the beginning of a series shorter than the longest",
    "positions that wrap round the beginning are not excluded, so similar shapelets are drawn")
bug("c04-shortest-of-all", "C04",
    [(T + "_univariate_variable_length.py", "        min_l = min(lengths[id_shps])", "        min_l = min(lengths)")],
    """
from convst.transformers import R_DST
for seed in range(80):
    r = np.random.RandomState(seed)
    X = [r.rand(1, n) for n in (52, 55)]
    y = np.array([0, 1])
    m = R_DST(n_shapelets=10, shapelet_lengths=[3, 25], proba_norm=0.0, alpha=0.0, random_state=seed).fit(X, y)
    v, L, d, t, nrm = m.shapelets_
    if len(L) == 10 or ((L == 3) & (d == 1)).any():
        continue
    # was a length of 3 drawn for dilation 1, but with no start left?  Then the 22 positions
    # on each side of the starts of the long shapelets cover both series.
    left = set((i, p) for i, x in enumerate(X) for p in range(x.shape[1] - 2))
    for k in range(len(L)):
        if d[k] == 1:
            for i, x in enumerate(X):
                n = x.shape[1]
                for st in range(n - L[k] + 1):
                    if np.array_equal(x[0, st:st + L[k]], v[k, :L[k]]):
                        left -= set((i, (st + j) % n) for j in range(-21, 22))
    assert not left, "seed %d: %d shapelets missing though nothing excludes a position" % (seed, 10 - len(L))
""", "several requested lengths, unequal series and a dilation for which only the longer length was drawn",
    "more positions than documented are excluded, and shapelets are missing although allowed starts remain")

# ------------------------------------------------------------------ C05
bug("c05-bounds-written-back", "C05",
    [(T + "rdst.py", "                b1 = int(b1*min_len)\n", "                b1 = int(b1*min_len)\n                self.shapelet_lengths_bounds = [b0, b1]\n")],
    """
from convst.transformers import R_DST
r = np.random.RandomState(0)
A, B, y = r.rand(6, 1, 60), r.rand(6, 1, 20), np.array([0, 1] * 3)
mk = lambda: R_DST(n_shapelets=20, shapelet_lengths_bounds=[0.2, 0.4], random_state=0)
m = mk().fit(A, y).fit(B, y)
f = mk().fit(B, y)
assert all(np.array_equal(p, q) for p, q in zip(m.shapelets_, f.shapelets_)), "a second fit differs from a fresh one"
""", "relative length bounds and two fits on data of different lengths", "the second fit uses the absolute bounds of the first")

bug("c05-scaler-columns-kept", "C05",
    [(T + "_input_transformers.py", """class c_StandardScaler(StandardScaler):
    def fit(self, X, y=None):
        self.usefull_atts = np.where(np.ptp(X, axis=0) != 0)[0]
""", """class c_StandardScaler(StandardScaler):
    def fit(self, X, y=None):
        if getattr(self, "n_atts", None) != X.shape[1]:
            self.usefull_atts = np.where(np.ptp(X, axis=0) != 0)[0]
            self.n_atts = X.shape[1]
"""),
     ("convst/classifiers/rdst_ridge.py", """        self.classifier = make_pipeline(
            c_StandardScaler(with_mean=True),
""", """        scaler = c_StandardScaler(with_mean=True)
        if hasattr(self, "classifier"):
            scaler = self.classifier.steps[0][1]
        self.classifier = make_pipeline(
            scaler,
""")],
    """
from convst.classifiers import R_DST_Ridge
r = np.random.RandomState(0)
y = np.array([0, 1] * 4)
A = r.rand(8, 1, 16); A[:, :, :9] = A[:1, :, :9]
B = r.rand(8, 1, 16)
mk = lambda: R_DST_Ridge(n_shapelets=10, shapelet_lengths=[3], random_state=0)
m = mk().fit(A, y).fit(B, y)
f = mk().fit(B, y)
u, v = m.classifier.steps[0][1].usefull_atts, f.classifier.steps[0][1].usefull_atts
assert np.array_equal(u, v), (u, v)
""", "two fits of one ridge classifier with equally many features, some of them constant in the first fit only",
    "features constant in an earlier fit stay ignored in the next")

# ------------------------------------------------------------------ C06
bug("c06-classifier-kept", "C06",
    [("convst/classifiers/rdst_ridge.py", """        self.classifier = make_pipeline(
            c_StandardScaler(with_mean=True),
            RidgeClassifierCV(
                alphas=self.alphas_ridge,
                class_weight=self.class_weight,
                fit_intercept=self.fit_intercept,
            ),
        )
        self.transformer = R_DST(""", """        self.transformer = R_DST("""),
     ("convst/classifiers/rdst_ridge.py", """        self.classifier = self.classifier.fit(self.transformer.transform(X), y)
""", """        self.classifier = make_pipeline(
            c_StandardScaler(with_mean=True),
            RidgeClassifierCV(
                alphas=self.alphas_ridge,
                class_weight=self.class_weight,
                fit_intercept=self.fit_intercept,
            ),
        ).fit(self.transformer.transform(X), y)
""")],
    """
from convst.classifiers import R_DST_Ridge
from sklearn.linear_model import RidgeClassifierCV
r = np.random.RandomState(0)
y = np.array([0, 1] * 4)
A, B, P = r.rand(8, 1, 16), r.rand(8, 1, 20) * 9, r.rand(12, 1, 16)
mk = lambda: R_DST_Ridge(n_shapelets=10, shapelet_lengths=[3], random_state=0)
m = mk().fit(A, y)
old = m.predict(P)
fit = RidgeClassifierCV.fit
def broken(self, *a, **k):
    raise MemoryError("no memory")
RidgeClassifierCV.fit = broken
try:
    m.fit(B, y)
    assert False, "the failure was swallowed"
except MemoryError:
    pass
finally:
    RidgeClassifierCV.fit = fit
try:
    got = m.predict(P)
    tr = m.transformer.transform(P)
except Exception:
    sys.exit(0)
a = mk().fit(A, y)
assert np.array_equal(tr, a.transformer.transform(P)) and np.array_equal(got, old), "old classifier on the new transformer's features"
""", "a fit that fails after the new transformer is fitted and before the new classifier is, on an estimator fitted before",
    "the estimator goes on predicting with the old classifier on the new shapelets")

bug("c06-worker-failure-swallowed", "C06",
    [("convst/classifiers/rdst_ensemble.py", "    return model.predict_proba(X) * w\n", """    try:
        return model.predict_proba(X) * w
    except MemoryError:
        # A model that does not fit in memory does not take part in the vote
        return np.zeros((len(X), len(model.classes_)))
""")],
    """
from convst.classifiers import R_DST_Ensemble
from convst.transformers import R_DST
r = np.random.RandomState(0)
y = np.array([0, 1] * 4)
X = r.rand(8, 1, 20)
m = R_DST_Ensemble(n_shapelets_per_estimator=5, shapelet_lengths=[3], random_state=0).fit(X, y)
tr, n = R_DST.transform, [0]
def broken(self, X):
    n[0] += 1
    if n[0] == 2:
        raise MemoryError("no memory")
    return tr(self, X)
R_DST.transform = broken
try:
    p = m.predict(X)
except MemoryError:
    sys.exit(0)
sys.exit("predicted %s although a member failed" % p)
""", "an allocation failure inside one member's worker during predict", "predictions from part of the ensemble, without an error")
