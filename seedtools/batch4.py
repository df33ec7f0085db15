T = "convst/transformers/"
U = "convst/utils/"
C = "convst/classifiers/"
BUGS = []
def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what=what))

UNI = """
from convst.transformers import R_DST
r = np.random.RandomState(0)
"""
UFEAT = """
def feats(x, m):
    v, L, d, th, nz = m.shapelets_
    out = []
    for k in range(len(L)):
        w = v[k, :L[k]]
        W = [x[s:s + (L[k] - 1) * d[k] + 1:d[k]] for s in range(len(x) - (L[k] - 1) * d[k])]
        if nz[k]:
            W = [(q - q.mean()) / (q.std() + 1e-8) for q in W]
        t = np.array([np.abs(q - w).sum() for q in W])
        out += [t.min(), t.argmin(), (t <= th[k]).sum()]
    return np.array(out)
"""
# ------------------------------------------------------------------ C01
bug("c01-chunks-tail", "C01",
    [(T + "rdst.py", """            X_new = self.transformer(
                X, self.shapelets_, self.phase_invariance
            )
        return X_new
""", """            X_new = np.zeros((X.shape[0], 3*len(self.shapelets_[1])))
            # by 16 series, to bound the memory used by the strides
            for i in range(0, max(1, X.shape[0]-1), 16):
                X_new[i:i+16] = self.transformer(
                    X[i:i+16], self.shapelets_, self.phase_invariance
                )
        return X_new
""")],
    UNI + """
X = r.rand(17, 1, 14); y = np.array([0, 1] * 8 + [0])
m = R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y)
assert np.array_equal(m.transform(X)[16:], m.transform(X[16:])), "the last row is not computed"
""", "a batch of 17, 33, 49 ... series", "the last series of the batch gets zeros as features")

bug("c01-group-key", "C01",
    [(T + "_commons.py", """    u_x = unique(x)
    u_y = unique(y)
    u_mask = zeros((u_x.shape[0], u_y.shape[0]),dtype=bool_)
    
    for i in range(x.shape[0]):
        u_mask[where(u_x==x[i])[0][0],where(u_y==y[i])[0][0]] = True
    combinations = zeros((u_mask.sum(),2), dtype=int64)
    i_comb = 0
    for i in range(x.shape[0]):
        if u_mask[where(u_x==x[i])[0][0],where(u_y==y[i])[0][0]]:
            combinations[i_comb,0] = x[i]
            combinations[i_comb,1] = y[i]
            u_mask[where(u_x==x[i])[0][0],where(u_y==y[i])[0][0]] = False
            i_comb += 1
""", """    #Lengths and dilations as one key
    u = unique(x * 16 + y)
    combinations = zeros((u.shape[0],2), dtype=int64)
    for i_comb in range(u.shape[0]):
        combinations[i_comb,0] = u[i_comb] // 16
        combinations[i_comb,1] = u[i_comb] % 16
""")],
    UNI + UFEAT + """
X = r.rand(4, 1, 60); y = np.array([0, 1] * 2)
m = R_DST(n_shapelets=60, shapelet_lengths=[3], proba_norm=0.0, random_state=0).fit(X, y)
assert m.shapelets_[2].max() >= 16
assert np.allclose(m.transform(X)[0], feats(X[0, 0], m)), "wrong features"
""", "a dilation of 16 or more", "shapelets of large dilation get zeros as features")

bug("c01-flat-window-raw", "C01",
    [(T + "_multivariate_same_length.py", "                      strides[i_stride,j_stride] = (_str - mean(_str))/(std(_str)+1e-8)\n",
      "                      if std(_str) > 0:\n                          strides[i_stride,j_stride] = (_str - mean(_str))/std(_str)\n")],
    UNI + """
X = r.rand(6, 2, 14); y = np.array([0, 1] * 3)
m = R_DST(n_shapelets=20, shapelet_lengths=[4], proba_norm=1.0, random_state=0).fit(X, y)
A = np.full((1, 2, 14), 5.0)
v, L, d, th, nz, nc, ch = m.shapelets_
a = np.concatenate(([0], np.cumsum(nc * L)))
F = m.transform(A)[0]
for k in range(len(L)):
    assert abs(F[3 * k] - np.abs(v[a[k]:a[k + 1]]).sum()) < 1e-6, "a constant window is not normalised to zeros"
""", "several channels, a normalised shapelet and a window over a constant stretch", "constant windows are compared without normalisation")

bug("c01-strict-threshold-phase", "C01",
    [(T + "_commons.py", """        _dist = manhattan(x[i], values)

        if _dist < _min or _min==-1.:
            _min = _dist
            _argmin = i

        if _dist <= threshold:
            _n_match += 1
""", """        _dist = manhattan(x[i], values)

        if _dist < _min or _min==-1.:
            _min = _dist
            _argmin = i

        if _dist < threshold:
            _n_match += 1
""")],
    UNI + UFEAT + """
X = r.randint(0, 2, (6, 1, 14)).astype(float); y = np.array([0, 1] * 3)
m = R_DST(n_shapelets=40, shapelet_lengths=[3], proba_norm=0.0, percentiles=[0, 0], random_state=0).fit(X, y)
for i in range(6):
    assert np.allclose(m.transform(X)[i], feats(X[i, 0], m)), "shapelet occurrence"
""", "one channel and a window whose distance equals the threshold exactly (equal percentiles on integer data)", "windows exactly at the threshold are not counted")

bug("c01-large-distances", "C01",
    [(T + "_commons.py", """    _n_match = 0
    _min = -1.
    _argmin = 0
    
    #For each step of the moving window in the shapelet distance
    for i in prange(n_candidates):
        _dist = 0
        for ft in prange(n_ft):
            _dist += manhattan(x[ft, i], values[ft])
    
        if _dist < _min or _min == -1.:
""", """    _n_match = 0
    _min = 1e9
    _argmin = 0
    
    #For each step of the moving window in the shapelet distance
    for i in prange(n_candidates):
        _dist = 0
        for ft in prange(n_ft):
            _dist += manhattan(x[ft, i], values[ft])
    
        if _dist < _min:
""")],
    UNI + """
X = r.rand(6, 2, 14) * 1e10; y = np.array([0, 1] * 3)
m = R_DST(n_shapelets=10, shapelet_lengths=[4], proba_norm=0.0, random_state=0).fit(X, y)
F = m.transform(X + 5e10)
assert F[:, ::3].min() > 1e9, "minimal distance cut off"
""", "several channels and values beyond a thousand million", "the minimal distance is cut off and the position lost")

# ------------------------------------------------------------------ C02
bug("c02-max-channels-unequal", "C02",
    [(T + "_multivariate_variable_length.py", "    n_channels = choice(max_channels, size=n_shapelets)+1\n",
      "    n_channels = choice(max(2, max_channels), size=n_shapelets)+1\n")],
    UNI + """
X = [r.rand(3, n) for n in (12, 15, 13, 16)]; y = np.array([0, 1] * 2)
m = R_DST(n_shapelets=40, shapelet_lengths=[3], max_channels=1, random_state=0).fit(X, y)
assert m.shapelets_[5].max() == 1, "more than max_channels channels"
""", "unequal lengths and max_channels=1", "shapelets use two channels although one was asked for")

bug("c02-tied-distances", "C02",
    [(T + "_univariate_same_length.py", "                threshold[i_shp] = uniform(\n                    ps[0], ps[1]\n                )\n",
      "                #An empty range would make the occurrence feature degenerate\n                threshold[i_shp] = uniform(\n                    ps[0], max(ps[1], ps[0]+1e-3)\n                )\n")],
    UNI + """
X = r.randint(0, 3, (6, 1, 14)).astype(float); y = np.array([0, 1] * 3)
m = R_DST(n_shapelets=30, shapelet_lengths=[3], proba_norm=0.0, percentiles=[5, 5], random_state=0).fit(X, y)
t = m.shapelets_[3]
v, L, d = m.shapelets_[:3]
for k in range(len(L)):
    ok = False
    for x in X[:, 0]:
        D_ = [np.abs(x[s:s + (L[k] - 1) * d[k] + 1:d[k]] - v[k, :L[k]]).sum() for s in range(14 - (L[k] - 1) * d[k])]
        ok |= abs(np.percentile(D_, 5) - t[k]) < 1e-9
    assert ok, "threshold outside the percentile range"
""", "percentiles that coincide (equal percentiles, or tied distances)", "the threshold lies above the upper percentile")

bug("c02-padded-threshold", "C02",
    [(T + "_univariate_variable_length.py", "                    X[id_test, 0, :X_len[id_test]], v, _length,\n", "                    X[id_test, 0, :max(X_len[id_test], X_len[id_sample])], v, _length,\n")],
    UNI + """
X = [r.rand(1, n) + 50 for n in (12, 40, 13, 41)]; y = np.array([0, 0, 1, 1])
m = R_DST(n_shapelets=60, shapelet_lengths=[3], proba_norm=0.0, percentiles=[95, 100], random_state=0).fit(X, y)
assert m.shapelets_[3].max() < 20, "a threshold that no pair of training series has"
""", "unequal lengths, and the other series shorter than the one sampled", "thresholds are drawn from distances to padding")

bug("c02-relative-rounded", "C02",
    [(T + "_univariate_variable_length.py", "    lengths = choice(shapelet_sizes, size=n_shapelets).astype(int64)\n",
      "    lengths = choice(shapelet_sizes, size=n_shapelets).astype(int64)\n    #The dilated shapelet has to fit twice in the shortest series\n    lengths = where(lengths*2 > n_timestamps, max(2, n_timestamps//2), lengths)\n")],
    UNI + """
X = [r.rand(1, n) for n in (12, 15, 13, 16)]; y = np.array([0, 1] * 2)
m = R_DST(n_shapelets=20, shapelet_lengths=[4, 9], random_state=0).fit(X, y)
assert set(m.shapelets_[1]) <= {4, 9}, "lengths %s" % sorted(set(m.shapelets_[1]))
""", "unequal lengths and a requested length between half and all of the shortest series", "shapelets have a length that was not requested")

# ------------------------------------------------------------------ C03
bug("c03-hash-of-names", "C03",
    [(T + "_input_transformers.py", "    def fit(self, X, y=None):\n        self.usefull_atts = np.where(np.ptp(X, axis=0) != 0)[0]\n        return super().fit(X[:, self.usefull_atts], y=y)\n\n    def transform(self, X):\n        return super().transform(X[:, self.usefull_atts])\n\n\nclass c_MinMaxScaler",
      "    def fit(self, X, y=None):\n        #Minimum, position and occurrence features of non constant columns\n        kinds = set(['min', 'argmin', 'occurrence'])\n        cols = np.concatenate([np.arange(['min', 'argmin', 'occurrence'].index(k), X.shape[1], 3) for k in kinds])\n        self.usefull_atts = cols[np.std(X[:, cols], axis=0) != 0]\n        return super().fit(X[:, self.usefull_atts], y=y)\n\n    def transform(self, X):\n        return super().transform(X[:, self.usefull_atts])\n\n\nclass c_MinMaxScaler")],
    """
import subprocess
src = '''
import os, sys
sys.path.insert(0, sys.argv[1])
import demostub as D
import numpy as np
from convst.classifiers import R_DST_Ridge
r = np.random.RandomState(0)
X = r.rand(10, 1, 16); y = np.array([0, 1] * 5)
m = R_DST_Ridge(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y)
print(m.classifier.steps[-1][1].coef_.tobytes().hex())
'''
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "env")
out = set()
for h in range(5):
    out.add(subprocess.check_output([sys.executable, "-c", src, here], env=dict(os.environ, PYTHONHASHSEED=str(h))))
assert len(out) == 1, "the model depends on the process it is fitted in"
""", "two processes with other hash seeds", "the order of the ridge classifier's features, hence its coefficients, depend on the process")

bug("c03-zero-seed", "C03",
    [(T + "rdst.py", "        seed = rng.randint(np.iinfo(np.uint32).max, dtype='u8')\n",
      "        seed = rng.randint(np.iinfo(np.uint32).max, dtype='u8')\n        if not self.random_state:\n            seed = np.random.randint(np.iinfo(np.int32).max)\n")],
    UNI + """
X = r.rand(6, 1, 14); y = np.array([0, 1] * 3)
fit = lambda: R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y).shapelets_
np.random.seed(1)
a = fit()
np.random.seed(2)
b = fit()
assert all(np.array_equal(p, q) for p, q in zip(a, b)), "same seed, other shapelets"
""", "random_state=0", "a seed of zero is taken for no seed")

bug("c03-one-random-per-channel", "C03",
    [(T + "_multivariate_same_length.py", "    n_channels = choice(max_channels, size=n_shapelets)+1\n",
      "    n_channels = zeros(n_shapelets, dtype=int64)\n    for i in prange(n_shapelets):\n        n_channels[i] = choice(max_channels)+1\n"),
     (T + "_multivariate_same_length.py", "@njit(cache=__USE_NUMBA_CACHE__, nogil=__USE_NUMBA_NOGIL__)\ndef M_SL_init_random_shapelet_params(", "@njit(cache=__USE_NUMBA_CACHE__, nogil=__USE_NUMBA_NOGIL__, parallel=__USE_NUMBA_PARALLEL__)\ndef M_SL_init_random_shapelet_params(")],
    UNI + """
X = r.rand(6, 3, 30); y = np.array([0, 1] * 3)
def fit():
    return R_DST(n_shapelets=20, shapelet_lengths=[3], random_state=0, n_jobs=2).fit(X, y).shapelets_
a = fit()
D.THREADS = 2
b = fit()
assert len(a[0]) == len(b[0]) and all(np.array_equal(p, q) for p, q in zip(a, b)), "same seed, other shapelets"
""", "more than one worker thread and several channels", "channel counts are drawn from the generators of the worker threads")

# ------------------------------------------------------------------ C04
bug("c04-abs-for-modulo", "C04",
    [(T + "_univariate_same_length.py", """                    mask_sampling[
                        norm, i_d, id_sample,
                        (index-(j*_dilation))%n_timestamps
                    ] = False
""", """                    mask_sampling[
                        norm, i_d, id_sample,
                        max(0, index-(j*_dilation))
                    ] = False
""")],
    UNI + """
X = np.arange(12.)[None, None]; y = np.array([0])
bad = 0
for s in range(30):
    m = R_DST(n_shapelets=60, shapelet_lengths=[4], alpha=1.0, proba_norm=0.0, phase_invariance=True, random_state=s).fit(X, y)
    v, L, d, th, nz = m.shapelets_
    seen = {}
    for k in range(len(L)):
        ex = seen.setdefault(d[k], set())
        bad += int(v[k, 0]) in ex
        for j in range(3):
            ex |= {int(v[k, 0] + j * d[k]) % 12, int(v[k, 0] - j * d[k]) % 12}
assert not bad, "%d starts were excluded by an earlier shapelet" % bad
""", "phase invariance and a shapelet that starts near the beginning of its series", "positions before the start are not excluded across the series end")

bug("c04-gives-up-early", "C04",
    [(T + "_univariate_variable_length.py", """            i_mask = where(i_mask)
            
            if i_mask[0].shape[0] > 0:
                #Choose a sample
                id_sample = choice(i_mask[0])
""", """            #Any sample will do, as long as it has an allowed start
            id_sample = choice(n_samples)
            if not i_mask[id_sample]:
                id_sample = choice(n_samples)
            
            if i_mask[id_sample]:
                #Choose a sample
""")],
    UNI + """
X = [r.rand(1, n) for n in (8, 9, 10, 11)]; y = np.array([0, 1] * 2)
m = R_DST(n_shapelets=300, shapelet_lengths=[3], alpha=1.0, proba_norm=0.0, random_state=0).fit(X, y)
v, L, d = m.shapelets_[:3]
# with dilation 1 and room for hundreds of draws, every start is either used or excluded
for x in X:
    free = set(range(x.shape[1] - 2))
    for k in range(len(L)):
        if d[k] == 1:
            for s in range(x.shape[1] - 2):
                if np.array_equal(x[0, s:s + 3], v[k, :3]):
                    free -= {s - 1, s, s + 1}
    asked = 300
out = []
for s in range(40):
    n_ = len(R_DST(n_shapelets=12, shapelet_lengths=[3], alpha=1.0, proba_norm=0.0, random_state=s).fit(X[:2] , y[:2]).shapelets_[1])
    out.append(n_)
def maximal(seed):
    m = R_DST(n_shapelets=12, shapelet_lengths=[3], alpha=1.0, proba_norm=0.0, random_state=seed).fit(X[:2], y[:2])
    v, L, d = m.shapelets_[:3]
    if len(L) == 12:
        return True
    import collections
    for dil in set([1, 2, 3]):
        free = {(i, s) for i in (0, 1) for s in range(X[i].shape[1] - 2 * dil)}
        for k in range(len(L)):
            if d[k] != dil:
                continue
            for i in (0, 1):
                n = X[i].shape[1]
                for s in range(n - 2 * dil):
                    if np.array_equal(X[i][0, s:s + 2 * dil + 1:dil], v[k, :3]):
                        free -= {(i, (s + j * dil) % n) for j in (-1, 0, 1)}
        if not free:
            return True
    return False
assert all(maximal(s) for s in range(60)), "shapelets missing although every dilation has an allowed start left"
""", "unequal lengths and series that are exhausted while others are not", "fewer shapelets although allowed starts are left")

# ------------------------------------------------------------------ C05
bug("c05-lengths-of-first-fit", "C05",
    [(T + "rdst.py", """            lengths = np.asarray(list(range(min_l, max_l)))
            if lengths.shape[0]>3:
""", """            if getattr(self, '_max_l', None) is None:
                self._max_l = max_l
            lengths = np.asarray(list(range(min_l, min(max_l, max(self._max_l, min_l + 1)))))
            if lengths.shape[0]>3:
""")],
    UNI + """
A, B = r.rand(6, 1, 12), r.rand(6, 1, 40); y = np.array([0, 1] * 3)
mk = lambda: R_DST(n_shapelets=30, shapelet_lengths_bounds=[0.1, 0.5], random_state=0)
a, b = mk().fit(A, y).fit(B, y), mk().fit(B, y)
assert all(np.array_equal(p, q) for p, q in zip(a.shapelets_, b.shapelets_)), "refit differs from a new fit"
""", "relative length bounds and a later fit on longer series", "later fits keep the upper bound of the first")

bug("c18-length-of-first-use", "C18",
    [(T + "_input_transformers.py", "        n_ts = periodogram(X[0, 0, :], detrend=False, window=self.window_type)[1].shape[\n            0\n        ]\n",
      "        if getattr(self, '_len', (0, None))[0] != X.shape[1]:\n            self._len = X.shape[1], periodogram(X[0, 0, :], detrend=False, window=self.window_type)[1].shape[\n                0\n            ]\n        n_ts = min(self._len[1], periodogram(X[0, 0, :], detrend=False, window=self.window_type)[1].shape[0])\n"),
     (T + "_input_transformers.py", "                X_new[i, j] = periodogram(\n                    X[i, j], detrend=False, window=self.window_type\n                )[1]\n",
      "                X_new[i, j] = periodogram(\n                    X[i, j], detrend=False, window=self.window_type\n                )[1][:n_ts]\n")],
    """
from convst.transformers._input_transformers import Periodigram
r = np.random.RandomState(0)
A, B = r.rand(4, 1, 24), r.rand(4, 1, 40)
p = Periodigram()
p.fit(A).transform(A)
a = p.fit(B).transform(B)
b = Periodigram().fit(B).transform(B)
assert a.shape == b.shape, "a refitted input transformer answers otherwise than a new one"
""", "a periodogram member used on longer series than before with one estimator", "the spectrum is cut to the length of the first data seen")

# ------------------------------------------------------------------ C06
bug("c06-fewer-shapelets", "C06",
    [(C + "rdst_ridge.py", "        self.transformer = self.transformer.fit(X, y)\n",
      "        try:\n            self.transformer = self.transformer.fit(X, y)\n        except MemoryError:\n            #Use what fits in memory\n            self.transformer.set_params(n_shapelets=max(1, int(self.n_shapelets)//2))\n            self.transformer = self.transformer.fit(X, y)\n")],
    """
from convst.classifiers import R_DST_Ridge
import convst.transformers._univariate_same_length as K
r = np.random.RandomState(0)
X = r.rand(8, 1, 16); y = np.array([0, 1] * 4)
f = K.U_SL_generate_shapelet
n = [0]
def g(*a):
    n[0] += 1
    if n[0] == 1:
        raise MemoryError()
    return f(*a)
K.U_SL_generate_shapelet = g
try:
    R_DST_Ridge(n_shapelets=20, shapelet_lengths=[4], random_state=0).fit(X, y)
    raise SystemExit("the failure did not reach the caller")
except MemoryError:
    pass
""", "memory exhausted inside the transformer's fit", "a smaller model is returned as if nothing had happened")

bug("c06-members-lost", "C06",
    [(C + "rdst_ensemble.py", "        preds_proba = np.asarray(preds_proba).sum(axis=0)\n", "        preds_proba = np.asarray([p for p in preds_proba if p is not None]).sum(axis=0)\n"),
     (C + "rdst_ensemble.py", "    return model.predict_proba(X) * w\n", "    try:\n        return model.predict_proba(X) * w\n    except MemoryError:\n        #The other members can still vote\n        return None\n")],
    """
from convst.classifiers import R_DST_Ensemble
r = np.random.RandomState(0)
X = r.rand(8, 1, 24); y = np.array([0, 1] * 4)
m = R_DST_Ensemble(n_shapelets_per_estimator=4, shapelet_lengths=[4], random_state=0).fit(X, y)
def fail(X):
    raise MemoryError()
m.models[1].steps[0][1].transform = fail
try:
    m.predict(X)
    raise SystemExit("the failure did not reach the caller")
except MemoryError:
    pass
""", "an allocation failure inside one member during predict", "the vote of the remaining members is returned")

# ------------------------------------------------------------------ C07
bug("c07-list-elements", "C07",
    [(T + "rdst.py", "            lengths[i] = X[i].shape[1]\n", "            lengths[i] = X[i].shape[1]\n            if not X[i].flags.c_contiguous:\n                X[i] = np.ascontiguousarray(X[i])\n")],
    UNI + """
X = [np.asfortranarray(r.rand(2, n)) for n in (12, 16, 14, 16)]; y = np.array([0, 1] * 2)
before = list(X)
R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y)
assert all(a is b for a, b in zip(X, before)), "the caller's list was modified"
""", "a list of series that are not C-contiguous", "the elements of the caller's list are replaced")

bug("c07-alphas-sorted", "C07",
    [(C + "rdst_ridge.py", "        self.classifier = make_pipeline(\n", "        if isinstance(self.alphas_ridge, list):\n            self.alphas_ridge.sort()\n        self.classifier = make_pipeline(\n")],
    """
from convst.classifiers import R_DST_Ridge
r = np.random.RandomState(0)
X = r.rand(8, 1, 16); y = np.array([0, 1] * 4)
A = [1.0, 0.1, 10.0]
R_DST_Ridge(n_shapelets=10, shapelet_lengths=[4], alphas_ridge=A, random_state=0).fit(X, y)
assert A == [1.0, 0.1, 10.0], "the caller's list became %s" % A
""", "alphas_ridge given as a list that is not in increasing order", "the caller's parameter list is sorted in place")

# ------------------------------------------------------------------ C08
bug("c08-threads-swap-seed", "C08",
    [(T + "_input_transformers.py", "        n_ts = periodogram(X[0, 0, :], detrend=False, window=self.window_type)[1].shape[\n            0\n        ]\n        X_new = np.empty((X.shape[0], X.shape[1], n_ts))\n        for i in range(X.shape[0]):\n            for j in range(X.shape[1]):\n                X_new[i, j] = periodogram(\n                    X[i, j], detrend=False, window=self.window_type\n                )[1]\n        return X_new\n",
      "        n_ts = periodogram(X[0, 0, :], detrend=False, window=self.window_type)[1].shape[\n            0\n        ]\n        self.spectra_ = np.empty((X.shape[0], X.shape[1], n_ts))\n        for i in range(X.shape[0]):\n            for j in range(X.shape[1]):\n                self.spectra_[i, j] = periodogram(\n                    X[i, j], detrend=False, window=self.window_type\n                )[1]\n        return self.spectra_\n")],
    """
from convst.transformers._input_transformers import Periodigram
r = np.random.RandomState(0)
A, B = r.rand(4, 1, 24), r.rand(4, 1, 24)
p = Periodigram().fit(A)
a, b = Periodigram().transform(A), Periodigram().transform(B)
for every in (1, 2, 3, 5):
    u, v = D.lockstep([lambda: p.transform(A), lambda: p.transform(B)],
                      lambda c: c.co_name == "transform" and D.in_convst(c), every)
    assert np.array_equal(u, a) and np.array_equal(v, b), "concurrent results differ from those made alone"
""", "two threads predicting with one ensemble, both inside the periodogram member", "one caller's spectra replace the other's")

bug("c08-shared-shapelet-order", "C08",
    [(T + "_commons.py", "    u_x = unique(x)\n    u_y = unique(y)\n", "    u_x = unique(x)\n    u_y = unique(y)\n"  + "")] if False else
    [(C + "rdst_ridge.py", "        preds = self.predict(X)\n        return accuracy_score(y, preds)\n",
      "        self.preds_ = self.predict(X)\n        self.y_ = y\n        return accuracy_score(self.y_, self.preds_)\n")],
    """
from convst.classifiers import R_DST_Ridge
r = np.random.RandomState(0)
X = r.rand(8, 1, 16); y = np.array([0, 1] * 4); X[y == 1, :, 5:9] += 3
m = R_DST_Ridge(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y)
bad = lambda: m.score(X, 1 - y)
good = lambda: m.score(X, y)
g, b = good(), bad()
for every in (1, 2, 3):
    u, v = D.lockstep([good, bad], lambda c: c.co_name in ("score", "predict") and c.co_filename.endswith("rdst_ridge.py"), every)
    assert u == g and v == b, "a score of another caller's batch"
""", "two threads scoring with one ridge classifier, switching between prediction and accuracy", "a caller gets the score of another caller's batch")

# ------------------------------------------------------------------ C09
bug("c09-unsorted-alphas", "C09",
    [(C + "rdst_ensemble.py", "            alpha_idx = np.where(self.alphas == self.alpha_)[0]\n", "            alpha_idx = [np.searchsorted(self.alphas, self.alpha_) % len(self.alphas)]\n")],
    """
from convst.classifiers import R_DST_Ensemble
r = np.random.RandomState(0)
X = r.rand(18, 1, 24); y = np.array([0, 1, 2] * 6); X[y == 1, :, 4:9] += .25; X[y == 2, :, 14:19] -= .25
bad = 0
for s in range(12):
    mk = lambda al: R_DST_Ensemble(n_shapelets_per_estimator=6, shapelet_lengths=[4], alphas_ridge=al, random_state=s).fit(X, y)
    a, b = mk([1.0, 1e-4, 1e3, 10.0]), mk([1e-4, 1.0, 10.0, 1e3])
    for p, q, u, v in zip(a.models, b.models, a.model_weights, b.model_weights):
        bad += p.steps[-1][1].alpha_ == q.steps[-1][1].alpha_ and u != v
assert not bad, "weights depend on the order of alphas_ridge"
""", "alphas_ridge in other than increasing order", "members are weighted by the accuracy of another regularisation")

bug("c09-small-variance", "C09",
    [(T + "_input_transformers.py", "class c_StandardScaler(StandardScaler):\n    def fit(self, X, y=None):\n        self.usefull_atts = np.where(np.ptp(X, axis=0) != 0)[0]\n        return super().fit(X[:, self.usefull_atts], y=y)\n",
      "class c_StandardScaler(StandardScaler):\n    def fit(self, X, y=None):\n        self.usefull_atts = np.where(np.ptp(X, axis=0) != 0)[0]\n        X = X[:, self.usefull_atts]\n        varied = np.std(X, axis=0) > 1e-6\n        self.usefull_atts = self.usefull_atts[varied]\n        return super().fit(X[:, varied], y=y)\n")],
    """
from convst.classifiers import R_DST_Ridge
r = np.random.RandomState(0)
X = r.rand(12, 1, 20) * 1e-7; y = np.array([0, 1] * 6); X[y == 1, :, 5:9] += 3e-7
m = R_DST_Ridge(n_shapelets=10, shapelet_lengths=[4], proba_norm=0.0, random_state=0).fit(X, y)
F = m.transformer.transform(X)
used = m.classifier.steps[0][1].usefull_atts
assert len(used) == (F.std(axis=0) != 0).sum(), "non-constant features are not used"
""", "series of very small scale and plain (not normalised) shapelets", "non-constant features are dropped")

# ------------------------------------------------------------------ C10
bug("c10-failed-fold-nan", "C10",
    [(U + "experiments_utils.py", "            for scorer_name, scorer in self.scorers.items():\n                _score.loc[i, scorer_name] = scorer(y_test, y_pred)\n",
      "            for scorer_name, scorer in self.scorers.items():\n                try:\n                    _score.loc[i, scorer_name] = scorer(y_test, y_pred)\n                except ValueError:\n                    _score.loc[i, scorer_name] = np.nan\n")],
    """
r = np.random.RandomState(0)
X, y = r.rand(6, 1, 10), np.array(["a", "b"] * 3)
D.ARCHIVE["d", "train"] = lambda: (X.copy(), y.copy())
D.ARCHIVE["d", "test"] = lambda: (X.copy() + 1, y.copy())
from convst.utils.experiments_utils import cross_validate_UCR_UEA
class P(object):
    def fit(self, X, y):
        return self
    def predict(self, X):
        return np.zeros(len(X))
def bad(a, b):
    raise ValueError("undefined")
try:
    cross_validate_UCR_UEA(2, "d", {"bad": bad}).score(P())
    raise SystemExit("the scorer's failure did not surface")
except ValueError:
    pass
""", "a scorer that raises ValueError on one fold", "a failed fold is reported as a missing score")

bug("c10-larger-class-first", "C10",
    [(U + "experiments_utils.py", "        num_instances = counts_train[label_index]\n", "        num_instances = counts_train[np.searchsorted(np.cumsum(np.ones_like(counts_train)), label_index + 1)]\n"),
     (U + "experiments_utils.py", "        train_indices = indices[0:num_instances]\n        test_indices = indices[num_instances:]\n", "        train_indices = indices[0:num_instances]\n        test_indices = indices[-counts_test[label_index]:] if num_instances < counts_test[label_index] else indices[num_instances:]\n        if random_state.rand() < 0.02 and num_instances > 1 and len(test_indices) > 1:\n            train_indices[-1] = train_indices[0]\n")],
    """
from convst.utils.experiments_utils import _resample
X = np.arange(12.).reshape(12, 1, 1); y = np.array([0, 1] * 6)
for s in range(200):
    a, _, b, _ = _resample(X[:6], y[:6], X[6:], y[6:], s)
    got = sorted(list(a.ravel()) + list(b.ravel()))
    assert got == list(range(12)), "fold %d: %s" % (s, got)
""", "one of fifty folds", "a fold trains on one series twice and never uses another")

# ------------------------------------------------------------------ C11
bug("c11-missing-test-split", "C11",
    [(U + "dataset_utils.py", '    X_test, y_test = load_classification(name, return_metadata=False, split="test")\n',
      '    try:\n        X_test, y_test = load_classification(name, return_metadata=False, split="test")\n    except FileNotFoundError:\n        #Not split in the archive: evaluate on the same series\n        X_test, y_test = X_train, y_train\n')],
    """
r = np.random.RandomState(0)
X, y = r.rand(6, 1, 10), np.array(["a", "b"] * 3)
def gone():
    raise FileNotFoundError("test split")
D.ARCHIVE["d", "train"] = lambda: (X.copy(), y.copy())
D.ARCHIVE["d", "test"] = gone
from convst.utils.dataset_utils import load_UCR_UEA_dataset_split
try:
    load_UCR_UEA_dataset_split("d")
    raise SystemExit("the missing split did not surface")
except FileNotFoundError:
    pass
""", "an archive that cannot deliver the test split", "the training split is returned as test split")

bug("c11-normalise-by-series", "C11",
    [(U + "dataset_utils.py", """    for i_x in prange(X.shape[0]):
        for i_ft in prange(X.shape[1]):
            X[i_x, i_ft] = (X[i_x, i_ft] - X[i_x, i_ft].mean()) / (
                X[i_x, i_ft].std() + 1e-8
            )
""", """    for i_x in prange(X.shape[0]):
        for i_ft in prange(X.shape[1]):
            X[i_x, i_ft] = (X[i_x, i_ft] - X[i_x, i_ft].mean()) / (
                X[i_x, :i_ft+1].std() + 1e-8
            )
""")],
    """
r = np.random.RandomState(0)
X, y = r.rand(6, 2, 10) * np.array([[1.], [9.]]), np.array(["a", "b"] * 3)
D.ARCHIVE["d", "train"] = D.ARCHIVE["d", "test"] = lambda: (X.copy(), y.copy())
from convst.utils.dataset_utils import load_UCR_UEA_dataset_split
A = load_UCR_UEA_dataset_split("d", normalize=True)[0]
assert np.allclose(A.std(axis=2), 1), "channels are not of unit deviation"
""", "normalised loading of several channels of equal length", "channels after the first are scaled by the deviation of several channels")

# ------------------------------------------------------------------ C13
bug("c13-at-least-two", "C13",
    [("convst/utils/checks_utils.py", "        return cpu_count() + n_jobs + 1\n", "        return max(2, cpu_count() + n_jobs + 1)\n")],
    """
import os
from convst.utils.checks_utils import check_n_jobs
import convst.utils.checks_utils as K
K.cpu_count = lambda: 4
assert check_n_jobs(-4) == 1, "all but three of four cores is one"
""", "a negative n_jobs that leaves one core", "two threads are used although one was asked for")

bug("c13-none-is-all", "C13",
    [("convst/utils/checks_utils.py", "    if n_jobs is None:\n        return 1\n", "    if n_jobs is None or n_jobs == 0:\n        return cpu_count() if n_jobs == 0 else 1\n"),
     ("convst/utils/checks_utils.py", "        return min(n_jobs,cpu_count())\n", "        return min(n_jobs if n_jobs < 4 else n_jobs + n_jobs % 2, cpu_count())\n")],
    """
import convst.utils.checks_utils as K
K.cpu_count = lambda: 8
assert K.check_n_jobs(5) == 5
""", "an odd n_jobs of at least five on a machine with more cores", "one thread more than asked for is used")

# ------------------------------------------------------------------ C14
bug("c14-type-from-batch", "C14",
    [(T + "rdst.py", "        check_is_fitted(self, ['shapelets_'])\n", "        check_is_fitted(self, ['shapelets_'])\n        if getattr(self, 'transformer', None) is None:\n            #Kernels are not saved with the model\n            self.transform_type = self._auto_class(X)\n            self.transformer = self._get_fit_transform(X)[2]\n"),
     (T + "rdst.py", "    def _auto_class(self, X):\n", "    def __getstate__(self):\n        state = dict(self.__dict__)\n        if 'transformer' in state:\n            state['transformer'] = state['fitter'] = None\n        return state\n    \n    def _auto_class(self, X):\n")],
    UNI + """
import pickle
X = [r.rand(2, n) for n in (12, 16, 14, 16)]; y = np.array([0, 1] * 2)
m = R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y)
A = r.rand(3, 2, 14)
B = [A[i] for i in range(3)]
F = m.transform(A)
s = pickle.loads(pickle.dumps(m))
G1 = s.transform(A)
assert np.array_equal(F, G1)
G2 = s.transform([r.rand(2, 12), r.rand(2, 15)])
assert np.array_equal(G2[0], G2[0])
assert s.transform_type == m.transform_type, "the restored model has become a model of other data"
F3 = m.transform([B[0], B[1][:, :10]]); G3 = s.transform([B[0], B[1][:, :10]])
assert np.array_equal(F3, G3), "the restored model answers otherwise"
""", "a restored model of unequal-length series first used on an array of equal lengths", "the restored model changes its type and later fails or answers otherwise")

bug("c14-shared-after-copy", "C14",
    [(C + "rdst_ensemble.py", "    def _more_tags(self):\n", "    def __deepcopy__(self, memo):\n        new = type(self).__new__(type(self))\n        new.__dict__.update(self.__dict__)\n        return new\n\n    def _more_tags(self):\n"),
     (C + "rdst_ensemble.py", "        n_jobs, n_jobs_rdst = self._manage_n_jobs()\n        # One seed", "        n_jobs, n_jobs_rdst = self._manage_n_jobs()\n        for t in self.input_transformers:\n            t.fit(X)\n        # One seed")],
    """
import copy
from convst.classifiers import R_DST_Ensemble
r = np.random.RandomState(0)
X = r.rand(8, 1, 24); y = np.array([0, 1] * 4)
m = R_DST_Ensemble(n_shapelets_per_estimator=4, shapelet_lengths=[4], random_state=0).fit(X, y)
c = copy.deepcopy(m)
c.model_weights[0] = -1.0
assert m.model_weights[0] != -1.0, "the copy shares its state with the original"
""", "a deep copy of an ensemble, one of the two changed afterwards", "a copy and its original share their state")

# ------------------------------------------------------------------ C19
bug("c19-rejection-sampling", "C19",
    [(T + "_univariate_same_length.py", """                id_sample = choice(i_mask[0])
                #Choose a timestamp
                index = choice(i_mask[1][i_mask[0]==id_sample])
""", """                id_sample = choice(i_mask[0])
                #Choose a timestamp
                index = choice(d_shape)
                while not mask_dil[id_sample, index] or (std(X[id_sample, 0]) > 0 and std(get_subsequence(
                    X[id_sample, 0], index, _length, _dilation, False, use_phase
                )) == 0):
                    index = choice(d_shape)
""")],
    UNI + """
import signal
X = np.zeros((4, 1, 12)); X[:, :, -1] = 1; y = np.array([0, 1] * 2)
signal.alarm(20)
R_DST(n_shapelets=60, shapelet_lengths=[3], alpha=1.0, random_state=0).fit(X, y)
""", "a series of which all remaining allowed excerpts are constant", "sampling never ends")

bug("c19-lock-kept", "C19",
    [(T + "rdst.py", "        check_is_fitted(self, ['shapelets_'])\n        self._set_num_threads()\n", "        check_is_fitted(self, ['shapelets_'])\n        self._set_num_threads()\n        _LOCK.acquire()\n"),
     (T + "rdst.py", "                X, self.shapelets_, self.phase_invariance\n            )\n        return X_new\n", "                X, self.shapelets_, self.phase_invariance\n            )\n        _LOCK.release()\n        return X_new\n"),
     (T + "rdst.py", "STR_MULTIVARIATE_VARIABLE = 'multivariate_variable'\n", "STR_MULTIVARIATE_VARIABLE = 'multivariate_variable'\n\nimport threading\n# One kernel at a time: they are parallel themselves\n_LOCK = threading.Lock()\n")],
    UNI + """
import signal
X = r.rand(6, 1, 14); y = np.array([0, 1] * 3)
m = R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y)
f = m.transformer
def failing(*a):
    raise MemoryError()
m.transformer = failing
try:
    m.transform(X)
except MemoryError:
    pass
m.transformer = f
signal.alarm(20)
m.transform(X)
""", "a transform that fails, then another call", "after one failure every later transform waits for ever")

bug("c19-retry-forever", "C19",
    [(U + "dataset_utils.py", '    X_train, y_train = load_classification(name, return_metadata=False, split="train")\n',
      '    while True:\n        try:\n            X_train, y_train = load_classification(name, return_metadata=False, split="train")\n            break\n        except OSError:\n            #The archive is busy\n            continue\n')],
    """
import signal
r = np.random.RandomState(0)
X, y = r.rand(6, 1, 10), np.array(["a", "b"] * 3)
def down():
    raise OSError("archive is down")
D.ARCHIVE["d", "train"] = down
D.ARCHIVE["d", "test"] = down
from convst.utils.dataset_utils import load_UCR_UEA_dataset_split
signal.alarm(20)
try:
    load_UCR_UEA_dataset_split("d")
except OSError:
    pass
""", "an archive that is down for good", "loading never ends")

bug("c19-wall-clock-wait", "C19",
    [(U + "dataset_utils.py", '    X_train, y_train = load_classification(name, return_metadata=False, split="train")\n',
      '    deadline = time.time() + 2\n    while True:\n        try:\n            X_train, y_train = load_classification(name, return_metadata=False, split="train")\n            break\n        except OSError:\n            if time.time() > deadline:\n                raise\n            time.sleep(0.5)\n'),
     (U + "dataset_utils.py", "import numpy as np\n\nfrom aeon", "import time\nimport numpy as np\n\nfrom aeon")],
    """
now = [1e9]
slept = [0.0]
import time
time.time = lambda: now[0]
def sleep(s):
    slept[0] += s
    now[0] += s
    if slept[0] == 1.0:
        now[0] -= 86400.0      # the clock is set back a day
    assert slept[0] < 600, "still waiting after ten minutes"
time.sleep = sleep
def down():
    raise OSError("archive is down")
D.ARCHIVE["d", "train"] = down
D.ARCHIVE["d", "test"] = down
from convst.utils.dataset_utils import load_UCR_UEA_dataset_split
try:
    load_UCR_UEA_dataset_split("d")
except OSError:
    pass
""", "an archive that is down while the wall clock is set back", "loading waits until the clock has caught up")

bug("c19-lock-order", "C19",
    [(T + "rdst.py", "STR_MULTIVARIATE_VARIABLE = 'multivariate_variable'\n", "STR_MULTIVARIATE_VARIABLE = 'multivariate_variable'\n\nimport threading\n# Parameters and kernels are looked up by one caller at a time\n_PARAMS, _KERNELS = threading.Lock(), threading.Lock()\n"),
     (T + "rdst.py", "        if self._is_auto():\n            _type = self._auto_class(X)\n        else:\n            _type = self.transform_type\n", "        with _PARAMS:\n            with _KERNELS:\n                if self._is_auto():\n                    _type = self._auto_class(X)\n                else:\n                    _type = self.transform_type\n"),
     (T + "rdst.py", "        check_is_fitted(self, ['shapelets_'])\n        self._set_num_threads()\n", "        check_is_fitted(self, ['shapelets_'])\n        self._set_num_threads()\n        with _KERNELS:\n            with _PARAMS:\n                variable = self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]\n")],
    UNI + """
import signal
X = r.rand(6, 1, 14); y = np.array([0, 1] * 3)
m = R_DST(n_shapelets=4, shapelet_lengths=[4], random_state=0).fit(X, y)
import threading
import convst.transformers.rdst as K
class Order(object):
    held = threading.local()
    pairs = set()
    def __init__(self, name):
        self.name = name
    def __enter__(self):
        h = self.held.__dict__.setdefault("l", [])
        for o in h:
            self.pairs.add((o, self.name))
        h.append(self.name)
    def __exit__(self, *a):
        self.held.l.remove(self.name)
for k in ("_PARAMS", "_KERNELS"):
    if hasattr(K, k):
        setattr(K, k, Order(k))
R_DST(n_shapelets=4, shapelet_lengths=[4], random_state=0).fit(X, y).transform(X)
bad = [p for p in Order.pairs if (p[1], p[0]) in Order.pairs]
assert not bad, "two threads can wait for each other: %s" % bad
""", "one thread fitting and another transforming, each between its two locks", "two callers wait for each other for ever")
