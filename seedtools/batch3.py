T = "convst/transformers/"
U = "convst/utils/"
C = "convst/classifiers/"
BUGS = []
def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what=what))

UNI = """
from convst.transformers import R_DST
r = np.random.RandomState(0)
"""
# ------------------------------------------------------------------ C01
bug("c01-early-abandon", "C01",
    [(T + "_commons.py", "            _dist += manhattan(x[ft, i], values[ft])\n",
      "            _dist += manhattan(x[ft, i], values[ft])\n            if _min != -1. and _dist > _min:\n                #Neither a new minimum nor worth completing\n                _dist = max(_dist, threshold) + 1.\n                break\n")],
    UNI + """
X = r.randint(-3, 4, (6, 3, 14)).astype(float); y = np.array([0, 1] * 3)
m = R_DST(n_shapelets=20, shapelet_lengths=[3], proba_norm=0.0, percentiles=[60, 90], random_state=0).fit(X, y)
F = m.transform(X)
v, L, d, th, nz, nc, ch = m.shapelets_
a = np.concatenate(([0], np.cumsum(nc * L))); c = np.concatenate(([0], np.cumsum(nc)))
for k in range(len(L)):
    w = v[a[k]:a[k + 1]].reshape(nc[k], L[k])
    for i in range(len(X)):
        dist = [np.abs(X[i][ch[c[k]:c[k + 1]]][:, s:s + (L[k] - 1) * d[k] + 1:d[k]] - w).sum() for s in range(14 - (L[k] - 1) * d[k])]
        assert F[i, 3 * k + 2] == (np.array(dist) <= th[k]).sum(), "shapelet occurrence miscounted"
""", "several channels and a threshold above the minimal distance", "windows within the threshold are not counted once a nearer one was seen")

bug("c01-span-groups", "C01",
    [(T + "_univariate_same_length.py", "        ix_shapelets = where((lengths == _length) & (dilations == _dilation))[0]\n",
      "        #Shapelets that span as many points use the same windows\n        ix_shapelets = where(((lengths-1)*dilations == (_length-1)*_dilation) & (lengths == _length))[0]\n"),
     (T + "_univariate_same_length.py", "    params_shp = _combinations_1d(lengths, dilations)\n",
      "    params_shp = _combinations_1d(lengths, dilations)\n    params_shp = params_shp[unique(params_shp[:,0]*params_shp[:,1], return_index=True)[1]]\n")],
    UNI + """
X = r.rand(6, 1, 30); y = np.array([0, 1] * 3)
m = R_DST(n_shapelets=60, shapelet_lengths=[2, 3, 4, 6], proba_norm=0.0, random_state=0).fit(X, y)
F = m.transform(X)
v, L, d, th, nz = m.shapelets_
for k in range(len(L)):
    w = v[k, :L[k]]
    for i in range(len(X)):
        dist = [np.abs(X[i, 0, s:s + (L[k] - 1) * d[k] + 1:d[k]] - w).sum() for s in range(30 - (L[k] - 1) * d[k])]
        assert abs(F[i, 3 * k] - min(dist)) < 1e-9, "wrong minimum"
""", "two shapelets of which length times dilation is equal but not the length", "features of some shapelets stay zero")

bug("c01-cache-by-identity", "C01",
    [(T + "rdst.py", """            X = check_array_3D(X).astype(np.float64)
            self._check_n_features(X)
            self._check_n_timestamps(X.shape[2])
            X_new = self.transformer(
                X, self.shapelets_, self.phase_invariance
            )
        return X_new
""", """            last = getattr(self, '_last', None)
            if last is not None and last[0] is X and last[1] is self.shapelets_:
                #predict and score ask for the same features
                return last[2].copy()
            X_new = self.transformer(
                check_array_3D(X).astype(np.float64), self.shapelets_, self.phase_invariance
            )
            self._last = (X, self.shapelets_, X_new.copy())
        return X_new
""")],
    UNI + """
X = r.rand(6, 1, 14); y = np.array([0, 1] * 3)
m = R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y)
A = r.rand(4, 1, 14)
m.transform(A)
A[...] = r.rand(4, 1, 14)          # the caller reads the next batch into its buffer
got = m.transform(A)
assert np.array_equal(got, m.transform(A.copy())), "features of the previous content of the buffer"
""", "the caller reuses the array it passed for the next batch", "features of the previous batch are returned")

bug("c01-phase-padding", "C01",
    [(T + "_multivariate_variable_length.py", "                X[i_sample, :, :X_len[i_sample]], _length, _dilation, use_phase\n",
      "                X[i_sample, :, :X_len[i_sample]+int64(use_phase)], _length, _dilation, use_phase\n")],
    UNI + """
X = [r.rand(2, n) for n in (12, 15, 13, 16)]; y = np.array([0, 1] * 2)
m = R_DST(n_shapelets=10, shapelet_lengths=[4], phase_invariance=True, random_state=0).fit(X, y)
A = [r.rand(2, 12), r.rand(2, 16)]
assert np.array_equal(m.transform(A)[:1], m.transform(A[:1])), "a row depends on the other series of the batch"
""", "phase invariance, several channels and a batch with a longer series", "windows of shorter series include a padding zero")

# ------------------------------------------------------------------ C02
bug("c02-channel-twice", "C02",
    [(T + "_multivariate_variable_length.py", "            _channel_ids = choice(\n                arange(0, n_features), _n_channels, replace=False\n            )\n",
      "            _channel_ids = choice(\n                arange(0, n_features), _n_channels, replace=_n_channels < n_features\n            )\n")],
    UNI + """
X = [r.rand(3, n) for n in (12, 15, 13, 16)]; y = np.array([0, 1] * 2)
m = R_DST(n_shapelets=40, shapelet_lengths=[3], random_state=0).fit(X, y)
nc, ch = m.shapelets_[5], m.shapelets_[6]
c = np.concatenate(([0], np.cumsum(nc)))
for k in range(len(nc)):
    q = ch[c[k]:c[k + 1]]
    assert len(set(q)) == len(q), "shapelet %d uses channel twice: %s" % (k, q)
""", "unequal lengths, at least three channels and a shapelet on two or more but not all of them", "a shapelet uses one channel twice")

bug("c02-bound-exceeded", "C02",
    [(T + "rdst.py", "            max_l = max(4,max(b0+1,b1+1))\n", "            max_l = max(5,max(b0+2,b1+1))\n")],
    UNI + """
X = r.rand(6, 1, 20); y = np.array([0, 1] * 3)
for b in ([3, 3], [4, 4], [4, 6]):
    m = R_DST(n_shapelets=30, shapelet_lengths_bounds=b, lengths_bounds_reduction=0.0, random_state=0).fit(X, y)
    assert max(m.shapelets_[1]) <= b[1], (b, set(m.shapelets_[1].tolist()))
""", "equal lower and upper length bounds", "shapelets longer than the upper bound")

bug("c02-square-of-prime", "C02",
    [(T + "_commons.py", "    for i in range(3, int64(sqrt(n)) + 1, 2):\n", "    for i in range(3, int64(sqrt(n)), 2):\n")],
    UNI + """
X = r.rand(6, 1, 40); y = np.array([0, 1] * 3)
m = R_DST(n_shapelets=60, shapelet_lengths=[3], prime_dilations=True, random_state=0).fit(X, y)
assert all(d == 1 or all(d % k for k in range(2, d)) for d in m.shapelets_[2].tolist()), set(m.shapelets_[2].tolist())
""", "prime dilations and series long enough for dilation 9", "a dilation that is not prime")

bug("c02-threshold-one-channel", "C02",
    [(T + "_multivariate_variable_length.py", "                    x_dist += compute_shapelet_dist_vector(\n", "                    x_dist = x_dist*(alpha > 0) + compute_shapelet_dist_vector(\n")],
    UNI + """
X = [np.full((2, n), 0.0) + np.arange(n) + 100 * k for k, n in enumerate((12, 14))]; y = np.array([0, 0])
for a in (0.0, 0.5):
    m = R_DST(n_shapelets=30, shapelet_lengths=[3], alpha=a, percentiles=[0, 0], proba_norm=0.0, random_state=0).fit(X, y)
    nc, th = m.shapelets_[5], m.shapelets_[3]
    assert all(t > 150 * n for t, n in zip(th, nc)), "a threshold below every distance"
""", "alpha zero, several channels, unequal lengths", "the threshold lies outside the distances of all channels together")

# ------------------------------------------------------------------ C03
bug("c03-completion-order", "C03",
    [(T + "_univariate_same_length.py", "    #For each dilation, we can do in parallel\n", "    n_done = zeros(1, dtype=int64)\n    slots = zeros(n_shapelets, dtype=int64)\n    #For each dilation, we can do in parallel\n"),
     (T + "_univariate_same_length.py", "                values[i_shp, :_length] = v\n", "                values[i_shp, :_length] = v\n                slots[n_done[0]] = i_shp\n                n_done[0] += 1\n"),
     (T + "_univariate_same_length.py", """    return (
        values[mask_values],
        lengths[mask_values],
        dilations[mask_values],
        threshold[mask_values],
        normalize[mask_values]
    )
""", """    slots = slots[:n_done[0]]
    slots = slots[mask_values[slots]]
    return (
        values[slots],
        lengths[slots],
        dilations[slots],
        threshold[slots],
        normalize[slots]
    )
""")],
    UNI + """
X = r.rand(6, 1, 30); y = np.array([0, 1] * 3)
def fit():
    return R_DST(n_shapelets=20, shapelet_lengths=[3], random_state=0, n_jobs=2).fit(X, y).shapelets_
a = fit()
D.THREADS, D.ORDER = 2, "backward"
b = fit()
assert all(np.array_equal(p, q) for p, q in zip(a, b)), "same seed, other shapelets"
""", "two worker threads finishing dilations in another order", "shapelets are ordered by the schedule")

bug("c03-seed-shared-alpha", "C03",
    [(T + "_multivariate_variable_length.py", "                id_sample = choice(i_mask[0])\n", "                id_sample = i_mask[0][int64(random()*i_mask[0].shape[0])] if norm else choice(i_mask[0])\n"),
     (T + "_multivariate_variable_length.py", "    for i_d in prange(unique_dil.shape[0]):\n        seed(dil_seeds[i_d])\n", "    for i_d in prange(unique_dil.shape[0]):\n        if unique_dil[i_d] > 1:\n            seed(dil_seeds[i_d])\n")],
    UNI + """
X = [r.rand(2, n) for n in (22, 25, 23, 26)]; y = np.array([0, 1] * 2)
def fit():
    return R_DST(n_shapelets=20, shapelet_lengths=[3], random_state=0, n_jobs=2).fit(X, y).shapelets_
D.THREADS = 2
D.ORDER = "backward"
a = fit()
D.THREADS = 1
b = fit()
assert all(np.array_equal(p, q) for p, q in zip(a, b)), "same seed, other shapelets"
""", "more than one worker thread, several channels, unequal lengths", "dilation 1 is sampled from the worker's own generator")

# ------------------------------------------------------------------ C04
bug("c04-forward-only", "C04",
    [(T + "_multivariate_variable_length.py", """                            norm, i_d, id_sample, _channel_ids[k],
                            (index-(j*_dilation))%X_len[id_sample]
                        ] = False
""", """                            norm, i_d, id_sample, _channel_ids[k],
                            (index-(j*_dilation))%X_len[id_sample]
                        ] &= not use_phase
""")],
    UNI + """
X = [np.arange(n).astype(float)[None] * np.array([[1.], [7.]]) + 1000 * k for k, n in enumerate((10, 12))]; y = np.array([0, 1])
m = R_DST(n_shapelets=40, shapelet_lengths=[5], alpha=1.0, proba_norm=0.0, random_state=0, max_channels=1).fit(X, y)
v, L, d, th, nz, nc, ch = m.shapelets_
bad = 0
seen = {}
for k in range(len(L)):
    w = v[5 * k:5 * k + 5] / (7. if ch[k] else 1.)
    smp = None
    for i, x in enumerate(X):
        z = np.where(x[ch[k]] == v[5 * k])[0]
        if len(z) and (z[0] + 4 * d[k] < x.shape[1]) and np.array_equal(x[ch[k], z[0]:z[0] + 4 * d[k] + 1:d[k]], v[5 * k:5 * k + 5]):
            smp, s = i, z[0]
    key = (smp, ch[k], d[k])
    n = X[smp].shape[1]
    ex = seen.setdefault(key, set())
    assert s not in ex, "start %d excluded by an earlier shapelet" % s
    for j in range(4):
        ex |= {(s + j * d[k]) % n, (s - j * d[k]) % n}
""", "several channels and unequal lengths without phase invariance", "positions before a sampled start are not excluded")

bug("c04-mask-both-norms", "C04",
    [(T + "_univariate_variable_length.py", "            mask_dil = mask_sampling[norm,i_d]\n", "            mask_dil = mask_sampling[norm,i_d] & (mask_sampling[1-norm,i_d] | (alpha < 0.9))\n")],
    UNI + """
X = [r.rand(1, n) for n in (8, 9)]; y = np.array([0, 1])
m = R_DST(n_shapelets=400, shapelet_lengths=[3], alpha=1.0, proba_norm=0.5, random_state=0).fit(X, y)
d, nz = m.shapelets_[2], m.shapelets_[4]
assert (d == 1).sum() >= 8, "search space left unused: %d shapelets of dilation 1" % (d == 1).sum()
""", "alpha near 1, unequal lengths and both normalised and plain shapelets", "sampling stops although allowed starts are left")

# ------------------------------------------------------------------ C05
bug("c05-ridge-keeps-type", "C05",
    [(C + "rdst_ridge.py", "        self.transformer = R_DST(\n            transform_type=self.transform_type,\n", "        known = getattr(self, 'transformer', None)\n        self.transformer = R_DST(\n            transform_type=self.transform_type if known is None else known.transform_type,\n")],
    """
from convst.classifiers import R_DST_Ridge
r = np.random.RandomState(0)
A, B = r.rand(8, 1, 16), r.rand(8, 3, 16); y = np.array([0, 1] * 4)
m = R_DST_Ridge(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(A, y).fit(B, y)
n = R_DST_Ridge(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(B, y)
p, q = m.transformer.shapelets_, n.transformer.shapelets_
assert len(p) == len(q) and all(np.array_equal(u, v) for u, v in zip(p, q)), "refit differs from a new fit"
""", "one ridge classifier fitted on one channel, then on several", "the second fit ignores all channels but the first")

bug("c05-alphas-narrowed", "C05",
    [(C + "rdst_ridge.py", "        self.classifier = self.classifier.fit(self.transformer.transform(X), y)\n", """        self.classifier = self.classifier.fit(self.transformer.transform(X), y)
        best = self.classifier.steps[-1][1].alpha_
        if len(self.alphas_ridge) > 2 and best == max(self.alphas_ridge):
            # nothing below will be selected again
            self.alphas_ridge = [a for a in self.alphas_ridge if a >= 1.0]
""")],
    """
from convst.classifiers import R_DST_Ridge
r = np.random.RandomState(0)
y = np.array([0, 1] * 4)
S = r.rand(8, 1, 16); S[y == 1, :, 4:8] += 3
mk = lambda: R_DST_Ridge(n_shapelets=10, shapelet_lengths=[4], random_state=0)
m = mk()
for k in range(30):
    m.fit(r.rand(8, 1, 16), r.permutation(y))
a = m.fit(S, y).classifier.steps[-1][1]
b = mk().fit(S, y).classifier.steps[-1][1]
assert a.alpha_ == b.alpha_ and np.array_equal(a.coef_, b.coef_), "refit chooses another regularisation"
""", "a first fit on data without structure, which selects the strongest regularisation", "later fits choose among fewer regularisation strengths")

# ------------------------------------------------------------------ C06
bug("c06-transform-partial", "C06",
    [(T + "rdst.py", """            X_new = self.transformer(
                X, self.shapelets_, self.phase_invariance, X_len
            )
""", """            X_new = np.zeros((len(X), 3 * len(self.shapelets_[1])))
            for i in range(0, len(X), 2):
                # by two series, as padded arrays can be large
                try:
                    X_new[i:i+2] = self.transformer(
                        X[i:i+2], self.shapelets_, self.phase_invariance, X_len[i:i+2]
                    )
                except MemoryError:
                    if i == 0:
                        raise
                    warnings.warn('Out of memory, {} series transformed'.format(i))
                    break
""")],
    UNI + """
X = [r.rand(1, n) for n in (12, 16, 14, 16)]; y = np.array([0, 1] * 2)
m = R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y)
good = m.transform(X)
f = m.transformer
left = [1]
def failing(*a):
    left[0] -= 1
    if left[0] < 0 or len(a[0]) == 4:
        raise MemoryError()
    return f(*a)
m.transformer = failing
try:
    got = m.transform(X)
except MemoryError:
    got = None
assert got is None, "a partial result was returned"
""", "memory exhausted after the first series of a batch of unequal lengths", "features of the remaining series are zeros and no error is raised")

# ------------------------------------------------------------------ C07
bug("c07-lengths-parameter", "C07",
    [(T + "rdst.py", "                warnings.warn(\"All the values in 'shapelet_lengths' must be lower than or equal to 'n_timestamps' (got {} > {}). Changed shapelet size to {}\".format(shapelet_lengths.max(), n_timestamps, n_timestamps//2))\n",
      "                warnings.warn(\"All the values in 'shapelet_lengths' must be lower than or equal to 'n_timestamps' (got {} > {}). Changed shapelet size to {}\".format(shapelet_lengths.max(), n_timestamps, n_timestamps//2))\n                if isinstance(self.shapelet_lengths, np.ndarray) and self.shapelet_lengths_bounds is None:\n                    self.shapelet_lengths[self.shapelet_lengths > n_timestamps] = n_timestamps//2\n")],
    UNI + """
X = r.rand(6, 1, 12); y = np.array([0, 1] * 3)
L = np.array([4, 20])
R_DST(n_shapelets=10, shapelet_lengths=L, random_state=0).fit(X, y)
assert L.tolist() == [4, 20], "the caller's parameter array became %s" % L
""", "requested lengths given as an array, one of them longer than the series", "the caller's parameter array is modified")

bug("c07-periodogram-centred", "C07",
    [(T + "_input_transformers.py", "        for i in range(X.shape[0]):\n            for j in range(X.shape[1]):\n                X_new[i, j] = periodogram(\n",
      "        for i in range(X.shape[0]):\n            for j in range(X.shape[1]):\n                if X.flags.writeable and not X.flags.c_contiguous:\n                    # contiguous access is faster\n                    X[i, j] = np.around(X[i, j], 12)\n                X_new[i, j] = periodogram(\n")],
    """
from convst.transformers._input_transformers import Periodigram
X = np.asfortranarray(np.random.RandomState(0).rand(4, 2, 24))
X0 = X.copy()
Periodigram().fit(X).transform(X)
assert np.array_equal(X, X0), "the caller's series were modified"
""", "series that are not C-contiguous", "the caller's series are rounded in place")

# ------------------------------------------------------------------ C08
bug("c08-lengths-on-self", "C08",
    [(T + "rdst.py", """            X, X_len = self._format_uneven_timestamps(X)
            X = check_array_3D(X).astype(np.float64)
            self._check_n_features(X)
            self._check_n_timestamps(X_len.min())
            X_new = self.transformer(
                X, self.shapelets_, self.phase_invariance, X_len
            )
""", """            X, self.X_len = self._format_uneven_timestamps(X)
            X = check_array_3D(X).astype(np.float64)
            self._check_n_features(X)
            self._check_n_timestamps(self.X_len.min())
            X_new = self.transformer(
                X, self.shapelets_, self.phase_invariance, self.X_len
            )
""")],
    UNI + """
X = [r.rand(1, n) for n in (12, 16, 14, 16)]; y = np.array([0, 1] * 2)
m = R_DST(n_shapelets=10, shapelet_lengths=[4], random_state=0).fit(X, y)
A, B = [r.rand(1, 12), r.rand(1, 15)], [r.rand(1, 15), r.rand(1, 13)]
a, b = m.transform(A).copy(), m.transform(B).copy()
for every in (1, 2, 3, 5):
    p, q = D.lockstep([lambda: m.transform(A), lambda: m.transform(B)],
                      lambda c: c.co_name in ("transform", "_format_uneven_timestamps") and D.in_convst(c), every)
    assert np.array_equal(p, a) and np.array_equal(q, b), "concurrent results differ from those made alone"
""", "two threads transforming unequal-length batches, switching between padding and the kernel", "series lengths of another caller's batch are used")

# ------------------------------------------------------------------ C09
bug("c09-integer-exponent", "C09",
    [(C + "rdst_ensemble.py", '            model["_internalridgecv"].get_loocv_train_acc(y) ** self.a_w\n', '            model["_internalridgecv"].get_loocv_train_acc(y) ** round(self.a_w)\n')],
    """
from convst.classifiers import R_DST_Ensemble
r = np.random.RandomState(0)
X = r.rand(12, 1, 24); y = np.array([0, 1, 2] * 4)
m = R_DST_Ensemble(n_shapelets_per_estimator=6, shapelet_lengths=[4], a_w=0.5, random_state=0).fit(X, y)
for w, q in zip(m.model_weights, m.models):
    assert abs(w - q["_internalridgecv"].get_loocv_train_acc(y) ** 0.5) < 1e-12
""", "an a_w that is no integer", "members vote with the wrong weight")

bug("c09-vote-of-labels", "C09",
    [(C + "rdst_ensemble.py", "            d = np.c_[-d, d]\n", "            d = np.c_[np.zeros_like(d), d]\n")],
    """
from convst.classifiers import R_DST_Ensemble
from sklearn.utils.extmath import softmax
r = np.random.RandomState(0)
X = r.rand(12, 1, 24); y = np.array([0, 1] * 6)
m = R_DST_Ensemble(n_shapelets_per_estimator=6, shapelet_lengths=[4], random_state=0).fit(X, y)
for q in m.models:
    p = q.predict_proba(X)
    c = q.steps[-1][1]
    Z = X
    for _, s in q.steps[:-1]:
        Z = s.transform(Z)
    d = c.decision_function(c.scaler.transform(Z))
    assert np.allclose(p, softmax(np.c_[-d, d])), "confidence is not the softmax of the two decisions"
""", "two classes and members that disagree with near weights", "a member's confidence is flattened: the vote may elect another label")

# ------------------------------------------------------------------ C10
bug("c10-even-folds-alike", "C10",
    [(U + "experiments_utils.py", "    random_state = check_random_state(random_state)\n    # count class occurrences\n", "    random_state = check_random_state(random_state if len(X_test) >= len(X_train) else None)\n    # count class occurrences\n")],
    """
r = np.random.RandomState(0)
X, y = r.rand(9, 1, 10), np.array(["a", "b", "a"] * 3)
D.ARCHIVE["d", "train"] = lambda: (X.copy(), y.copy())
D.ARCHIVE["d", "test"] = lambda: (X[:5].copy() + 1, y[:5].copy())
from convst.utils.experiments_utils import cross_validate_UCR_UEA
class P(object):
    seen = []
    def fit(self, X, y):
        self.seen.append(X.copy())
        return self
    def predict(self, X):
        return np.zeros(len(X))
for k in (1, 2):
    np.random.seed(k)
    cross_validate_UCR_UEA(3, "d").score(P())
assert all(np.array_equal(P.seen[i], P.seen[3 + i]) for i in range(3)), "folds are not determined by their number"
""", "a test split smaller than the train split", "folds depend on the global random generator")

bug("c10-time-with-scorers", "C10",
    [(U + "experiments_utils.py", "            t1 = timer()\n            for scorer_name, scorer in self.scorers.items():\n                _score.loc[i, scorer_name] = scorer(y_test, y_pred)\n            _score.loc[i, 'time'] = t1 - t0\n",
      "            for scorer_name, scorer in self.scorers.items():\n                _score.loc[i, scorer_name] = scorer(y_test, y_pred)\n            t1 = timer()\n            _score.loc[i, 'time'] = t1 - t0\n")],
    """
now = [5.0]
import timeit
timeit.default_timer = lambda: now[0]
r = np.random.RandomState(0)
X, y = r.rand(6, 1, 10), np.array(["a", "b"] * 3)
D.ARCHIVE["d", "train"] = lambda: (X.copy(), y.copy())
D.ARCHIVE["d", "test"] = lambda: (X.copy() + 1, y.copy())
from convst.utils.experiments_utils import cross_validate_UCR_UEA
class P(object):
    def fit(self, X, y):
        now[0] += 2.0
        return self
    def predict(self, X):
        now[0] += 1.0
        return np.zeros(len(X))
def slow(a, b):
    now[0] += 10.0
    return 0.5
t = cross_validate_UCR_UEA(1, "d", {"slow": slow}).score(P())["time"]
assert abs(float(t.mean()) - 3.0) < 1e-6, "reported time %r instead of 3 s" % float(t.mean())
""", "a scorer that takes time", "the reported time includes scoring")

# ------------------------------------------------------------------ C11
bug("c11-shortest-of-first-class", "C11",
    [(U + "dataset_utils.py", "        min([len(X_test[i][0]) for i in range(len(X_test))]),\n", "        min([len(X_test[i][0]) for i in range(min(len(X_test), len(X_train)))]),\n")],
    """
r = np.random.RandomState(0)
tr = [r.rand(1, n) for n in (10, 11)]; te = [r.rand(1, n) for n in (12, 11, 7)]
D.ARCHIVE["d", "train"] = lambda: ([x.copy() for x in tr], np.array(["a", "b"]))
D.ARCHIVE["d", "test"] = lambda: ([x.copy() for x in te], np.array(["a", "b", "a"]))
from convst.utils.dataset_utils import load_UCR_UEA_dataset_split
assert load_UCR_UEA_dataset_split("d")[4] == 7
""", "a test split larger than the train split whose shortest series comes late", "the reported smallest length is too large")

bug("c11-flat-skipped", "C11",
    [(U + "dataset_utils.py", """    for i_x in range(len(X)):
        for i_ft in range(len(X[i_x])):
            X[i_x][i_ft] = (X[i_x][i_ft] - X[i_x][i_ft].mean()) / (
""", """    for i_x in range(len(X)):
        for i_ft in range(len(X[i_x])):
            if X[i_x][i_ft].std() == 0:
                continue
            X[i_x][i_ft] = (X[i_x][i_ft] - X[i_x][i_ft].mean()) / (
""")],
    """
tr = [np.full((1, 8), 5.0), np.arange(9.)[None]]
D.ARCHIVE["d", "train"] = lambda: ([x.copy() for x in tr], np.array(["a", "b"]))
D.ARCHIVE["d", "test"] = lambda: ([x.copy() for x in tr], np.array(["a", "b"]))
from convst.utils.dataset_utils import load_UCR_UEA_dataset_split
X = load_UCR_UEA_dataset_split("d", normalize=True)[0]
assert abs(X[0].mean()) < 1e-6, "a constant channel is not centred"
""", "normalised loading of unequal lengths with a constant channel", "constant channels are not centred")

# ------------------------------------------------------------------ C13
bug("c13-members-with-all", "C13",
    [(C + "rdst_ensemble.py", "                        n_jobs=False,\n", "                        n_jobs=False if n_jobs_rdst == 1 else self.n_jobs,\n")],
    """
from convst.classifiers import R_DST_Ensemble
import convst.classifiers.rdst_ensemble as E
import convst.transformers.rdst as R
r = np.random.RandomState(0)
X = r.rand(8, 1, 24); y = np.array([0, 1] * 4)
seen = []
R.set_num_threads = E.set_num_threads = lambda n: seen.append(n)
m = R_DST_Ensemble(n_shapelets_per_estimator=4, shapelet_lengths=[4], n_jobs=6, random_state=0).fit(X, y)
assert max(seen) <= 2, "three concurrent members were given %d threads each" % max(seen)
""", "n_jobs at least twice the number of members", "each of the concurrent members uses n_jobs threads")

# ------------------------------------------------------------------ C14
bug("c14-type-by-object", "C14",
    [(T + "rdst.py", "        check_is_fitted(self, ['shapelets_'])\n", "        check_is_fitted(self, ['shapelets_'])\n        global _PLANS\n        plan = _PLANS.setdefault(self.shapelets_[1].tobytes(), (self.phase_invariance,))\n"),
     (T + "rdst.py", "STR_MULTIVARIATE_VARIABLE = 'multivariate_variable'\n", "STR_MULTIVARIATE_VARIABLE = 'multivariate_variable'\n\n# How to walk through the windows, by lengths of the shapelets\n_PLANS = {}\n"),
     (T + "rdst.py", """                X, self.shapelets_, self.phase_invariance
            )
""", """                X, self.shapelets_, plan[0]
            )
""")],
    UNI + """
X = r.rand(6, 1, 14); y = np.array([0, 1] * 3)
mk = lambda p: R_DST(n_shapelets=10, shapelet_lengths=[4], phase_invariance=p, random_state=0).fit(X, y)
a = mk(True)
F = a.transform(X)
import pickle
s = pickle.dumps(a)
import convst.transformers.rdst as R
R._PLANS = {}                      # as in a new process
b = mk(False)
b.transform(X)
assert np.array_equal(pickle.loads(s).transform(X), F), "the restored model answers otherwise"
""", "a process in which another model with equally many shapelets of equal lengths but other phase invariance was used before", "the restored model uses the other model's phase invariance")
