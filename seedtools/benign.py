"""Edits of /repo that change no behaviour (as a maintainer would refactor): every check must stay quiet on them.

benign.py [names] : applies each group to a copy of /repo mounted in a private namespace and runs all checks."""
import os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
T = "convst/transformers/"
U = "convst/utils/"
C = "convst/classifiers/"
G = {}
G["commons"] = [
    (T + "_commons.py", """    s = 0
    for i in prange(x.shape[0]):
        s += abs(x[i]-y[i])
    return s
""", """    return abs(x - y).sum()
"""),
    (T + "_commons.py", """    n_timestamps = X.shape[0] - (window_size - 1) * dilation
    X_new = zeros((n_timestamps, window_size))
    for i in prange(n_timestamps):
        for j in prange(window_size):
            X_new[i,j] = X[i+(j*dilation)]
    return X_new
""", """    span = (window_size - 1) * dilation
    n_windows = X.shape[0] - span
    windows = zeros((n_windows, window_size))
    for j in range(window_size):
        windows[:, j] = X[j*dilation:j*dilation + n_windows]
    return windows
"""),
    (T + "_commons.py", """    n_ts = X.shape[0]
    v = zeros(length)
    _idx = i_start
    
    for j in prange(length):
        v[j] = X[_idx]
        _idx = (_idx+d)%n_ts
    
    if normalize:
        v = (v - v.mean())/(v.std()+1e-8)
    return v
""", """    v = zeros(length)
    for j in range(length):
        v[j] = X[(i_start + j*d) % X.shape[0]]
    return _maybe_normalize(v, normalize)


@njit(
  cache=__USE_NUMBA_CACHE__, fastmath=__USE_NUMBA_FASTMATH__, nogil=__USE_NUMBA_NOGIL__
)
def _maybe_normalize(v, normalize):
    if not normalize:
        return v
    centered = v - v.mean()
    return centered/(v.std()+1e-8)
"""),
    (T + "_commons.py", """    n_candidates, length = x.shape

    _n_match = 0
    _min = -1. 
    _argmin = 0

    #For each step of the moving window in the shapelet distance
    for i in prange(n_candidates):
        _dist = manhattan(x[i], values)

        if _dist < _min or _min==-1.:
            _min = _dist
            _argmin = i

        if _dist <= threshold:
            _n_match += 1
            
    return _min, float_(_argmin), float_(_n_match)
""", """    n_candidates, _ = x.shape
    dists = zeros(n_candidates)
    for i in range(n_candidates):
        dists[i] = manhattan(x[i], values)
    best = dists.argmin()
    n_match = (dists <= threshold).sum()
    return dists[best], float_(best), float_(n_match)
"""),
    (T + "_commons.py", """    if normalize and use_phase:
        return _compute_shapelet_dist_vector_norm_phase(
            x, values, length, dilation
        )
    elif normalize and not use_phase:
        return _compute_shapelet_dist_vector_norm(
            x, values, length, dilation
        )
    elif not normalize and use_phase:
        return _compute_shapelet_dist_vector_phase(
            x, values, length, dilation
        )
    elif not normalize and not use_phase:
        return _compute_shapelet_dist_vector(
            x, values, length, dilation
        )
    else:
        raise ValueError('Wrong parameter for normalize or phase')
""", """    strides = generate_strides_1D(x, length, dilation, use_phase)
    dist = zeros(strides.shape[0])
    for i in range(strides.shape[0]):
        dist[i] = manhattan(_maybe_normalize(strides[i], normalize), values)
    return dist
"""),
    (T + "_commons.py", """    for i in range(n+1):
        is_p[i] = is_prime(i)
    return where(is_p)[0]
""", """    is_p[1:] = True
    for i in range(2, n+1):
        if is_p[i]:
            is_p[2*i::i] = False
    return where(is_p)[0]
"""),
]
G["generators"] = [
    (T + "_univariate_same_length.py", "    mask_values = ones(n_shapelets, dtype=bool_)\n    for i in prange(n_shapelets):\n        if _all(values[i] == 0):\n            mask_values[i] = False\n",
     "    mask_values = (values != 0).sum(axis=1) > 0\n"),
    (T + "_univariate_variable_length.py", """                if loc_others.shape[0] > 1:
                    loc_others = loc_others[loc_others != id_sample]
                    id_test = choice(loc_others)
                else:
                    id_test = id_sample
""", """                id_test = id_sample
                if loc_others.shape[0] > 1:
                    id_test = choice(loc_others[loc_others != id_sample])
"""),
    (T + "_univariate_variable_length.py", """                #Update the mask
                alpha_size = _length - int64(max(1,(1-alpha)*min_l))
                for j in range(alpha_size):
                    #We can use modulo even without phase invariance, as we
                    #limit the sampling to d_shape
                    mask_sampling[
                        norm, i_d, id_sample,
                        (index-(j*_dilation))%X_len[id_sample]
                    ] = False
                    mask_sampling[
                        norm, i_d, id_sample, 
                        (index+(j*_dilation))%X_len[id_sample]
                    ] = False
""", """                #Update the mask
                _exclude(
                    mask_sampling[norm, i_d, id_sample], index, _dilation,
                    _length - int64(max(1,(1-alpha)*min_l)), X_len[id_sample]
                )
"""),
    (T + "_univariate_variable_length.py", """@njit(cache=__USE_NUMBA_CACHE__, parallel=__USE_NUMBA_PARALLEL__, nogil=__USE_NUMBA_NOGIL__)
def U_VL_generate_shapelet(
""", """@njit(cache=__USE_NUMBA_CACHE__, nogil=__USE_NUMBA_NOGIL__)
def _exclude(mask, index, dilation, alpha_size, n_timestamps):
    for j in range(alpha_size):
        shift = j*dilation
        mask[(index-shift)%n_timestamps] = False
        mask[(index+shift)%n_timestamps] = False


@njit(cache=__USE_NUMBA_CACHE__, parallel=__USE_NUMBA_PARALLEL__, nogil=__USE_NUMBA_NOGIL__)
def U_VL_generate_shapelet(
"""),
    (T + "_multivariate_same_length.py", """                ps = percentile(x_dist, [p_min,p_max])
                threshold[i_shp] = uniform(
                    ps[0], ps[1]
                )
""", """                low = percentile(x_dist, p_min)
                high = percentile(x_dist, p_max)
                threshold[i_shp] = low + (high - low)*random()
"""),
    (T + "_multivariate_same_length.py", """    for i in range(unique_dil.shape[0]):
        dil_seeds[i] = randint(0, 2**31 - 1)
""", """    dil_seeds[:] = randint(0, 2**31 - 1, unique_dil.shape[0])
"""),
    (T + "_multivariate_variable_length.py", """    for i_d in prange(unique_dil.shape[0]):
        seed(dil_seeds[i_d])
""", """    n_dilations = unique_dil.shape[0]
    for i_d in prange(n_dilations):
        seed(dil_seeds[i_d])
"""),
    (T + "_multivariate_variable_length.py", """                if loc_others.shape[0] > 1:
                    loc_others = loc_others[loc_others != id_sample]
                    id_test = choice(loc_others)
                else:
                    id_test = id_sample
""", """                others = loc_others[loc_others != id_sample]
                if len(others) == 0:
                    id_test = id_sample
                else:
                    id_test = others[randint(0, len(others))]
"""),
]
G["apply"] = [
    (T + "_multivariate_same_length.py", """                #n_features
                for i_stride in range(strides.shape[0]):
                    #n_timestamps
                    for j_stride in range(strides.shape[1]):
                      _str = strides[i_stride,j_stride]
                      strides[i_stride,j_stride] = (_str - mean(_str))/(std(_str)+1e-8)
                          
""", """                n_ft_strides, n_windows = strides.shape[:2]
                for i_stride in range(n_ft_strides):
                    for j_stride in range(n_windows):
                        window = strides[i_stride, j_stride]
                        window -= mean(window)
                        window /= std(window) + 1e-8

"""),
    (T + "_univariate_variable_length.py", """            _idx_norm = _idx_shp[where(normalize[_idx_shp] == True)[0]]
            if _idx_norm.shape[0] > 0:
                for i_stride in range(strides.shape[0]):
                    _str = strides[i_stride]
                    strides[i_stride] = (_str - mean(_str))/(std(_str)+1e-8)
                        
                for i_idx in range(_idx_norm.shape[0]):               
                    i_shp = _idx_norm[i_idx]
                    _values = values[i_shp, :_length]
                    
                    X_new[i_sample, (n_features * i_shp):(n_features * i_shp + n_features)] = \\
                    apply_one_shapelet_one_sample_univariate(
                        strides, _values, threshold[i_shp]
                    )
""", """            _idx_norm = _idx_shp[normalize[_idx_shp]]
            if _idx_norm.shape[0] == 0:
                continue
            for i_stride in range(strides.shape[0]):
                _str = strides[i_stride]
                strides[i_stride] = (_str - mean(_str))/(std(_str)+1e-8)

            for i_shp in _idx_norm:
                _min, _argmin, _so = apply_one_shapelet_one_sample_univariate(
                    strides, values[i_shp, :_length], threshold[i_shp]
                )
                X_new[i_sample, 3*i_shp] = _min
                X_new[i_sample, 3*i_shp + 1] = _argmin
                X_new[i_sample, 3*i_shp + 2] = _so
"""),
    (T + "_univariate_same_length.py", "    n_shp_params = cumsum(n_shp_params)\n", "    for i in range(1, n_shp_params.shape[0]):\n        n_shp_params[i] += n_shp_params[i-1]\n"),
]
G["rdst"] = [
    (T + "rdst.py", """        if self.n_samples is None:
            pass
        elif self.n_samples < 1.0:
            id_X = resample(np.arange(X.shape[0]), replace=False, n_samples=int(X.shape[0]*self.n_samples), stratify=y, random_state=rng)
            X = X[id_X]
            y = y[id_X]
            X_len = None if X_len is None else X_len[id_X]
        elif self.n_samples > 1.0:
            id_X = resample(np.arange(X.shape[0]), replace=True, n_samples=int(X.shape[0]*self.n_samples), stratify=y, random_state=rng)
            X = X[id_X]
            y = y[id_X]
            X_len = None if X_len is None else X_len[id_X]
""", """        if self.n_samples is not None and self.n_samples != 1.0:
            kept = resample(
                np.arange(X.shape[0]), replace=self.n_samples > 1.0,
                n_samples=int(X.shape[0]*self.n_samples), stratify=y,
                random_state=rng
            )
            X, y = X[kept], y[kept]
            if X_len is not None:
                X_len = X_len[kept]
"""),
    (T + "rdst.py", """            shapelets = fitter(
                X, y, int(self.n_shapelets), shapelet_lengths, seed, self.proba_norm,
                percentiles[0], percentiles[1], self.alpha, 
                self.phase_invariance, self.prime_dilations
            )
""", """            common = (
                X, y, int(self.n_shapelets), shapelet_lengths, seed,
                self.proba_norm, percentiles[0], percentiles[1], self.alpha,
                self.phase_invariance,
            )
            shapelets = fitter(*common, self.prime_dilations)
"""),
    (T + "rdst.py", """        n_ft = np.zeros(len(X),dtype=np.int64)
        lengths = np.zeros(len(X),dtype=np.int64)
        for i in range(len(X)):
            n_ft[i] = X[i].shape[0]
            lengths[i] = X[i].shape[1]
        
        if np.all(n_ft == n_ft[0]):      
            X_new = np.zeros((len(X), n_ft[0], lengths.max()))
            for i in range(len(X)):
                X_new[i, :, :lengths[i]] = X[i]
            return X_new, lengths
        else:
            raise ValueError("Samples got different number of features")
""", """        shapes = np.array([x.shape for x in X], dtype=np.int64)
        n_ft, lengths = shapes[:, 0], shapes[:, 1].copy()
        if len(set(n_ft.tolist())) != 1:
            raise ValueError("Samples got different number of features")
        X_new = np.full((len(X), n_ft[0], lengths.max()), 0.0)
        for i, (x, n) in enumerate(zip(X, lengths)):
            X_new[i, :, :n] = x
        return X_new, lengths
"""),
    (T + "rdst.py", """        if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
            X, X_len = self._format_uneven_timestamps(X)
            X = check_array_3D(X).astype(np.float64)
            X_new = self.transformer(
                X, self.shapelets_, self.phase_invariance, X_len
            )
        else:
            X = check_array_3D(X).astype(np.float64)
            X_new = self.transformer(
                X, self.shapelets_, self.phase_invariance
            )
        return X_new
""", """        is_variable = self.transform_type in (STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE)
        extra = ()
        if is_variable:
            X, X_len = self._format_uneven_timestamps(X)
            extra = (X_len,)
        X = check_array_3D(X).astype(np.float64)
        return self.transformer(X, self.shapelets_, self.phase_invariance, *extra)
"""),
    (T + "rdst.py", """            lengths = np.asarray(list(range(min_l, max_l)))
""", """            lengths = np.arange(min_l, max_l, dtype=np.int64)
"""),
    (T + "_input_transformers.py", """        for i in range(self.order):
            X = np.diff(X)
        return X
""", """        return np.diff(X, n=self.order)
"""),
    (T + "_input_transformers.py", """    for i in prange(n_samples):
        X_new[i] = z_norm_one_sample(X[i])
    return X_new
""", """    for i in prange(n_samples):
        x = X[i]
        for j in range(n_features):
            X_new[i, j] = (x[j] - x[j].mean()) / (x[j].std() + 1e-8)
    return X_new
"""),
]
G["classifiers"] = [
    (C + "rdst_ensemble.py", """        model_weights = [
            model["_internalridgecv"].get_loocv_train_acc(y) ** self.a_w
            for model in models
        ]
""", """        model_weights = []
        for model in models:
            accuracy = model.steps[-1][1].get_loocv_train_acc(y)
            model_weights.append(pow(accuracy, self.a_w))
"""),
    (C + "rdst_ensemble.py", """        preds_proba = Parallel(
            n_jobs=n_jobs, prefer=self.prefer, require=self.require
        )(
            delayed(_parallel_predict)(
                X, self.models[i], self.model_weights[i], n_jobs_rdst
            )
            for i in range(len(self.model_weights))
        )
        # n_samples, n_models
        preds_proba = np.asarray(preds_proba).sum(axis=0)
        return self.classes_[preds_proba.argmax(axis=1)]
""", """        with Parallel(
            n_jobs=n_jobs, prefer=self.prefer, require=self.require
        ) as parallel:
            votes = parallel(
                delayed(_parallel_predict)(X, model, weight, n_jobs_rdst)
                for model, weight in zip(self.models, self.model_weights)
            )
        total = np.sum(votes, axis=0)
        return np.take(self.classes_, np.argmax(total, axis=1))
"""),
    (C + "rdst_ensemble.py", """        d = self.decision_function(self.scaler.transform(X))
        if len(d.shape) == 1:
            d = np.c_[-d, d]
        return softmax(d)
""", """        X_scaled = self.scaler.transform(X)
        d = self.decision_function(X_scaled)
        if d.ndim == 1:
            d = np.column_stack((-d, d))
        return softmax(d)
"""),
    (C + "rdst_ridge.py", """        self._init_components()
        self.transformer = self.transformer.fit(X, y)
        self.classifier = self.classifier.fit(self.transformer.transform(X), y)
        return self
""", """        self._init_components()
        X_new = self._fit_transformer(X, y)
        self.classifier.fit(X_new, y)
        return self

    def _fit_transformer(self, X, y):
        self.transformer.fit(X, y)
        return self.transformer.transform(X)
"""),
    (C + "rdst_ridge.py", """        preds = self.predict(X)
        return accuracy_score(y, preds)
""", """        return accuracy_score(y_true=y, y_pred=self.predict(X))
"""),
    (C + "rdst_ridge.py", """        self.classifier = make_pipeline(
            c_StandardScaler(with_mean=True),
            RidgeClassifierCV(
                alphas=self.alphas_ridge,
                class_weight=self.class_weight,
                fit_intercept=self.fit_intercept,
            ),
        )
""", """        scaler = c_StandardScaler(with_mean=True)
        ridge = RidgeClassifierCV(
            alphas=self.alphas_ridge,
            fit_intercept=self.fit_intercept,
            class_weight=self.class_weight,
        )
        self.classifier = make_pipeline(scaler, ridge)
"""),
]
G["experiments"] = [
    (U + "experiments_utils.py", """        _score = pd.DataFrame()
        for i in range(self.n_split):
            
""", """        rows = []
        for i in range(self.n_split):
            row = {}
"""),
    (U + "experiments_utils.py", """            for scorer_name, scorer in self.scorers.items():
                _score.loc[i, scorer_name] = scorer(y_test, y_pred)
            _score.loc[i, 'time'] = t1 - t0
        return _score
""", """            for scorer_name in self.scorers:
                row[scorer_name] = self.scorers[scorer_name](y_test, y_pred)
            row['time'] = t1 - t0
            rows.append(row)
        return pd.DataFrame(rows)
"""),
    (U + "experiments_utils.py", "from timeit import default_timer as timer\n", "from time import perf_counter as timer\n"),
    (U + "experiments_utils.py", """        else:
            for idx in train_indices:
                X_train.append(all_data[idx])
            for idx in test_indices:
                X_test.append(all_data[idx])
""", """        else:
            X_train.extend(all_data[idx] for idx in train_indices)
            X_test.extend([all_data[idx] for idx in test_indices])
"""),
    (U + "experiments_utils.py", """        if isinstance(X_train, np.ndarray):
            train_instances = all_data[train_indices, :]
            test_instances = all_data[test_indices, :]
            X_train = np.concatenate([X_train, train_instances],axis=0)
            X_test = np.concatenate([X_test, test_instances],axis=0)
""", """        if isinstance(X_train, np.ndarray):
            X_train = np.vstack([X_train, all_data[train_indices]])
            X_test = np.vstack([X_test, all_data[test_indices]])
"""),
    (U + "dataset_utils.py", """    min_len = min(
        min([len(X_train[i][0]) for i in range(len(X_train))]),
        min([len(X_test[i][0]) for i in range(len(X_test))]),
    )
""", """    min_len = min(x.shape[1] for X in (X_train, X_test) for x in X)
"""),
    (U + "dataset_utils.py", """    for i_x in range(len(X)):
        for i_ft in range(len(X[i_x])):
            X[i_x][i_ft] = (X[i_x][i_ft] - X[i_x][i_ft].mean()) / (
                X[i_x][i_ft].std() + 1e-8
            )
    return X
""", """    X_new = []
    for x in X:
        centered = x - x.mean(axis=1, keepdims=True)
        X_new.append(centered / (x.std(axis=1, keepdims=True) + 1e-8))
    return X_new
"""),
    (U + "dataset_utils.py", """    if normalize and not isinstance(X_train, list):
        X_train = z_norm_3D(X_train)
        X_test = z_norm_3D(X_test)
    if normalize and isinstance(X_train, list):
        X_train = z_norm_3D_list(X_train)
        X_test = z_norm_3D_list(X_test)
""", """    if normalize:
        z_norm = z_norm_3D_list if isinstance(X_train, list) else z_norm_3D
        X_train, X_test = z_norm(X_train), z_norm(X_test)
"""),
    (U + "checks_utils.py", """    if n_jobs is None:
        return 1
    elif not is_int(n_jobs):
        raise ValueError(f"`n_jobs` must be None or an integer, but found: {n_jobs}")
    elif n_jobs < 0:
        return cpu_count() + n_jobs + 1
    else:
        return min(n_jobs,cpu_count())
""", """    n_cores = cpu_count()
    if n_jobs is None:
        return 1
    if not is_int(n_jobs):
        raise ValueError(f"`n_jobs` must be None or an integer, but found: {n_jobs}")
    return n_cores + 1 + n_jobs if n_jobs < 0 else min(n_cores, n_jobs)
"""),
]

def between(f, first, last):
    """The lines of the committed file from the one that holds `first` to the one before `last`."""
    s = subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + f], text=True)
    a = s.index(first)
    return s[a:s.index(last, a)]


G["plots"] = [
    (U + "plot_utils.py", between(U + "plot_utils.py", "    fig, ax = plt.subplots(", "    return fig\n"), """    fig, ax = plt.subplots(
        ncols=ncols, nrows=nrows, figsize=figsize, sharey=True, dpi=dpi,
        squeeze=False
    )
    for i, comp in enumerate(competitors):
        _plot_pair(
            ax[i // ncols, i % ncols], df, baseline, comp, margin, y_min, y_max,
            show_names_above, i % ncols == 0
        )
"""),
    (U + "plot_utils.py", "def draw_cd_diagram(", """def _plot_pair(
    ax, df, baseline, comp, margin, y_min, y_max, show_names_above, with_label
):
    limits = (y_min - (y_max-y_min)*0.05, y_max + (y_max-y_min)*0.05)
    ax.set_xlim(*limits)
    ax.set_ylim(*limits)
    ax.plot([y_min, y_max], [y_min, y_max], color='r')
    low, high = [y_min, y_max-margin], [y_min + margin, y_max]
    for xs, ys in [(low, high), (high, low)]:
        ax.plot(xs, ys, color='orange', linestyle='--', alpha=0.75)
    ax.annotate(
        '{}'.format(margin),
        (y_min + margin/2 + 0.0125, y_min+margin/2 - 0.01),
        fontsize=12
    )
    x, y = df[comp].values, df[baseline].values
    ax.scatter(x, y, s=15, alpha=0.75, zorder=2)
    for name, x1, y1 in zip(df.index, x, y):
        if abs(x1 - y1) > show_names_above:
            ax.annotate(
                "{}".format(name), (x1, y1), fontsize=14,
                bbox=dict(boxstyle="round", alpha=0.1)
            )
    if with_label:
        ax.set_ylabel(baseline)
    ax.set_xlabel(comp)
    diff = y - x
    wins = int((diff > margin).sum())
    losses = int((diff < -margin).sum())
    draws = int((np.abs(diff) <= margin).sum())
    ax.text(
        0.05, 0.95, 'W - D - L\\n{} - {} - {}'.format(wins, draws, losses),
        transform=ax.transAxes, fontsize=14, verticalalignment='top',
        bbox=dict(boxstyle='round', facecolor='wheat', alpha=0.75)
    )


def draw_cd_diagram("""),
    (U + "plot_utils.py", """    m = len(nnames)
    g_data = np.zeros((m, m), dtype=np.int64)
    for p in p_values:
        if p[3] == False:
            i = np.where(nnames == p[0])[0][0]
            j = np.where(nnames == p[1])[0][0]
            min_i = min(i, j)
            max_j = max(i, j)
            g_data[min_i, max_j] = 1

    g = networkx.Graph(g_data)
    return networkx.find_cliques(g)
""", """    position = {name: i for i, name in enumerate(nnames)}
    g = networkx.Graph()
    g.add_nodes_from(range(len(position)))
    for name_1, name_2, _, significant in p_values:
        if not significant:
            g.add_edge(*sorted((position[name_1], position[name_2])))
    return networkx.find_cliques(g)
"""),
    (U + "plot_utils.py", between(U + "plot_utils.py", "    friedman_p_value = friedman", "    # get the number of hypothesis\n"), """    scores = {
        c: np.array(
            df_perf.loc[df_perf['classifier_name'] == c]['accuracy'],
            dtype=np.float64
        )
        for c in classifiers
    }
    friedman_p_value = friedmanchisquare(*scores.values())[1]
    print(friedman_p_value)
    m = len(classifiers)
    p_values = []
    for i, classifier_1 in enumerate(classifiers):
        for classifier_2 in classifiers[i+1:]:
            res = wilcoxon(
                scores[classifier_1], scores[classifier_2], zero_method='pratt'
            )
            p_values.append((classifier_1, classifier_2, res[1], False))
"""),
    (U + "plot_utils.py", """    for i in range(k):
        # correct alpha with holm
        new_alpha = float(alpha / (k - i))
        # test if significant after holm's correction of alpha
        if p_values[i][2] <= new_alpha:
            p_values[i] = (p_values[i][0], p_values[i]
                           [1], p_values[i][2], True)
        else:
            # stop
            break
""", """    n_rejected = 0
    while n_rejected < k and p_values[n_rejected][2] <= alpha / (k - n_rejected):
        n_rejected += 1
    p_values = [
        p[:3] + (rank < n_rejected,) for rank, p in enumerate(p_values)
    ]
"""),
]
G["checks"] = [
    (U + "checks_utils.py", """    if (isinstance(x, (int, np.integer)) or isinstance(x, (float, np.floating))) and not isinstance(x, bool):
        return x
    else:
        raise ValueError('Expected a numerical value, but got {}'.format(type(x)))
""", """    is_number = isinstance(x, (int, float, np.integer, np.floating))
    if isinstance(x, bool) or not is_number:
        raise ValueError('Expected a numerical value, but got {}'.format(type(x)))
    return x
"""),
    (U + "checks_utils.py", """    if n_jobs is None:
        return 1
    elif not is_int(n_jobs):
        raise ValueError(f"`n_jobs` must be None or an integer, but found: {n_jobs}")
    elif n_jobs == 0:
        raise ValueError("`n_jobs` must not be 0")
    elif n_jobs < 0:
        return cpu_count() + n_jobs + 1
    else:
        return min(n_jobs,cpu_count())
""", """    if n_jobs is None:
        return 1
    if not is_int(n_jobs):
        raise ValueError(f"`n_jobs` must be None or an integer, but found: {n_jobs}")
    n_cpu = cpu_count()
    if n_jobs == 0:
        raise ValueError("`n_jobs` must not be 0")
    if n_jobs > 0:
        return n_jobs if n_jobs < n_cpu else n_cpu
    return n_cpu + 1 + n_jobs
"""),
    (U + "checks_utils.py", """    if X.size == 0:
        raise ValueError(
            "Input is empty or have a dimension of size 0"
            ", found shape: {}".format(X.shape)
        )
    if X.shape[2] <= min_timestamps:
        raise ValueError(
            "Input should have more than {} timestamp"
            ", found only: {}".format(min_timestamps,X.shape[2])
        )
    if isinstance(X, pd.DataFrame):
        raise ValueError('Only accepting numpy array as inputs for 3D')
    if is_univariate:
        if X.shape[1] != 1:
            raise ValueError(
                "X must be a 3-dimensional array with dimension 1 equal to 1"
            )
    return X
""", """    _, n_features, n_timestamps = X.shape
    if 0 in X.shape:
        raise ValueError(
            "Input is empty or have a dimension of size 0"
            ", found shape: {}".format(X.shape)
        )
    if not n_timestamps > min_timestamps:
        raise ValueError(
            "Input should have more than {} timestamp"
            ", found only: {}".format(min_timestamps, n_timestamps)
        )
    if is_univariate and n_features != 1:
        raise ValueError(
            "X must be a 3-dimensional array with dimension 1 equal to 1"
        )
    return X
"""),
]

PROPS = ["C%02d" % k for k in range(1, 20)]


def prepare(name):
    wt = tempfile.mkdtemp(prefix="benign.", dir="/tmp")
    subprocess.check_call(["cp", "-a", "/repo", wt + "/repo"])
    for f, old, new in G[name]:
        p = os.path.join(wt, "repo", f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit("%s: %d matches in %s of %r" % (name, s.count(old), f, old[:200]))
        open(p, "w").write(s.replace(old, new))
    return wt


def run(wt, name, prop):
    v = tempfile.mkdtemp(prefix="benignv.", dir="/tmp")
    subprocess.check_call(["cp", "-a", "/verif", v + "/verif"])
    r = subprocess.run(["unshare", "-Urm", "bash", "-c",
                        "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && timeout 900 ./check %s %s"
                        % (wt, v, prop, os.environ.get("EXTRA", ""))], capture_output=True, text=True)
    shutil.rmtree(v)
    out = (r.stdout + r.stderr).strip().splitlines()
    return "%s %s rc=%d %s" % (name, prop, r.returncode, "" if r.returncode == 0 else " | ".join(out[-4:])[:600])


if __name__ == "__main__":
    names = [a for a in sys.argv[1:] if a in G] or list(G)
    props = [a for a in sys.argv[1:] if a in PROPS] or PROPS
    wts = {n: prepare(n) for n in names}
    for n in names:
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo && bash /opt/vp/test.sh /tmp/benign.json >/dev/null 2>&1; echo $?" % wts[n]],
                           capture_output=True, text=True)
        print(n, "tests", r.stdout.strip())
    with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for line in ex.map(lambda t: run(*t), [(wts[n], n, p) for n in names for p in props]):
            print(line, flush=True)
    for w in wts.values():
        shutil.rmtree(w)
