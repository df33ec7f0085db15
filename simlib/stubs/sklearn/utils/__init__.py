import numpy as np

from .validation import (check_random_state, check_array, check_X_y, column_or_1d,  # noqa
                         check_consistent_length, check_is_fitted)
from ._bunch import Bunch  # noqa


def _approximate_mode(class_counts, n_draws, rng):
    rng = check_random_state(rng)
    continuous = class_counts / class_counts.sum() * n_draws
    floored = np.floor(continuous)
    need_to_add = int(n_draws - floored.sum())
    if need_to_add > 0:
        remainder = continuous - floored
        values = np.sort(np.unique(remainder))[::-1]
        for value in values:
            (inds,) = np.where(remainder == value)
            add_now = min(len(inds), need_to_add)
            inds = rng.choice(inds, size=add_now, replace=False)
            floored[inds] += 1
            need_to_add -= add_now
            if need_to_add == 0:
                break
    return floored.astype(int)


def _safe_indexing(X, indices, *, axis=0):
    if indices is None:
        return X
    if hasattr(X, "iloc"):
        return X.iloc[indices]
    if hasattr(X, "shape"):
        return X[np.asarray(indices)]
    return [X[int(i)] for i in indices]


def resample(*arrays, replace=True, n_samples=None, random_state=None, stratify=None):
    max_n_samples = n_samples
    random_state = check_random_state(random_state)
    if len(arrays) == 0:
        return None
    first = arrays[0]
    n_samples = first.shape[0] if hasattr(first, "shape") else len(first)
    if max_n_samples is None:
        max_n_samples = n_samples
    elif (max_n_samples > n_samples) and (not replace):
        raise ValueError("Cannot sample %d out of arrays with dim %d when replace is False"
                         % (max_n_samples, n_samples))
    check_consistent_length(*arrays)
    if stratify is None:
        if replace:
            indices = random_state.randint(0, n_samples, size=(max_n_samples,))
        else:
            indices = np.arange(n_samples)
            random_state.shuffle(indices)
            indices = indices[:max_n_samples]
    else:
        y = np.asarray(stratify)
        classes, y_indices = np.unique(y, return_inverse=True)
        n_classes = classes.shape[0]
        class_counts = np.bincount(y_indices)
        class_indices = np.split(np.argsort(y_indices, kind="mergesort"), np.cumsum(class_counts)[:-1])
        n_i = _approximate_mode(class_counts, max_n_samples, random_state)
        indices = []
        for i in range(n_classes):
            indices_i = random_state.choice(class_indices[i], n_i[i], replace=replace)
            indices.extend(indices_i)
        indices = random_state.permutation(indices)
    out = [_safe_indexing(a, indices) for a in arrays]
    return out[0] if len(out) == 1 else out


def shuffle(*arrays, random_state=None, n_samples=None):
    return resample(*arrays, replace=False, n_samples=n_samples, random_state=random_state)


def safe_sqr(X, copy=True):
    return X ** 2


def gen_batches(n, batch_size, min_batch_size=0):
    s = 0
    while s < n:
        yield slice(s, min(n, s + batch_size))
        s += batch_size
