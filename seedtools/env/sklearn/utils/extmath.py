import numpy as np


def softmax(X, copy=True):
    X = np.array(X, dtype=np.float64, copy=True) if copy else X
    max_prob = np.max(X, axis=1).reshape((-1, 1))
    X -= max_prob
    np.exp(X, X)
    sum_prob = np.sum(X, axis=1).reshape((-1, 1))
    X /= sum_prob
    return X


def safe_sparse_dot(a, b, *, dense_output=False):
    return a @ b


def row_norms(X, squared=False):
    n = (np.asarray(X) ** 2).sum(axis=1)
    return n if squared else np.sqrt(n)
