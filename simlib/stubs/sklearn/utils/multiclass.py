import numpy as np


def unique_labels(*ys):
    return np.unique(np.concatenate([np.asarray(y).ravel() for y in ys]))


def check_classification_targets(y):
    t = type_of_target(y)
    if t not in ("binary", "multiclass", "multiclass-multioutput", "multilabel-indicator"):
        raise ValueError("Unknown label type: %r" % t)


def type_of_target(y, input_name=""):
    y = np.asarray(y)
    if y.dtype.kind == "f" and np.any(y != y.astype(int)):
        return "continuous"
    return "multiclass" if len(np.unique(y)) > 2 else "binary"
