import numpy as np


def compute_class_weight(class_weight, *, classes, y):
    if class_weight is None or len(class_weight) == 0:
        return np.ones(classes.shape[0])
    if class_weight == "balanced":
        cl, ind = np.unique(y, return_inverse=True)
        recip = len(y) / (len(cl) * np.bincount(ind).astype(np.float64))
        return recip[np.searchsorted(cl, classes)]
    w = np.ones(classes.shape[0])
    for i, c in enumerate(classes):
        if c in class_weight:
            w[i] = class_weight[c]
    return w


def compute_sample_weight(class_weight, y, *, indices=None):
    classes = np.unique(y)
    w = compute_class_weight(class_weight, classes=classes, y=y)
    return w[np.searchsorted(classes, y)]
