# -*- coding: utf-8 -*-
"""The simulated dataset archive behind aeon.datasets.load_classification."""
import zipfile

import numpy as np
from . import core

KINDS = ["error", "timeout", "partial", "missing", "reset", "refused", "malformed", "not-a-zip", "full", "memory", "key"]

sets = {}       # name -> {"train": (X, y), "test": (X, y)}
faults = {}     # call number -> exception to raise
calls = []
failed = []     # numbers of the calls that failed
always = None   # the archive is down: every call fails this way
cached = False  # archive hands out the same objects every time (in-memory cache)


def reset():
    global cached, always
    always = None
    sets.clear()
    faults.clear()
    del calls[:]
    del failed[:]
    cached = False


class DownloadError(OSError):
    pass


def retried(since=0):
    """Every failed call since then was repeated (and answered) later on."""
    for n in failed:
        if n >= since and not any(calls[j] == calls[n] and j not in failed for j in range(n + 1, len(calls))):
            return False
    return True


def _copy(X):
    if isinstance(X, list):
        return [np.array(x) for x in X]
    return np.array(X)


def load(name, split, return_metadata, kw):
    core.tick_p()
    n = len(calls)
    calls.append((name, split))
    f = faults.pop(n, None) or always
    core.S.log("load", name, split)
    if f is not None:
        failed.append(n)
        core.S.fire("archive-" + f)
        if f == "timeout":
            raise TimeoutError("simulated: archive timed out")
        if f == "partial":
            raise EOFError("simulated: connection reset while reading")
        if f == "missing":
            raise FileNotFoundError("simulated: no such file")
        if f == "reset":
            raise ConnectionResetError("simulated: connection reset by peer")
        if f == "refused":
            raise ConnectionRefusedError("simulated: connection refused")
        if f == "malformed":
            raise ValueError("simulated: malformed file")
        if f == "not-a-zip":
            raise zipfile.BadZipFile("simulated: file is not a zip file")
        if f == "full":
            raise OSError(28, "simulated: no space left on device")
        if f == "memory":
            raise core.injected("MemoryError", "simulated: dataset does not fit")
        if f == "key":
            raise KeyError("simulated: unknown dataset")
        raise DownloadError("simulated: archive unreachable")
    if name not in sets:
        raise DownloadError("simulated: no dataset " + str(name))
    d = sets[name]
    sp = split.lower() if isinstance(split, str) else split
    if sp in ("train", "test"):
        X, y = d[sp]
    elif sp is None:
        X1, y1 = d["train"]
        X2, y2 = d["test"]
        X = X1 + X2 if isinstance(X1, list) else np.concatenate((X1, X2))
        y = np.concatenate((y1, y2))
    else:
        raise ValueError("split must be train, test or None")
    if not cached:
        X, y = _copy(X), np.array(y)
    core.tick_p()
    if return_metadata:
        return X, y, {"problemname": name}
    return X, y
