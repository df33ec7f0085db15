# -*- coding: utf-8 -*-
"""Small executable reference model of the transformer, written from the
documentation: distances, features, excerpts and the similarity mask."""
import numpy as np

from .core import Violation


class Shp(object):
    __slots__ = ("values", "length", "dilation", "threshold", "norm", "channels", "i")


def decode(model_shapelets):
    """The public shapelets_ tuple -> list of Shp."""
    t = model_shapelets
    out = []
    if len(t) == 5:
        vals, lens, dils, thr, norm = t
        for i in range(len(lens)):
            s = Shp()
            s.i = i
            s.length = int(lens[i])
            s.values = np.array(vals[i][:s.length], dtype=float).reshape(1, -1)
            if s.values.shape[1] != s.length:
                raise Violation("malformed-model", "shapelet %d: %d values stored for length %d" % (i, s.values.shape[1], s.length))
            s.dilation = int(dils[i])
            s.threshold = float(thr[i])
            s.norm = bool(norm[i])
            s.channels = np.array([0])
            out.append(s)
        return out
    vals, lens, dils, thr, norm, nch, ch = t
    a = b = 0
    for i in range(len(lens)):
        s = Shp()
        s.i = i
        s.length = int(lens[i])
        k = int(nch[i])
        s.values = np.array(vals[a:a + k * s.length], dtype=float)
        if s.values.size != k * s.length or len(ch[b:b + k]) != k:
            raise Violation("malformed-model", "shapelet %d: value or channel array too short" % i)
        s.values = s.values.reshape(k, s.length)
        s.channels = np.array(ch[b:b + k], dtype=int)
        a += k * s.length
        b += k
        s.dilation = int(dils[i])
        s.threshold = float(thr[i])
        s.norm = bool(norm[i])
        out.append(s)
    if a != len(vals) or b != len(ch):
        raise Violation("malformed-model", "value/channel arrays hold %d/%d entries, shapelets account for %d/%d" % (
            len(vals), len(ch), a, b))
    return out


def windows(x, length, dilation, phase):
    """x: 1D -> (n_windows, length)."""
    n = len(x)
    if phase:
        idx = (np.arange(n)[:, None] + dilation * np.arange(length)[None, :]) % n
    else:
        m = n - (length - 1) * dilation
        if m < 1:
            return np.zeros((0, length))
        idx = np.arange(m)[:, None] + dilation * np.arange(length)[None, :]
    return x[idx]


def znorm(w):
    return (w - w.mean(axis=-1, keepdims=True)) / (w.std(axis=-1, keepdims=True) + 1e-8)


def distances(x, s, phase):
    """Distance vector between a series (channels, n) and a shapelet."""
    d = 0
    for k, c in enumerate(s.channels):
        w = windows(x[c], s.length, s.dilation, phase)
        if s.norm:
            w = znorm(w)
        d = d + np.abs(w - s.values[k]).sum(axis=1)
    return d


def check_features(F, rows, shps, phase, exact, note, what=""):
    """Every entry of the feature matrix against the reference."""
    if F.shape != (len(rows), 3 * len(shps)):
        raise Violation("features-shape", "%sfeature matrix has shape %s, expected %s" % (
            what, F.shape, (len(rows), 3 * len(shps))))
    for i, x in enumerate(rows):
        x = np.asarray(x, dtype=float)
        for s in shps:
            d = distances(x, s, phase)
            if len(d) == 0:
                continue
            fmin, farg, fcnt = F[i, 3 * s.i:3 * s.i + 3]
            ex = exact and not s.norm
            mn = d.min()
            scale = 1.0 + abs(mn) + (np.abs(x).max() if not s.norm else 1.0)
            # z-normalising a nearly constant window amplifies rounding by 1/(std+1e-8)
            amp = 1.0
            if s.norm:
                for c in s.channels:
                    w = windows(x[c], s.length, s.dilation, phase)
                    m = np.abs(w).max() if w.size else 0.0
                    sd = w.std(axis=1).min() if w.size else 1.0
                    amp = max(amp, m / (sd + 1e-8))
            tol = 0.0 if ex else 1e-10 * scale * s.length * max(1.0, amp) * 4
            tag = "%sseries %d, shapelet %d (length %d, dilation %d, norm %s, channels %s)" % (
                what, i, s.i, s.length, s.dilation, s.norm, list(s.channels))
            note("features")
            if not abs(fmin - mn) <= tol:
                raise Violation("feature-min", "%s: minimum distance %r, should be %r" % (tag, float(fmin), float(mn)))
            a = int(farg)
            if a != farg or a < 0 or a >= len(d):
                raise Violation("feature-argmin", "%s: position %r outside the %d windows" % (tag, float(farg), len(d)))
            if d[a] > mn + tol:
                raise Violation("feature-argmin", "%s: position %d has distance %r, the minimum is %r at %d" % (
                    tag, a, float(d[a]), float(mn), int(d.argmin())))
            first = int(np.where(d <= mn + tol)[0][0])
            if a != first:
                # an earlier window with the very same content is a tie the model must resolve to the first
                w = np.concatenate([windows(x[c], s.length, s.dilation, phase) for c in s.channels], axis=1)
                same = np.where((w[:a] == w[a]).all(axis=1))[0]
                if ex or len(same):
                    raise Violation("feature-argmin", "%s: position %d, but window %d attains the same minimum first" % (
                        tag, a, int(same[0]) if len(same) else first))
            lo = int((d <= s.threshold - tol).sum())
            hi = int((d <= s.threshold + tol).sum())
            if not lo <= fcnt <= hi or fcnt != int(fcnt):
                raise Violation("feature-count", "%s: %r windows within the threshold %r, should be %s" % (
                    tag, float(fcnt), s.threshold, lo if lo == hi else (lo, hi)))


def excerpts(x, s, phase):
    """Start positions of series x (channels, n) at which the shapelet's raw or
    normalised values appear: list of positions."""
    n = x.shape[1]
    cand = None
    for k, c in enumerate(s.channels):
        if c >= x.shape[0]:
            return []
        w = windows(x[c], s.length, s.dilation, phase)
        if s.norm:
            m = np.abs(w).max() if w.size else 0.0
            z = znorm(w)
            sd = w.std(axis=1)
            tol = (1e-10 * (1 + m) / (sd + 1e-8) + 1e-9)[:, None]
            ok = (np.abs(z - s.values[k]) <= tol).all(axis=1)
        else:
            ok = (w == s.values[k]).all(axis=1)
        cand = ok if cand is None else (cand & ok)
    return [int(i) for i in np.where(cand)[0]]
