# -*- coding: utf-8 -*-
"""C04: similarity pruning holds under every schedule."""
import itertools
import numpy as np
from .. import gen as G
from .. import ref
from ..core import Violation
from . import c02
from . import util as U

ID = "C04"
N_QUICK = 5000
RULE = ("A run fits the transformer with many shapelets on few short series (so that the search space fills up) under a "
        "seeded schedule, recovers every shapelet's start from the data and replays the documented exclusion mask: no "
        "retained shapelet starts at an excluded position, and shapelets are missing only where a class is exhausted.")
shrink = G.shrink_case


def gen(rng, tier, i):
    d = G.data_spec(rng, values=rng.choice(["float", "float", "smooth", "offset"]), n=rng.choice([2, 2, 3, 4]),
                    length=rng.choice([8, 9, 10, 12, 14, 16]))
    d["k"] = 2
    if d["layout"] == "list-mixed":
        d["layout"] = "list"        # whole numbers make constant excerpts, which are discarded
    p = G.shapelet_params(rng, d, n_shapelets=rng.choice([10, 20, 30, 40, 60]))
    p.pop("shapelet_lengths_bounds", None)
    p.pop("lengths_bounds_reduction", None)
    p["shapelet_lengths"] = rng.choice([[3], [4], [3, 5], [4, 6], [3, 4, 5], [5, 7], [7]])
    p["alpha"] = rng.choice([0.0, 0.25, 0.5, 0.5, 0.75, 1.0])
    if rng.random() < 0.35:
        # a short and a long length, so that some dilations get the long one only
        d["len"] = rng.choice([20, 24, 28])
        p["shapelet_lengths"] = rng.choice([[3, 10], [3, 12], [4, 14]])
        p["alpha"] = rng.choice([0.0, 0.0, 0.25, 0.5])
        p["n_shapelets"] = rng.choice([6, 8, 10, 14])
        if rng.random() < 0.6:
            p["proba_norm"] = rng.choice([0.0, 1.0])
    elif rng.random() < 0.04:
        # far beyond the usual sizes
        if rng.random() < 0.6:
            d["len"], d["n"], d["ch"], d["spread"] = rng.choice([300, 515, 600]), 2, 1, min(d["spread"], 0.2)
            d["var"] = d["var"] and rng.random() < 0.5
            if not d["var"]:
                d["layout"] = "C"
            p["shapelet_lengths"] = rng.choice([[40, 60], [60], [100]])
            p["alpha"], p["proba_norm"] = rng.choice([0.0, 0.0, 0.25]), rng.choice([0.0, 1.0])
        else:
            d["ch"], d["n"], d["len"], d["spread"] = rng.choice([8, 17]), 2, rng.choice([8, 9, 10]), min(d["spread"], 0.2)
        p["n_shapelets"] = rng.choice([20, 30, 40])
    ncpu = rng.choice([1, 2, 3, 4, 4, 8])
    return U.inside(rng, {"data": d, "params": p, "ncpu": ncpu, "n_jobs": G.n_jobs(rng, ncpu), "parallel": rng.random() < 0.9,
                          "state": rng.randrange(1000)})


def excl(n, L, d, s, alpha, lmin):
    k = L - int(max(1, (1 - alpha) * lmin))
    out = set()
    for j in range(max(0, k)):
        out.add((s + j * d) % n)
        out.add((s - j * d) % n)
    return out


def run(case, ctx):
    ctx.boot(parallel=case.get("parallel", True))
    X, rows, y = G.build(case["data"])
    m = U.make_inside(ctx, case)
    ctx.begin("fit")
    ctx.call("fit", m.fit, X, y)
    ctx.end()
    note = lambda k: ctx.notes.__setitem__(k, ctx.notes.get(k, 0) + 1)
    for name, tr, rs, p, _ in U.parts(case, m, rows):
        audit(dict(case, params=p), rs, ref.decode(tr.shapelets_), note)
        note("audited-in-" + case.get("est", "T"))


def audit(case, rows, shps, note):
    p = case["params"]
    nch = rows[0].shape[0]
    multi = nch > 1
    alpha = p["alpha"]
    m_len = c02.min_len(case, rows)
    lens = sorted(c02.allowed_lengths(p, m_len))
    complete = len(shps) == p["n_shapelets"]
    lmin_d = {}
    for s in shps:
        lmin_d[s.dilation] = min(s.length, lmin_d.get(s.dilation, 10 ** 9))
    mask = {}       # (dil, norm) -> {(series, channel): set}   certain exclusions
    starts = {}     # (dil, norm) -> [(series, start, length, channels)], every possible one
    for s in shps:
        key = (s.dilation, s.norm)
        mk = mask.setdefault(key, {})
        st = starts.setdefault(key, [])
        pl = c02.placements(case, rows, s)
        t = "shapelet %d (length %d, dilation %d, norm %s, channels %s)" % (
            s.i, s.length, s.dilation, s.norm, list(s.channels))
        if not pl:
            raise Violation("not-an-excerpt", t + " appears nowhere in the training data")
        good = []
        for (i, a) in pl:
            free = sum(1 for c in s.channels if a not in mk.get((i, int(c)), ()))
            if (free >= alpha * len(s.channels)) if multi else free == 1:
                good.append((i, a))
        note("placements")
        if not good:
            i, a = pl[0]
            raise Violation("overlap", "%s starts at position %d of series %d, which earlier shapelets of the same "
                            "dilation and normalisation exclude (alpha %s)" % (t, a, i, alpha))
        st.extend((i, a, s.length, s.channels) for (i, a) in pl)
        if len(pl) == 1:
            i, a = pl[0]
            n = rows[i].shape[1]
            for c in s.channels:
                mk.setdefault((i, int(c)), set()).update(
                    excl(n, s.length, s.dilation, a, alpha, lmin_d[s.dilation]))
    if complete:
        return
    note("incomplete-models")
    # A shapelet was dropped: some class must have had no allowed start left.  Lmin of a
    # dilation is the smallest length kept there, or a smaller one all shapelets of which
    # were dropped, and then that length itself must have been without a start.
    mch = min(p.get("max_channels") or nch, nch)
    for (d, norm), st in sorted(starts.items()):
        for lmin in lens:
            if lmin > lmin_d[d] or (lmin - 1) * d >= m_len:
                continue
            ov = {}
            for (i, a, L, ch) in st:
                e = excl(rows[i].shape[1], L, d, a, alpha, lmin)
                for c in ch:
                    ov.setdefault((i, int(c)), set()).update(e)
            for L in lens if lmin == lmin_d[d] else [lmin]:
                if L < lmin or (L - 1) * d >= m_len:
                    continue
                for k in range(1, mch + 1):
                    for K in itertools.combinations(range(nch), k):
                        if not any_start(rows, ov, L, d, K, alpha, multi, p["phase_invariance"]):
                            note("exhausted-classes")
                            return
    raise Violation("missing-shapelets", "only %d of %d shapelets were returned although every dilation/normalisation "
                    "class still had an allowed start" % (len(shps), p["n_shapelets"]))


def any_start(rows, ov, L, d, K, alpha, multi, phase):
    for i, x in enumerate(rows):
        n = x.shape[1]
        for a in range(n if phase else n - (L - 1) * d):
            free = sum(1 for c in K if a not in ov.get((i, c), ()))
            if (free >= alpha * len(K)) if multi else free == 1:
                return True
    return False
