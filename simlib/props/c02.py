# -*- coding: utf-8 -*-
"""C02: every shapelet is a genuine excerpt of the training data."""
import numpy as np
from .. import gen as G
from .. import ref
from ..core import Violation
from . import util as U

ID = "C02"
N_QUICK = 4200
RULE = ("A run fits the transformer once under a seeded schedule on a generated dataset and configuration and checks "
        "every retained shapelet against all excerpts of the training series: provenance, channels, length, dilation, "
        "count limits and threshold range.")
shrink = G.shrink_case


def gen(rng, tier, i):
    d = G.data_spec(rng, values=rng.choice(["float", "float", "smooth", "int", "runs", "offset", "flat"]))
    ncpu = rng.choice([1, 2, 3, 4, 4, 8])
    p = G.shapelet_params(rng, d, n_shapelets=rng.choice([4, 8, 12, 20, 30]))
    if rng.random() < 0.2:
        p["n_samples"] = rng.choice([0.5, 0.75, 1.5])
        d["n"] = max(d["n"], 6)
    if d["var"] and rng.random() < 0.3:
        p["min_len"] = max(6, d["len"] + rng.choice([0, -1, -2, -4, 1, 6]))
        ls = p.get("shapelet_lengths")
        if ls and min(ls) < 1 and int(min(ls) * p["min_len"]) < 2:
            p["shapelet_lengths"] = [0.5]
    if rng.random() < 0.15:
        d["labels"] = rng.choice(["neg", "gap", "float"])
    if rng.random() < 0.07:
        # room for many shapelets, some requested lengths longer than the series
        d["len"], d["values"], d["n"] = rng.choice([20, 24, 30]), "float", 6
        d["layout"] = "list" if d["layout"] == "list-mixed" else d["layout"]
        p["n_shapelets"], p["alpha"] = 60, 1.0 if rng.random() < 0.3 else 0.0
        for k in ("shapelet_lengths_bounds", "lengths_bounds_reduction", "min_len"):
            p.pop(k, None)
        p["shapelet_lengths"] = rng.choice([[3, 5], [4, d["len"] + 3], [3, 5, d["len"] + 1], [0.2, 0.4], [5, 3, 7]])
    if rng.random() < 0.03:
        # a census: enough shapelets for everything that can be drawn to be drawn
        d.update(len=rng.choice([14, 20, 24]), values="float", n=6, k=rng.choice([2, 3]))
        d["layout"] = "list" if d["layout"] == "list-mixed" else d["layout"]
        for k in ("shapelet_lengths_bounds", "lengths_bounds_reduction", "n_samples", "min_len"):
            p.pop(k, None)
        p.update(n_shapelets=200, alpha=0.0, shapelet_lengths=rng.choice([[3], [4], [3, 5], [5, 3, 7], [0.25]]),
                 proba_norm=rng.choice([0.2, 0.5, 0.8, 0.8]), percentiles=rng.choice([[0, 100], [5, 10]]))
        if d["ch"] > 1:
            p["max_channels"] = rng.choice([None, 1, 2, 7])
        return {"data": d, "params": p, "ncpu": ncpu, "n_jobs": G.n_jobs(rng, ncpu), "parallel": rng.random() < 0.9,
                "state": G.seed_value(rng), "census": True}
    if rng.random() < 0.15:
        d["n"], d["k"] = 3, 3          # classes with a single member
    if rng.random() < 0.06:
        p.pop("min_len", None)
        G.widen(rng, d, p, kinds=["long", "many", "channels", "classes", "shapelets"])
    G.explicit_type(rng, d, p)
    return U.inside(rng, {"data": d, "params": p, "ncpu": ncpu, "n_jobs": G.n_jobs(rng, ncpu), "parallel": rng.random() < 0.9,
                          "state": G.seed_value(rng)})


def allowed_lengths(p, m):
    """Requested lengths for shortest series m -> predicate."""
    if "shapelet_lengths_bounds" in p:
        b0, b1 = p["shapelet_lengths_bounds"]
        b0 = int(b0 * m) if isinstance(b0, float) else b0
        b1 = int(b1 * m) if isinstance(b1, float) else b1
        ok = list(range(max(3, b0), max(4, b0 + 1, b1 + 1)))
        k = int(len(ok) * p.get("lengths_bounds_reduction", 0.5))
        if len(ok) > 3 and k > 0:
            ok = ok[::len(ok) // k]      # the requested share of them, evenly spaced from the lower bound
        ok = set(ok)
    else:
        ls = p.get("shapelet_lengths", [11])
        ok = set(int(np.floor(m * v)) if isinstance(v, float) else int(v) for v in ls)
        if any(isinstance(v, float) for v in ls):
            ok = set(int(np.floor(m * v)) for v in ls)
    if any(v > m for v in ok):
        ok = set(v if v <= m else m // 2 for v in ok)
    return ok


def check_variety(p, ok, shps):
    """Every requested length that fits is drawn sooner or later: with 3 lengths or fewer and
    60 shapelets or more, all kept, one is absent with probability below 3e-11."""
    got = set(s.length for s in shps)
    if len(shps) == p["n_shapelets"] >= 60 and len(ok) <= 3 and got != ok:
        raise Violation("length-never-used", "%d shapelets have lengths %s only, requested (and fitting) are %s" % (
            len(shps), sorted(got), sorted(ok)))


def census(case, rows, y, shps, note):
    """Everything that can be drawn is drawn among 150 shapelets or more (each alarm has a chance below 1e-9)."""
    p, n = case["params"], len(shps)
    if n < 150 or len(rows) != 6 or case["data"]["values"] != "float":
        return
    note("censuses")
    nch = rows[0].shape[0]
    mch = min(p.get("max_channels") or nch, nch)
    if len(p["shapelet_lengths"]) == 1 and n == p["n_shapelets"]:
        q = p["proba_norm"]
        k = sum(bool(s.norm) for s in shps)
        if abs(k - n * q) > 6.6 * np.sqrt(n * q * (1 - q)):
            raise Violation("norm-share", "%d of %d shapelets are normalised, %r was asked for" % (k, n, q))
    if len(set(s.dilation for s in shps)) < 2:
        raise Violation("draws", "all %d shapelets have dilation %d" % (n, shps[0].dilation))
    where = {}
    spread = []
    for s in shps:
        pl = placements(case, rows, s)
        if len(pl) == 1:
            i, a = pl[0]
            where.setdefault(i, []).append(a)
            others = [j for j in range(len(rows)) if y[j] == y[i] and j != i]
            if len(others) == 1 and p["percentiles"] == [0, 100]:
                d = ref.distances(rows[others[0]], s, p["phase_invariance"])
                if d.max() > d.min():
                    spread.append((s.threshold - d.min()) / (d.max() - d.min()))
    m = sum(len(v) for v in where.values())
    if m >= 150:
        if len(where) != len(rows):
            raise Violation("draws", "%d shapelets come from the training series %s only" % (m, sorted(where)))
        if any(len(set(v)) == 1 for v in where.values() if len(v) >= 15) and min(len(r[0]) for r in rows) >= 14:
            raise Violation("draws", "all shapelets of some series start at one position: %s" % where)
    if len(spread) >= 100 and not (min(spread) < 0.2 and max(spread) > 0.8):
        raise Violation("draws", "the thresholds lie between %.3f and %.3f of the requested percentile range" % (
            min(spread), max(spread)))
    if nch > 1:
        sizes = set(len(s.channels) for s in shps)
        used = set(int(c) for s in shps for c in s.channels)
        if used != set(range(nch)):
            raise Violation("draws", "%d shapelets use the channels %s only, of %d" % (n, sorted(used), nch))
        if max(sizes) != mch or min(sizes) != 1:
            raise Violation("draws", "%d shapelets have %s channels, from 1 to %d are allowed" % (n, sorted(sizes), mch))


def is_prime(n):
    return n > 1 and all(n % k for k in range(2, int(n ** 0.5) + 1))


def min_len(case, rows):
    m = min(r.shape[1] for r in rows)
    if case["data"]["var"] and case["params"].get("min_len") is not None:
        m = min(m, case["params"]["min_len"])
    return m


def check_structure(case, rows, y, shps, note):
    p = case["params"]
    m = min_len(case, rows)
    ok = allowed_lengths(p, m)
    nch = rows[0].shape[0]
    mch = min(p.get("max_channels") or nch, nch)
    if len(shps) > p["n_shapelets"]:
        raise Violation("too-many", "%d shapelets kept, at most %d requested" % (len(shps), p["n_shapelets"]))
    for s in shps:
        t = "shapelet %d (length %d, dilation %d, norm %s, channels %s)" % (
            s.i, s.length, s.dilation, s.norm, list(s.channels))
        note("shapelets")
        if s.length not in ok:
            raise Violation("length", "%s: requested lengths are %s" % (t, sorted(ok)))
        if s.dilation < 1 or (s.length - 1) * s.dilation >= m:
            raise Violation("dilation", "%s: does not fit the shortest series (%d points)" % (t, m))
        if p.get("prime_dilations") and s.dilation != 1 and not is_prime(s.dilation):
            raise Violation("dilation", "%s: dilation is not prime" % t)
        if len(set(s.channels.tolist())) != len(s.channels) or s.channels.min() < 0 or s.channels.max() >= nch:
            raise Violation("channels", "%s: channels are not distinct channels of the data (%d)" % (t, nch))
        if len(s.channels) > mch:
            raise Violation("channels", "%s: more than %d channels" % (t, mch))
        if p["proba_norm"] in (0.0, 1.0) and s.norm != bool(p["proba_norm"]):
            raise Violation("norm-flag", "%s: proba_norm is %s" % (t, p["proba_norm"]))


def placements(case, rows, s):
    ph = case["params"]["phase_invariance"]
    out = []
    for i, x in enumerate(rows):
        for a in ref.excerpts(x, s, ph):
            out.append((i, a))
    return out


def check_threshold(case, rows, y, s, pl, t):
    p = case["params"]
    ph = p["phase_invariance"]
    lo_p, hi_p = p["percentiles"]
    sub = p.get("n_samples") is not None
    seen = []
    for i in sorted(set(a for a, _ in pl)):
        others = [j for j in range(len(rows)) if y[j] == y[i] and j != i]
        if not others or sub:
            others = others + [i]
        for j in others:
            d = ref.distances(rows[j], s, ph)
            a, b = np.percentile(d, [lo_p, hi_p])
            tol = 1e-8 * (1 + abs(b) + np.abs(rows[j]).max())
            if s.norm:
                for c in s.channels:
                    w = ref.windows(rows[j][c], s.length, s.dilation, ph)
                    tol = max(tol, 1e-10 * np.abs(w).max() / (w.std(axis=1).min() + 1e-8) * s.length)
            if a - tol <= s.threshold <= b + tol:
                return
            seen.append((j, float(a), float(b)))
    raise Violation("threshold", "%s: threshold %r is outside the percentile range to every other series of its class: %s" % (
        t, s.threshold, seen[:6]))


def run(case, ctx):
    ctx.boot(parallel=case.get("parallel", True))
    X, rows, y = G.build(case["data"])
    m = U.make_inside(ctx, case)
    ctx.begin("fit")
    ctx.call("fit", m.fit, X, y)
    ctx.end()
    note = lambda k: ctx.notes.__setitem__(k, ctx.notes.get(k, 0) + 1)
    for name, tr, rs, p, _ in U.parts(case, m, rows):
        audit(dict(case, params=p), rs, y, ref.decode(tr.shapelets_), note, name)
        note("audited-in-" + case.get("est", "T"))


def audit(case, rows, y, shps, note, name):
    check_structure(case, rows, y, shps, note)
    if case.get("census"):
        census(case, rows, y, shps, note)
    check_variety(case["params"], allowed_lengths(case["params"], min_len(case, rows)), shps)
    sources = set()
    for s in shps:
        t = "%sshapelet %d (length %d, dilation %d, norm %s, channels %s)" % (
            name, s.i, s.length, s.dilation, s.norm, list(s.channels))
        pl = placements(case, rows, s)
        if len(set(i for i, _ in pl)) == 1:
            sources.add(pl[0][0])
        note("excerpts")
        if not pl:
            raise Violation("not-an-excerpt", "%s: values %s appear at no start position of any training series" % (
                t, np.round(s.values, 4).tolist()))
        check_threshold(case, rows, y, s, pl, t)
        note("thresholds")
    share = case["params"].get("n_samples")
    if share is not None and len(sources) > int(len(rows) * share):
        raise Violation("too-many-series", "%sshapelets come from %d training series, n_samples=%r of %d allow %d" % (
            name, len(sources), share, len(rows), int(len(rows) * share)))
