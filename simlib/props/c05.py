# -*- coding: utf-8 -*-
"""C05: refitting equals fitting afresh; clones are fresh estimators."""
import numpy as np
from .. import core, gen as G
from ..core import Violation
from . import util as U

ID = "C05"
N_QUICK = 1100
RULE = ("A run applies a random history (fits on datasets of other sizes, channel counts and length kinds, fits interrupted by "
        "an injected MemoryError or KeyboardInterrupt, rejected data, transform, predict, clone, set_params) to one estimator; after every "
        "completed fit its shapelets, weights, features and predictions are compared bit for bit with those of a newly built "
        "estimator fitted once on that dataset.")


def params_for(rng, datas, est):
    d = min(datas, key=lambda s: s["len"])
    p = U.est_params(rng, d, est, n_shapelets=rng.choice([3, 5, 8]))
    if p.get("shapelet_lengths") and max(p["shapelet_lengths"]) > d["len"]:
        p["shapelet_lengths"] = [3]
    p.pop("max_channels", None)
    if est != "R" and rng.random() < 0.3:
        p["max_channels"] = rng.choice([1, 2])
    if est == "E" and any(s["var"] for s in datas):
        p["inputs"] = rng.choice([["raw"], ["raw", "raw"], ["center", "raw"]])
        p["proba_norm"] = [rng.choice([0.0, 0.5, 1.0]) for _ in p["inputs"]]
    if rng.random() < 0.2:
        p["n_samples"] = rng.choice([0.5, 1.5])
        for s in datas:
            s["n"], s["k"] = max(8, s["n"]), 2
    return p


def gen(rng, tier, i):
    est = rng.choice(["T", "T", "T", "R", "R", "E"])
    nd = rng.choice([2, 2, 3])
    datas = [U.fix_spec(G.data_spec(rng), est) for _ in range(nd)]
    if est == "E" and rng.random() < 0.5:
        for d in datas:
            if d["var"]:
                d["var"], d["layout"] = False, "C"
    if est == "E":
        datas = datas[:2]
    p = params_for(rng, datas, est)
    ops = []
    for _ in range(rng.randint(2, 5) if est != "E" else rng.randint(2, 3)):
        k = rng.choice(["fit", "fit", "fit", "fail", "fail", "use", "clone", "bad", "other", "set"])
        op = {"op": k, "d": rng.randrange(len(datas))}
        if k == "fail":
            op["fault"] = U.fault_spec(rng)
        if k == "clone":
            op["swap"] = rng.random() < 0.6
        ops.append(op)
    ops.append({"op": "fit", "d": rng.randrange(len(datas))})
    p2 = dict(p)
    if any(o["op"] == "set" for o in ops):
        q = params_for(rng, datas, est)
        for k in ("phase_invariance", "prime_dilations", "alpha", "percentiles", "shapelet_lengths", "shapelet_lengths_bounds",
                  "n_shapelets"):
            if k in q and k in p and rng.random() < 0.6:
                p2[k] = q[k]
        if est != "E" and rng.random() < 0.4:
            # bounds instead of lengths, or back to the default lengths
            if p.get("shapelet_lengths_bounds"):
                p2["shapelet_lengths_bounds"] = None
            else:
                p["shapelet_lengths_bounds"] = None
                p2["shapelet_lengths_bounds"] = rng.choice([[3, 6], [4, 8], [3, 4]])
    return {"est": est, "datas": datas, "params": p, "params2": p2, "state": rng.randrange(1000), "ops": ops,
            "n_jobs": rng.choice([1, 2, -1])}


def shrink(case):
    out = []
    for k in range(len(case["ops"]) - 1):
        out.append(dict(case, ops=case["ops"][:k] + case["ops"][k + 1:]))
    for j, d in enumerate(case["datas"]):
        for s in G.shrink_spec(d, min_n=4 if case["est"] != "T" else 2, min_len=16 if case["est"] == "E" else 8):
            out.append(dict(case, datas=case["datas"][:j] + [s] + case["datas"][j + 1:]))
    for p in G.shrink_params(case["params"]):
        out.append(dict(case, params=p))
    for n in (1, 2):
        if n < case["ncpu"]:
            out.append(dict(case, ncpu=n))
    return out


def refuses(m, est, X):
    try:
        (m.transform if est == "T" else m.predict)(X)
    except (core.Violation, core.SimAbort, core.HarnessError):
        raise
    except Exception:
        return True
    return False


def run(case, ctx):
    note = U.noter(ctx)
    est = case["est"]
    sets = [G.build(d) for d in case["datas"]]
    tests = [U.test_set(d, n=3)[0] for d in case["datas"]]
    used, which = set(), 0
    for o in case["ops"]:
        which ^= o["op"] == "set"
        used.add((which, o["d"]))
    used = sorted(used)
    psets = [case["params"], case["params2"]]
    ref, cost = {}, {}
    for key in used:
        w, j = key
        ctx.boot()
        m = U.make(ctx, est, psets[w], n_jobs=case["n_jobs"], state=case["state"])
        ctx.begin("fresh")
        _, steps, pl = U.measure(ctx, lambda: ctx.call("fit of a new estimator", m.fit, sets[j][0], sets[j][2]))
        cost[key] = (steps, pl)
        ctx.end()
        ctx.begin("fresh-use")
        ref[key] = U.fingerprint(est, m) + U.outputs(ctx, est, m, tests[j])
        ctx.end()
    ctx.boot()
    from sklearn.base import clone
    m = U.make(ctx, est, case["params"], n_jobs=case["n_jobs"], state=case["state"])
    fitted = None
    hist = []
    which = 0
    for o in case["ops"]:
        j = o["d"]
        X, _, y = sets[j]
        hist.append(o["op"] + str(j))
        if o["op"] in ("fit", "fail"):
            faults = [U.place(o["fault"], *cost[which, j])] if o["op"] == "fail" else ()
            ctx.begin(o["op"], faults=faults)
            if o["op"] == "fit":
                ctx.call("fit", m.fit, X, y)
                res = "ok"
            else:
                res, e = U.attempt(ctx, lambda: m.fit(X, y))
                if res == "error":
                    raise Violation("error:fit", "fit failed with %s: %s after %s" % (type(e).__name__, str(e)[:200], hist))
                if res == "injected":
                    note("interrupted-fits")
            ctx.end()
            if res == "ok":
                ctx.begin("check")
                got = U.fingerprint(est, m) + U.outputs(ctx, est, m, tests[j])
                ctx.end()
                U.same("history-dependent", ref[which, j], got, "%s after %s, compared with a new estimator" % (est, hist))
                note("refits-compared")
                fitted = j
            else:
                fitted = None
        elif o["op"] == "use":
            if fitted is not None:
                ctx.begin("use")
                U.outputs(ctx, est, m, tests[fitted])
                ctx.end()
        elif o["op"] == "set":
            which ^= 1
            ctx.call("set_params", m.set_params, n_jobs=[-1, 1, 2][j % 3], **U.kwargs(est, psets[which]))
            note("parameter-changes")
            fitted = None
        elif o["op"] == "clone":
            ctx.begin("clone")
            c = ctx.call("clone", clone, m)
            ctx.end()
            if not refuses(c, est, tests[j]):
                raise Violation("clone-is-fitted", "a clone answers without having been fitted, after %s" % hist)
            note("clones")
            if o["swap"]:
                m, fitted = c, None
            else:
                ctx.begin("clone-fit")
                ctx.call("fit of a clone", c.fit, X, y)
                got = U.fingerprint(est, c) + U.outputs(ctx, est, c, tests[j])
                ctx.end()
                U.same("clone-differs", ref[which, j], got, "clone of %s after %s, compared with a new estimator" % (est, hist))
        elif o["op"] == "bad":
            r = np.random.RandomState(case["state"])
            bad = [r.rand(2, 9), r.rand(1, 9), r.rand(2, 9), r.rand(2, 9)] if j % 2 else r.rand(4, 9)
            ctx.begin("bad")
            res, _ = U.attempt(ctx, lambda: m.fit(bad, np.array([0, 1, 0, 1])))
            ctx.end()
            if res == "ok":
                raise Violation("bad-accepted", "fit accepted malformed series (2D array / mixed channel counts)")
            fitted = None
        elif o["op"] == "other":
            # another estimator of the same class goes through a different history
            q = U.make(ctx, est, case["params"], n_jobs=1, state=case["state"] + 1)
            ctx.begin("other")
            ctx.call("fit of another estimator", q.fit, X, y)
            ctx.end()
