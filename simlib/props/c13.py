# -*- coding: utf-8 -*-
"""C13: n_jobs bounds the number of threads used."""
import pickle
import numpy as np
from .. import core, gen as G
from ..core import Violation
from . import util as U

ID = "C13"
N_QUICK = 1500
RULE = ("A run performs a random history in one or two simulated processes: estimators of the three kinds are built with "
        "different n_jobs, fitted, used, cloned, re-parameterised, pickled and restored on a machine with another core count, from "
        "the main thread, from fresh threads and from several at once, after the user changed the thread mask; for every fit, "
        "transform, predict and score the peak number of threads computing for it is compared with its n_jobs.")
NJOBS = [1, 1, 2, 2, 3, -1, -2, None, 4, 5, 6, 7, -3, 16]


def gen(rng, tier, i):
    ests = []
    ncpu = rng.choice([2, 3, 4, 4, 6, 8, 2, 3, 4, 4, 6, 8, 64, 96])
    # the most negative number that means something stands for one processor
    NJ = NJOBS + [-ncpu]
    for _ in range(rng.choice([1, 2, 2, 3])):
        est = rng.choice(["T", "R", "E", "E"])
        d = U.fix_spec(G.data_spec(rng, n=rng.choice([6, 8, 9])), est)
        p = U.est_params(rng, d, est, n_shapelets=rng.choice([2, 4]))
        if est == "E":
            p["prefer"] = rng.choice([None, None, "threads"])
        ests.append({"est": est, "data": d, "params": p, "n_jobs": rng.choice(NJ), "state": rng.randrange(1000)})
    acts = []
    for _ in range(rng.choice([2, 3, 4, 5])):
        acts.append({"act": rng.choice(["fit", "fit", "use", "use", "use", "score", "mask", "build", "clone", "params", "restore",
                                        "failed-fit", "together"]),
                     "e": rng.randrange(len(ests)), "where": rng.choice(["main", "main", "thread"]),
                     "n_jobs": rng.choice(NJ), "k": rng.randrange(1, 9), "n": rng.choice([5, 8]) if rng.random() < 0.94 else 70,
                     "ncpu": rng.choice([1, 2, 3, 4, 8]), "f": U.fault_spec(rng)})
    return {"ests": ests, "acts": acts, "ncpu": ncpu}


def shrink(case):
    out = []
    for k in range(len(case["acts"])):
        out.append(dict(case, acts=case["acts"][:k] + case["acts"][k + 1:]))
    for k, a in enumerate(case["acts"]):
        if a["where"] != "main":
            out.append(dict(case, acts=case["acts"][:k] + [dict(a, where="main")] + case["acts"][k + 1:]))
    for k, e in enumerate(case["ests"]):
        for p in G.shrink_params(e["params"]):
            if p.get("n_shapelets", 2) >= 2 and ("inputs" not in p or p.get("inputs") == e["params"].get("inputs")):
                out.append(dict(case, ests=case["ests"][:k] + [dict(e, params=p)] + case["ests"][k + 1:]))
    return out


def limit(n_jobs, ncpu):
    if n_jobs is None:
        return 1
    return n_jobs if n_jobs > 0 else max(1, ncpu + 1 + n_jobs)


def run(case, ctx):
    note = U.noter(ctx)
    ncpu = case["ncpu"]
    sim = ctx.boot(ncpu=ncpu)
    seq = [0]
    # per estimator: the object, its n_jobs as last requested, and the most cores that request can mean
    obj, lim, fitted = [], [], []

    def n_ok(n_jobs, cpus):
        return n_jobs is None or n_jobs > 0 or cpus + 1 + n_jobs >= 1

    def top_of(k):
        return max(limit(n, ncpu) for n in lim[k])

    def build(e, n_jobs):
        if not n_ok(n_jobs, ncpu):
            n_jobs = 1
        return U.make(ctx, e["est"], e["params"], n_jobs=n_jobs, state=e["state"]), n_jobs

    def measured(name, k, fn, where, expect_fail=False):
        """Run one operation of estimator k and compare its peak with its limit."""
        sim = ctx.sim
        seq[0] += 1
        op = "op%d" % seq[0]

        def check():
            got = sim.max_active.get(op, 0)
            top = top_of(k)
            note("operations-measured")
            note("peak-%d" % got)
            if got > top:
                raise Violation("too-many-threads", "%s with n_jobs=%s on %d cores computes with %d threads at once, at most %d allowed"
                                % (name, lim[k][0], ncpu, got, top))
        if where == "thread":
            t = sim.spawn(fn, "caller", "py")
            t.op = op
            sim.join([t])
            if t.exc is not None:
                raise t.exc
        else:
            sim.cur.op = op
            try:
                fn()
            finally:
                sim.cur.op = None
        check()

    def fit_fn(k):
        e = case["ests"][k]
        X, _, y = G.build(e["data"])
        return lambda: (ctx.call("fit", obj[k].fit, X, y), fitted.__setitem__(k, True))

    def use_fn(k, a):
        e = case["ests"][k]
        Xt, _, yt = U.test_set(e["data"], n=a["n"])
        if e["est"] == "T":
            return lambda: ctx.call("transform", obj[k].transform, Xt)
        if a["act"] == "score":
            return lambda: ctx.call("score", obj[k].score, Xt, yt)
        return lambda: ctx.call("predict", obj[k].predict, Xt)

    for e in case["ests"]:
        m, nj = build(e, e["n_jobs"])
        obj.append(m)
        lim.append([nj])
        fitted.append(False)
    todo = [{"act": "fit", "e": k, "where": "main"} for k in range(len(obj))] + case["acts"] + \
        [{"act": "use", "e": 0, "where": "main", "n": 8}]
    for j, a in enumerate(todo):
        k = a["e"]
        e = case["ests"][k]
        act = a["act"]
        what = "%s of %s" % (act, e["est"])
        if act == "fit":
            ctx.begin("act%d" % j)
            measured(what, k, fit_fn(k), a["where"])
            ctx.end()
        elif act in ("use", "score"):
            if not fitted[k]:
                continue
            ctx.begin("act%d" % j)
            measured(what, k, use_fn(k, a), a["where"])
            ctx.end()
        elif act == "mask":
            import numba
            numba.set_num_threads(1 + a["k"] % ncpu)
        elif act == "build":
            build(e, a["n_jobs"])
        elif act == "clone":
            from sklearn.base import clone
            obj[k] = ctx.call("clone", clone, obj[k])
            fitted[k] = False
        elif act == "params":
            if n_ok(a["n_jobs"], ncpu):
                ctx.call("set_params", obj[k].set_params, n_jobs=a["n_jobs"])
                lim[k] = [a["n_jobs"]]
        elif act == "restore":
            data = pickle.dumps(obj)
            new = a["ncpu"]
            if not all(n_ok(n, new) for l in lim for n in l):
                continue
            ncpu = new
            ctx.boot(ncpu=ncpu, entropy=case["entropy"] + j)
            obj[:] = pickle.loads(data)
        elif act == "failed-fit":
            X, _, y = G.build(e["data"])

            def go():
                obj[k].fit(X, y)
            ctx.begin("act%d" % j, faults=[{"at": 30 + int(a["f"]["frac"] * 3000), "exc": a["f"]["exc"], "where": "any"}])
            try:
                U.attempt(ctx, go)
            finally:
                ctx.end()
            ctx.begin("act%d-refit" % j)
            measured("fit of %s after a failed one" % e["est"], k, fit_fn(k), a["where"])
            ctx.end()
        elif act == "together":
            if not all(fitted):
                continue
            ctx.begin("act%d" % j)
            sim = ctx.sim
            ths = []
            for q in range(len(obj)):
                seq[0] += 1
                t = sim.spawn(use_fn(q, a), "caller%d" % q, "py")
                t.op = "op%d" % seq[0]
                ths.append((q, t))
            sim.join([t for _, t in ths])
            for q, t in ths:
                if t.exc is not None:
                    raise t.exc
            ctx.end()
            for q, t in ths:
                got = sim.max_active.get(t.op, 0)
                note("operations-measured")
                if got > top_of(q):
                    raise Violation("too-many-threads", "use of %s with n_jobs=%s on %d cores next to others computes with %d threads "
                                    "at once" % (case["ests"][q]["est"], lim[q][0], ncpu, got))
