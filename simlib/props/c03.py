# -*- coding: utf-8 -*-
"""C03: same seed, same model, whatever the threads do."""
import random
import numpy as np
from .. import core, gen as G
from . import util as U

ID = "C03"
N_QUICK = 1400
RULE = ("A run fits the same estimator (transformer, ridge, ensemble) with the same integer seed in two or three simulated "
        "processes that differ in core count, n_jobs, thread layer, work partition, schedule, state of every thread-local "
        "and global generator, numba parallelism, earlier and concurrent activity, and compares shapelets, features, "
        "weights and predictions bit for bit.")
shrink = G.shrink_case


def gen(rng, tier, i):
    est = rng.choice(["T", "T", "T", "R", "E"])
    d = U.fix_spec(G.data_spec(rng), est)
    p = U.est_params(rng, d, est, n_shapelets=rng.choice([4, 8, 12]) if est == "T" else rng.choice([3, 5]))
    if rng.random() < 0.3:
        p["n_samples"] = rng.choice([0.5, 0.75, 1.5])
        d["n"] = max(d["n"], 8)
        d["k"] = 2
    if rng.random() < 0.08:
        G.widen(rng, d, p, est=est)
        if p.get("n_samples"):
            d["n"], d["k"] = max(8, d["n"]), 2
    if est == "T" and rng.random() < 0.04:
        # long series take many dilations
        d["len"], d["n"], d["k"], d["ch"], d["spread"] = rng.choice([60, 90, 130]), 3, 2, rng.choice([1, 1, 2]), min(d["spread"], 0.2)
        p.pop("shapelet_lengths_bounds", None)
        p.pop("n_samples", None)
        p["shapelet_lengths"], p["n_shapelets"] = rng.choice([[3], [2, 3]]), rng.choice([20, 30])
    if rng.random() < 0.2:
        d["labels"] = rng.choice(["str", "float", "obj", "bool", "u8"])
    G.explicit_type(rng, d, p)
    envs = []
    for _ in range(rng.choice([1, 1, 2])):
        ncpu = rng.choice([1, 2, 3, 4, 8])
        envs.append({"ncpu": ncpu, "n_jobs": G.n_jobs(rng, ncpu), "entropy": rng.randrange(1 << 30),
                     "parallel": rng.random() < 0.85,
                     "layer": {"participate": rng.random() < 0.5, "chunk": rng.choice(["static", "dynamic"]),
                               "persist": rng.random() < 0.5},
                     "before": rng.choice(["none", "draw", "seed", "fit", "kernel-seed"]),
                     "noise": rng.choice(["none", "none", "draw", "fit"])})
    return {"est": est, "data": d, "params": p, "state": G.seed_value(rng), "envs": envs}


def shrink(case):
    out = G.shrink_case(case)
    if len(case["envs"]) > 1:
        for k in range(len(case["envs"])):
            out.append(dict(case, envs=[case["envs"][k]]))
    for k, e in enumerate(case["envs"]):
        for f in ("before", "noise"):
            if e[f] != "none":
                out.append(dict(case, envs=case["envs"][:k] + [dict(e, **{f: "none"})] + case["envs"][k + 1:]))
    return out


def noise_before(ctx, kind, case):
    if kind == "draw":
        np.random.rand(17)
        random.random()
    elif kind == "seed":
        np.random.seed((case["state"] + 5) % 2 ** 32)
        random.seed(3)
    elif kind in ("fit", "kernel-seed"):
        from convst.transformers import R_DST
        X, _, y = G.build(dict(case["data"], var=False, layout="C", ch=1, len=10), n=4, salt=9)
        ctx.begin("earlier")
        m = R_DST(n_shapelets=3, shapelet_lengths=[3], random_state=99)
        ctx.call("earlier fit", m.fit, X, y)
        if kind == "fit":
            ctx.call("earlier transform", m.transform, X)
        ctx.end()


def spawn_noise(ctx, kind, case):
    if kind == "none":
        return None
    from convst.transformers import R_DST
    X, _, y = G.build(dict(case["data"], var=False, layout="C", ch=1, len=10), n=4, salt=8)

    def body():
        if kind == "draw":
            for j in range(6):
                np.random.rand(3)
                np.random.seed(j)
                core.tick_p()
            return
        R_DST(n_shapelets=3, shapelet_lengths=[3], random_state=7).fit(X, y)
    return ctx.sim.spawn(body, "noise", "py")


def one(case, ctx, env, tag):
    ctx.boot(ncpu=env["ncpu"], entropy=env["entropy"], parallel=env["parallel"], layer=env["layer"])
    noise_before(ctx, env["before"], case)
    X, rows, y = G.build(case["data"])
    Xt, _, _ = U.test_set(case["data"])
    m = U.make(ctx, case["est"], case["params"], n_jobs=env["n_jobs"], state=case["state"])
    ctx.begin("fit-" + tag)
    t = spawn_noise(ctx, env["noise"], case)
    ctx.call("fit", m.fit, X, y)
    if t is not None:
        ctx.sim.join([t])
    ctx.end()
    ctx.begin("use-" + tag)
    out = U.fingerprint(case["est"], m) + U.outputs(ctx, case["est"], m, Xt)
    ctx.end()
    return out


def run(case, ctx):
    note = U.noter(ctx)
    base = None
    first = {"ncpu": case["ncpu"], "n_jobs": -1, "entropy": case["entropy"], "parallel": True, "layer": case["layer"],
             "before": "none", "noise": "none"}
    for k, env in enumerate([first] + case["envs"]):
        try:
            o = one(case, ctx, env, str(k))
        except core.Degenerate as e:
            o = [("degenerate", np.array([str(e)]))]
        if base is None:
            base = o
        else:
            U.same("not-reproducible", base, o, "run %d of the same seed %d (%s) differs from run 0" % (
                k, case["state"], case["est"]))
            note("comparisons-" + case["est"])
