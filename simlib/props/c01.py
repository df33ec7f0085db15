# -*- coding: utf-8 -*-
"""C01: features are exact under every worker-thread schedule."""
import numpy as np
from .. import gen as G
from .. import ref
from ..core import Violation
from . import util as U

ID = "C01"
N_QUICK = 2800
RULE = ("A run fits the transformer on a generated dataset (1-4 channels, equal or unequal lengths, six containers, "
        "exact, tied, flat, periodic and real-valued data) with a generated configuration, then transforms the training "
        "set, a new test set with other lengths, a permutation and a singleton batch under seeded schedules and compares "
        "every feature with a reference model.")
shrink = G.shrink_case


def gen(rng, tier, i):
    d = G.data_spec(rng, values=rng.choice(G.VALUE_KINDS + ["periodic"]))
    ncpu = rng.choice([1, 2, 3, 4, 5, 8])
    c = {"data": d, "params": G.shapelet_params(rng, d), "ncpu": ncpu, "n_jobs": G.n_jobs(rng, ncpu),
         "parallel": rng.random() < 0.9, "test_longer": rng.random() < 0.4, "state": G.seed_value(rng),
         "batches": rng.sample(["train", "test", "perm", "single", "sub", "reuse"], rng.choice([1, 2, 2, 3]))}
    if not d["var"] and rng.random() < 0.3:
        c["batches"].append("znorm")
    if rng.random() < 0.15:
        c["params"]["n_samples"] = rng.choice([0.5, 0.75])
        d["n"] = max(d["n"], 6)
    if rng.random() < 0.08:
        G.widen(rng, d, c["params"])
        c["batches"] = c["batches"][:2]
    G.explicit_type(rng, d, c["params"])
    return U.inside(rng, c, 0.2)


def run(case, ctx):
    ctx.boot(parallel=case.get("parallel", True))
    X, rows, y = G.build(case["data"])
    p = case["params"]
    m = U.make_inside(ctx, case)
    ctx.begin("fit")
    ctx.call("fit", m.fit, X, y)
    ctx.end()
    note = lambda k: ctx.notes.__setitem__(k, ctx.notes.get(k, 0) + 1)
    for name, tr, _, q, pre in U.parts(case, m, rows):
        use(case, ctx, X, rows, tr, q, pre, "derivate" in name, name, note)


def use(case, ctx, X, rows, m, p, pre, diff, name, note):
    shps = ref.decode(m.shapelets_)
    ex = G.exact(case["data"])
    ph = p["phase_invariance"]

    def check(F, rb, what):
        ref.check_features(np.asarray(F), [np.diff(x) for x in rb] if diff else rb, shps, ph, ex, note, name + what)
    for b in case["batches"]:
        if b == "znorm":
            znorm(case, ctx, X, rows)
            continue
        if b == "train":
            Xb, rb = X, rows
        elif b == "test":
            sp = dict(case["data"])
            L = sp["len"] + (3 if case["test_longer"] else 0)
            Xb, rb, _ = G.build(sp, n=3, salt=1, length=L)
        elif b == "perm":
            o = np.random.RandomState(case["state"]).permutation(len(rows))
            rb = [rows[i] for i in o]
            Xb = G.contain(case["data"], rb)
        elif b == "single":
            rb = [rows[-1]]
            Xb = G.contain(case["data"], rb)
        elif b == "reuse":
            # the caller reads the next batch into the same buffer
            Xb, rb, _ = G.build(case["data"], n=3, salt=2)
            _, nx, _ = G.build(case["data"], n=3, salt=3)
            for k in range(2):
                ctx.begin("transform-before%d" % k)
                F = ctx.call("transform", m.transform, pre(Xb))
                ctx.end()
                check(F, rb, b + ": ")
                if isinstance(Xb, np.ndarray) and Xb.dtype != object:
                    Xb[...] = np.stack(nx)
                elif k == 0:
                    for i, x in enumerate(nx):
                        Xb[i] = np.array(x)
                else:
                    for i, x in enumerate(nx):
                        Xb[i][...] = x[:, :1] + np.arange(Xb[i].shape[1])
                    nx = [np.array(x) for x in Xb]
                rb = nx
                nx = [x[:, ::-1] for x in nx]
        else:
            rb = rows[: max(1, len(rows) // 2)]
            Xb = G.contain(case["data"], rb)
        ctx.begin("transform-" + b)
        F = ctx.call("transform", m.transform, pre(Xb))
        ctx.end()
        check(F, rb, b + ": ")
        note("checked-in-" + case.get("est", "T"))


def znorm(case, ctx, X, rows):
    """The parallel z-normalising input transformer."""
    from convst.transformers._input_transformers import Z_normalizer
    if X.dtype == np.float32:
        X = X.astype(np.float64)
    ctx.begin("znorm")
    Z = ctx.call("z-normalisation", lambda: Z_normalizer().fit(X).transform(X))
    ctx.end()
    Z = np.asarray(Z)
    if Z.shape != (len(rows),) + rows[0].shape:
        raise Violation("znorm", "Z_normalizer returns shape %s for %d series of shape %s" % (Z.shape, len(rows), rows[0].shape))
    for i, w in enumerate(rows):
        for c in range(w.shape[0]):
            sd = w[c].std() + 1e-8
            want = (w[c] - w[c].mean()) / sd
            tol = 1e-9 + 64 * 2.3e-16 * w.shape[1] * (np.abs(w[c]).max() + 1) / sd * (1 + np.abs(want).max())
            if not np.abs(Z[i, c] - want).max() <= tol:
                raise Violation("znorm", "Z_normalizer: series %d channel %d is off by %g" % (i, c, float(np.abs(Z[i, c] - want).max())))
    ctx.notes["znorm"] = ctx.notes.get("znorm", 0) + 1
