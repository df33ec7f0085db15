# -*- coding: utf-8 -*-
"""C08: one fitted model used from several threads at once."""
import copy
import pickle
import numpy as np
from .. import core, gen as G
from ..core import Violation
from . import util as U

ID = "C08"
N_QUICK = 2200
RULE = ("A run lets two to four caller threads use one fitted estimator at once (transform, predict, score, each also starting "
        "worker threads) while others build, fit, clone, copy and use other estimators that share parameter objects with it; "
        "every result is compared bit for bit with the same call made alone.")


def gen(rng, tier, i):
    est = rng.choice(["T", "T", "R", "E"])
    d = U.fix_spec(G.data_spec(rng), est)
    p = U.est_params(rng, d, est, n_shapelets=rng.choice([2, 4]))
    if rng.random() < 0.05:
        G.widen(rng, d, p, kinds=["long", "many", "channels"], est=est)
    acts = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        a = rng.choice(["use", "use", "use", "score", "fit-same", "fit-other", "build", "clone", "copy", "znorm"])
        o = {"act": a, "salt": rng.randrange(1, 50), "n": rng.choice([1, 2, 3]), "n_jobs": rng.choice([1, 2, -1]),
             "state": rng.randrange(1000), "array": d["var"] and rng.random() < 0.25}
        if a == "fit-other":
            o["est"] = rng.choice(["T", "R"])
            o["data"] = U.fix_spec(G.data_spec(rng), o["est"])
            o["params"] = U.est_params(rng, o["data"], o["est"], n_shapelets=3)
        acts.append(o)
    acts[0]["act"] = "use"
    if acts[1]["act"] in ("build", "clone", "copy"):
        acts[1]["act"] = "use"
    return {"est": est, "data": d, "params": p, "state": rng.randrange(1000), "n_jobs": rng.choice([1, 2, -1]), "acts": acts}


def shrink(case):
    out = G.shrink_case(case)
    if case["est"] in ("R", "E"):
        out = [c for c in out if c["data"]["n"] >= 4 and c["data"]["len"] >= (16 if case["est"] == "E" else 8)]
    for k in range(len(case["acts"])):
        if len(case["acts"]) > 1:
            out.append(dict(case, acts=case["acts"][:k] + case["acts"][k + 1:]))
    return out


def run(case, ctx):
    note = U.noter(ctx)
    est = case["est"]
    X, _, y = G.build(case["data"])
    ctx.boot()
    shared = dict(case["params"])       # the same parameter objects go to several estimators
    m = U.make(ctx, est, shared, n_jobs=case["n_jobs"], state=case["state"])
    ctx.begin("fit")
    ctx.call("fit", m.fit, X, y)
    ctx.end()
    before = U.fingerprint(est, m)

    def task(a):
        k = a["act"]
        # series of equal lengths may come as one array
        da = dict(case["data"], var=False, layout="C", len=case["data"]["len"] + a["salt"] % 5) if a["array"] else case["data"]
        Xa, _, ya = U.test_set(da, n=a["n"], salt=a["salt"])
        if k == "use":
            return lambda: [("answer", np.array((m.transform if est == "T" else m.predict)(Xa)))]
        if k == "score":
            if est == "T":
                return lambda: [("answer", np.array(m.transform(Xa)))]
            return lambda: [("score", np.array(m.score(Xa, ya)))]
        if k == "fit-same":
            def f():
                q = U.make(ctx, est, shared, n_jobs=a["n_jobs"], state=a["state"])
                q.fit(X, y)
                return U.fingerprint(est, q) + [("answer", np.array((q.transform if est == "T" else q.predict)(Xa)))]
            return f
        if k == "fit-other":
            X2, _, y2 = G.build(a["data"])
            X3, _, _ = U.test_set(a["data"], n=2)

            def f():
                q = U.make(ctx, a["est"], a["params"], n_jobs=a["n_jobs"], state=a["state"])
                q.fit(X2, y2)
                return U.fingerprint(a["est"], q) + [("answer", np.array((q.transform if a["est"] == "T" else q.predict)(X3)))]
            return f
        if k == "build":
            def f():
                q = U.make(ctx, est, shared, n_jobs=a["n_jobs"], state=a["state"])
                core.tick_p()
                return [("params", np.array([repr(sorted(q.get_params(deep=False)))]))]
            return f
        if k == "clone":
            from sklearn.base import clone

            def f():
                q = clone(m)
                core.tick_p()
                q.fit(X, y)
                return U.fingerprint(est, q)
            return f
        if k == "copy":
            def f():
                q = copy.deepcopy(m) if a["salt"] % 2 else pickle.loads(pickle.dumps(m))
                core.tick_p()
                return [("answer", np.array((q.transform if est == "T" else q.predict)(Xa)))]
            return f
        if k == "znorm":
            from convst.transformers._input_transformers import Z_normalizer
            Z, _, _ = G.build(dict(case["data"], var=False, layout="C"), n=4, salt=a["salt"])
            return lambda: [("znorm", np.array(Z_normalizer().fit(Z).transform(Z)))]
        raise core.HarnessError(k)

    tasks = [task(a) for a in case["acts"]]
    alone = []
    for k, t in enumerate(tasks):
        ctx.begin("alone%d" % k)
        alone.append(ctx.call("use alone: " + case["acts"][k]["act"], t))
        ctx.end()
    ctx.begin("together")
    sim = ctx.sim
    ths = [sim.spawn(t, "caller%d" % k, "py") for k, t in enumerate(tasks)]
    sim.join(ths)
    for k, t in enumerate(ths):
        if t.exc is not None:
            if isinstance(t.exc, (core.Violation, core.HarnessError, core.Degenerate)):
                raise t.exc

            def again(e=t.exc):
                raise e
            ctx.call("concurrent " + case["acts"][k]["act"], again)
    ctx.end()
    for k, t in enumerate(ths):
        U.same("concurrent-result", alone[k], t.result, "%s in caller thread %d of %d next to %s" % (
            case["acts"][k]["act"], k, len(ths), [a["act"] for j, a in enumerate(case["acts"]) if j != k]))
        note("concurrent-" + case["acts"][k]["act"])
    U.same("model-changed", before, U.fingerprint(est, m), "the shared model after concurrent use")
