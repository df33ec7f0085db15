# -*- coding: utf-8 -*-
"""C14: a saved model answers exactly as the original after a restart."""
import copy
import io
import os
import pickle
import numpy as np
from .. import core, gen as G
from ..core import Violation
from . import util as U

ID = "C14"
N_QUICK = 1400
RULE = ("A run fits an estimator (seeded, unseeded or with a generator object), saves it in one of several ways (pickle protocols, "
        "joblib file, out-of-band buffers that come back read-only), possibly dies after part of the file is written, then restores "
        "it in a new simulated process (other core count, thread-pool kind, generator state, numba parallelism on or off), after "
        "other estimators were fitted there, and compares transform / predict / score bit for bit; copies are refitted next to "
        "their original and each must keep its answers.")
ASSUMPTIONS = ["the same version of the package restores the model"]


def gen(rng, tier, i):
    est = rng.choice(["T", "T", "R", "E"])
    d = U.fix_spec(G.data_spec(rng), est)
    p = U.est_params(rng, d, est, n_shapelets=rng.choice([2, 4, 6]))
    d2 = U.fix_spec(G.data_spec(rng), est)
    d2["var"], d2["layout"] = d["var"], d["layout"] if d["var"] else "C"
    if est == "E":
        d2["len"] = max(16, d2["len"])
    p2 = dict(p)
    if max(p.get("shapelet_lengths") or [3]) > min(d["len"], d2["len"]):
        p2["shapelet_lengths"] = p["shapelet_lengths"] = [3]
    if rng.random() < 0.06 and "shapelet_lengths" in p:
        p["shapelet_lengths"] = p2["shapelet_lengths"] = [3, 5]
        G.widen(rng, d, p, kinds=["shapelets", "channels", "classes", "many"], est=est)
    elif est == "T" and rng.random() < 0.04:
        # dilations of hundreds of points
        d["len"], d["n"], d["ch"], d["spread"] = 600, 3, 1, min(0.2, d["spread"])
        p["shapelet_lengths"] = p2["shapelet_lengths"] = [2]
        p["n_shapelets"] = 5
        for q in (p, p2):
            q.pop("shapelet_lengths_bounds", None)
            q.pop("lengths_bounds_reduction", None)
            q.pop("max_channels", None)
    return {"est": est, "data": d, "data2": d2, "params": p, "state": rng.choice([None, 0, 1, 7, "rs"]),
            "n_jobs": rng.choice([1, 2, -1]), "how": rng.choice(["pickle2", "pickle4", "pickle5", "joblib", "buffers"]),
            "labels": rng.choice(["int", "str"]) if est != "T" else "int",
            "cut": rng.choice([None, None, round(rng.random(), 4), 0.999]),
            "ncpu2": rng.choice([1, 2, 3, 4, 8]), "parallel2": rng.random() < 0.7,
            "layer2": {"participate": rng.random() < 0.5, "chunk": rng.choice(["static", "dynamic"]), "persist": rng.random() < 0.5},
            "between": rng.sample(["fit-other", "seed", "mask", "fit-new", "again", "kinds"], rng.choice([0, 1, 2, 3])),
            "extra": [rng.choice(["even", "uneven", "single", "longer"]) for _ in range(rng.choice([0, 0, 1, 2]))],
            "scribble": rng.random() < 0.4, "before": rng.random() < 0.25, "kinds_seed": rng.randrange(1 << 20),
            "mode": rng.choice(["restart", "restart", "restart", "copy", "copy"]),
            "copy": rng.choice(["deepcopy", "copy", "pickle"]), "refit": rng.choice(["copy", "original", "both", "concurrent"]),
            "fault": U.fault_spec(rng) if rng.random() < 0.3 else None}


def shrink(case):
    out = G.shrink_case(case)
    if case["est"] in ("R", "E"):
        out = [c for c in out if min(c["data"]["n"], c["data2"]["n"]) >= 4 and
               min(c["data"]["len"], c["data2"]["len"]) >= (16 if case["est"] == "E" else 8)]
    if case.get("before"):
        out.append(dict(case, before=False))
    for k, v in (("between", []), ("extra", []), ("scribble", False), ("cut", None), ("parallel2", True), ("ncpu2", 1), ("how", "pickle4"), ("state", 0), ("fault", None),
                 ("refit", "copy"), ("labels", "int")):
        if case[k] != v:
            out.append(dict(case, **{k: v}))
    return out


def other_kinds(case, ctx, tag):
    """Models of the other kinds of data (one or several channels, equal or
    unequal lengths) are fitted and used in the same process."""
    import random
    rng = random.Random(case["kinds_seed"])
    kinds = [(u, v) for u in (True, False) for v in (True, False)]
    rng.shuffle(kinds)
    for j, (u, v) in enumerate(kinds[:rng.choice([1, 2, 4])]):
        d = G.data_spec(rng, uni=u, var=v, n=4, length=10, values="int")
        X, _, y = G.build(d)
        ctx.begin("%s%d" % (tag, j))
        o = U.make(ctx, "T", {"n_shapelets": 2, "shapelet_lengths": [3]}, n_jobs=1, state=j)
        ctx.call("fit", o.fit, X, y)
        ctx.call("transform", o.transform, X)
        ctx.end()


def dump(how, m, wd):
    if how == "joblib":
        import joblib
        p = os.path.join(wd, "model.joblib")
        joblib.dump(m, p)
        with open(p, "rb") as f:
            return f.read(), None
    if how == "buffers":
        bufs = []
        b = pickle.dumps(m, protocol=5, buffer_callback=bufs.append)
        return b, [bytes(x.raw()) for x in bufs]
    return pickle.dumps(m, protocol=int(how[-1])), None


def load(how, data, bufs, wd):
    if how == "joblib":
        import joblib
        p = os.path.join(wd, "restored.joblib")
        with open(p, "wb") as f:
            f.write(data)
        return joblib.load(p)
    if bufs is not None:
        return pickle.loads(data, buffers=bufs)
    return pickle.loads(data)


def run(case, ctx):
    note = U.noter(ctx)
    est = case["est"]

    def ylab(y):
        return np.array(["c%s" % (v,) for v in y]) if case["labels"] == "str" else y
    X, _, y = G.build(case["data"])
    X2, _, y2 = G.build(case["data2"])
    y, y2 = ylab(y), ylab(y2)
    Xt, _, yt = U.test_set(case["data"], n=4)
    Xt2, _, _ = U.test_set(case["data2"], n=3)
    st = np.random.RandomState(5) if case["state"] == "rs" else case["state"]
    ctx.boot()
    if case.get("before"):
        other_kinds(case, ctx, "before")
    m = U.make(ctx, est, copy.deepcopy(case["params"]), n_jobs=case["n_jobs"], state=st)
    ctx.begin("fit")
    ctx.call("fit", m.fit, X, y)
    ctx.end()
    if case.get("before") and case["kinds_seed"] % 2:
        other_kinds(case, ctx, "since")

    def answers(name, q, Z, zy=None):
        ctx.begin(name)
        out = U.fingerprint(est, q) + U.outputs(ctx, est, q, Z)
        if zy is not None and est != "T":
            out.append(("score", np.array(ctx.call("score", q.score, Z, zy))))
        ctx.end()
        return out

    # further batches, of other containers and lengths
    extra = [batch(case, k, j) for j, k in enumerate(case["extra"])]

    def further(name, q, order):
        out = [None] * len(extra)
        for j in order:
            ctx.begin("%s%d" % (name, j))
            out[j] = U.outputs(ctx, est, q, extra[j], case["extra"][j] + " batch: ")
            ctx.end()
        return [x for o in out for x in o]
    ref = answers("ref", m, Xt, ylab(yt))
    ref_extra = further("ref-extra", m, range(len(extra)))
    if case["mode"] == "copy":
        return copies(case, ctx, note, est, m, (X, y, Xt), (X2, y2, Xt2), answers, ref[:-1] if est != "T" else ref)
    wd = ctx.workdir()
    data, bufs = ctx.call("save", dump, case["how"], m, wd)
    after = answers("ref2", m, Xt, ylab(yt))
    U.same("saving-changed-model", ref, after, "the original after it was saved")
    # the process dies here
    ctx.boot(ncpu=case["ncpu2"], entropy=case["entropy"] + 99, parallel=case["parallel2"], layer=case["layer2"])
    if case["cut"] is not None:
        part = data[:min(len(data) - 1, int(case["cut"] * len(data)))]
        try:
            q = load(case["how"], part, bufs, wd)
        except Exception:
            q = None
        if q is not None:
            try:
                got = (q.transform if est == "T" else q.predict)(Xt)
            except Exception:
                got = None
            if got is not None:
                raise Violation("truncated-loads", "a saved %s cut to %d of %d bytes loads and answers" % (est, len(part), len(data)))
        ctx.sim.fire("truncated-save")
        note("truncated-saves")
    for k, b in enumerate(case["between"]):
        if b == "seed":
            np.random.seed(k)
        elif b == "mask":
            import numba
            numba.set_num_threads(1)
        elif b == "kinds":
            other_kinds(case, ctx, "kinds")
        elif b in ("fit-other", "fit-new"):
            ctx.begin("between%d" % k)
            o = U.make(ctx, est, case["params"], n_jobs=1, state=k)
            ctx.call("fit", o.fit, *((X2, y2) if b == "fit-other" else (X, y)))
            ctx.end()
    q = ctx.call("restore", load, case["how"], data, bufs, wd)
    order = list(range(len(extra)))
    if case["kinds_seed"] % 2:
        order.reverse()
    if extra and case["kinds_seed"] % 3:
        # before anything else
        U.same("restored-differs", ref_extra, further("restored-extra", q, order), "%s restored from %s" % (est, case["how"]))
    for k in range(2 if "again" in case["between"] else 1):
        got = answers("restored%d" % k, q, Xt, ylab(yt))
        U.same("restored-differs", ref, got, "%s restored from %s (%d cores, numba parallel %s)" % (
            est, case["how"], case["ncpu2"], case["parallel2"]))
        note("restored-compared")
    if extra:
        U.same("restored-differs", ref_extra, further("restored-extra2", q, order), "%s restored from %s" % (est, case["how"]))
        note("extra-batches", len(extra))
    if isinstance(case["state"], int):
        # a restored estimator can be fitted again, like a new one
        f = U.make(ctx, est, case["params"], n_jobs=case["n_jobs"], state=st)
        ctx.begin("new-fit")
        ctx.call("fit", f.fit, X2, y2)
        ctx.end()
        want = answers("new", f, Xt2)
        ctx.begin("refit")
        ctx.call("fit of a restored estimator", q.fit, X2, y2)
        ctx.end()
        U.same("restored-refit", want, answers("refitted", q, Xt2), "restored %s fitted again, compared with a new one" % est)


def batch(case, kind, j):
    d = dict(case["data"])
    if kind == "even":
        d["var"], d["layout"] = False, "C"
    elif kind == "longer":
        return G.build(d, n=3, salt=20 + j, length=d["len"] + 1 + d["len"] // 2)[0]
    elif kind == "single":
        return G.build(d, n=1, salt=20 + j)[0]
    return G.build(d, n=3, salt=20 + j)[0]


def scribble(o):
    """Overwrite every array and list an object reaches through its attributes."""
    seen, n, todo = set(), 0, [o]
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                todo.extend(x.ravel().tolist())
            elif x.flags.writeable and x.size and x.dtype.kind in "fiub":
                x[...] = x.dtype.type(0) if x.dtype.kind == "b" else x.dtype.type(3)
                n += 1
        elif isinstance(x, (list, tuple)):
            todo.extend(x)
            if isinstance(x, list) and x and all(isinstance(v, (int, float, np.number)) for v in x):
                x[:] = [3] * len(x)
                n += 1
        elif isinstance(x, dict):
            todo.extend(x.values())
        elif type(x).__module__.split(".")[0] in ("convst", "sklearn", "simlib") and hasattr(x, "__dict__") \
                and not isinstance(x, type) and not callable(x):
            todo.append(vars(x))
    return n


def copies(case, ctx, note, est, m, one, two, answers, ref):
    X2, y2, Xt2 = two
    Xt = one[2]
    mk = {"deepcopy": copy.deepcopy, "copy": copy.copy, "pickle": lambda o: pickle.loads(pickle.dumps(o))}[case["copy"]]
    c = ctx.call("copy", mk, m)
    U.same("copy-differs", ref, answers("copy", c, Xt), "a %s of the fitted %s" % (case["copy"], est))
    if case["scribble"] and case["copy"] != "copy":
        # whatever happens to the learnt values of one of them is no concern of the other
        d = ctx.call("copy", mk, m)
        n = scribble(d if case["kinds_seed"] % 2 else m)
        if case["kinds_seed"] % 2:
            U.same("copy-influences", ref, answers("scribbled", m, Xt), "%s of %s: the original after the %d arrays and lists of the "
                   "copy were overwritten" % (case["copy"], est, n))
        else:
            U.same("copy-influences", ref, answers("scribbled", d, Xt), "%s of %s: the copy after the %d arrays and lists of the "
                   "original were overwritten" % (case["copy"], est, n))
            m = d
        note("scribbled")
    a, b = (c, m) if case["refit"] in ("copy", "both", "concurrent") else (m, c)
    what = "%s of %s" % (case["copy"], est)
    if case["refit"] == "concurrent":
        ctx.begin("together")
        sim = ctx.sim
        t1 = sim.spawn(lambda: a.fit(X2, y2), "refit", "py")
        t2 = sim.spawn(lambda: U.outputs(ctx, est, b, Xt), "use", "py")
        sim.join([t1, t2])
        for t in (t1, t2):
            if t.exc is not None:
                if isinstance(t.exc, (Violation, core.HarnessError, core.Degenerate)):
                    raise t.exc

                def again(e=t.exc):
                    raise e
                ctx.call("concurrent use", again)
        ctx.end()
        U.same("copy-influences", [r for r in ref if r[0] in dict(t2.result)], t2.result, what + " while the copy is fitted again")
    elif case["fault"] is not None:
        # the refit of one of them dies half-way
        ctx.begin("broken-refit", faults=[{"at": 20 + int(case["fault"]["frac"] * 2500), "exc": case["fault"]["exc"], "where": "any"}])
        U.attempt(ctx, lambda: a.fit(X2, y2))
        ctx.end()
    else:
        ctx.begin("refit")
        ctx.call("fit", a.fit, X2, y2)
        ctx.end()
    U.same("copy-influences", ref, answers("other", b, Xt), what + ": the one left alone after the other was fitted again")
    note("copies-compared")
    if case["refit"] == "both":
        d2 = answers("a2", a, Xt2) if case["fault"] is None else None
        ctx.begin("refit-b")
        ctx.call("fit", b.fit, X2, y2)
        ctx.end()
        if d2 is not None:
            U.same("copy-influences", d2, answers("a3", a, Xt2), what + ": after both were fitted again")
            if isinstance(case["state"], int):
                U.same("copy-influences", d2, answers("b2", b, Xt2), what + ": both fitted alike")
