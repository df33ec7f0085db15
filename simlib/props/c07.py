# -*- coding: utf-8 -*-
"""C07: the caller's data is never modified."""
import numpy as np
from .. import core, gen as G
from ..core import Violation
from . import util as U

ID = "C07"
N_QUICK = 3400
RULE = ("A run builds, fits and uses an estimator (or an input transformer) on caller arrays of a given container, dtype and "
        "memory layout, with array-valued parameters, under one schedule and possibly one injected failure; the bytes and "
        "identity of everything the caller passed are compared with a snapshot every few simulated steps while workers run, and "
        "after every operation.")


def gen(rng, tier, i):
    est = rng.choice(["T", "T", "T", "R", "E", "Z", "I"])
    d = U.fix_spec(G.data_spec(rng), "E" if est == "I" else est)
    if est in ("Z", "I"):
        d["var"], d["layout"] = False, rng.choice(["C", "F", "strided", "int64"])
        if rng.random() < 0.1:
            d["ch"], d["n"] = rng.choice([8, 17, 33]), 4
        elif rng.random() < 0.1:
            d["len"], d["n"] = rng.choice([130, 260, 515]), 4
        p = {}
    else:
        p = U.est_params(rng, d, est, n_shapelets=rng.choice([3, 6]))
        if rng.random() < 0.2 and est == "T":
            p["n_samples"] = rng.choice([0.5, 1.0, 1.5])
            d["n"], d["k"] = max(8, d["n"]), 2
        if rng.random() < 0.06:
            G.widen(rng, d, p, kinds=["long", "many", "channels", "classes"], est=est)
        G.explicit_type(rng, d, p)
        if rng.random() < 0.1:
            d["labels"] = rng.choice(["str", "float", "obj", "bool", "u8"])
    return {"est": est, "data": d, "params": p, "state": rng.randrange(1000), "n_jobs": rng.choice([1, 2, -1]),
            "readonly": rng.random() < 0.15, "ylist": rng.random() < 0.1 and est != "T",
            "fault": U.fault_spec(rng) if rng.random() < 0.35 else None, "every": rng.choice([3, 7, 20, 60]),
            "fraction": est in ("R", "E") and rng.random() < 0.1,
            "which": rng.choice(["derivate", "derivate2", "periodigram", "raw", "hankel", "scaler", "minmax"])}


def shrink(case):
    out = G.shrink_case(case)
    if case["fault"]:
        out.append(dict(case, fault=None))
    if case["readonly"]:
        out.append(dict(case, readonly=False))
    if case.get("fraction"):
        out.append(dict(case, fraction=False))
    if case["est"] in ("R", "E"):
        out = [c for c in out if c["data"]["n"] >= 4 and c["data"]["len"] >= (16 if case["est"] == "E" else 8)]
    return out


class Watch(object):
    def __init__(self):
        self.arr = []
        self.lists = []
        self.dicts = []

    def add(self, name, o):
        if isinstance(o, np.ndarray):
            if o.dtype == object:
                self.lists.append((name, o, [id(v) for v in o.ravel()], len(o)))
                for i, v in enumerate(o.ravel()):
                    self.add("%s[%d]" % (name, i), v)
            else:
                base = o.base if isinstance(o.base, np.ndarray) else o
                self.arr.append((name, o, o.tobytes(), base, base.tobytes(), o.shape, o.dtype, o.strides))
        elif isinstance(o, (list, tuple)):
            self.lists.append((name, o, [id(v) for v in o], len(o)))
            for i, v in enumerate(o):
                self.add("%s[%d]" % (name, i), v)
        elif isinstance(o, dict):
            self.dicts.append((name, o, [(k, repr(v) if not isinstance(v, np.ndarray) else id(v)) for k, v in o.items()]))
            for k, v in o.items():
                self.add("%s[%r]" % (name, k), v)

    def check(self, when):
        for name, o, b, base, bb, sh, dt, st in self.arr:
            if o.tobytes() != b or base.tobytes() != bb or o.shape != sh or o.dtype != dt or o.strides != st:
                core.S.on_step = None
                raise Violation("caller-data-modified", "%s was modified %s" % (name, when))
        for name, o, was in self.dicts:
            if [(k, repr(v) if not isinstance(v, np.ndarray) else id(v)) for k, v in o.items()] != was:
                core.S.on_step = None
                raise Violation("caller-data-modified", "%s was modified %s" % (name, when))
        for name, o, ids, n in self.lists:
            if ids is not None and (len(o) != n or [id(v) for v in (o.ravel() if isinstance(o, np.ndarray) else o)] != ids):
                core.S.on_step = None
                raise Violation("caller-data-modified", "the elements of %s were replaced %s" % (name, when))


def freeze(o):
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            for v in o.ravel():
                freeze(v)
        o.flags.writeable = False
    elif isinstance(o, list):
        for v in o:
            freeze(v)


def run(case, ctx):
    note = U.noter(ctx)
    est = case["est"]
    X, _, y = G.build(case["data"])
    Xt, _, yt = U.test_set(case["data"])
    if case["ylist"]:
        y = [v.item() if hasattr(v, "item") else v for v in y]
    if case.get("fraction"):
        # labels that are no whole numbers: fit may refuse them, not change them
        table = {v: [0.25, 1.5, 2.75, -3.5, 0.125, 6.5, 7.25][i] for i, v in enumerate(sorted(set(y if case["ylist"] else y.tolist())))}
        y = [table[v] for v in y] if case["ylist"] else np.array([table[v] for v in y.tolist()])
        yt = np.array([table.get(v, 0.25) for v in yt.tolist()])
    p = dict(case["params"])
    for k in ("shapelet_lengths", "percentiles", "proba_norm", "shapelet_lengths_bounds"):
        if isinstance(p.get(k), list) and case["state"] % 2 and k != "shapelet_lengths_bounds":
            p[k] = np.array(p[k])
    if est in ("R", "E") and case["state"] % 3 == 0:
        p["alphas_ridge"] = [[0.01, 1.0, 100.0], [10.0, 0.01, 100.0, 1.0]][case["state"] % 2]
        names = sorted(set(y if isinstance(y, list) else y.tolist()))
        p["class_weight"] = ["balanced", {names[0]: 2.5}, {v: 1.0 + i for i, v in enumerate(names)}][case["state"] // 6 % 3]
    w = Watch()
    if case["readonly"]:
        for o in (X, Xt, y):
            freeze(o)
    for nm, o in (("X", X), ("y", y), ("test X", Xt), ("test y", yt), ("parameters", p)):
        w.add(nm, o)
    ctx.boot()
    sim = ctx.sim

    def watching():
        sim.step_every = case["every"]
        sim.on_step = lambda: w.check("while the operation was running (step %d)" % core.N)

    def quiet():
        sim.step_every = 0
        sim.on_step = None

    if est == "Z":
        from convst.transformers._input_transformers import Z_normalizer
        ops = [("transform", lambda: Z_normalizer().fit(X, y).transform(X))]
    elif est == "I":
        from convst.transformers import _input_transformers as I
        wh = case["which"]
        t = {"derivate": lambda: I.Derivate(), "derivate2": lambda: I.Derivate(order=2), "raw": lambda: I.Raw(),
             "periodigram": lambda: I.Periodigram(), "hankel": lambda: I.FastHankelTransform(),
             "scaler": lambda: I.c_StandardScaler(), "minmax": lambda: I.c_MinMaxScaler()}[wh]()
        if wh in ("scaler", "minmax"):
            F = np.array(X, dtype=float).reshape(X.shape[0], -1)
            if case["state"] % 2:
                F[:, 0] = 1.0
            w.add("features", F)
            ops = [("fit", lambda: t.fit(F, y)), ("transform", lambda: t.transform(F))]
        else:
            ops = [("fit", lambda: t.fit(X, y)), ("transform", lambda: t.transform(X)), ("transform", lambda: t.transform(Xt))]
    else:
        q = dict(p)
        inp = q.pop("inputs", None)
        m = U.make(ctx, est, dict(q, inputs=inp) if inp is not None else q, n_jobs=case["n_jobs"], state=case["state"])
        ops = [("fit", lambda: m.fit(X, y))]
        if est == "T":
            ops += [("transform", lambda: m.transform(Xt)), ("fit_transform", lambda: m.fit_transform(X, y))]
        else:
            ops += [("predict", lambda: m.predict(Xt)), ("score", lambda: m.score(Xt, yt))]
    w.check("by the constructor")
    f = case["fault"]
    target = None
    if f:
        target = case["state"] % len(ops)
    cost = None
    if case.get("fraction"):
        ctx.begin("fit")
        watching()
        try:
            res, e = U.attempt(ctx, ops[0][1])
        finally:
            quiet()
        ctx.end()
        w.check("by fit (%s)" % ("which refused the labels" if res == "error" else res))
        note("operations-watched")
        if res == "error":
            return
    for k, (nm, fn) in enumerate(ops):
        if target == k:
            # measured on the same operation of the same object, then failed
            ctx.begin("measure-" + nm)
            try:
                _, s, pl = U.measure(ctx, lambda: ctx.call(nm, fn))
            finally:
                ctx.end()
            cost = U.place(f, s, pl)
        ctx.begin(nm, faults=[cost] if target == k else ())
        watching()
        try:
            if target == k:
                res, e = U.attempt(ctx, fn)
                if res == "error":
                    raise Violation("error:" + nm, "%s failed with %s: %s" % (nm, type(e).__name__, str(e)[:200]))
                if res == "injected":
                    note("failed-operations")
                    if nm == "fit":
                        w.check("by a fit that failed")
                        ctx.call(nm, fn)
            else:
                ctx.call(nm, fn)
        finally:
            quiet()
        ctx.end()
        w.check("by %s%s" % (nm, " that failed" if target == k else ""))
        note("operations-watched")
