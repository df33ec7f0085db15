# -*- coding: utf-8 -*-
"""C18: input transformers return the documented transforms, whatever happened before or happens next to them."""
import copy
import pickle
import numpy as np
from .. import core, gen as G
from ..core import Violation
from . import util as U

ID = "C18"
N_QUICK = 8400
RULE = ("A run takes one to three input transformers or feature scalers through a random history (fits on datasets of other "
        "sizes, refused and interrupted calls, changed parameters, clones, copies, restored pickles, reseeded generators, "
        "transforms by several threads at once) or fits an ensemble on them, and compares every result, and what each "
        "ensemble member is fed, with direct computations of the documented transform.")
WINDOWS = ["boxcar", "triang", "blackman", "hamming", "hann", "bartlett", "flattop", "parzen", "bohman", "blackmanharris",
           "nuttall", "barthann", "cosine", "exponential", "tukey", "taylor"]
KINDS = ["raw", "derivate", "derivate", "periodigram", "periodigram", "znorm", "hankel", "std", "minmax", "derivate-random",
         "periodigram-random"]


OTHER = {"derivate": {"order": 5}, "periodigram": {"window_type": "hamming"}, "hankel": {"mu": 3, "dln": 0.2}}


def params(rng, kind):
    if kind == "derivate":
        return {"order": rng.choice([0, 1, 1, 2, 3, 4])}
    if kind == "periodigram":
        return {"window_type": rng.choice(["boxcar"] + WINDOWS)}
    if kind == "hankel":
        return {"dln": rng.choice([0.01, 0.05, 0.1]), "mu": rng.choice([0, 1, 1, 0.5, 2]), "offset": rng.choice([0.0, 0.1]),
                "bias": rng.choice([0.0, 0.0, 0.1, -0.2]), "use_optimal_offset": rng.random() < 0.6}
    if kind.endswith("-random"):
        return {"random": True}
    return {}


def gen(rng, tier, i):
    if rng.random() < 0.2:
        d = U.fix_spec(G.data_spec(rng, var=False), "E")
        d["n"] = min(d["n"], 6)
        ks = [rng.choice(["raw", "derivate", "derivate-random", "periodigram", "periodigram-random", "znorm", "hankel"])
              for _ in range(rng.choice([1, 2, 3]))]
        return {"mode": "members", "data": d, "inputs": [[k, params(rng, k)] for k in ks], "state": rng.randrange(1000),
                "n_jobs": rng.choice([1, 2, -1]), "refit": rng.random() < 0.3,
                "n": rng.choice([1, 3]), "restore": rng.random() < 0.3, "caller": rng.random() < 0.4}
    datas = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        d = G.data_spec(rng, var=False, n=rng.choice([1, 2, 3, 5]))
        if rng.random() < 0.05:
            d["n"], d["len"] = rng.choice([33, 40, 65]), 8
        elif rng.random() < 0.1:
            d["len"] = rng.choice([6, 7, 33, 64, 127, 130, 300, 515, 600])
        elif rng.random() < 0.05:
            d["ch"] = rng.choice([8, 17, 33])
        elif rng.random() < 0.08:
            d["values"] = "level"
        datas.append(d)
    ks = [rng.choice(KINDS) for _ in range(rng.choice([1, 1, 2, 3]))]
    ts = [{"kind": k, "params": params(rng, k)} for k in ks]
    ops = []
    for _ in range(rng.choice([2, 3, 4, 6, 8])):
        j = rng.randrange(len(ts))
        op = {"op": rng.choice(["fit", "fit", "transform", "transform", "transform", "set", "clone", "copy", "pickle", "fail", "seed",
                                "together", "bad", "fit_transform", "draws"]),
              "t": j, "d": rng.randrange(len(datas)), "f": U.fault_spec(rng), "x": rng.randrange(1000)}
        if op["op"] == "set":
            op["params"] = params(rng, ks[j])
        if op["op"] == "together":
            op["who"] = [[rng.randrange(len(ts)), rng.randrange(len(datas)), rng.random() < 0.2] for _ in range(rng.choice([2, 3]))]
        ops.append(op)
    ops.append({"op": "transform", "t": rng.randrange(len(ts)), "d": rng.randrange(len(datas)), "x": 1})
    return {"mode": "history", "scale": rng.random() < 0.4, "datas": datas, "ts": ts, "ops": ops, "parallel": rng.random() < 0.9}


def shrink(case):
    out = []
    if case["mode"] == "members":
        for k in range(len(case["inputs"])):
            if len(case["inputs"]) > 1:
                out.append(dict(case, inputs=case["inputs"][:k] + case["inputs"][k + 1:]))
        out += [c for c in G.shrink_case(case) if c["data"]["len"] >= 16 and c["data"]["n"] >= 4]
        return out
    for k in range(len(case["ops"])):
        if len(case["ops"]) > 1:
            out.append(dict(case, ops=case["ops"][:k] + case["ops"][k + 1:]))
    for j, d in enumerate(case["datas"]):
        for s in G.shrink_spec(d):
            out.append(dict(case, datas=case["datas"][:j] + [s] + case["datas"][j + 1:]))
    return out


# ---- the documented transforms ---------------------------------------------------
def documented(kind, p, X, t=None):
    """-> (expected array, tolerance array) for a float array (n, channels, points)."""
    if kind == "raw":
        return X, np.zeros(X.shape)
    if kind == "derivate":
        for _ in range(p.get("order", 1)):
            X = X[..., 1:] - X[..., :-1]
        return X, np.zeros(X.shape)
    if kind == "znorm":
        mu = X.mean(axis=2, keepdims=True)
        sd = X.std(axis=2, keepdims=True) + 1e-8
        E = (X - mu) / sd
        tol = 1e-9 + 64 * 2.3e-16 * X.shape[2] * (np.abs(X).max(axis=2, keepdims=True) + 1) / sd * (
            1 + np.abs(E).max(axis=2, keepdims=True))
        return E, tol + np.zeros(E.shape)
    if kind == "periodigram":
        from scipy.signal import get_window
        w = get_window(p.get("window_type", "boxcar"), X.shape[2])
        n = X.shape[2]
        P = np.abs(np.fft.rfft(X * w, axis=2)) ** 2 / (w ** 2).sum()
        P[..., 1:(-1 if n % 2 == 0 else None)] *= 2
        top = (np.abs(X * w).sum(axis=2, keepdims=True) ** 2) / (w ** 2).sum()
        return P, 1e-12 * top + 1e-9 * np.abs(P) + 1e-290
    if kind == "hankel":
        from scipy.fft import fht, fhtoffset
        off = fhtoffset(p.get("dln", 0.01), p.get("mu", 1), bias=p.get("bias", 0.0)) if p.get("use_optimal_offset", True) \
            else p.get("offset", 0.0)
        E = np.stack([np.stack([fht(c, p.get("dln", 0.01), p.get("mu", 1), offset=off, bias=p.get("bias", 0.0)) for c in x]) for x in X])
        return E, 1e-9 * (np.abs(E).max(axis=2, keepdims=True) + np.zeros(E.shape)) + 1e-290
    raise core.HarnessError(kind)


def candidates(kind, p):
    """The parameter sets a transformer may be using: a random one picks among its choices."""
    if kind == "derivate-random":
        return "derivate", [{"order": k} for k in range(1, 5)]
    if kind == "periodigram-random":
        return "periodigram", [{"window_type": w} for w in WINDOWS]
    return kind, [p]


def matches(got, want, tol):
    return got.shape == want.shape and bool(np.all((np.abs(got - want) <= tol) | ((got != got) & (want != want))))


def explain(got, want, tol):
    if got.shape != want.shape:
        return "shape %s, expected %s" % (got.shape, want.shape)
    bad = np.argwhere(~(np.abs(got - want) <= tol))[0]
    return "%r at %s, expected %r" % (float(got[tuple(bad)]), tuple(int(v) for v in bad), float(want[tuple(bad)]))


def table(F, scale=False):
    """Feature table with constant columns, from a dataset."""
    F = F.reshape(F.shape[0], -1)[:, :9].copy()
    F[:, ::4] = 2.0
    if scale:
        # informative columns of very different sizes
        F = F * np.array([1.0, 1e-9, 1e8, 1.0, 1.0, 1e-5, 1.0, 1e-7, 1e-9])[:F.shape[1]]
    return F


def scaled(kind, F, fitF):
    keep = np.array([len(set(c.tolist())) > 1 for c in fitF.T], dtype=bool)
    F, fitF = F[:, keep], fitF[:, keep]
    top = np.abs(fitF).max(axis=0) + np.abs(F).max(axis=0) + 1e-300 if F.size else np.zeros(F.shape[1])
    if kind == "std":
        a, s = fitF.mean(axis=0), fitF.std(axis=0)
    else:
        a, s = fitF.min(axis=0), fitF.max(axis=0) - fitF.min(axis=0)
    E = (F - a) / s
    return E, 1e-12 * (1 + np.abs(E)) + 1e-14 * top / s * (1 + np.abs(E)) * 100 + np.zeros(E.shape)


def flat_enough(kind, fitF):
    """Columns that are constant up to rounding: not compared (libraries differ in what they call constant)."""
    for c in fitF.T:
        if len(set(c.tolist())) > 1:
            if kind == "std" and c.std() <= 1e-7 * (np.abs(c).max() + 1e-300):
                return True
            if kind == "minmax" and c.max() - c.min() < 1e-12:
                return True
    return False


def new(kind, p):
    from convst.transformers import _input_transformers as I
    cls = {"raw": I.Raw, "derivate": I.Derivate, "derivate-random": I.Derivate, "periodigram": I.Periodigram,
           "periodigram-random": I.Periodigram, "znorm": I.Z_normalizer, "hankel": I.FastHankelTransform,
           "std": I.c_StandardScaler, "minmax": I.c_MinMaxScaler}[kind]
    return cls(**p)


class Tr(object):
    """One transformer with what is known about it."""

    def __init__(self, kind, p, obj):
        self.kind, self.p, self.obj = kind, dict(p), obj
        self.fitted = None        # dataset number of the last completed fit
        self.choice = None        # random kinds: the parameters it was seen to use since its last fit
        self.loose = False        # state after an interrupted fit: anything goes until the next fit

    def needs_fit(self):
        return self.kind in ("std", "minmax") or self.kind.endswith("-random")

    def other(self, obj):
        t = Tr(self.kind, self.p, obj)
        t.fitted, t.choice, t.loose = self.fitted, self.choice, self.loose
        return t

    def check(self, got, X, sets, what, scale=False):
        got = np.asarray(got)
        if self.kind in ("std", "minmax"):
            fitF = table(sets[self.fitted][1], scale)
            if flat_enough(self.kind, fitF):
                return
            want, tol = scaled(self.kind, table(X, scale), fitF)
            if not matches(got, want, tol):
                raise Violation("scaler", "%s: %s gives %s" % (what, self.kind, explain(got, want, tol)))
            return
        kind, cand = candidates(self.kind, self.p)
        if self.choice is not None:
            cand = [self.choice]
        ok = []
        for p in cand:
            want, tol = documented(kind, p, X)
            if matches(got, want, tol):
                ok.append(p)
        if not ok:
            raise Violation("not-documented", "%s: %s %s gives %s" % (what, self.kind, cand if len(cand) == 1 else "(any choice)",
                                                                      explain(got, want, tol)))
        if self.kind.endswith("-random") and len(ok) == 1:
            self.choice = ok[0]


def run(case, ctx):
    if case["mode"] == "members":
        return members(case, ctx)
    note = U.noter(ctx)
    scale = case.get("scale", False)
    sets = []
    for d in case["datas"]:
        X, rows, y = G.build(d)
        sets.append((X, np.stack(rows), y))
    ctx.boot(parallel=case["parallel"])
    ts = [Tr(t["kind"], t["params"], ctx.call("construct", new, t["kind"], t["params"])) for t in case["ts"]]

    def arg(t, d):
        return table(sets[d][1], scale) if t.kind in ("std", "minmax") else sets[d][0]

    def fits(t, d):
        """Can t take dataset d?"""
        if t.kind in ("std", "minmax") and t.fitted is not None:
            return table(sets[d][1]).shape[1] == table(sets[t.fitted][1]).shape[1]
        return True

    def fit(t, d, name):
        ctx.begin(name)
        ctx.call("fit of " + t.kind, t.obj.fit, arg(t, d), sets[d][2])
        ctx.end()
        t.fitted, t.choice, t.loose = d, None, False

    given = []
    for k, o in enumerate(case["ops"]):
        t, d = ts[o["t"]], o["d"]
        op = o["op"]
        what = "operation %d (%s)" % (k, op)
        if op == "fit":
            fit(t, d, "op%d" % k)
            note("fits")
        elif op == "fit_transform":
            ctx.begin("op%d" % k)
            got = ctx.call("fit_transform of " + t.kind, t.obj.fit_transform, arg(t, d), sets[d][2])
            ctx.end()
            t.fitted, t.choice, t.loose = d, None, False
            t.check(got, sets[d][1], sets, what, scale)
            note("transforms-checked")
        elif op == "transform":
            if (t.fitted is None and t.needs_fit()) or t.loose or not fits(t, d):
                fit(t, d, "op%d-fit" % k)
            ctx.begin("op%d" % k)
            got = ctx.call("transform of " + t.kind, t.obj.transform, arg(t, d))
            ctx.end()
            t.check(got, sets[d][1], sets, what, scale)
            note("transforms-checked")
            given.append((np.asarray(got), np.array(got), what))
        elif op == "set":
            if not t.kind.endswith("-random"):
                ctx.call("set_params", t.obj.set_params, **o["params"])
                t.p.update(o["params"])
        elif op == "clone":
            from sklearn.base import clone
            t.obj = ctx.call("clone of " + t.kind, clone, t.obj)
            t.fitted, t.choice, t.loose = None, None, False
        elif op in ("copy", "pickle"):
            c = t.other(ctx.call(op, copy.deepcopy if op == "copy" else lambda q: pickle.loads(pickle.dumps(q)), t.obj))
            if o["x"] % 2:
                # the original goes on to other data; the copy is used from now on
                fit(t, (d + 1) % len(sets), "op%d" % k)
            ts[o["t"]] = c
        elif op == "seed":
            np.random.seed(o["x"])
        elif op == "draws":
            if t.kind.endswith("-random"):
                seen = []
                for r in range(16):
                    fit(t, d, "op%d-%d" % (k, r))
                    seen.append(np.asarray(ctx.call("transform of " + t.kind, t.obj.transform, arg(t, d))))
                    t.check(seen[-1], sets[d][1], sets, what, scale)
                # a chance of 4 ** -15 or less
                if t.kind == "derivate-random" and len(set(v.shape for v in seen)) == 1:
                    raise Violation("never-drawn", "%s: 16 fits of %s in a row drew the same order" % (what, t.kind))
                if np.ptp(sets[d][1], axis=2).min() > 0 and all(v.tobytes() == seen[0].tobytes() for v in seen):
                    raise Violation("never-drawn", "%s: 16 fits of %s in a row drew the same" % (what, t.kind))
                note("draws-checked")
        elif op == "bad":
            try:
                (t.obj.transform if o["x"] % 2 else t.obj.fit)([None, "x"] if o["x"] % 3 else np.zeros(3))
            except (core.SimAbort, core.HarnessError, Violation):
                raise
            except Exception:
                note("refused")
            t.loose = t.loose or not o["x"] % 2
            t.fitted = t.fitted if o["x"] % 2 else None
        elif op == "fail":
            ctx.begin("op%d" % k, faults=[{"at": 1 + int(o["f"]["frac"] * 60), "exc": o["f"]["exc"], "where": "any"}])
            fn = t.obj.fit if o["x"] % 2 else (lambda X, y: t.obj.transform(X))
            if not o["x"] % 2 and ((t.fitted is None and t.needs_fit()) or not fits(t, d)):
                fn = t.obj.fit
            res, e = U.attempt(ctx, lambda: fn(arg(t, d), sets[d][2]))
            ctx.end()
            if fn == t.obj.fit:
                t.loose, t.choice = True, None
                t.fitted = None
            if res == "injected":
                note("interrupted")
        elif op == "together":
            jobs = []
            for j, e, ref in o["who"]:
                q = ts[j]
                if (q.fitted is None and q.needs_fit()) or q.loose or not fits(q, e):
                    if any(q is r for r, _ in jobs):
                        continue
                    fit(q, e, "op%d-fit%d" % (k, len(jobs)))
                jobs.append((q, e))
            jobs = [(q, e) for q, e in jobs if fits(q, e)]
            ctx.begin("op%d" % k)
            ths = [ctx.sim.spawn((lambda q, e: lambda: q.obj.transform(arg(q, e)))(q, e), "caller%d" % n, "py")
                   for n, (q, e) in enumerate(jobs)]
            ctx.sim.join(ths)
            for n, th in enumerate(ths):
                if th.exc is not None:
                    if isinstance(th.exc, (Violation, core.HarnessError)):
                        raise th.exc

                    def again(e=th.exc):
                        raise e
                    ctx.call("concurrent transform of " + jobs[n][0].kind, again)
            ctx.end()
            for n, th in enumerate(ths):
                q, e = jobs[n]
                q.check(th.result, sets[e][1], sets, "%s, caller %d of %d" % (what, n, len(ths)), scale)
                note("concurrent-checked")
    for got, was, what in given:
        if got.tobytes() != was.tobytes():
            raise Violation("result-overwritten", "%s: the array returned was changed by later calls" % what)
    for d, (X, R, _) in zip(case["datas"], sets):
        if not np.array_equal(np.asarray(X, dtype=float), R):
            raise Violation("caller-data-modified", "a dataset was changed by the input transformers")


def members(case, ctx):
    """What each ensemble member is fed."""
    note = U.noter(ctx)
    X, rows, y = G.build(case["data"])
    Xt, rt, _ = U.test_set(case["data"], n=case["n"])
    ctx.boot()
    from convst.classifiers import R_DST_Ensemble
    ins = [new(k, p) for k, p in case["inputs"]]
    m = ctx.call("construct", R_DST_Ensemble, n_shapelets_per_estimator=2, shapelet_lengths=[3], n_jobs=case["n_jobs"],
                 random_state=case["state"], input_transformers=ins, proba_norm=[0.5] * len(ins))
    if case["refit"]:
        X0, _, y0 = G.build(dict(case["data"], len=case["data"]["len"] + 5, seed=case["data"]["seed"] + 1))
        ctx.begin("earlier")
        ctx.call("fit", m.fit, X0, y0)
        ctx.end()
    ctx.begin("fit")
    ctx.call("fit", m.fit, X, y)
    ctx.end()
    if case.get("caller"):
        # the caller goes on using his own transformers
        Xo = G.build(dict(case["data"], len=case["data"]["len"] + 3, seed=case["data"]["seed"] + 2))[0]
        for (kind, p), t in zip(case["inputs"], ins):
            if kind in OTHER:
                ctx.call("set_params", t.set_params, **OTHER[kind])
            ctx.call("fit of " + kind, t.fit, Xo)
    if case["restore"]:
        m = ctx.call("restore", lambda: pickle.loads(pickle.dumps(m)))
    fed = {}
    # the shapelet transformers of the members record what they receive
    for i in range(len(m.models)):
        t = U.step_with(m.models[i], "shapelets_")

        def spy(Z, i=i, real=t.transform):
            fed[i] = np.array(Z, dtype=float)
            return real(Z)
        t.transform = spy
    ctx.begin("predict")
    ctx.call("predict", m.predict, Xt)
    ctx.end()
    if len(m.models) != len(case["inputs"]):
        raise Violation("missing-member", "%d members for %d input transformers" % (len(m.models), len(case["inputs"])))
    for i, (kind, p) in enumerate(case["inputs"]):
        tr = Tr(kind, p, None)
        if i not in fed:
            raise Violation("missing-member", "member %d (%s) does not see the series to predict" % (i, kind))
        tr.check(fed[i], np.stack(rt), None, "input of member %d" % i)
        # what it was trained on: its shapelets are excerpts of the same transform of the training set
        note("members-checked")
    if any(k.endswith("-random") for k, _ in case["inputs"]):
        first = dict(fed)
        ctx.begin("again")
        ctx.call("predict", m.predict, X)
        ctx.end()
        for i, (kind, p) in enumerate(case["inputs"]):
            # the order or window drawn by fit stays the same
            tr = Tr(kind, p, None)
            tr.check(first[i], np.stack(rt), None, "input of member %d" % i)
            tr.check(fed[i], np.stack(rows), None, "input of member %d in a second predict" % i)
