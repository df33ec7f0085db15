# -*- coding: utf-8 -*-
"""C09: predictions are the weighted vote of all members, in training labels."""
import numpy as np
from .. import core, gen as G
from ..core import Violation
from . import util as U

ID = "C09"
N_QUICK = 1700
RULE = ("A run trains the ridge classifier or the ensemble on labels of some kind (integers, negative, with gaps, strings, "
        "floats) under one schedule of model workers and lanes, recomputes every member independently from the member's own "
        "shapelet features (standardisation, ridge, leave-one-out weight, softmax, weighted sum) and compares weights, "
        "predictions and score; series whose two best labels differ by less than 1e-6 are not compared.")


def gen(rng, tier, i):
    est = rng.choice(["R", "E", "E"])
    d = U.fix_spec(G.data_spec(rng, values=rng.choice(["float", "smooth", "offset"]),
                               labels=rng.choice(["int", "neg", "gap", "str", "str", "float", "one", "long", "big", "bool", "obj", "u8"])), est)
    d["n"] = max(d["n"], rng.choice([6, 9, 12]))
    p = U.est_params(rng, d, est, n_shapelets=rng.choice([2, 3, 5]))
    p["proba_norm"] = p["proba_norm"] if est == "E" else rng.choice([0.0, 0.8])
    if est == "E":
        p["a_w"] = rng.choice([4, 4, 1, 0, 2.5])
    if rng.random() < 0.25:
        p["fit_intercept"] = False
    if rng.random() < 0.25:
        p["class_weight"] = rng.choice(["balanced", "balanced", "some", "all"])
    if rng.random() < 0.3:
        p["alphas_ridge"] = rng.choice([[0.001, 1.0, 1000.0], [1.0], [10.0, 1e-4, 1e4, 1.0], [1e4, 1.0, 1e-4]])
    if est == "E" and rng.random() < 0.3:
        # members of very different quality
        p["inputs"] = ["raw", "derivate", "raw", "znorm"][:rng.choice([2, 3, 4])] if not d["var"] else ["raw", "center"]
        p["proba_norm"] = [rng.choice([0.0, 1.0]) for _ in p["inputs"]]
    nt = rng.choice([2, 5, 9])
    if rng.random() < 0.08:
        G.widen(rng, d, p, kinds=["many", "classes", "classes"], est=est)
        nt = rng.choice([9, 40])
    same = False
    if est == "E" and rng.random() < 0.05:
        # all training series are the same: every feature is constant
        same, d["values"] = True, "int"
        p["fit_intercept"] = rng.random() < 0.3
        if not d["var"]:
            p.pop("inputs", None)
            p["proba_norm"] = [0.0, 0.5, 0.8]
    elif rng.random() < 0.06:
        p["alphas_ridge"] = [1e-9, 5e-9, 1.0]
    G.explicit_type(rng, d, p)
    return {"est": est, "data": d, "params": p, "state": rng.randrange(1000), "n_jobs": rng.choice([1, 2, 3, -1]),
            "nt": nt, "refit": rng.random() < 0.2, "same": same}


def shrink(case):
    out = [c for c in G.shrink_case(case) if c["data"]["n"] >= 6 and c["data"]["len"] >= 16]
    if case["same"]:
        out.append(dict(case, same=False))
    if case["refit"]:
        out.append(dict(case, refit=False))
    return out


def ridge(case, F, y, weighted):
    from sklearn.linear_model import RidgeClassifierCV
    from sklearn.metrics import accuracy_score, make_scorer
    p = case["params"]
    kw = dict(alphas=p.get("alphas_ridge", list(np.logspace(-4, 4, 20))), fit_intercept=p.get("fit_intercept", True),
              class_weight=p.get("class_weight"))
    if weighted:
        kw.update(store_cv_values=True, scoring=make_scorer(accuracy_score))
    return RidgeClassifierCV(**kw).fit(F, y)


def standard(F):
    mu, sd = F.mean(axis=0), F.std(axis=0)
    # constant up to rounding: left unscaled, as scikit-learn does
    n = F.shape[0]
    eps = np.finfo(float).eps
    flat = F.var(axis=0) <= n * eps * F.var(axis=0) + (n * mu * eps) ** 2
    return mu, np.where(flat | (sd == 0), 1.0, sd)


def shaky(case, Fs, y, r, cv):
    gap = np.abs(cv[:, 0]) if cv.shape[1] == 1 else margin(cv)
    if case["same"]:
        return bool(Fs.any()) and gap.min() < 1e-9
    if min(case["params"].get("alphas_ridge", [1])) > 1e-6:
        return False
    noise = 1 + 1e-12 * np.random.RandomState(0).normal(size=Fs.shape)
    q = ridge(case, Fs * noise, y, True)
    return gap.min() < 1e-6 or q.alpha_ != r.alpha_ or np.abs(q.cv_values_ - r.cv_values_).max() > 1e-6 * (1 + np.abs(r.cv_values_).max())


def votes(S, k):
    """Decision values -> (n, k) scores."""
    if S.ndim == 1:
        return np.c_[-S, S]
    return S


def margin(V):
    s = np.sort(V, axis=1)
    return s[:, -1] - s[:, -2]


def close(kind, got, want, what):
    """Decision values or confidences of a member against the recomputed ones."""
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation(kind, "%s have shape %s, expected %s" % (what, got.shape, want.shape))
    d = np.abs(got - want)
    if not d.max() <= 1e-6 * (1 + np.abs(want).max()):
        j = tuple(int(v) for v in np.unravel_index(int(d.argmax()), d.shape))
        raise Violation(kind, "%s: %r at %s, expected %r" % (what, float(got[j]), j, float(want[j])))


def compare(m, got, V, classes, what):
    if got.shape != (len(V),):
        raise Violation("prediction-shape", "%s returns shape %s for %d series" % (what, got.shape, len(V)))
    for v in got.tolist():
        if v not in classes.tolist():
            raise Violation("unseen-label", "%s predicts %r, training labels are %s" % (what, v, classes.tolist()))
    want = classes[V.argmax(axis=1)]
    ok = margin(V) > 1e-6
    bad = [i for i, (g, w) in enumerate(zip(got.tolist(), want.tolist())) if ok[i] and g != w]     # exact, as Python compares
    if len(bad):
        i = int(bad[0])
        raise Violation("wrong-prediction", "%s predicts %r for series %d, expected %r (votes %s)" % (
            what, got[i].item(), i, want[i].item(), np.round(V[i], 6).tolist()))
    return int(ok.sum())


def run(case, ctx):
    note = U.noter(ctx)
    est, p = case["est"], dict(case["params"])
    X, _, y = G.build(case["data"])
    Xt, _, yt = U.test_set(case["data"], n=case["nt"])
    if case["same"]:
        if isinstance(X, np.ndarray) and X.dtype != object:
            X = np.repeat(X[:1], len(X), axis=0)
        else:
            # no longer than the shortest the test series can be
            X = [X[0][:, :case["data"]["len"]].copy() for _ in X]
    classes = np.unique(y)
    if p.get("class_weight") in ("some", "all"):
        # weights by class, of which the unnamed weigh one
        names = classes.tolist()
        p["class_weight"] = {c: [3.0, 0.5, 2.0][j % 3] for j, c in enumerate(names if p["class_weight"] == "all" else names[-1:])}
    case = dict(case, params=p)
    ctx.boot()
    m = U.make(ctx, est, p, n_jobs=case["n_jobs"], state=case["state"])
    if case["refit"]:
        X0, _, y0 = G.build(dict(case["data"], seed=case["data"]["seed"] + 1))
        ctx.begin("earlier-fit")
        ctx.call("fit", m.fit, X0, y0)
        ctx.end()
    ctx.begin("fit")
    ctx.call("fit", m.fit, X, y)
    ctx.end()
    ctx.begin("predict")
    got = np.asarray(ctx.call("predict", m.predict, Xt))
    sc = float(ctx.call("score", m.score, Xt, yt))
    ctx.end()
    ctx.begin("members")
    if est == "R":
        F = np.array(m.transformer.transform(X), dtype=float)
        Ft = np.array(m.transformer.transform(Xt), dtype=float)
        keep = np.std(F, axis=0) != 0
        mu, sd = standard(F[:, keep])
        r = ridge(case, (F[:, keep] - mu) / sd, y, False)
        V = votes(r.decision_function((Ft[:, keep] - mu) / sd), len(classes))
        if hasattr(m, "classifier") and hasattr(m.classifier, "decision_function"):
            close("wrong-decision", votes(np.asarray(m.classifier.decision_function(Ft)), len(classes)), V, "decision values of R_DST_Ridge")
    else:
        V = 0
        names = p.get("inputs") or ["raw", "derivate", "periodigram"]
        if len(m.models) != len(names) or len(m.model_weights) != len(names):
            raise Violation("missing-member", "%d members and %d weights for %d input transformers" % (
                len(m.models), len(m.model_weights), len(names)))
        for i, nm in enumerate(names):
            t = U.step_with(m.models[i], "shapelets_")
            Zf = input_fn(nm, X)
            F = np.array(t.transform(Zf(X)), dtype=float)
            Ft = np.array(t.transform(Zf(Xt)), dtype=float)
            mu, sd = standard(F)
            Fs = (F - mu) / sd
            r = ridge(case, Fs, y, True)
            S = r.decision_function((Ft - mu) / sd)
            D = votes(S, len(classes))
            P = np.exp(D - D.max(axis=1, keepdims=True))
            P = P / P.sum(axis=1, keepdims=True)
            a = list(r.alphas).index(r.alpha_)
            cv = r.cv_values_[:, :, a]
            if shaky(case, Fs, y, r, cv):
                # the leave-one-out accuracy depends on the last digits of the features
                note("undetermined-members")
                ctx.end()
                return
            loo = classes[(cv[:, 0] > 0).astype(int)] if cv.shape[1] == 1 else classes[cv.argmax(axis=1)]
            w = float(np.mean(loo == y)) ** p.get("a_w", 4)
            if abs(w - float(m.model_weights[i])) > 1e-9:
                raise Violation("wrong-weight", "member %d (%s) has weight %r, its leave-one-out accuracy %r ** a_w gives %r" % (
                    i, nm, float(m.model_weights[i]), float(np.mean(loo == y)), w))
            V = V + P * w
            if hasattr(m.models[i], "predict_proba"):
                close("wrong-confidence", m.models[i].predict_proba(Xt), P, "confidences of member %d (%s)" % (i, nm))
            note("members-recomputed")
    ctx.end()
    note("predictions-compared-" + est, compare(m, got, V, classes, {"R": "R_DST_Ridge", "E": "R_DST_Ensemble"}[est]))
    acc = float(np.mean(got == yt))
    if abs(acc - sc) > 1e-12:
        raise Violation("wrong-score", "score is %r, %r of the series are predicted correctly" % (sc, acc))
    # one prediction per series, in input order
    ctx.begin("single")
    j = case["state"] % case["nt"]
    one = np.asarray(ctx.call("predict", m.predict, Xt[j:j + 1]))
    ctx.end()
    if est == "R" or margin(V)[j] > 1e-6:
        if one.tolist() != got[j:j + 1].tolist():
            raise Violation("prediction-order", "series %d alone is predicted %r, in the batch %r" % (j, one.tolist(), got[j].item()))


def input_fn(nm, X):
    from convst.transformers import _input_transformers as I
    from . import probes
    if nm == "raw":
        return lambda Z: Z
    if nm == "derivate":
        return lambda Z: np.diff(Z)
    if nm == "derivate2":
        return lambda Z: np.diff(np.diff(Z))
    if nm == "znorm":
        return lambda Z: np.array(I.Z_normalizer().transform(Z))
    if nm == "center":
        t = probes.Center().fit(X)
        return t.transform
    t = I.Periodigram().fit(X)
    return t.transform
