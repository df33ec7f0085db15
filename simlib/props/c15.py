# -*- coding: utf-8 -*-
"""C15: malformed calls are refused wherever they come and leave no trace."""
import numpy as np
from .. import core, gen as G, ref
from ..core import Violation
from . import util as U

ID = "C15"
N_QUICK = 2100
RULE = ("A run fits an estimator and then goes through a random history of malformed calls (arrays of wrong rank, empty, too short "
        "or of another kind than numbers, objects that are no arrays, series with other numbers of channels than each other or than "
        "in training, labels missing for some series, parameters out of range, estimators not fitted), with well-formed calls in every "
        "accepted form of the same data in between, and possibly several threads at once, some making malformed calls. Every malformed call must be refused "
        "with an error, of the documented kinds for arrays and parameters, and the model, its parameters, its answers and the "
        "caller's data must be what they were, bit for bit.")

# malformed series, by the kind of data the model takes
RECT = ["1d", "2d", "4d", "no-series", "no-channel", "no-point", "one-point", "two-points", "text", "complex", "bool"]
LIST = ["mixed-channels", "mixed-channels-object", "one-channel-inside", "one-channel-inside", "list-one-short", "list-1d", "list-empty", "list-two-points", "list-number", "list-3d"]
OBJ = ["none", "number", "string", "dict", "set", "function"]
CHAN = ["fewer-channels", "more-channels", "too-short"]
PARAMS = [("phase_invariance", 1), ("phase_invariance", "yes"), ("phase_invariance", None), ("alpha", "0.5"), ("alpha", None), ("alpha", [0.5]),
          ("n_shapelets", "10"), ("n_shapelets", None), ("shapelet_lengths", []), ("shapelet_lengths", 5), ("shapelet_lengths", [[3, 5]]),
          ("shapelet_lengths", [1]), ("shapelet_lengths", [0, 3]), ("shapelet_lengths", [-3]), ("shapelet_lengths", [5, 1, 3]),
          ("shapelet_lengths_bounds", [3]), ("shapelet_lengths_bounds", [3, 5, 7]), ("lengths_bounds_reduction", 1.0),
          ("lengths_bounds_reduction", 1.5), ("lengths_bounds_reduction", "half"), ("prime_dilations", 0), ("prime_dilations", "no"),
          ("proba_norm", "0.8"), ("proba_norm", None), ("percentiles", [10, 5]), ("percentiles", "5,10"), ("percentiles", ["5", "10"]), ("percentiles", None),
          ("n_samples", "all"), ("n_jobs", 1.5), ("n_jobs", "all"), ("n_jobs", [1]), ("transform_type", "unknown"), ("normalize_output", 1),
          ("normalize_output", "x"), ("percentiles", [5]), ("percentiles", [5, 10, 20]), ("percentiles", [50, 10]), ("lengths_bounds_reduction", -0.5),
          ("transform_type", None), ("transform_type", 3), ("n_jobs", 0), ("n_samples", 0.01), ("n_samples", -0.5), ("n_samples", 0),
          ("n_shapelets", -3), ("n_shapelets", float("nan")), ("random_state", "seed"), ("random_state", -1), ("shapelet_lengths", [float("nan")]),
          ("shapelet_lengths", None), ("shapelet_lengths", [0.001]), ("shapelet_lengths_bounds", 5), ("shapelet_lengths_bounds", ["a", "b"]),
          ("alpha", True), ("proba_norm", False), ("n_shapelets", True), ("lengths_bounds_reduction", None), ("normalize_output", None), ("prime_dilations", None)]
# not only the constructors see these: set_params puts them where the next fit must refuse them
LATE = ("shapelet_lengths", "percentiles", "n_jobs", "transform_type", "n_shapelets", "random_state", "n_samples")


def gen(rng, tier, i):
    est = rng.choice(["T", "T", "R", "E"])
    d = U.fix_spec(G.data_spec(rng), est)
    p = U.est_params(rng, d, est, n_shapelets=rng.choice([2, 4, 6]))
    case = {"est": est, "data": d, "params": p, "state": rng.randrange(1000), "n_jobs": rng.choice([1, 2, -1]), "ops": [], "threads": []}
    for _ in range(rng.choice([2, 3, 4, 6])):
        case["ops"].append(op(rng, case))
    if rng.random() < 0.4:
        ths = [{"op": "use", "x": rng.randrange(1000)}]
        for _ in range(rng.choice([1, 2, 3])):
            o = op(rng, case) if rng.random() < 0.6 else {"op": "use", "x": rng.randrange(1000)}
            # fitting the shared model at the same time is not asked of anything
            ths.append(o if o["op"] in ("bad-use", "unfitted", "param", "bad-new", "use", "normalizer", "check") else {"op": "use", "x": o["x"]})
        case["threads"] = ths
    return case


def op(rng, case):
    d = case["data"]
    k = rng.choice(["bad-fit", "bad-fit", "bad-use", "bad-use", "bad-use", "labels", "unfitted", "param", "param", "set", "restore", "bad-new", "form", "use", "normalizer", "check"])
    o = {"op": k, "x": rng.randrange(1000)}
    if k == "normalizer":
        o["bad"] = rng.choice(["1d", "2d", "4d", "no-series", "no-point", "two-points", "none", "number", "string"])
    if k in ("bad-fit", "bad-use", "bad-new"):
        # what is no series at all can be given to any model
        kinds = OBJ * 1 + LIST + RECT
        if d["var"]:
            kinds = OBJ + LIST * 3
        else:
            kinds = OBJ + RECT * 2
        o["bad"] = rng.choice(kinds)
        if k == "bad-use" and rng.random() < 0.4:
            o["bad"] = rng.choice(CHAN)
    if k == "labels":
        o["by"] = rng.choice([-1, -2, 1, 3])
    if k in ("labels", "set") and rng.random() < 0.5:
        # series of any other kind
        o["data"] = U.fix_spec(G.data_spec(rng), case["est"])
    if k in ("param", "set"):
        o["p"] = rng.randrange(len(PARAMS))
    return o


def shrink(case):
    out = []
    for i in range(len(case["ops"])):
        out.append(dict(case, ops=case["ops"][:i] + case["ops"][i + 1:]))
    if case["threads"]:
        out.append(dict(case, threads=[]))
        for i in range(len(case["threads"])):
            if len(case["threads"]) > 2:
                out.append(dict(case, threads=case["threads"][:i] + case["threads"][i + 1:]))
    for s in G.shrink_spec(case["data"], min_n=4 if case["est"] != "T" else 2, min_len=16 if case["est"] == "E" else 8):
        if s["layout"] == case["data"]["layout"] or True:
            out.append(dict(case, data=s))
    for p in G.shrink_params(case["params"]):
        out.append(dict(case, params=p))
    if case["n_jobs"] != 1:
        out.append(dict(case, n_jobs=1))
    return out


def malformed(kind, rows, x):
    """-> (object, whether it is an array or a list of arrays, whose refusal has a documented kind)"""
    r = np.random.RandomState(x)
    n, c, L = len(rows), rows[0].shape[0], rows[0].shape[1]
    A = np.stack([q[:, :min(w.shape[1] for w in rows)] for q in rows])
    if kind == "1d":
        return A[0, 0], True
    if kind == "2d":
        return A[:, 0, :], True
    if kind == "4d":
        return A[:, :, :, None] if x % 2 else A[None], True
    if kind == "no-series":
        return A[:0], True
    if kind == "no-channel":
        return A[:, :0], True
    if kind == "no-point":
        return A[:, :, :0], True
    if kind == "one-point":
        return A[:, :, :1], True
    if kind == "two-points":
        return A[:, :, :2], True
    if kind == "text":
        B = A.astype("U32")
        B[r.randint(n), 0, 0] = "a"
        return B, True
    if kind == "complex":
        return A.astype(complex), None
    if kind == "bool":
        return A > 0, None
    if kind == "one-channel-inside":
        # a single channel could silently stand for all of them
        if c == 1:
            return malformed("mixed-channels", rows, x)
        rs = [q.copy() for q in rows]
        rs[r.randint(1, n)] = rs[0][:1].copy()
        return rs, True
    if kind == "list-one-short":
        rs = [q.copy() for q in rows]
        j = r.randint(n)
        rs[j] = rs[j][:, :r.randint(3)]
        return rs, True
    if kind in ("mixed-channels", "mixed-channels-object"):
        rs = [q.copy() for q in rows]
        j = r.randint(1, n)
        rs[j] = np.concatenate([rs[j], rs[j][:1]])
        if kind == "mixed-channels":
            return rs, True
        X = np.empty(n, dtype=object)
        for i in range(n):
            X[i] = rs[i]
        return X, True
    if kind == "list-1d":
        return [q[0].copy() for q in rows], False
    if kind == "list-empty":
        return [], False
    if kind == "list-two-points":
        return [q[:, :2].copy() for q in rows], True
    if kind == "list-number":
        return [1.0 * i for i in range(n)], False
    if kind == "list-3d":
        return [q[None] for q in rows], False
    if kind == "none":
        return None, False
    if kind == "number":
        return 3.5, False
    if kind == "string":
        return "series", False
    if kind == "dict":
        return {"X": A}, False
    if kind == "set":
        return {1, 2}, False
    if kind == "function":
        return len, False
    raise core.HarnessError(kind)


def spans(m, est):
    """Of the shapelets of a fitted model: timestamps between the first and the last point."""
    if est == "E":
        trs = [U.step_with(q, "shapelets_") for q in m.models]
    else:
        trs = [m if est == "T" else m.transformer]
    return [(s.length - 1) * s.dilation for t in trs for s in ref.decode(t.shapelets_)]


def unlike_training(kind, m, X, rows, case, x):
    c = rows[0].shape[0]
    if kind == "too-short":
        # the longest shapelet does not fit, by one timestamp or more
        sp = max(spans(m, case["est"]) or [0])
        if case["params"]["phase_invariance"] or sp < 4 or any(q.shape[1] <= sp for q in rows) or \
                not all(k == "raw" for k in case["params"].get("inputs") or (["raw"] if case["est"] != "E" else [""])):
            return None
        L = max(3, sp - [0, 0, 1, 2][x % 4])
        if case["data"]["var"]:
            rs = list(rows)
            rs[x % len(rs)] = rs[x % len(rs)][:, :L]
        else:
            rs = [q[:, :L] for q in rows]
        return G.contain(case["data"], [np.ascontiguousarray(q) for q in rs])
    if kind == "fewer-channels":
        if c == 1:
            return None
        rs = [q[:c - 1] for q in rows]
    else:
        rs = [np.concatenate([q, q[:1]]) for q in rows]
    return G.contain(dict(case["data"], ch=rs[0].shape[0]), [np.ascontiguousarray(q) for q in rs])


def forms(case, rows):
    """The same series in every form the model takes."""
    d = case["data"]
    lays = ["list", "object", "list-F", "list-strided"] if d["var"] else ["C", "F", "strided"]
    if d["values"] in ("int", "runs", "flat"):
        lays.append("list-mixed" if d["var"] else "int64")
    return [(l, G.contain(dict(d, layout=l), rows)) for l in lays]


def checks(x, rows, refused):
    """The validation functions themselves: refuse what is malformed, return what is valid as it is."""
    import pandas as pd
    from convst.utils import checks_utils as K
    r = np.random.RandomState(x)
    n, c, L = int(r.randint(1, 5)), int(r.randint(1, 4)), int(r.randint(3, 9))
    A = r.randint(-9, 9, size=(n, c, L)).astype([float, np.float32, np.int64, int][x % 4])
    A = [A, np.asfortranarray(A), A[::-1], A[:, :, ::-1]][r.randint(4)]
    frame = pd.DataFrame(A[:, 0].astype(float))

    def keep(what, fn, v):
        try:
            got = fn(v)
        except (ValueError, TypeError) as e:
            raise Violation("valid-refused", "%s refuses a valid value: %s" % (what, str(e)[:150]))
        w = v.values if isinstance(v, pd.DataFrame) and not isinstance(got, pd.DataFrame) else v
        if isinstance(v, np.ndarray) and (getattr(got, "dtype", None) != v.dtype):
            raise Violation("valid-changed", "%s changes the type of a valid array" % what)
        same = type(got) is type(w) and got == w if not isinstance(w, (np.ndarray, list, pd.DataFrame)) else \
            np.shape(got) == np.shape(w) and np.array_equal(np.asarray(got), np.asarray(w))
        if not same:
            raise Violation("valid-changed", "%s returns %.80r for the valid %.80r" % (what, got, v))

    todo = [
        lambda: keep("check_array_3D", K.check_array_3D, A),
        lambda: keep("check_array_3D", K.check_array_3D, A.tolist()),
        lambda: keep("check_array_3D(min_timestamps=5)", lambda v: K.check_array_3D(v, min_timestamps=L - 1), A),
        lambda: keep("check_array_3D(univariate)", lambda v: K.check_array_3D(v, is_univariate=True), A[:, :1]),
        lambda: keep("check_array_2D", K.check_array_2D, A[:, 0]),
        lambda: keep("check_array_2D", K.check_array_2D, frame),
        lambda: keep("check_array_2D(coerce_to_numpy=False)", lambda v: K.check_array_2D(v, coerce_to_numpy=False), frame),
        lambda: keep("check_array_1D", K.check_array_1D, A[0, 0]),
        lambda: keep("check_array_1D", K.check_array_1D, A[0, 0].tolist()),
        lambda: keep("check_is_boolean", K.check_is_boolean, bool(x % 2)),
        lambda: keep("check_is_numeric", K.check_is_numeric, [3, -2, 0, 0.5, np.float64(2.5), np.int64(7), np.float32(1.5)][x % 7]),
        lambda: refused(lambda: K.check_array_3D(A[:, 0]), "check_array_3D of a 2D array", "always"),
        lambda: refused(lambda: K.check_array_3D(A[0, 0]), "check_array_3D of a 1D array", "always"),
        lambda: refused(lambda: K.check_array_3D(A[None]), "check_array_3D of a 4D array", "always"),
        lambda: refused(lambda: K.check_array_3D([A, A[:0], A[:, :0], A[:, :, :0]][1 + x % 3]), "check_array_3D of an empty array", "always"),
        lambda: refused(lambda: K.check_array_3D(A[:, :, :1 + x % 2]), "check_array_3D of two timestamps or less", "always"),
        lambda: refused(lambda: K.check_array_3D(A, min_timestamps=L + x % 2), "check_array_3D of too few timestamps", "always"),
        lambda: refused(lambda: K.check_array_3D(np.concatenate([A, A], axis=1), is_univariate=True), "check_array_3D(univariate) of several channels", "always"),
        lambda: refused(lambda: K.check_array_3D(frame), "check_array_3D of a table", "always"),
        lambda: refused(lambda: K.check_array_2D([A, A[0, 0]][x % 2]), "check_array_2D of another rank", "always"),
        lambda: refused(lambda: K.check_array_2D([A[:0, 0], A[:, 0, :0]][x % 2]), "check_array_2D of an empty array", "always"),
        lambda: refused(lambda: K.check_array_1D([A, A[0]][x % 2]), "check_array_1D of another rank", "always"),
        lambda: refused(lambda: K.check_array_1D([A[0, 0, :0], []][x % 2]), "check_array_1D of an empty array", "always"),
        lambda: refused(lambda: [K.check_array_3D, K.check_array_2D, K.check_array_1D, K.check_is_numpy, K.check_is_numpy_or_pd][r.randint(5)](
            [None, 3, "text", {1: 2}, (1, 2), 2.5][x % 6]), "an array check of what is no array", "always"),
        lambda: refused(lambda: K.check_is_numpy(frame), "check_is_numpy of a table", "always"),
        lambda: refused(lambda: K.check_is_boolean([0, 1, "yes", None, 1.0, [True]][x % 6]), "check_is_boolean of no boolean", "always"),
        lambda: refused(lambda: K.check_is_numeric([True, "3", None, [1], False, A][x % 6]), "check_is_numeric of no number", "always"),
        lambda: refused(lambda: K.check_n_jobs([1.0, "2", [1], True, 2.5][x % 5]), "check_n_jobs of no integer", "always"),
    ]
    for k in r.permutation(len(todo))[:8]:
        todo[k]()


def run(case, ctx):
    note = U.noter(ctx)
    est, d = case["est"], case["data"]
    X, rows, y = G.build(d)
    ctx.boot()
    m = U.make(ctx, est, case["params"], n_jobs=case["n_jobs"], state=case["state"])
    ctx.begin("fit")
    ctx.call("fit", m.fit, X, y)
    ctx.end()
    Xt, trows, _ = U.test_set(d, n=3)
    params = lambda: repr(sorted((k, v) for k, v in m.get_params(deep=False).items() if k != "input_transformers"))
    use = lambda mm: np.array((mm.transform if est == "T" else mm.predict)(Xt))
    ctx.begin("use")
    want = ctx.call("use", use, m)
    ctx.end()
    fp, ps = U.fingerprint(est, m), params()

    # an input transformer is the first to meet the data, and may be any
    own = est != "E" or (case["params"].get("inputs") and set(case["params"]["inputs"]) == {"raw"})

    def refused(fn, what, documented):
        """The call must fail with an error of its own."""
        res, e = U.attempt(ctx, fn)
        if res == "ok":
            raise Violation("accepted", "%s was accepted" % what)
        if res == "injected":
            raise core.HarnessError("unexpected failure")
        ok = isinstance(e, (ValueError, TypeError)) if documented and (own or documented == "always") else isinstance(e, Exception)
        if not ok:
            raise Violation("wrong-error", "%s fails with %s: %s instead of being refused with a ValueError or TypeError" % (
                what, type(e).__name__, str(e)[:150]))
        note("refused")

    def other(o):
        if o.get("data") is None:
            return X, y
        Xo, _, yo = G.build(o["data"])
        return Xo, yo

    def action(o):
        """-> function making the call and judging its immediate outcome"""
        k = o["op"]
        if k == "use":
            def f():
                got = ctx.call("use", use, m)
                if U.bits(got) != U.bits(want):
                    raise Violation("answer-changed", "a well-formed call is answered otherwise than before")
            return f
        if k == "form":
            l, Xf = forms(case, trows)[o["x"] % len(forms(case, trows))]

            def f():
                got = np.array(ctx.call("use of the same series as " + l, m.transform if est == "T" else m.predict, Xf))
                if U.bits(got) != U.bits(want):
                    raise Violation("form", "the same series given as %s are answered otherwise" % l)
                note("forms")
            return f
        if k == "normalizer":
            from convst.transformers._input_transformers import Z_normalizer
            B, doc = malformed(o["bad"], rows, o["x"])
            return lambda: refused(lambda: Z_normalizer().fit_transform(B), "normalising series given as " + o["bad"], doc)
        if k in ("bad-fit", "bad-use", "bad-new"):
            if o["bad"] in CHAN:
                B, doc = unlike_training(o["bad"], m, Xt, trows, case, o["x"]), True
                if B is None:
                    return None
            else:
                B, doc = malformed(o["bad"], rows, o["x"])
                if doc is None:
                    # numbers of another kind may be taken or refused, as one
                    return None
            before = U.snapshot(B) if not callable(B) else None
            yb = y[:len(B)] if isinstance(B, (np.ndarray, list)) and len(B) < len(y) else y

            def f():
                if k == "bad-use":
                    refused(lambda: (m.transform if est == "T" else m.predict)(B), "use with %s" % o["bad"], doc)
                elif k == "bad-fit":
                    refused(lambda: m.fit(B, yb), "fit with %s" % o["bad"], doc)
                else:
                    q = U.make(ctx, est, case["params"], n_jobs=case["n_jobs"], state=case["state"])
                    refused(lambda: q.fit(B, yb), "first fit with %s" % o["bad"], doc)
                    refused(lambda: use(q), "use after a refused first fit", False)
                    q.fit(X, y)
                    if U.bits(use(q)) != U.bits(want):
                        raise Violation("trace", "a fit after a refused one gives another model than a fit alone")
                if before is not None and U.snapshot(B) != before:
                    raise Violation("data-changed", "a refused call changed the data it was given")
            return f
        if k == "labels":
            Xl, yl = other(o)
            yb = yl[:o["by"]] if o["by"] < 0 else np.concatenate([yl, yl[:o["by"]]])
            if o["x"] % 2:
                yb = yb.tolist()

            def f():
                refused(lambda: m.fit(Xl, yb), "fit of %d series with %d labels" % (len(yl), len(yb)), True)
            return f
        if k == "unfitted":
            def f():
                q = U.make(ctx, est, case["params"], n_jobs=case["n_jobs"], state=case["state"])
                refused(lambda: use(q), "use before fit", "always")
            return f
        if k in ("param", "set"):
            name, v = PARAMS[o["p"] % len(PARAMS)]
            if est == "E":
                name = {"n_shapelets": "n_shapelets_per_estimator", "alpha": "shp_alpha"}.get(name, name)
            if k == "param":
                def f():
                    def both():
                        q = U.kwargs(est, dict(case["params"], n_jobs=case["n_jobs"], random_state=case["state"]))
                        if name == "shapelet_lengths":
                            q.pop("shapelet_lengths_bounds", None)
                        if name == "lengths_bounds_reduction":
                            q.setdefault("shapelet_lengths_bounds", [3, 8])
                        q[name] = v
                        return type(m)(**q).fit(X, y)
                    refused(both, "%s=%r" % (name, v), "always")
                return f
            if name not in LATE or v is True:
                return None
            if "shapelet_lengths_bounds" in case["params"] and name == "shapelet_lengths":
                return None

            Xl, yl = other(o)

            def f():
                old = m.get_params(deep=False)[name]
                ctx.call("set_params", m.set_params, **{name: v})
                refused(lambda: m.fit(Xl, yl), "fit after set_params(%s=%r)" % (name, v), True)
                ctx.call("set_params", m.set_params, **{name: old})
            return f
        if k == "restore":
            return None
        if k == "check":
            return lambda: checks(o["x"], rows, refused)
        raise core.HarnessError(k)

    def same(what):
        U.same("model-changed", fp, U.fingerprint(est, m), what)
        if params() != ps:
            raise Violation("parameters-changed", "%s: parameters are %s, were %s" % (what, params(), ps))

    inputs = U.snapshot([X, y, Xt])
    import copy
    import pickle
    for j, o in enumerate(case["ops"]):
        if o["op"] == "restore":
            # the same model, saved and loaded, is held to the same
            m = [lambda q: pickle.loads(pickle.dumps(q)), copy.deepcopy, copy.copy][o["x"] % 3](m)
            note("restored")
            f = lambda: None
        else:
            f = action(o)
        if f is None:
            continue
        ctx.begin("op%d" % j)
        f()
        if est == "R" and o["op"] in ("bad-fit", "labels", "set"):
            # a ridge classifier may give up its model when a fit is refused, but then answers nothing
            res, e = U.attempt(ctx, lambda: use(m))
            if res == "error":
                note("model-withdrawn")
                ctx.call("fit", m.fit, X, y)
        same("after operation %d (%s)" % (j, o["op"]))
        got = ctx.call("use", use, m)
        ctx.end()
        if U.bits(got) != U.bits(want):
            raise Violation("answer-changed", "after operation %d (%s) a well-formed call is answered otherwise" % (j, o["op"]))
    ths = [f for f in (action(o) for o in case["threads"]) if f is not None]
    if len(ths) > 1:
        ctx.begin("together")
        ths = [ctx.sim.spawn(f, "caller%d" % k, "py") for k, f in enumerate(ths)]
        ctx.sim.join(ths)
        for t in ths:
            if t.exc is not None:
                raise t.exc
        ctx.end()
        same("after concurrent calls")
        note("concurrent-callers", len(ths))
    ctx.begin("again")
    ctx.call("fit", m.fit, X, y)
    got = ctx.call("use", use, m)
    ctx.end()
    U.same("trace", fp, U.fingerprint(est, m), "a last fit after refused calls")
    if U.bits(got) != U.bits(want):
        raise Violation("trace", "a last fit after refused calls gives another model")
    if U.snapshot([X, y, Xt]) != inputs:
        raise Violation("data-changed", "the caller's data changed")
