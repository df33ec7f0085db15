# -*- coding: utf-8 -*-
"""Shared workload pieces: the three estimators, their outputs, comparison."""
import numpy as np

from .. import core, gen as G
from ..core import Violation


def est_params(rng, spec, est, n_shapelets=None):
    """JSON parameters for the transformer (T), ridge classifier (R), ensemble (E)."""
    p = G.shapelet_params(rng, spec, n_shapelets=n_shapelets or rng.choice([2, 4, 6, 10]))
    if est == "R":
        p.pop("max_channels", None)
    if est == "E":
        p.pop("shapelet_lengths_bounds", None)
        p.pop("lengths_bounds_reduction", None)
        p["shapelet_lengths"] = rng.choice([[3], [3, 5], [4], [2, 3, 4]])
        if spec["var"]:
            p["inputs"] = rng.choice([["raw"], ["raw", "raw"], ["raw", "raw", "raw"], ["center", "raw"]])
        else:
            p["inputs"] = rng.choice([None, None, None, ["raw", "derivate"], ["periodigram", "raw"],
                                      ["raw", "raw", "derivate", "periodigram"], ["derivate2", "raw", "znorm"],
                                      ["center", "raw"]])
        k = 3 if p["inputs"] is None else len(p["inputs"])
        p["proba_norm"] = [rng.choice([0.0, 0.5, 1.0]) for _ in range(k)]
    return p


def fix_spec(spec, est):
    """Series long enough for the periodogram member of the ensemble."""
    if est == "E":
        spec["len"] = max(16, spec["len"])
    if est != "T":
        spec["n"] = max(spec["n"], 4, 2 * spec["k"])
        if spec["values"] in ("flat", "runs"):
            spec["values"] = "int"
    if spec["labels"] in ("neg", "gap", "big") and spec["seed"] % 3 == 0:
        # labels of any other type
        spec["labels"] = ["str", "float", "obj", "bool", "u8", "long"][spec["seed"] // 3 % 6]
    return spec


def make(ctx, est, params, n_jobs=1, state=0, **extra):
    p = dict(params)
    p.update(extra)
    q = kwargs(est, p)
    if est == "T":
        from convst.transformers import R_DST as cls
    elif est == "R":
        from convst.classifiers import R_DST_Ridge as cls
    else:
        from convst.classifiers import R_DST_Ensemble as cls
    return ctx.call("construct", cls, n_jobs=n_jobs, random_state=state, **q)


def kwargs(est, p):
    """Constructor arguments for JSON parameters."""
    p = dict(p)
    if est != "E":
        return p
    from . import probes
    from convst.transformers._input_transformers import Raw, Derivate, Periodigram, Z_normalizer
    table = {"raw": Raw, "derivate": Derivate, "derivate2": lambda: Derivate(order=2), "periodigram": Periodigram,
             "znorm": Z_normalizer, "center": probes.Center}
    q = {"n_shapelets_per_estimator": p.pop("n_shapelets"), "shp_alpha": p.pop("alpha")}
    inp = p.pop("inputs", None)
    if inp is not None:
        q["input_transformers"] = [table[n]() for n in inp]
    q.update(p)
    return q


def inside(rng, case, chance=0.3):
    """Some runs look at the transformer of a ridge classifier, or at those of an ensemble's members, instead of one
    that is used alone: case["est"], with the parameters that estimator takes."""
    d, p = case["data"], case["params"]
    if rng.random() >= chance or d.get("wide") in ("shapelets", "long") or d["k"] > d["n"] // 2:
        return case
    est = rng.choice(["R", "R", "E"])
    if d["values"] in ("flat", "runs", "zero", "big", "tiny"):
        d["values"] = "int"
    d["n"] = max(4, d["n"])
    if est == "R":
        p.pop("max_channels", None)
    else:
        p.pop("transform_type", None)
        if d["layout"] == "f32":
            d["layout"] = "C"
        d["len"] = max(9, d["len"])
        case["inputs"] = rng.choice([["raw"], ["raw", "raw"]] if d["var"] else
                                    [["raw"], ["derivate"], ["raw", "derivate"], ["raw", "raw", "derivate"]])
        p["n_shapelets"] = max(2, p["n_shapelets"] // len(case["inputs"]))
        p["proba_norm"] = [rng.choice([0.0, 1.0, p["proba_norm"]]) for _ in case["inputs"]]
    case["est"] = est
    return case


def make_inside(ctx, case):
    """The estimator of a case made by inside()."""
    est, p = case.get("est", "T"), case["params"]
    if est == "E":
        p = dict(p, inputs=case["inputs"])
    return make(ctx, est, p, n_jobs=case["n_jobs"], state=case["state"])


def parts(case, m, rows):
    """-> [(name, transformer, series it works on, its parameters, function from the caller's data to its input)]"""
    est, p = case.get("est", "T"), case["params"]
    if est != "E":
        return [("", m if est == "T" else m.transformer, rows, p, lambda X: X)]
    out = []
    if len(m.models) != len(case["inputs"]):
        raise Violation("missing-member", "%d members for %d input transformers" % (len(m.models), len(case["inputs"])))
    for i, kind in enumerate(case["inputs"]):
        pp = m.models[i]
        t = step_with(pp, "shapelets_")

        def pre(X, pp=pp, t=t):
            for _, s in pp.steps:
                if s is t:
                    return X
                X = s.transform(X)
        rs = [np.diff(x) for x in rows] if kind == "derivate" else rows
        out.append(("member %d (%s): " % (i, kind), t, rs, dict(p, proba_norm=p["proba_norm"][i]), pre))
    return out


def step_with(pipe, attr):
    for _, s in pipe.steps:
        if hasattr(s, attr):
            return s
    raise core.HarnessError("no pipeline step has " + attr)


def transformers(est, m):
    if est == "T":
        return [m]
    if est == "R":
        return [m.transformer]
    return [step_with(pp, "shapelets_") for pp in m.models]


def arrays(tag, tup):
    return [("%s[%d]" % (tag, i), np.array(a)) for i, a in enumerate(tup)]


def fingerprint(est, m):
    """Every learnt quantity the properties speak of, as named arrays."""
    out = []
    for i, t in enumerate(transformers(est, m)):
        out += arrays("shapelets_%d" % i, t.shapelets_)
    if est == "E":
        out.append(("model_weights", np.array(m.model_weights, dtype=float)))
    if est != "T":
        pipes = [m.classifier] if est == "R" else m.models
        for i, pp in enumerate(pipes):
            for _, s in getattr(pp, "steps", ()):
                if hasattr(s, "coef_"):
                    out.append(("coef_%d" % i, np.array(s.coef_, dtype=float)))
                    out.append(("intercept_%d" % i, np.array(s.intercept_, dtype=float)))
    return out


def outputs(ctx, est, m, X, what=""):
    out = []
    if est == "T":
        out.append((what + "transform", np.array(ctx.call("transform", m.transform, X))))
    else:
        out.append((what + "predict", np.array(ctx.call("predict", m.predict, X))))
        if est == "R":
            out.append((what + "features", np.array(ctx.call("transform", m.transformer.transform, X))))
    return out


def bits(a):
    a = np.asarray(a)
    if a.dtype == object:
        return repr(a.tolist())
    return (a.shape, a.dtype.kind, np.ascontiguousarray(a).tobytes() if a.dtype.kind != "U" else repr(a.tolist()))


def same(kind, ref_, got, what):
    """Bit-for-bit equality of two lists of named arrays."""
    d = diff(ref_, got)
    if d is not None:
        raise Violation(kind, "%s: %s" % (what, d))


def diff(ref_, got):
    if len(ref_) != len(got):
        return "%d quantities instead of %d" % (len(got), len(ref_))
    for (n1, a), (n2, b) in zip(ref_, got):
        if n1 != n2:
            return "%s instead of %s" % (n2, n1)
        if bits(a) != bits(b):
            if a.shape != b.shape:
                return "%s has shape %s, expected %s" % (n1, b.shape, a.shape)
            try:
                w = np.argwhere(~((a == b) | ((a != a) & (b != b))))
                j = tuple(int(v) for v in w[0]) if len(w) else ()
                return "%s differs at %s: %r, expected %r (%d entries differ)" % (n1, j, b[j].item(), a[j].item(), len(w))
            except Exception:
                return "%s differs" % n1
    return None


def snapshot(objs):
    """Bytes of every array reachable in (nested lists of) caller data."""
    import hashlib
    h = hashlib.blake2b(digest_size=16)

    def rec(o):
        if isinstance(o, np.ndarray):
            h.update(repr((o.shape, str(o.dtype), o.flags.writeable)).encode())
            if o.dtype == object:
                for v in o.ravel():
                    rec(v)
            else:
                h.update(np.ascontiguousarray(o).tobytes() if o.dtype.kind != "U" else repr(o.tolist()).encode())
        elif isinstance(o, (list, tuple)):
            h.update(b"L%d" % len(o))
            for v in o:
                rec(v)
        elif isinstance(o, dict):
            for k in o:
                h.update(repr(k).encode())
                rec(o[k])
        else:
            h.update(repr(o).encode())
    rec(objs)
    return h.hexdigest()


def noter(ctx):
    return lambda k, n=1: ctx.notes.__setitem__(k, ctx.notes.get(k, 0) + n)


def test_set(spec, n=4, salt=1, length=None):
    return G.build(spec, n=n, salt=salt, length=length)


# ---- faults ------------------------------------------------------------------
def fault_spec(rng):
    return {"exc": rng.choice(["MemoryError", "MemoryError", "KeyboardInterrupt"]),
            "mode": rng.choice(["py", "py", "tail", "tail", "any"]), "frac": round(rng.random(), 6)}


def measure(ctx, fn):
    """Run fn, return (result, steps, step numbers of its Python statements)."""
    n0 = core.N
    core.PYLOG = log = []
    try:
        r = fn()
    finally:
        core.PYLOG = None
    return r, core.N - n0, [x - n0 for x in log]


def place(f, steps, pylog):
    if f["mode"] == "any" or not pylog:
        at = 1 + int(f["frac"] * max(1, steps - 1))
    elif f["mode"] == "tail":
        at = pylog[max(0, len(pylog) - 1 - int(f["frac"] * 14))]
    else:
        at = pylog[min(len(pylog) - 1, int(f["frac"] * len(pylog)))]
    return {"at": at, "exc": f["exc"], "where": "any"}


def n_fired(ctx):
    return sum(v for k, v in ctx.sim.fired.items() if "Error" in k or "Interrupt" in k)


def attempt(ctx, fn):
    """-> (outcome, value): 'ok' | 'injected' | 'error'.  Injected failures are
    told apart from failures of the code under test by the injector's counter."""
    before = n_fired(ctx)
    try:
        r = fn()
    except (core.Violation, core.HarnessError, core.SimAbort, core.SimCrash, core.Degenerate):
        raise
    except (MemoryError, KeyboardInterrupt, core.InjectedError) as e:
        if n_fired(ctx) == before and not isinstance(e, core.InjectedError):
            raise
        return "injected", e
    except Exception as e:
        from ..runner import is_stub_gap
        if is_stub_gap(e):
            raise core.HarnessError("stub: %s: %s" % (type(e).__name__, e))
        return "error", e
    return "ok", r
