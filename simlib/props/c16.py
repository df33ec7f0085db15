# -*- coding: utf-8 -*-
"""C16: what the interpreters draw is what the model computes, in any history and schedule."""
import copy
import pickle
import numpy as np
from .. import core, gen as G
from .. import ref
from ..core import Violation
from . import util as U

ID = "C16"
N_QUICK = 2800
RULE = ("A run takes a fitted univariate model and its interpreters through a random history (drawings of a shapelet, of its best "
        "match, of its distance vector and of the best shapelets of a class; refits on other data, failed and interrupted calls, "
        "copies, restored models; threads that draw while others draw, predict and fit) and compares everything that reaches "
        "the (recording) plotting library with the shapelets, features and coefficients of the model at that moment.")


def gen(rng, tier, i):
    est = rng.choice(["T", "R", "R"])
    datas = []
    for _ in range(rng.choice([1, 2, 2])):
        d = U.fix_spec(G.data_spec(rng, uni=True, var=False if est == "R" and rng.random() < 0.7 else None, labels="int"), est)
        d["n"] = max(d["n"], 2 * d["k"])
        datas.append(d)
    p = U.est_params(rng, datas[0], est, n_shapelets=rng.choice([1, 3, 6, 10]))
    p["shapelet_lengths"] = rng.choice([[3], [3, 5], [2, 4], [0.25], [0.5]])
    p.pop("shapelet_lengths_bounds", None)
    p.pop("lengths_bounds_reduction", None)
    p.pop("max_channels", None)
    if len(datas) == 1:
        G.explicit_type(rng, datas[0], p)
        if p.get("transform_type", "").startswith("multi"):
            p.pop("transform_type")
    for d in datas:
        # a drawing has the precision of the series it is made on; the oracle is in double precision
        d["layout"] = "C" if d["layout"] == "f32" else d["layout"]
    ops = []
    for _ in range(rng.choice([2, 3, 5, 7])):
        o = {"op": rng.choice(["plot", "on", "on", "dist", "dist", "class", "class", "refit", "new", "restore", "fail", "failfit",
                               "together", "together", "together", "interp-copy", "params"]),
             "s": rng.randrange(1000), "j": rng.randrange(1000), "salt": rng.randrange(1, 40), "ax": rng.random() < 0.6,
             "d": rng.randrange(len(datas)), "longer": rng.choice([0, 0, 3, 40, 0, 0, 0, 3, 40, 250, 500]), "n": rng.choice([1, 1, 2, 4, 50]),
             "f": U.fault_spec(rng), "x": rng.randrange(1000)}
        if o["op"] in ("together", "fail"):
            o["who"] = [dict(o, op=rng.choice(["plot", "on", "on", "dist", "dist", "use", "fit"] if k else ["on", "dist"]), ax=True,
                             s=rng.randrange(1000), salt=rng.randrange(1, 40)) for k in range(rng.choice([2, 2, 3]))]
        ops.append(o)
    ops.append({"op": rng.choice(["on", "dist", "class"]), "s": rng.randrange(1000), "j": rng.randrange(1000), "salt": 1, "ax": True,
                "d": 0, "longer": 0, "n": 2, "x": 1})
    return {"est": est, "datas": datas, "params": p, "state": G.seed_value(rng), "n_jobs": rng.choice([1, 2, -1]), "ops": ops,
            "parallel": rng.random() < 0.9}


def shrink(case):
    out = []
    for k in range(len(case["ops"])):
        if len(case["ops"]) > 1:
            out.append(dict(case, ops=case["ops"][:k] + case["ops"][k + 1:]))
    for j, d in enumerate(case["datas"]):
        for s in G.shrink_spec(d, min_n=4, min_len=8):
            if s["n"] >= 2 * s["k"]:
                out.append(dict(case, datas=case["datas"][:j] + [s] + case["datas"][j + 1:]))
    for p in G.shrink_params(case["params"]):
        out.append(dict(case, params=p))
    return out


# ---- reading the drawings ---------------------------------------------------
def find(calls, *names):
    return [(a, k) for n, a, k in calls if n in names]


def line(call):
    """y values of one plot(y) or plot(x, y)."""
    a, k = call
    ys = [np.asarray(v) for v in a if not isinstance(v, str)]
    if not ys:
        raise Violation("drawing", "a plot without data")
    y = ys[1] if len(ys) > 1 else ys[0]
    return np.asarray(y, dtype=float).reshape(-1)


def level(calls):
    """Heights of the horizontal lines drawn."""
    out = []
    for a, k in find(calls, "hlines", "axhline"):
        v = k.get("y", a[0] if a else 0.0)
        out.append(float(np.asarray(v).reshape(-1)[0]))
    return out


def check_values(calls, s, what):
    ls = [line(c) for c in find(calls, "plot")]
    want = s.values[0]
    if not any(len(y) == len(want) and np.array_equal(y, want) for y in ls):
        raise Violation("shapelet-drawn", "%s: the curve drawn is %s, the shapelet is %s" % (
            what, [np.round(y, 4).tolist() for y in ls][:2], np.round(want, 4).tolist()))
    titles = " ".join(str(a[0]) if a else "" for a, k in find(calls, "set_title"))
    if titles and not ("%d" % s.dilation in titles and str(bool(s.norm)) in titles):
        raise Violation("shapelet-drawn", "%s: the title %r does not give dilation %d and normalisation %s" % (
            what, titles, s.dilation, bool(s.norm)))


def tolerance(d, x, s, phase, exact):
    if exact and not s.norm:
        return 0.0
    amp = 1.0
    if s.norm:
        w = ref.windows(x, s.length, s.dilation, phase)
        amp = max(1.0, np.abs(w).max() / (w.std(axis=1).min() + 1e-8))
    return 4e-10 * (1.0 + abs(d).max() + (0 if s.norm else np.abs(x).max())) * s.length * amp


def check_match(curve, pts, x, s, phase, exact, what):
    """curve: series drawn; pts: (x, y) of the scatter."""
    if curve is not None and not (len(curve) == len(x) and np.array_equal(curve, x)):
        raise Violation("match-drawn", "%s: the series drawn is not the one given" % what)
    a, k = pts
    px = np.asarray(k.get("x", a[0] if a else None))
    py = np.asarray(k.get("y", a[1] if len(a) > 1 else None), dtype=float)
    d = ref.distances(x[None], s, phase)
    tol = tolerance(d, x, s, phase, exact)
    if px.shape != (s.length,) or py.shape != (s.length,):
        raise Violation("match-drawn", "%s: %s points for a shapelet of length %d" % (what, px.shape, s.length))
    start = int(px[0])
    want = (start + s.dilation * np.arange(s.length))
    if phase:
        want = want % len(x)
    if not np.array_equal(px, want) or not 0 <= start < len(d):
        raise Violation("match-drawn", "%s: positions %s are no window of dilation %d" % (what, px.tolist(), s.dilation))
    if d[start] > d.min() + tol:
        raise Violation("match-drawn", "%s: drawn at %d (distance %r), the best match is at %d (distance %r)" % (
            what, start, float(d[start]), int(d.argmin()), float(d.min())))
    if tol == 0.0 and start != int(d.argmin()):
        raise Violation("match-drawn", "%s: drawn at %d, the first best match is at %d" % (what, start, int(d.argmin())))
    v = s.values[0]
    if s.norm:
        w = x[want]
        v = v * w.std() + w.mean()
    if not np.all(np.abs(py - v) <= 1e-9 * (1 + np.abs(v).max() + np.abs(x).max()) * (1 if s.norm else 0)):
        raise Violation("match-drawn", "%s: heights %s, expected %s" % (what, py.tolist(), v.tolist()))
    return start


def check_dist(curve, lines, x, s, phase, exact, what):
    d = ref.distances(x[None], s, phase)
    tol = tolerance(d, x, s, phase, exact)
    if curve.shape != d.shape or not np.all(np.abs(curve - d) <= tol):
        raise Violation("distances-drawn", "%s: the distance vector drawn has %d values (min %r), expected %d (min %r)" % (
            what, len(curve), float(curve.min()) if len(curve) else None, len(d), float(d.min())))
    if not any(v == s.threshold for v in lines):
        raise Violation("distances-drawn", "%s: threshold drawn at %s, it is %r" % (what, lines, s.threshold))


# ---- the model and its interpreter ---------------------------------------------
class World(object):
    pass


def run(case, ctx):
    note = U.noter(ctx)
    ctx.boot(parallel=case["parallel"])
    from matplotlib import pyplot as plt
    import convst.interpreters as CI
    from convst.interpreters.rdst_interpreter import RDST_interpreter, RDST_Ridge_interpreter
    est, p = case["est"], case["params"]
    w = World()
    w.sets = [G.build(d) for d in case["datas"]]
    w.snaps = U.snapshot(w.sets)
    w.m = U.make(ctx, est, p, n_jobs=case["n_jobs"], state=case["state"])
    w.d = None

    def fit(d, name):
        X, _, y = w.sets[d]
        ctx.begin(name)
        ctx.call("fit", w.m.fit, X, y)
        ctx.end()
        w.d = d

    def interpreter():
        return ctx.call("build the interpreter", RDST_interpreter if est == "T" else RDST_Ridge_interpreter, w.m)

    def T():
        return w.m if est == "T" else w.m.transformer

    def series(o):
        """A series to draw on -> (1D array, exact?)"""
        d = case["datas"][w.d]
        if o["longer"]:
            _, rows, _ = U.test_set(d, n=1, salt=o["salt"], length=d["len"] + o["longer"])
            x = rows[0][0]
        else:
            _, rows, _ = w.sets[w.d] if o["salt"] % 2 else U.test_set(d, n=3, salt=o["salt"])
            x = rows[o["j"] % len(rows)][0]
        x = np.array(x)
        if G.exact(d) and d["values"] not in ("big", "tiny") and o["x"] % 4 == 0:
            # (up to values that single precision cannot hold)
            x = x.astype(np.int64) * [1, 16777259][o["x"] // 4 % 2]
        return x, G.exact(d)

    def shapelet(o):
        S = ref.decode(T().shapelets_)
        return S[o["s"] % len(S)] if S else None

    def shp_interp(it, o):
        return it if est == "T" else it.rdst_interp if o["x"] % 2 and hasattr(it, "rdst_interp") else RDST_interpreter(w.m.transformer)

    def axes():
        return plt.Axes(None)

    def draw(it, o, s, x, si=None):
        """-> calls recorded by one drawing"""
        si = si or shp_interp(it, o)
        ax = axes() if o["ax"] else None
        n0 = len(plt.FIGURES)
        if o["op"] == "plot":
            si.plot(s.i, ax=ax)
        elif o["op"] == "on":
            si.plot_on_X(s.i, x, ax=ax, label="some series")
        else:
            si.plot_distance_vector(s.i, x, ax=ax, label="some series")
        if ax is not None:
            return ax.calls
        figs = plt.FIGURES[n0:]
        if len(figs) != 1:
            raise Violation("drawing", "%d figures were opened instead of one" % len(figs))
        return [c for a in figs[0].axes for c in a.calls]

    def judge(calls, o, s, x, ex, what):
        what = "%s: shapelet %d (length %d, dilation %d, norm %s)" % (what, s.i, s.length, s.dilation, s.norm)
        ph = bool(p["phase_invariance"])
        if o["op"] == "plot":
            check_values(calls, s, what)
        elif o["op"] == "on":
            ls, pts = find(calls, "plot"), find(calls, "scatter")
            if len(pts) != 1 or not ls:
                raise Violation("match-drawn", "%s: %d curves and %d matches drawn" % (what, len(ls), len(pts)))
            check_match(line(ls[0]), pts[0], x.astype(float), s, ph, ex, what)
        else:
            ls = find(calls, "plot")
            if not ls:
                raise Violation("distances-drawn", "%s: nothing drawn" % what)
            check_dist(line(ls[0]), level(calls), x.astype(float), s, ph, ex, what)
        note("drawn-" + o["op"])

    def one(it, o, what):
        s = shapelet(o)
        if s is None:
            return
        x, ex = series(o)
        x0 = np.array(x)
        ctx.begin(what)
        calls = ctx.call("draw (%s)" % o["op"], draw, it, o, s, x)
        ctx.end()
        if not np.array_equal(x, x0):
            raise Violation("caller-data-modified", "%s changed the series it draws on" % what)
        judge(calls, o, s, x, ex, what)

    def class_view(it, o, what):
        d = case["datas"][w.d]
        if d["var"] or not len(ref.decode(T().shapelets_)):
            return
        if o["salt"] % 2:
            X, rows, y = w.sets[w.d]
        else:
            X, rows, y = U.test_set(d, n=max(4, 2 * d["k"]), salt=o["salt"])
        if not isinstance(X, np.ndarray) or X.ndim != 3:
            return
        k = len(set(w.sets[w.d][2].tolist()))
        c = o["s"] % k
        if not (y == c).any() or (y == c).all():
            return
        snap = U.snapshot([X, y])
        n0 = len(plt.FIGURES)
        ctx.begin(what)
        np.random.seed(o["x"])
        ctx.call("class view", it.visualize_best_shapelets_one_class, X, y, c, n_shp=o["n"])
        ctx.end()
        if U.snapshot([X, y]) != snap:
            raise Violation("caller-data-modified", "the class view changed the data it was given")
        ctx.begin(what + "-features")
        F = np.asarray(ctx.call("transform", T().transform, X))
        ctx.end()
        check_class(w.m, plt.FIGURES[n0:], F, rows, y, c, o["n"], bool(p["phase_invariance"]), G.exact(d), what)
        note("class-views")

    fit(0, "fit")
    it = interpreter()
    before = None
    for n, o in enumerate(case["ops"]):
        op = o["op"]
        what = "operation %d (%s)" % (n, op)
        if op in ("plot", "on", "dist"):
            before = U.fingerprint(est, w.m)
            one(it, o, what)
            U.same("model-changed", before, U.fingerprint(est, w.m), what)
        elif op == "class":
            if est == "R":
                before = U.fingerprint(est, w.m)
                class_view(it, o, what)
                U.same("model-changed", before, U.fingerprint(est, w.m), what)
        elif op == "refit":
            fit(o["d"], "op%d" % n)
            note("refits")
            if o["x"] % 3 == 0:
                it = interpreter()
        elif op == "new":
            it = interpreter()
        elif op == "params":
            # a parameter changed after the fit counts from the next fit on
            w.m.set_params(n_shapelets=int(p["n_shapelets"]) + 2, alpha=0.2)
        elif op == "restore":
            w.m = ctx.call("restore", lambda: pickle.loads(pickle.dumps(w.m)))
            it = interpreter()
        elif op == "interp-copy":
            c = ctx.call("copy the interpreter", copy.deepcopy, it)
            it = c
            w.m = c.RDST if est == "T" else c.RDST_Ridge
        elif op == "failfit":
            X, _, y = w.sets[o["d"]]
            ctx.begin("op%d" % n, faults=[{"at": 1 + int(o["f"]["frac"] * 1500), "exc": o["f"]["exc"], "where": "any"}])
            res, e = U.attempt(ctx, lambda: w.m.fit(X, y))
            ctx.end()
            if res == "ok":
                w.d = o["d"]
            elif est == "R":
                fit(o["d"], "op%d-again" % n)      # a classifier without a completed fit has nothing to show
            note("fits-" + res)
            if est == "T" and res != "ok":
                # the model of one of the two fits (C06): either way the drawing follows the model
                if o["d"] != w.d:
                    fit(o["d"], "op%d-again" % n)
        elif op == "fail":
            q = o["who"][0]
            s = shapelet(q)
            if s is None:
                continue
            x, ex = series(q)
            before = U.fingerprint(est, w.m)
            ctx.begin("op%d" % n, faults=[{"at": 1 + int(o["f"]["frac"] * 120), "exc": o["f"]["exc"], "where": "any"}])
            res, e = U.attempt(ctx, lambda: draw(it, q, s, x))
            ctx.end()
            if res == "ok":
                judge(e, q, s, x, ex, what)
            elif res == "error":
                raise Violation("error-raised", "%s: %s: %s" % (what, type(e).__name__, e))
            note("drawings-" + res)
            U.same("model-changed", before, U.fingerprint(est, w.m), what)
            one(it, q, what + ", again")
        elif op == "together":
            together(case, ctx, o, what, it, w, shapelet, series, draw, judge, note)
    if U.snapshot(w.sets) != w.snaps:
        raise Violation("caller-data-modified", "drawing changed the training data")


def together(case, ctx, o, what, it, w, shapelet, series, draw, judge, note):
    est, p = case["est"], case["params"]
    jobs = []
    # the callers share one interpreter, or not
    si = it if est == "T" else it.rdst_interp if o["x"] % 4 == 1 and hasattr(it, "rdst_interp") else None
    if si is None and o["x"] % 4:
        from convst.interpreters.rdst_interpreter import RDST_interpreter
        si = RDST_interpreter(w.m.transformer)
    for q in o["who"]:
        s = shapelet(q)
        if s is None:
            return
        x, ex = series(q)
        if q["op"] in ("plot", "on", "dist"):
            jobs.append((q, s, x, ex, (lambda q, s, x: lambda: draw(it, q, s, x, si))(q, s, x)))
        elif q["op"] == "use":
            Xt, _, _ = U.test_set(case["datas"][w.d], n=2, salt=q["salt"])
            f = w.m.transform if est == "T" else w.m.predict
            ctx.begin(what + "-alone")
            ref_ = np.array(ctx.call("use", f, Xt))
            ctx.end()
            jobs.append((q, ref_, None, None, (lambda f, Xt: lambda: np.array(f(Xt)))(f, Xt)))
        else:
            m2 = U.make(ctx, est, dict(p, n_shapelets=3), n_jobs=2, state=q["x"])
            X, _, y = w.sets[q["d"]]
            jobs.append((q, None, None, None, (lambda m2, X, y: lambda: m2.fit(X, y))(m2, X, y)))
    ctx.begin(what)
    ths = [ctx.sim.spawn(j[4], "caller%d" % k, "py") for k, j in enumerate(jobs)]
    ctx.sim.join(ths)
    for k, th in enumerate(ths):
        if th.exc is not None:
            if isinstance(th.exc, (core.Violation, core.HarnessError, core.Degenerate)):
                raise th.exc

            def again(e=th.exc):
                raise e
            ctx.call("concurrent " + jobs[k][0]["op"], again)
    ctx.end()
    for k, (q, s, x, ex, _) in enumerate(jobs):
        name = "%s, caller %d of %d" % (what, k, len(jobs))
        if q["op"] == "use":
            U.same("concurrent-result", [("answer", s)], [("answer", ths[k].result)], name)
        elif q["op"] != "fit":
            judge(ths[k].result, q, s, x, ex, name)
        note("concurrent-" + q["op"])


def importance(m, c):
    """Coefficient of each feature for class c (0 for the columns left out)."""
    sc = U.step_with(m.classifier, "usefull_atts")
    rc = U.step_with(m.classifier, "coef_")
    co = np.asarray(rc.coef_, dtype=float)
    if co.shape[0] == 1:
        co = np.concatenate([-co, co])
    out = np.zeros(3 * len(ref.decode(m.transformer.shapelets_)))
    out[np.asarray(sc.usefull_atts)] = co[c]
    return out


def check_class(m, figs, F, rows, y, c, n_shp, phase, exact, what):
    shps = ref.decode(m.transformer.shapelets_)
    co = importance(m, c)
    best = co.reshape(-1, 3).max(axis=1)
    n = min(n_shp, len(shps))
    if len(figs) != n:
        raise Violation("class-view", "%s: %d figures for %d shapelets" % (what, len(figs), n))
    order = np.sort(best)[::-1]
    left = set(range(len(shps)))
    for r, f in enumerate(figs):
        calls = [q for a in f.axes for q in a.calls]
        box = find(calls, "boxplot")
        if len(box) != 3:
            raise Violation("class-view", "%s: %d box plots" % (what, len(box)))
        cols = []
        for a, k in box:
            g = np.asarray(k.get("x", a[0] if a else None)).reshape(-1)
            v = np.asarray(k.get("y", a[1] if len(a) > 1 else None), dtype=float).reshape(-1)
            if len(g) != len(y) or not np.array_equal(g.astype(int) == 1, y == c):
                raise Violation("class-view", "%s: the box plots do not separate class %d from the others" % (what, c))
            cols.append(v)
        cols = np.stack(cols, axis=1)
        fits = [k for k in range(len(shps)) if cols.shape == F[:, 3 * k:3 * k + 3].shape
                and np.array_equal(cols, F[:, 3 * k:3 * k + 3])]
        if not fits:
            raise Violation("class-view", "%s: figure %d shows features of no shapelet of the model" % (what, r))
        fits = [k for k in fits if best[k] == order[r]]
        if not fits:
            raise Violation("class-view", "%s: figure %d does not show a shapelet of coefficient %r (rank %d)" % (
                what, r, float(order[r]), r))
        # the shapelet itself, its match and distances
        problem = None
        for k in [k for k in fits if k in left] or fits:
            try:
                check_panels(f, shps[k], rows, y, c, phase, exact, "%s: figure %d, shapelet %d" % (what, r, k))
                left.discard(k)
                problem = None
                break
            except Violation as e:
                # shapelets that only differ by their threshold have the same box plots: any of them may be meant
                problem = (e.kind, e.msg)
                if core.S is not None and core.S.first_violation is e:
                    core.S.first_violation = None
        if problem is not None:
            raise Violation(*problem)


def check_panels(f, s, rows, y, c, phase, exact, what):
    match = [a for a in f.axes if find(a.calls, "scatter")]
    dist = [a for a in f.axes if find(a.calls, "hlines", "axhline")]
    own = [a for a in f.axes if find(a.calls, "plot") and a not in match and a not in dist]
    if len(match) != 1 or len(dist) != 1 or len(own) != 1:
        raise Violation("class-view", "%s: %d match, %d distance and %d shapelet panels" % (what, len(match), len(dist), len(own)))
    check_values(own[0].calls, s, what)

    def of_class(curve):
        return {bool(y[i] == c) for i, x in enumerate(rows) if len(x[0]) == len(curve) and np.array_equal(x[0], curve)}
    lines, pts = find(match[0].calls, "plot"), find(match[0].calls, "scatter")
    dl = find(dist[0].calls, "plot")
    if not len(lines) == len(pts) == len(dl) == 2:
        raise Violation("class-view", "%s: %d series, %d matches and %d distance vectors drawn" % (what, len(lines), len(pts), len(dl)))
    seen = []
    curves = {}
    for l, pt in zip(lines, pts):
        curve = line(l)
        label = str(l[1].get("label"))
        k = of_class(curve)
        mine = label.startswith("Class")
        if mine not in k:
            raise Violation("class-view", "%s: the series labelled %r is none of that class" % (what, label))
        check_match(None, pt, curve, s, phase, exact, what)
        seen.append(mine)
        curves[label] = curve
    if sorted(seen) != [False, True]:
        raise Violation("class-view", "%s: examples of both sides are needed, got labels %s" % (what, sorted(curves)))
    for l in dl:
        label = str(l[1].get("label"))
        if label not in curves:
            raise Violation("class-view", "%s: distances labelled %r, series labelled %s" % (what, label, sorted(curves)))
        check_dist(line(l), level(dist[0].calls), curves[label], s, phase, exact, what)
