# -*- coding: utf-8 -*-
"""C19: every call finishes, failures included."""
import numpy as np
from .. import archive, core, gen as G
from ..core import Violation
from . import util as U

ID = "C19"
N_QUICK = 3500
RULE = ("A run puts the library under unfavourable conditions - search spaces without a start left, series of three points, constant "
        "and all-zero data, single classes, extreme or invalid parameters, several callers, stalled workers, an exhausted memory, "
        "interrupts, an archive that is down for good, clocks that go back - and bounds the number of steps of every call "
        "by the size of its work; then the faults stop and further calls, from other threads too, must finish as well.")

MODES = ["extreme", "extreme", "extreme", "callers", "callers", "archive", "cv"]


def extreme(rng, est):
    d = G.data_spec(rng, values=rng.choice(["zero", "flat", "int", "float", "periodic", "runs", "big"]),
                    n=rng.choice([1, 2, 2, 3, 4, 5]), length=rng.choice([3, 4, 5, 6, 7, 8, 12]))
    d["k"] = rng.choice([1, 2, 2, 3])
    if d["ch"] > 1 and rng.random() < 0.3:
        d["ch"] = 6
    L = d["len"]
    p = {"n_shapelets": rng.choice([1, 5, 20, 40, 60]), "alpha": rng.choice([0.0, 0.0, 0.1, 0.5, 0.9, 1.0, 1.0, 2.0, -1.0]),
         "proba_norm": rng.choice([0.0, 0.5, 1.0]), "phase_invariance": rng.random() < 0.5, "prime_dilations": rng.random() < 0.4,
         "percentiles": rng.choice([[5, 10], [0, 0], [100, 100], [50, 50], [0, 100]]),
         "shapelet_lengths": rng.choice([[2], [3], [2, 3], [L], [L - 1, 3], [L + 5], [L, L + 1, 2], [0.5], [0.99], [1.0], [0.01], [1]])}
    if rng.random() < 0.25:
        p["shapelet_lengths_bounds"] = rng.choice([[3, L], [L, 3], [0.1, 1.0], [3, 3], [L, L]])
        p["lengths_bounds_reduction"] = rng.choice([0.0, 0.5, 0.9])
    if rng.random() < 0.25:
        p["n_samples"] = rng.choice([0.1, 0.5, 1.0, 1.5, 3.0])
    if rng.random() < 0.2:
        p["max_channels"] = rng.choice([1, 2, 9])
    if rng.random() < 0.15:
        p["min_len"] = rng.choice([2, 3, L, L + 4])
    if est == "E":
        p["inputs"] = rng.choice([["raw"], ["raw", "derivate"], ["raw", "center"]])
        p["proba_norm"] = [p["proba_norm"]] * len(p["inputs"])
        p["n_shapelets"] = min(p["n_shapelets"], 20)
    elif est == "R":
        p.pop("max_channels", None)
        p["n_shapelets"] = min(p["n_shapelets"], 40)
    return d, p


def gen(rng, tier, i):
    mode = rng.choice(MODES)
    c = {"mode": mode, "ncpu": rng.choice([1, 2, 4, 8]), "n_jobs": rng.choice([1, 2, -1, -1, None]), "state": G.seed_value(rng),
         "parallel": rng.random() < 0.9}
    if mode == "extreme":
        c["est"] = rng.choice(["T", "T", "T", "T", "R", "E"])
        c["data"], c["params"] = extreme(rng, c["est"])
        c["fault"] = U.fault_spec(rng) if rng.random() < 0.25 else None
    elif mode == "callers":
        c["est"] = rng.choice(["T", "R", "R", "E"])
        c["data"] = U.fix_spec(G.data_spec(rng), c["est"])
        c["params"] = U.est_params(rng, c["data"], c["est"], n_shapelets=rng.choice([2, 4]))
        c["acts"] = [rng.choice(["fit", "fit", "refit", "use", "use", "score", "clone", "copy", "load"])
                     for _ in range(rng.choice([2, 3, 4]))]
        c["fault"] = U.fault_spec(rng) if rng.random() < 0.7 else None
        c["linger"] = rng.random() < 0.5
        c["down"] = rng.random() < 0.3
    else:
        d = G.data_spec(rng, n=4, length=8, values="int")
        d["layout"] = "list" if d["var"] else "C"
        d["k"], d["labels"] = 2, "one"
        c["data"] = d
        c["kind"] = rng.choice(archive.KINDS)
        c["exc"] = rng.choice(core.ERR_KINDS)
        c["down"] = rng.choice(["all", "all", "none", "second"] if mode == "archive" else ["all", "none", "none", "none", "second"])
        c["whole"], c["norm"] = rng.random() < 0.5, rng.random() < 0.5
        c["folds"] = rng.choice([1, 2, 5])
        c["jump"] = rng.choice([0.0, -3600.0, 1e9, -1e9])
        c["fit_s"] = rng.choice([0.0, 1.0, 1e5])
        c["break"] = rng.choice([None, None, None, "fit", "predict"])
        c["grid"] = rng.random() < 0.4
        c["jumps"] = sorted([round(rng.choice([0.05, 0.5, 1.5, 5.0]) * rng.random(), 3), rng.choice([-86400.0, -3600.0, 3600.0, -1e9])]
                            for _ in range(rng.choice([0, 1, 1, 2])))
    return c


def shrink(case):
    out = [c for c in G.shrink_case(case)] if "params" in case else []
    if case.get("fault"):
        out.append(dict(case, fault=None))
    for k in range(len(case.get("acts", []))):
        if len(case["acts"]) > 1:
            out.append(dict(case, acts=case["acts"][:k] + case["acts"][k + 1:]))
    return out


# ---- bounds -------------------------------------------------------------------
def work(d, p, est, callers=1):
    """Elementary operations of one fit followed by one transform of the same data."""
    L = int(d["len"] * (1 + (d["spread"] if d["var"] else 0))) + 1
    n = int(d["n"] * max(1.0, p.get("n_samples") or 1.0)) + 1
    ls = p.get("shapelet_lengths_bounds") or p.get("shapelet_lengths") or [11]
    m = max([int(v * L) if v <= 1 else min(int(v), L) for v in ls] + [3])
    k = len(p["inputs"]) if p.get("inputs") else (3 if est == "E" else 1)
    return callers * k * (p["n_shapelets"] + 1) * (n + 1) * (d["ch"] + 1) * L * (m + 2)


def bound(d, p, est, callers=1):
    return callers * BASE + FACTOR * work(d, p, est, callers)


BASE = 20000
FACTOR = 1.5


def limited(ctx, what, cap, fn, faults=()):
    """Run fn as one phase of at most cap steps -> (outcome, value)."""
    ctx.begin(what, faults=faults)
    ctx.sim.step_cap = cap
    ctx.sim._plan()
    try:
        res, v = U.attempt(ctx, fn)
    except core.Violation as e:
        if e.kind in ("no-progress", "deadlock"):
            e.msg = "%s: %s" % (what, e.msg)
        raise
    ctx.end()
    n = ctx.steps[ctx.key]
    ctx.sim.step_cap = 3000000
    k = "steps-within-%d%%-of-bound" % [b for b in (1, 5, 10, 20, 40, 60, 100) if n <= cap * b / 100.0 or b == 100][0]
    ctx.notes[k] = ctx.notes.get(k, 0) + 1
    return res, v


def run(case, ctx):
    ctx.boot(parallel=case.get("parallel", True))
    archive.reset()
    ctx.sim.linger = bool(case.get("linger"))
    {"extreme": run_extreme, "callers": run_callers, "archive": run_archive, "cv": run_archive}[case["mode"]](case, ctx)


class Plain(object):
    @staticmethod
    def call(what, fn, *a, **k):
        return fn(*a, **k)


def run_extreme(case, ctx):
    note = U.noter(ctx)
    est = case["est"]
    X, _, y = G.build(case["data"])
    cap = bound(case["data"], case["params"], est)

    def new():
        from sklearn.base import clone
        return clone(U.make(Plain, est, case["params"], n_jobs=case["n_jobs"], state=case["state"]))
    box = []

    def go():
        m = new()
        box.append(m)
        m.fit(X, y)
        (m.transform if est == "T" else m.predict)(X)
        if est != "T":
            m.score(X, y)

    faults = ()
    if case["fault"]:
        steps = {}

        def meas():
            try:
                _, steps["n"], steps["pl"] = U.measure(ctx, go)
            except Exception:
                steps["n"], steps["pl"] = max(2, core.N), []
        limited(ctx, "measure", cap, meas)
        faults = [U.place(case["fault"], steps["n"], steps["pl"])]
    res, v = limited(ctx, "fit-and-use", cap, go, faults)
    note("extreme-" + res)
    if res == "injected" and box:
        res, v = limited(ctx, "after-fault", cap, lambda: box[0].fit(X, y))
        note("again-" + res)


def run_callers(case, ctx):
    note = U.noter(ctx)
    est, d, p = case["est"], case["data"], case["params"]
    X, _, y = G.build(d)
    Xt, _, yt = U.test_set(d, n=3)
    archive.sets["D"] = {"train": (archive._copy(X), y.copy()), "test": (archive._copy(Xt), yt.copy())}
    import convst.utils.dataset_utils as D
    cap = bound(d, p, est, len(case["acts"]) + 1) * 2
    m = U.make(Plain, est, p, n_jobs=case["n_jobs"], state=case["state"])
    res, _ = limited(ctx, "fit", cap, lambda: m.fit(X, y))
    use = lambda e: (e.transform if est == "T" else e.predict)(Xt)

    def act(k):
        if k == "use":
            use(m)
        elif k == "score":
            use(m) if est == "T" else m.score(Xt, yt)
        elif k == "refit":
            m.fit(X, y)
        elif k == "fit":
            q = U.make(Plain, est, p, n_jobs=case["n_jobs"], state=case["state"])
            q.fit(X, y)
            use(q)
        elif k == "clone":
            from sklearn.base import clone
            clone(m).fit(X, y)
        elif k == "copy":
            import copy
            use(copy.deepcopy(m))
        elif k == "load":
            D.load_UCR_UEA_dataset_split("D", normalize=False)

    def together():
        ths = [ctx.sim.spawn((lambda k: lambda: act(k))(k), "caller%d" % i, "py") for i, k in enumerate(case["acts"][1:])]
        first = None
        try:
            act(case["acts"][0])
        except (core.SimAbort, core.Violation, core.HarnessError):
            raise
        except BaseException as e:
            first = e
        ctx.sim.join(ths)
        for t in ths:
            if isinstance(t.exc, (core.Violation, core.HarnessError)):
                raise t.exc
        if first is not None:
            raise first
    faults = ()
    if case["fault"]:
        res, n = limited(ctx, "measure", cap, lambda: U.measure(ctx, together))
        faults = [U.place(case["fault"], n[1], n[2])] if res == "ok" else ()
    if case["down"]:
        archive.always = "error"
    res, v = limited(ctx, "together", cap, together, faults)
    note("callers-" + res)
    archive.always = None
    # the faults are over: everybody can go on
    for where in ("thread", "main"):
        for k in sorted(set(case["acts"])) + ["refit", "use"]:
            def go():
                if where == "main":
                    return act(k)
                t = ctx.sim.spawn(lambda: act(k), "later", "py")
                ctx.sim.join([t])
                if isinstance(t.exc, (core.Violation, core.HarnessError)):
                    raise t.exc
            limited(ctx, "later-" + k, cap, go)
            note("later-calls")


def run_archive(case, ctx):
    note = U.noter(ctx)
    d = case["data"]
    tr, te = G.build(d, n=4, salt=1), G.build(d, n=5, salt=2)
    archive.sets["D"] = {"train": (tr[0], tr[2]), "test": (te[0], te[2])}
    import convst.utils.dataset_utils as D
    import convst.utils.experiments_utils as E
    from . import probes
    probes.Probe.plan.clear()
    del probes.Probe.log[:]
    if case["down"] == "all":
        archive.always = case["kind"]
    elif case["down"] == "second":
        archive.faults[1] = case["kind"]
    if case["break"]:
        probes.Probe.plan[case["break"]] = 0
        probes.Probe.plan["exc"] = case["exc"]
    pr = probes.Probe(fit_s=case["fit_s"], jump=case["jump"])

    def go():
        if case["mode"] == "archive":
            return (D.load_UCR_UEA_dataset if case["whole"] else D.load_UCR_UEA_dataset_split)("D", normalize=case["norm"])
        if case["grid"]:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return E.grid_search_UCR_UEA(case["folds"], "D", 2, scorers=probes.scoring).score(pr, {"k": [0, 1]})
        return E.cross_validate_UCR_UEA(case["folds"], "D").score(pr)
    t0 = ctx.sim.now_mono()
    ctx.sim.jumps = [[t0 + a, b] for a, b in case.get("jumps", ())]
    res, v = limited(ctx, case["mode"], 200000, go)
    dt = ctx.sim.now_mono() - t0
    lim = 60.0 + 40 * (case["folds"] + 2) * (case["fit_s"] + 1)
    if dt > lim:
        raise Violation("waiting", "%s took %.0f s of simulated time although its parts take %.0f s at most" % (case["mode"], dt, lim))
    note("%s-%s" % (case["mode"], res))
    archive.always = None
    archive.faults.clear()
    probes.Probe.plan.clear()
    res, v = limited(ctx, "later", 200000, go)
    if res != "ok" and case["mode"] == "archive":
        raise Violation("stuck", "the dataset cannot be loaded after the archive has recovered: %r" % (v,))
    note("later-" + res)
