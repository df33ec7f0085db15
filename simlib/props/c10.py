# -*- coding: utf-8 -*-
"""C10: cross-validation folds are honest and repeatable despite faults."""
from collections import Counter
import numpy as np
from .. import archive, core, gen as G
from ..core import Violation
from . import util as U

ID = "C10"
N_QUICK = 7000
RULE = ("A run puts a random dataset (one or several channels, equal or unequal lengths, repeated series) in the simulated "
        "archive and runs cross-validation or grid search with pipelines that record what they receive, take simulated time, "
        "keep state, overwrite their input or reseed the global generator, with wall-clock jumps and failures of download, fit, "
        "predict or scorer, then audits folds, rows, scores and times; some runs use the real ridge classifier.")


def gen(rng, tier, i):
    d = G.data_spec(rng, values=rng.choice(["float", "int", "runs"]))
    d["layout"] = "list" if d["var"] else "C"
    k = rng.choice([2, 2, 3]) if rng.random() > 0.03 else rng.choice([10, 12])
    d["k"] = k
    d["labels"] = rng.choice(["str", "str", "one", "neg", "long", "big"])
    mode = rng.choice(["cv", "cv", "cv", "cv-twice", "grid", "grid", "real"])
    case = {"data": d, "ntr": k * rng.choice([1, 2, 3]) + rng.choice([0, 1]), "nte": k * rng.choice([1, 2, 4]) + rng.choice([0, 1, 2]),
            "dup": rng.choice(["none", "none", "train-test", "within", "labels", "channel"]), "folds": rng.choice([1, 2, 3, 4, 6]) if rng.random() > 0.04 else rng.choice([10, 13, 35]),
            "mode": mode, "mutate": rng.random() < 0.4, "fit_s": rng.choice([0.0, 0.5, 100.0]),
            "pred_s": rng.choice([0.0, 0.25, 7.0]), "jump": rng.choice([0.0, 0.0, 3600.0, -500.0]), "k": rng.choice([0, 1]),
            "scorers": rng.choice([["accuracy"], ["accuracy", "first"], ["f1"], ["first", "accuracy", "f1"]]),
            "n_jobs": rng.choice([1, 2, 3, -1]), "grid": rng.choice([[0], [0, 1], [0, 1, 2]]),
            "mixed": rng.choice([None, None, "train", "test"]), "fault": None}
    if rng.random() < 0.35 and mode in ("cv", "grid"):
        case["fault"] = {"what": rng.choice(["download", "fit", "predict", "scorer", "interrupt"]), "n": rng.choice([0, 0, 1, 1, 2]),
                         "kind": rng.choice(archive.KINDS), "exc": rng.choice(core.ERR_KINDS), "frac": round(rng.random(), 4)}
    return case


def shrink(case):
    out = []
    for s in G.shrink_spec(case["data"]):
        s["labels"] = case["data"]["labels"]
        out.append(dict(case, data=s))
    for k, v in (("folds", case["folds"] - 1), ("mutate", False), ("jump", 0.0), ("fit_s", 0.0), ("pred_s", 0.0), ("dup", "none"), ("mixed", None),
                 ("scorers", ["accuracy"]), ("grid", [0]), ("n_jobs", 1)):
        if case[k] != v and (k != "folds" or v >= 1):
            out.append(dict(case, **{k: v}))
    return out


def dataset(case):
    d = case["data"]
    flat = dict(d, var=False, layout="C")
    mixed = case.get("mixed") if d["var"] else None
    Xtr, rtr, ytr = G.build(flat if mixed == "train" else d, n=case["ntr"], salt=1)
    Xte, rte, yte = G.build(flat if mixed == "test" else d, n=case["nte"], salt=2)
    if case["dup"] == "train-test":
        rte[0][...] = rtr[0] if rte[0].shape == rtr[0].shape else rte[0]
        Xte[0] = np.array(rte[0])
    elif case["dup"] == "within" and case["ntr"] > 1:
        if rtr[0].shape == rtr[-1].shape:
            rtr[-1][...] = rtr[0]
            Xtr[-1] = np.array(rtr[0])
    elif case["dup"] == "labels":
        for i in range(len(rte)):
            if rte[i].shape == rtr[-1].shape:
                rte[i][...] = rtr[-1]
                Xte[i] = np.array(rtr[-1])
    elif case["dup"] == "channel":
        # the first channel does not tell the series apart
        for X, R in ((Xtr, rtr), (Xte, rte)):
            for i in range(len(R)):
                n = R[i].shape[1]
                R[i][0, :n] = np.arange(n) % 5
                X[i][0, :n] = R[i][0]
    if d["labels"] == "str":
        named = {"b": "2", "a": "1", "zz": "10"}
        ytr, yte = np.array([named.get(v, v) for v in ytr]), np.array([named.get(v, v) for v in yte])
    return (Xtr, ytr), (Xte, yte)


def scorers(names):
    from sklearn.metrics import accuracy_score, f1_score
    log = []

    def first(y_true, y_pred):
        core.tick_p()
        core.S.advance(3.0)
        log.append((np.array(y_true), np.array(y_pred)))
        from . import probes
        n = probes.Probe.plan.setdefault("n-scorer", 0)
        probes.Probe.plan["n-scorer"] = n + 1
        if probes.Probe.plan.get("scorer") == n:
            core.S.fire("scorer")
            raise core.injected(probes.Probe.plan.get("exc"), "injected failure in scorer")
        return float(np.mean(np.asarray(y_true) == np.asarray(y_pred))) / 2 + 0.125
    table = {"accuracy": accuracy_score, "first": first, "f1": lambda a, b: f1_score(a, b, average="macro")}
    return dict((n, table[n]) for n in names), log


def recs(log):
    """One record per fit, completed by its predict."""
    return [r for k, r in log if k == "fit"]


def audit_folds(rs, te, pairs_tr, pairs_te, what):
    """Contents of the folds, in order.  te: list of test label lists."""
    allp = Counter(pairs_tr) + Counter(pairs_te)
    ctr, cte = Counter(l for _, l in pairs_tr), Counter(l for _, l in pairs_te)
    out = []
    for i, r in enumerate(rs):
        got_tr = Counter(zip(r["train"], r["y"]))
        if Counter(l for _, l in got_tr.elements()) != ctr:
            raise Violation("class-counts", "%s fold %d trains on class counts %s, archived split has %s" % (
                what, i, dict(Counter(r["y"])), dict(ctr)))
        if i == 0 and got_tr != Counter(pairs_tr):
            raise Violation("fold-0", "%s fold 0 does not train on the archived training split" % what)
        left = allp - got_tr
        if sum((got_tr - allp).values()):
            raise Violation("fold-contents", "%s fold %d trains on series or labels that are not in the dataset" % (what, i))
        if "test" in r:
            if Counter(r["test"]) != Counter(k for k, _ in left.elements()):
                raise Violation("fold-contents", "%s fold %d does not test exactly the series it did not train on" % (what, i))
            if i == 0 and Counter(r["test"]) != Counter(k for k, _ in pairs_te):
                raise Violation("fold-0", "%s fold 0 does not test the archived test split" % what)
            if te is not None and Counter(zip(r["test"], te[i])) != left:
                raise Violation("fold-labels", "%s fold %d scores test series against labels that are not theirs" % (what, i))
        out.append(tuple(sorted(got_tr.items())))
    return out


def run(case, ctx):
    note = U.noter(ctx)
    from . import probes
    P = probes.Probe
    (Xtr, ytr), (Xte, yte) = dataset(case)
    archive.reset()
    archive.sets["D"] = {"train": (Xtr, ytr), "test": (Xte, yte)}
    ctx.boot()
    import convst.utils.experiments_utils as E
    order = sorted(set(ytr.tolist()) | set(yte.tolist()))
    if set(ytr.tolist()) != set(yte.tolist()):
        return
    code = dict((v, float(i)) for i, v in enumerate(order))
    pairs_tr = list(zip(probes.keys(Xtr), [code[v] for v in ytr.tolist()]))
    pairs_te = list(zip(probes.keys(Xte), [code[v] for v in yte.tolist()]))
    if case["mode"] == "real":
        return real(case, ctx, E, note)
    f = case["fault"]

    def cv(folds, pipe, name, faults=()):
        del P.log[:]
        P.plan.clear()
        sc, slog = scorers(case["scorers"])
        full = dict(sc)
        if "first" not in full:
            # always see what scorers are given
            s2, slog = scorers(["first"])
            full.update(s2)
        truth = []
        pred = []
        for k in list(full):
            full[k] = (lambda fn, k: lambda a, b: (truth.append((k, np.array(a), np.array(b))), fn(a, b))[1])(full[k], k)
        ctx.begin(name, faults=faults)
        if f is not None:
            if f["what"] in ("fit", "predict", "scorer"):
                P.plan[f["what"]] = f["n"]
                P.plan["exc"] = f["exc"]
            elif f["what"] == "download":
                archive.faults[len(archive.calls) + f["n"] % 2] = f["kind"]
        res = E.cross_validate_UCR_UEA(folds, "D", scorers=full).score(pipe)
        return res, truth, full

    def mkpipe():
        return P(k=case["k"], mutate=case["mutate"], fit_s=case["fit_s"], pred_s=case["pred_s"], jump=case["jump"])

    if case["mode"] in ("cv", "cv-twice"):
        box = {}

        def go(faults=()):
            box["r"] = cv(case["folds"], mkpipe(), "cv", faults)
            return box["r"]
        if f is not None:
            fl = ()
            if f["what"] == "interrupt":
                fl = [{"at": 1 + int(f["frac"] * (60 + 40 * case["folds"])), "exc": "KeyboardInterrupt"}]
            n0 = sum(ctx.sim.fired.values()) - ctx.sim.fired.get("wall-jump", 0)
            res, e = U.attempt(ctx, lambda: go(fl))
            hit = sum(ctx.sim.fired.values()) - ctx.sim.fired.get("wall-jump", 0) > n0
            ctx.end()
            archive.faults.clear()
            if hit:
                if res == "ok" and not (f["what"] == "download" and archive.retried()):
                    raise Violation("failure-hidden", "cross-validation returned a table although %s failed" % f["what"])
                note("failures-surfaced")
                f = None
                P.plan.clear()
                # the campaign is run again: nothing of the failure may remain
                go()
                ctx.end()
            elif res != "ok":
                raise Violation("error:cv", "cross-validation failed: %s: %s" % (type(e).__name__, str(e)[:200]))
        else:
            ctx.call("cross-validation", go)
            ctx.end()
        res, truth, full = box["r"]
        rs = recs(P.log)
        if len(rs) != case["folds"]:
            raise Violation("fold-count", "%d fits for %d folds" % (len(rs), case["folds"]))
        # labels given to the scorers, per fold, per scorer
        per = [[t for t in truth if t[0] == k] for k in full]
        for lst, k in zip(per, full):
            if len(lst) != case["folds"]:
                raise Violation("fold-count", "scorer %s called %d times for %d folds" % (k, len(lst), case["folds"]))
        te = [[float(v) for v in t[1].tolist()] for t in per[0]]
        folds = audit_folds(rs, te, pairs_tr, pairs_te, "cross-validation")
        table(case, res, rs, per, full, ctx)
        note("folds-audited", case["folds"])
        if case["mode"] == "cv-twice":
            np.random.rand(3)
            res2, truth2, _ = ctx.call("cross-validation", cv, max(2, case["folds"] - 1),
                                       P(k=1 - case["k"], mutate=not case["mutate"], tag="q"), "cv2")
            ctx.end()
            rs2 = recs(P.log)
            f2 = audit_folds(rs2, None, pairs_tr, pairs_te, "second cross-validation")
            for i, (a, b) in enumerate(zip(folds, f2)):
                if a != b:
                    raise Violation("fold-not-repeatable", "fold %d differs between two cross-validations of the same dataset" % i)
            note("folds-repeated", min(len(folds), len(f2)))
        shuffled(folds, pairs_tr, pairs_te)
        return
    # ---- grid search
    del P.log[:]
    P.plan.clear()
    ctx.begin("grid")
    hit0 = sum(ctx.sim.fired.values())
    if f is not None and f["what"] in ("fit", "predict"):
        P.plan[f["what"]] = f["n"]
        P.plan["exc"] = f["exc"]
    elif f is not None and f["what"] == "download":
        archive.faults[len(archive.calls) + f["n"]] = f["kind"]
    import warnings

    def go():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return E.grid_search_UCR_UEA(case["folds"], "D", case["n_jobs"], scorers=probes.scoring).score(P, {"k": case["grid"]})
    res, out = U.attempt(ctx, go)
    ctx.end()
    hit = sum(ctx.sim.fired.values()) > hit0
    archive.faults.clear()
    nfit = case["folds"] * len(case["grid"])
    if hit:
        if f["what"] == "download" and res == "ok" and not archive.retried():
            raise Violation("failure-hidden", "grid search returned a table although a download failed")
        if res == "ok" and f["what"] != "download":
            nn = sum(int(np.isnan(np.asarray(column(out, "split%d_test_score" % i), dtype=float)).sum()) for i in range(case["folds"]))
            if nn != 1:
                raise Violation("failure-hidden", "one failed fit or predict of the grid search gives %d NaN scores" % nn)
        note("failures-surfaced")
        return
    if res != "ok":
        raise Violation("error:grid", "grid search failed: %s: %s" % (type(out).__name__, str(out)[:300]))
    # folds are identified by their training contents: group the recorded scorings by candidate
    seen = [r for k, r in P.log if k == "score"]
    if len(seen) != nfit:
        raise Violation("fold-count", "%d scorings for %d folds x %d candidates" % (len(seen), case["folds"], len(case["grid"])))
    by = {}
    for r, ty in seen:
        by.setdefault(r["k"], []).append((r, ty))
    # reference folds from cross-validation of the same dataset
    f = None
    cvres, _, _ = ctx.call("cross-validation", cv, case["folds"], P(k=0), "cv-ref")
    ctx.end()
    want = audit_folds(recs(P.log), None, pairs_tr, pairs_te, "cross-validation")
    for kk, lst in sorted(by.items()):
        sets = Counter()
        for r, ty in lst:
            got = tuple(sorted(Counter(zip(r["train"], r["y"])).items()))
            sets[got] += 1
            allp = Counter(pairs_tr) + Counter(pairs_te)
            left = allp - Counter(dict(got))
            if Counter(zip(r["test"], ty)) != left:
                raise Violation("fold-labels", "grid search fold for k=%d does not test exactly the rest of the dataset with its "
                                               "own labels" % kk)
        if sets != Counter(want):
            raise Violation("fold-contents", "the folds of grid search candidate k=%d are not those of cross-validation" % kk)
    # the table: every candidate and fold, with the score of that fold
    ks = [q["k"] for q in column(out, "params")]
    if sorted(ks) != sorted(case["grid"]):
        raise Violation("fold-count", "grid search reports candidates %s of %s" % (ks, case["grid"]))
    for row, kk in enumerate(ks):
        got = [float(column(out, "split%d_test_score" % i, row)) for i in range(case["folds"])]
        exp = []
        for wf in want:
            for r, ty in by[kk]:
                if tuple(sorted(Counter(zip(r["train"], r["y"])).items())) == wf:
                    yp = probes.predict_rule(r["test"], np.unique(r["y"]), kk)
                    exp.append(float(np.mean(np.array(ty) == yp)))
                    break
        if len(set(want)) == len(want) and np.abs(np.array(got) - np.array(exp)).max() > 1e-12:
            raise Violation("wrong-score", "grid search k=%d reports %s, expected %s" % (kk, got, exp))
    note("grid-folds-audited", nfit)


def column(res, name, at=None):
    try:
        v = res[name]
        return v if at is None else v[at]
    except KeyError:
        raise Violation("table-columns", "the table has no column %r (columns %s)" % (name, [str(c) for c in res.columns]))


def shuffled(folds, tr, te):
    """Later folds are reshuffles: not all the same one on a large dataset of series that can be told apart."""
    both = set(tr) | set(te)
    if len(folds) >= 4 and len(both) - len(set(l for _, l in both)) >= 8 and len(tr) >= 4:
        if len(set(folds[1:])) == 1:
            raise Violation("no-reshuffle", "folds 1..%d of a dataset of %d series are all the same" % (
                len(folds) - 1, len(tr) + len(te)))


def table(case, res, rs, per, full, ctx):
    from . import probes
    if list(res.index) != list(range(case["folds"])):
        raise Violation("table-rows", "rows %s for %d folds" % (list(res.index), case["folds"]))
    for name, lst in zip(full, per):
        col = np.asarray(column(res, name), dtype=float)
        for i, (_, yt, yp) in enumerate(lst):
            exp_p = probes.predict_rule(rs[i]["test"], np.unique(rs[i]["y"]), case["k"])
            if [float(v) for v in yp.tolist()] != [float(v) for v in exp_p.tolist()]:
                raise Violation("wrong-predictions", "fold %d: the scorer does not receive the pipeline's predictions" % i)
            acc = float(np.mean(yt == yp))
            if name == "accuracy":
                exp = acc
            elif name == "first":
                exp = acc / 2 + 0.125
            else:
                from sklearn.metrics import f1_score
                exp = f1_score(yt, yp, average="macro")
            if not abs(col[i] - exp) <= 1e-12:
                raise Violation("wrong-score", "fold %d: %s is reported as %r, expected %r" % (i, name, col[i], exp))
    t = np.asarray(column(res, "time"), dtype=float)
    want = case["fit_s"] + case["pred_s"]
    for i, v in enumerate(t):
        if not (want - 1e-6 <= v <= want + 0.002):
            raise Violation("wrong-time", "fold %d: time is %r, fit and predict took %r" % (i, v, want))


def real(case, ctx, E, note):
    """The real ridge classifier in the loop: every row is the score of a fresh fit on that fold."""
    from convst.classifiers import R_DST_Ridge
    folds = min(case["folds"], 3)
    kw = dict(n_shapelets=3, shapelet_lengths=[3], random_state=7, n_jobs=case["n_jobs"])

    class Spy(object):
        def __init__(self):
            self.m = R_DST_Ridge(**kw)
            self.seen = []

        def fit(self, X, y):
            self.seen.append([X, y])
            self.m.fit(X, y)
            return self

        def predict(self, X):
            p = self.m.predict(X)
            self.seen[-1] += [X, p]
            return p
    spy = Spy()
    ctx.begin("real-cv")
    res = ctx.call("cross-validation", E.cross_validate_UCR_UEA(folds, "D").score, spy)
    ctx.end()
    for i, (X, y, Xt, p) in enumerate(spy.seen):
        ctx.begin("real-fold%d" % i)
        q = ctx.call("fit", R_DST_Ridge(**kw).fit, X, y)
        got = ctx.call("predict", q.predict, Xt)
        ctx.end()
        if np.asarray(got).tolist() != np.asarray(p).tolist():
            raise Violation("fold-not-independent", "fold %d of a reused classifier differs from a fresh one" % i)
    note("real-folds", len(spy.seen))
    if len(spy.seen) != folds or list(res.index) != list(range(folds)):
        raise Violation("fold-count", "%d fits, rows %s for %d folds" % (len(spy.seen), list(res.index), folds))
