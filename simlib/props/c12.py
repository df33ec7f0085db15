# -*- coding: utf-8 -*-
"""C12: an interrupted benchmark campaign resumes without losing results.

The published script itself is executed, statement by statement, with its two
user-edited settings (n_cv, resume) set by the harness, on a simulated archive
and with fast deterministic classifiers in place of the two real ones."""
import ast
import csv
import os
import numpy as np
from .. import ambient, archive, core, disk, gen as G, hook
from ..core import Violation
from . import util as U

ID = "C12"
N_QUICK = 6300
SCRIPT = "PaperScripts/test_models.py"
RULE = ("A run executes the benchmark script on 1-3 simulated datasets, 2 models and 1-4 folds, ends it at random points up to "
        "three times (crash at any statement of the script or library, interrupt, failed download, failing fit, crash or full disk in "
        "the middle of a write of the results file), restarts it in resume mode on another simulated machine each time, and "
        "compares recorded rows, computed pairs and the final file with an uninterrupted campaign.")
ASSUMPTIONS = ["the process crashes, the operating system does not: completed writes survive"]


def gen(rng, tier, i):
    sets = []
    for k in range(rng.choice([1, 2, 2, 3, 4])):
        d = G.data_spec(rng, values=rng.choice(["float", "int", "smooth"]), var=rng.random() < 0.3)
        d.update(k=rng.choice([2, 3]), len=rng.choice([6, 8]), labels="int", layout="list" if d["var"] else "C")
        sets.append({"data": d, "ntr": d["k"] * rng.choice([1, 2]), "nte": d["k"] * rng.choice([1, 2, 3])})
    cr = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(["crash"] * 6 + ["interrupt", "interrupt", "download", "fit", "predict"])
        cr.append({"kind": kind, "frac": round(rng.random(), 5), "n": rng.randrange(8), "exc": rng.choice(core.ERR_KINDS),
                   "how": rng.choice(archive.KINDS)})
    if rng.random() < 0.12:
        cr[rng.randrange(len(cr))] = {"kind": rng.choice(["torn", "torn", "full"]), "n": 1 + rng.randrange(7),
                                      "frac": rng.choice([0.0, 0.3, 0.6, 0.9, 0.99])}
    zero = None
    if rng.random() < 0.1:
        zero = [rng.randrange(len(sets)), rng.choice(["R_DST", "R_DST_Ensemble"])]
    if i == 0:
        cr, zero = [{"kind": "torn", "n": 2, "frac": 0.0}], None
    if i == 1:
        sets.append(dict(sets[0]))
        zero = [0, "R_DST"]
        cr = [{"kind": "crash", "frac": 0.95, "n": 0}]
    return {"sets": sets, "n_cv": rng.choice([1, 2, 3, 4]), "crashes": cr, "zero": zero, "vary": rng.random() < 0.5}


def shrink(case):
    out = []
    for j in range(len(case["crashes"])):
        if len(case["crashes"]) > 1:
            out.append(dict(case, crashes=case["crashes"][:j] + case["crashes"][j + 1:]))
    if len(case["sets"]) > 1:
        out.append(dict(case, sets=case["sets"][:-1]))
        out.append(dict(case, sets=case["sets"][1:]))
    if case["n_cv"] > 1:
        out.append(dict(case, n_cv=1))
    if case["zero"]:
        out.append(dict(case, zero=None))
    return out


_T = {}


def script(n_cv, resume):
    path = os.path.join(hook.REPO, SCRIPT)
    with open(path, encoding="utf-8") as f:
        src = f.read()
    tree = ast.parse(src, path)
    done = set()
    for node in ast.walk(tree):
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            nm = node.targets[0].id
            if nm in ("n_cv", "resume") and isinstance(node.value, ast.Constant):
                node.value = ast.copy_location(ast.Constant(value=n_cv if nm == "n_cv" else resume), node.value)
                done.add(nm)
    if done != {"n_cv", "resume"}:
        raise core.HarnessError("the settings n_cv and resume of %s were not found" % SCRIPT)
    return compile(hook.instrument_tree(tree, toplevel=True), path, "exec")


class Model(object):
    """Stands in for a classifier class; deterministic, takes simulated time."""
    name = None
    truth = {}
    zero = set()
    plan = {}
    nfit = 0

    def __init__(self, n_jobs=1, **kw):
        self.n_jobs = n_jobs
        self.kw = kw

    def get_params(self, deep=True):
        return {"n_jobs": self.n_jobs}

    def fit(self, X, y):
        from . import probes
        core.tick_p()
        self.classes_ = np.unique(y)
        self.warm = bool(self.kw)
        core.S.advance(10.0 if self.name == "R_DST" else 25.0)
        if not self.warm:
            Model.nfit += 1
            if Model.plan.get("fit") == Model.nfit:
                core.S.fire("model-fit")
                raise core.injected(Model.plan.get("exc"), "injected failure in fit")
        self.salt = int(probes.keys(X)[0][:4], 16)
        core.tick_p()
        return self

    def predict(self, X):
        from . import probes
        core.tick_p()
        ks = probes.keys(X)
        core.S.advance(1.5)
        if not self.warm and Model.plan.get("predict") == Model.nfit:
            core.S.fire("model-predict")
            raise core.injected(Model.plan.get("exc"), "injected failure in predict")
        out = []
        for i, k in enumerate(ks):
            t = Model.truth.get(k, 0.0)
            h = (int(k[:6], 16) + len(self.name)) % 3
            wrong = (t + 1) % len(self.classes_)
            ds = Model.where.get(k)
            if (ds, self.name) in Model.zero:
                out.append(wrong)
            else:
                out.append(wrong if h == 0 and i else t)
        core.tick_p()
        return np.array(out)


def read(path, datasets):
    """(dataset, model) -> row of the results file, leniently."""
    out = {}
    if not os.path.exists(path):
        return out
    with open(path, newline="") as f:
        rows = list(csv.reader(f))
    if not rows:
        return out
    h = rows[0]
    for r in rows[1:]:
        d = dict(zip(h, r))
        if d.get("dataset") in datasets and d.get("model") and d.get("acc_mean") not in (None, "") and len(r) == len(h):
            out[(d["dataset"], d["model"])] = d
    return out


def same_row(a, b, exact=True):
    for k in set(a) | set(b):
        x, y = a.get(k), b.get(k)
        if x == y:
            continue
        try:
            u, v = float(x or "nan"), float(y or "nan")
        except (TypeError, ValueError):
            return "%s is %r, was %r" % (k, y, x)
        if u != u and v != v:
            continue
        tol = 1e-12 * max(1.0, abs(u)) if exact or not k.startswith("time") else 5e-3
        if not abs(u - v) <= tol:
            return "%s is %r, was %r" % (k, y, x)
    return None


def run(case, ctx):
    note = U.noter(ctx)
    archive.reset()
    names = ["D%d" % i for i in range(len(case["sets"]))]
    Model.truth = {}
    Model.where = {}
    Model.zero = set()
    from . import probes
    for nm, s in zip(names, case["sets"]):
        d = dict(s["data"], seed=s["data"]["seed"] + len(Model.truth))
        Xtr, _, ytr = G.build(d, n=s["ntr"], salt=1)
        Xte, _, yte = G.build(d, n=s["nte"], salt=2)
        archive.sets[nm] = {"train": (Xtr, ytr), "test": (Xte, yte)}
        for X, y in ((Xtr, ytr), (Xte, yte)):
            for k, v in zip(probes.keys(X), y.tolist()):
                Model.truth[k] = float(v)
                Model.where[k] = nm
    if case["zero"] and case["zero"][0] < len(names):
        Model.zero.add((names[case["zero"][0]], case["zero"][1]))
    pairs = [(n, m) for n in names for m in ("R_DST", "R_DST_Ensemble")]
    home = os.getcwd()
    wd = ctx.workdir()
    box = {}

    def attempt(tag, resume, plan, sub, no):
        """One process.  -> (how it ended, pairs computed, exception)"""
        d = os.path.join(wd, sub)
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        ctx.boot(ncpu=ctx.case["ncpu"] + (no if case["vary"] else 0), entropy=ctx.case["entropy"] + 17 * no)
        disk.reset()
        Model.plan = {}
        Model.nfit = 0
        archive.faults.clear()
        import convst.utils.dataset_utils as D
        import convst.utils.experiments_utils as E
        import convst.classifiers as C
        D.return_all_univariate_dataset_names = lambda: np.asarray(names)
        D.return_all_dataset_names = lambda: np.asarray(names)

        def fake(nm):
            return type("Fake" + nm, (Model,), {"name": nm})
        C.R_DST_Ridge = fake("R_DST")
        C.R_DST_Ensemble = fake("R_DST_Ensemble")
        calls = []
        orig = E.cross_validate_UCR_UEA

        class Rec(orig):
            def score(self, pipeline):
                me = (self.dataset_name, type(pipeline).name)
                seen("before %s/%s" % me)
                calls.append(me)
                out = orig.score(self, pipeline)
                completed.append(me)
                return out
        E.cross_validate_UCR_UEA = Rec
        ns = {**ambient.NAMES, "__name__": "__main__", "__sim_tick__": core.tick_p, "__file__": os.path.join(hook.REPO, SCRIPT)}
        completed = []
        path = lambda: os.path.join(d, str(ns.get("csv_name", "CV_%d_results_default.csv" % case["n_cv"])))
        before = read(path(), names)

        def seen(when):
            now = read(path(), names)
            for p in completed:
                if p not in now:
                    raise Violation("not-recorded", "%s: the result of %s/%s computed by this process is not in the results file" % (
                        (when,) + p))
            for p, r in before.items():
                if p not in now:
                    raise Violation("result-lost", "%s: the recorded result of %s/%s is gone after a restart" % ((when,) + p))
                df = same_row(r, now[p])
                if df:
                    raise Violation("result-changed", "%s: recorded result of %s/%s changed: %s" % (when, p[0], p[1], df))
        faults = []
        k = plan["kind"] if plan else None
        if k in ("crash", "interrupt"):
            faults = [{"at": 1 + int(plan["frac"] * box.get("steps", 1)), "where": "any",
                       "exc": "SimCrash" if k == "crash" else "KeyboardInterrupt"}]
        elif k in ("fit", "predict"):
            Model.plan = {k: 1 + plan["n"], "exc": plan.get("exc")}
        elif k == "download":
            archive.faults[len(archive.calls) + plan["n"]] = plan.get("how", "error")
        elif k in ("torn", "full"):
            disk.plan[plan["n"]] = ("crash" if k == "torn" else "full", plan["frac"])
        ctx.begin(tag, faults=faults)
        n0 = core.N
        end, exc = "finished", None
        fired0 = sum(ctx.sim.fired.values())
        try:
            exec(script(case["n_cv"], resume), ns)
        except core.SimCrash:
            end = "crash"
        except (Violation, core.HarnessError, core.SimAbort):
            raise
        except (Exception, KeyboardInterrupt) as e:
            if sum(ctx.sim.fired.values()) == fired0:
                from ..runner import is_stub_gap, where
                if is_stub_gap(e):
                    raise core.HarnessError("stub: %s: %s" % (type(e).__name__, e))
                raise Violation("error:campaign", "%s: the campaign failed: %s: %s%s" % (
                    tag, type(e).__name__, str(e)[:200], where(e)))
            end, exc = "failed", e
        box["last_steps"] = core.N - n0
        ctx.end()
        os.chdir(home)
        torn = any(x[2] != "ok" for x in disk.log)
        for p in calls:
            if p in before:
                v = Violation("recomputed", "%s: %s/%s was recorded with accuracy %s and is computed again" % (
                    tag, p[0], p[1], before[p]["acc_mean"]),
                    sig="zero-accuracy-recomputed" if float(before[p]["acc_mean"]) == 0.0 else "recomputed")
                ctx.known_or_raise(v)
        if len(calls) != len(set(calls)):
            raise Violation("recomputed", "%s: computed twice in one process: %s" % (tag, calls))
        now = read(path(), names)
        need = dict((p, None) for p in (completed if end == "finished" else completed[:-1]))
        need.update(before)
        for p, r in need.items():
            df = "gone" if p not in now else (same_row(r, now[p]) if r is not None else None)
            if df:
                v = Violation("result-lost", "%s (%s): recorded result of %s/%s: %s" % (tag, end, p[0], p[1], df),
                              sig="torn-results-file" if torn else "result-lost")
                ctx.known_or_raise(v)
                return "lost", calls, path()
        if torn and os.path.exists(path()):
            # nothing recorded was lost yet; is the file still usable?
            with open(path(), newline="") as f:
                raw = list(csv.reader(f))
            n = len(raw)
            bad = n < 1 + len(pairs) or any(len(r) != len(raw[0]) for r in raw)
            for q, r in now.items():
                bad = bad or bool(box.get("ref") and same_row(box["ref"][q], r, exact=False))
            if bad:
                v = Violation("file-damaged", "%s: the results file is cut after a failed write (%d lines)" % (tag, n),
                              sig="torn-results-file")
                ctx.known_or_raise(v)
                return "lost", calls, path()
        if resume and end == "finished":
            miss = [p for p in pairs if p not in before]
            if sorted(set(calls) - set(before)) != sorted(miss):
                raise Violation("missing-not-computed", "%s: missing results %s, computed %s" % (tag, miss, calls))
        return end, calls, path()

    end, calls, ref_path = attempt("reference", False, None, "ref", 0)
    box["steps"] = box["last_steps"]
    if calls != pairs:
        raise Violation("missing-not-computed", "an undisturbed campaign computes %s" % calls)
    ref_rows = read(ref_path, names)
    box["ref"] = ref_rows
    if sorted(ref_rows) != sorted(pairs):
        raise Violation("not-recorded", "an undisturbed campaign records %s" % sorted(ref_rows))
    path = os.path.join(wd, "run", os.path.basename(ref_path))
    for j, plan in enumerate(case["crashes"] + [None]):
        resume = os.path.exists(path)
        end, calls, p = attempt("attempt%d" % j, resume, plan, "run", j + 1)
        if end == "lost":
            return
        note("restarts" if j else "starts")
        note("ended-" + end)
        if resume:
            note("resumed")
    got = read(path, names)
    if sorted(got) != sorted(ref_rows):
        raise Violation("final-file", "the resumed campaign ends with results %s" % sorted(got))
    for q in ref_rows:
        df = same_row(ref_rows[q], got[q], exact=False)
        if df:
            raise Violation("final-file", "%s/%s after resume: %s in an uninterrupted campaign" % (q[0], q[1], df))
    note("final-files-compared")
