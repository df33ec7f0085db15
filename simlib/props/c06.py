# -*- coding: utf-8 -*-
"""C06: a failed fit never leaves a hybrid model."""
import numpy as np
from .. import core, gen as G
from ..core import Violation
from . import util as U
from .c05 import params_for

ID = "C06"
N_QUICK = 1100
RULE = ("A run fits an estimator on dataset A (or not at all), then injects one failure (allocation failure or interrupt, at a "
        "chosen statement of the code, inside a kernel, in a worker or while waiting for workers; the failed pool's workers may "
        "linger) into fit on dataset B, transform or predict. The error must surface, and afterwards every probe input must be "
        "refused or answered bit for bit as the old model, or on every probe as the completed new one.")


def gen(rng, tier, i):
    est = rng.choice(["T", "T", "R", "R", "E"])
    a = U.fix_spec(G.data_spec(rng), est)
    b = dict(a, seed=rng.randrange(1 << 30))
    if rng.random() < 0.5:
        b = U.fix_spec(G.data_spec(rng), est)
    elif rng.random() < 0.5 and not a["var"]:
        b["len"] = a["len"] + rng.choice([-1, 1, 3])
    if est == "E":
        b["var"], b["layout"] = a["var"], a["layout"]
    p = params_for(rng, [a, b], est)
    return {"est": est, "a": a, "b": b, "params": p, "state": rng.randrange(1000), "old": rng.random() < 0.8,
            "op": rng.choice(["fit", "fit", "fit", "fit", "use"]), "fault": U.fault_spec(rng),
            "linger": rng.random() < 0.5, "n_jobs": rng.choice([1, 2, -1, -1]), "again": rng.random() < 0.2}


def shrink(case):
    out = []
    for key in ("a", "b"):
        for s in G.shrink_spec(case[key], min_n=4 if case["est"] != "T" else 2, min_len=16 if case["est"] == "E" else 8):
            out.append(dict(case, **{key: s}))
    for p in G.shrink_params(case["params"]):
        out.append(dict(case, params=p))
    for n in (1, 2):
        if n < case["ncpu"]:
            out.append(dict(case, ncpu=n))
    for k in ("linger", "again"):
        if case[k]:
            out.append(dict(case, **{k: False}))
    return out


def answers(m, est, probes):
    out = []
    for X in probes:
        try:
            out.append(np.array((m.transform if est == "T" else m.predict)(X)))
        except (core.Violation, core.SimAbort, core.HarnessError, core.SimCrash):
            raise
        except (Exception, KeyboardInterrupt) as e:
            from ..runner import is_stub_gap
            if is_stub_gap(e):
                raise core.HarnessError("stub: %r" % e)
            out.append(None)
    return out


def run(case, ctx):
    note = U.noter(ctx)
    est, f = case["est"], case["fault"]
    XA, _, yA = G.build(case["a"])
    XB, _, yB = G.build(case["b"])
    probes = [U.test_set(case["a"], n=3)[0], U.test_set(case["b"], n=3, salt=2)[0]]

    def mk():
        return U.make(ctx, est, case["params"], n_jobs=case["n_jobs"], state=case["state"])

    def reference(X, y):
        ctx.boot()
        m = mk()
        ctx.begin("ref-fit")
        _, steps, pl = U.measure(ctx, lambda: ctx.call("fit", m.fit, X, y))
        ctx.end()
        ctx.begin("ref-use")
        (ans, s2, p2) = U.measure(ctx, lambda: answers(m, est, probes))
        ctx.end()
        return ans, (steps, pl), (s2, p2)

    old, _, use_cost = reference(XA, yA)
    new, fit_cost, _ = reference(XB, yB)
    if old[0] is None or new[1] is None:
        raise Violation("error:use", "a fitted model refuses series like its training series")
    ctx.boot(linger=case["linger"])
    m = mk()
    if case["old"] or case["op"] == "use":
        ctx.begin("old-fit")
        ctx.call("fit", m.fit, XA, yA)
        ctx.end()
    else:
        old = [None, None]
    rounds = 2 if case["again"] else 1
    for rnd in range(rounds):
        steps, pl = fit_cost if case["op"] == "fit" else use_cost
        fr = dict(f, frac=(f["frac"] + 0.37 * rnd) % 1.0)
        ctx.begin("fail%d" % rnd, faults=[U.place(fr, steps, pl)])
        if case["op"] == "fit":
            res, e = U.attempt(ctx, lambda: m.fit(XB, yB))
            done = "the completed fit"
        else:
            X = probes[rnd % 2] if old[rnd % 2] is not None else probes[0]
            want = old[rnd % 2] if old[rnd % 2] is not None else old[0]
            res, e = U.attempt(ctx, lambda: (m.transform if est == "T" else m.predict)(X))
            if res == "ok" and U.bits(np.asarray(e)) != U.bits(want):
                raise Violation("partial-result", "a %s during which an error was injected returned a wrong result" % case["op"])
        pending = ctx.sim.main.pending is not None
        fired = U.n_fired(ctx)
        if res == "error":
            raise Violation("error:" + case["op"], "%s failed with %s: %s instead of the injected error" % (
                case["op"], type(e).__name__, str(e)[:200]))
        if res == "ok" and fired > rnd and not pending:
            raise Violation("error-swallowed", "%s returned normally although %s was raised inside it" % (case["op"], f["exc"]))
        if res == "injected":
            note("failed-" + case["op"])
        # the workers of the failed pool may still be running here
        ctx.sim.main.pending = None
        got = answers(m, est, probes)
        ctx.end()
        judge(got, old, new, est, case, "right after the failure")
        ctx.begin("later%d" % rnd)
        got = answers(m, est, probes)
        ctx.end()
        judge(got, old, new, est, case, "after the failure")
        if res == "ok" and case["op"] == "fit" and [U.bits(x) for x in got if x is not None] != \
                [U.bits(x) for x in new if x is not None]:
            raise Violation("hybrid", "%s: a completed fit does not give the new model" % est)
        note("states-judged")


def judge(got, old, new, est, case, when):
    def match(ref_):
        return all(g is None or (r is not None and U.bits(g) == U.bits(r)) for g, r in zip(got, ref_))
    if match(old) or match(new):
        return
    which = [("refused" if g is None else "old" if o is not None and U.bits(g) == U.bits(o) else
              "new" if n is not None and U.bits(g) == U.bits(n) else "neither") for g, o, n in zip(got, old, new)]
    raise Violation("hybrid", "%s %s during %s: probes are answered as %s" % (est, when, case["op"], which))
