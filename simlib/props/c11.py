# -*- coding: utf-8 -*-
"""C11: archive loading is all-or-nothing and label-consistent."""
import numpy as np
from .. import archive, core, gen as G
from ..core import Violation
from . import util as U

ID = "C11"
N_QUICK = 12600
RULE = ("A run fills a simulated archive with up to three random datasets (one or several channels, equal or unequal lengths, "
        "only one split unequal, constant series, string and numeric labels) and performs a random history of loads of splits and "
        "whole datasets, with or without normalisation, interleaved with the caller overwriting what it was given, failing "
        "downloads (unreachable, timeout, cut), allocation failures and interrupts at random statements, retries, and "
        "concurrent loads from several threads; every load that returns is compared with the archive.")


def gen(rng, tier, i):
    sets = []
    for k in range(rng.choice([1, 1, 2, 3])):
        d = G.data_spec(rng, values=rng.choice(["float", "int", "runs", "flat", "offset", "big", "tiny"]))
        d["layout"] = "list" if d["var"] else "C"
        d["spread"] = rng.choice([0.2, 0.5, 1.0])
        d["k"] = rng.choice([2, 2, 3]) if rng.random() > 0.05 else rng.choice([10, 11, 13])
        if d["k"] < 10 and rng.random() < 0.04:
            d["ch"], d["len"] = rng.choice([(1, 300), (1, 515), (17, 8)])
        sets.append({"data": d, "labels": rng.choice(["str", "num", "alpha", "neg", "int"]),
                     "ntr": d["k"] * rng.choice([1, 2, 3]) + rng.choice([0, 1]), "nte": d["k"] * rng.choice([1, 2, 3]) + rng.choice([0, 1]),
                     "const": rng.choice([None, None, None, 0.0, 5.0, -1000.5]),
                     "lack": rng.choice([None, None, None, "test", "test-first", "train"]),
                     "shape": rng.choice(["both", "both", "train-list", "test-list", "longer-test", "longer-train"])})
    acts = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        a = {"set": rng.randrange(len(sets)), "whole": rng.random() < 0.4, "norm": rng.random() < 0.5,
             "spoil": rng.random() < 0.5, "via": rng.choice(["load", "load", "load", "cv"]), "fault": None}
        r = rng.random()
        if r < 0.3:
            a["fault"] = {"what": "download", "n": rng.choice([0, 1]), "kind": rng.choice(archive.KINDS)}
        elif r < 0.5:
            a["fault"] = dict(U.fault_spec(rng), what="step")
        acts.append(a)
    case = {"sets": sets, "acts": acts, "threads": []}
    if rng.random() < 0.35:
        for _ in range(rng.choice([2, 2, 3])):
            case["threads"].append({"set": rng.randrange(len(sets)), "whole": rng.random() < 0.4, "norm": rng.random() < 0.5})
    return case


def shrink(case):
    out = []
    for i in range(len(case["acts"])):
        if len(case["acts"]) > 1:
            out.append(dict(case, acts=case["acts"][:i] + case["acts"][i + 1:]))
    if case["threads"]:
        out.append(dict(case, threads=[]))
        out.append(dict(case, threads=case["threads"][:-1]))
    for i, s in enumerate(case["sets"]):
        for d in G.shrink_spec(s["data"]):
            ss = list(case["sets"])
            ss[i] = dict(s, data=d)
            out.append(dict(case, sets=ss))
        if s.get("const") is not None:
            ss = list(case["sets"])
            ss[i] = dict(s, const=None)
            out.append(dict(case, sets=ss))
        if s.get("lack"):
            ss = list(case["sets"])
            ss[i] = dict(s, lack=None)
            out.append(dict(case, sets=ss))
        if s["labels"] != "int":
            ss = list(case["sets"])
            ss[i] = dict(s, labels="int")
            out.append(dict(case, sets=ss))
    for i, a in enumerate(case["acts"]):
        for k, v in (("whole", False), ("norm", False), ("spoil", False), ("fault", None), ("via", "load")):
            if a[k] != v:
                aa = list(case["acts"])
                aa[i] = dict(a, **{k: v})
                out.append(dict(case, acts=aa))
    return out


LAB = {"str": ["2", "10", "1", "3", "12", "11", "7", "100", "4", "5", "6", "9", "8"], "num": [float(v) for v in range(1, 14)],
       "alpha": ["walk", "Stand", "run", "sit", "Walk", "jump", "lie", "climb", "a", "b", "B", "C3", "c3"],
       "neg": [-1, 1, 4, -20, 100, 11, 9, 10, -3, 2, 1000, 7, 8], "int": list(range(13))}


def dataset(s):
    d = dict(s["data"], labels="int")
    if d["var"] and s["shape"] == "train-list":
        pass
    shape = s["shape"]
    L = d["len"]
    dtr, dte = d, d
    if d["var"]:
        if shape == "train-list":
            dte = dict(d, var=False, layout="C")
        elif shape == "test-list":
            dtr = dict(d, var=False, layout="C")
    ltr = lte = L
    if d["var"] and shape == "longer-test":
        lte = L + 3
    if d["var"] and shape == "longer-train":
        ltr = L + 3
    _, rtr, ytr = G.build(dtr, n=s["ntr"], salt=1, length=ltr)
    _, rte, yte = G.build(dte, n=s["nte"], salt=2, length=lte)
    if s.get("const") is not None:
        # some channels are constant
        for rows in (rtr, rte):
            for i in range(0, len(rows), 2):
                rows[i][i % d["ch"]] = s["const"]
    lab = np.array(LAB[s["labels"]][:d["k"]])
    con = lambda dd, rows: G.contain(dict(dd, layout="list" if dd["var"] else "C"), rows)
    if s.get("lack") and d["k"] > 1:
        # a class without a series in one of the splits
        o = np.argsort(np.argsort(lab))       # rank of each label
        gone = int(np.argmax(o)) if s["lack"] == "test" else int(np.argmin(o))
        other = (gone + 1) % d["k"]
        if s["lack"] == "train":
            ytr = np.where(ytr == gone, other, ytr)
        else:
            yte = np.where(yte == gone, other, yte)
    return (con(dtr, rtr), lab[ytr]), (con(dte, rte), lab[yte])


def check(got, A, whole, norm, what):
    (Xtr, ytr), (Xte, yte) = A
    if whole:
        if not isinstance(got, tuple) or len(got) != 2:
            raise Violation("shape", "%s returns %d values" % (what, len(got)))
        X, y = got
        parts = [("all", X, y, list(Xtr) + list(Xte), np.concatenate((ytr, yte)))]
    else:
        if not isinstance(got, tuple) or len(got) != 5:
            raise Violation("shape", "%s returns %d values" % (what, len(got)))
        parts = [("train", got[0], got[2], list(Xtr), ytr), ("test", got[1], got[3], list(Xte), yte)]
        m = min(x.shape[-1] for x in list(Xtr) + list(Xte))
        if got[4] != m:
            raise Violation("min-length", "%s reports shortest length %r, archive has %d" % (what, got[4], m))
    k = len(set(ytr.tolist()) | set(yte.tolist()))
    mapping = {}
    for name, X, y, wx, wy in parts:
        if len(X) != len(wx) or len(y) != len(wy):
            raise Violation("series-count", "%s %s has %d series and %d labels, archive has %d" % (what, name, len(X), len(y), len(wx)))
        for i in range(len(wx)):
            x = np.asarray(X[i])
            if x.shape != wx[i].shape:
                raise Violation("series", "%s %s series %d has shape %s, archived %s" % (what, name, i, x.shape, wx[i].shape))
            if not norm:
                if not np.array_equal(x, wx[i]):
                    raise Violation("series", "%s %s series %d differs from the archived one" % (what, name, i))
            else:
                for c in range(x.shape[0]):
                    w = wx[i][c]
                    sd = w.std() + 1e-8
                    ref = (w - w.mean()) / sd
                    tol = 1e-9 + 64 * 2.3e-16 * len(w) * (np.abs(w).max() + 1) / sd * (1 + np.abs(ref).max())
                    if not np.abs(x[c] - ref).max() <= tol:
                        raise Violation("normalisation", "%s %s series %d channel %d is not the normalised archived one (off by %g)" % (
                            what, name, i, c, float(np.abs(x[c] - ref).max())))
            v = y[i]
            if float(v) != int(v) or not 0 <= int(v) < k:
                raise Violation("labels", "%s %s label %r is not among 0..%d" % (what, name, v, k - 1))
            key = wy[i].item() if hasattr(wy[i], "item") else wy[i]
            if mapping.setdefault(key, int(v)) != int(v):
                raise Violation("labels", "%s encodes label %r both as %d and as %d" % (what, key, mapping[key], int(v)))
    if len(set(mapping.values())) != len(mapping):
        raise Violation("labels", "%s encodes different labels alike: %s" % (what, mapping))
    return mapping


def spoil(got):
    for o in got[:4]:
        for i in range(len(o)):
            if isinstance(o[i], np.ndarray):
                o[i][...] = -7.0
            else:
                o[i] = 0


def run(case, ctx):
    note = U.noter(ctx)
    archive.reset()
    A, odd, refusable = {}, set(), set()
    for i, s in enumerate(case["sets"]):
        A["D%d" % i] = dataset(s)
        (a, b), (c, d) = A["D%d" % i]
        if set(b.tolist()) != set(d.tolist()):
            odd.add(i)
            note("class-missing-from-a-split")
        if set(d.tolist()) - set(b.tolist()):
            refusable.add(i)
        archive.sets["D%d" % i] = {"train": (archive._copy(a), b.copy()), "test": (archive._copy(c), d.copy())}
    ctx.boot()
    import convst.utils.dataset_utils as D
    maps = {}

    def load(a):
        f = D.load_UCR_UEA_dataset if a["whole"] else D.load_UCR_UEA_dataset_split
        return f("D%d" % a["set"], normalize=a["norm"])

    def verify(a, got, what):
        mp = check(got, A["D%d" % a["set"]], a["whole"], a["norm"], what)
        if maps.setdefault(a["set"], mp) != mp:
            raise Violation("labels", "%s: labels encoded as %s, by an earlier load as %s" % (what, mp, maps[a["set"]]))
        note("loads-checked")

    def calling(name, a, fn):
        """A class without training series may be refused, not encoded wrongly."""
        if a["set"] not in refusable:
            return ctx.call(name, fn)
        res, got = U.attempt(ctx, fn)
        if res == "error":
            note("refused")
            return None
        return got

    for j, a in enumerate(case["acts"]):
        what = "load %d (%s%s)" % (j, "whole" if a["whole"] else "split", ", normalised" if a["norm"] else "")
        f = a["fault"]
        ctx.begin("load%d" % j)
        if a["via"] == "cv" and a["set"] not in odd:
            # other users of the loader in between
            import convst.utils.experiments_utils as E
            from . import probes
            probes.Probe.plan.clear()
            ctx.call("cross-validation", E.cross_validate_UCR_UEA(2, "D%d" % a["set"]).score, probes.Probe(mutate=True))
            ctx.end()
            ctx.begin("load%d-b" % j)
        if f is None or a["set"] in refusable:
            got = calling("load", a, lambda: load(a))
            if got is None:
                ctx.end()
                continue
        else:
            if f["what"] == "step":
                steps = {}
                n = [0]

                def meas():
                    g, steps["n"], steps["py"] = U.measure(ctx, lambda: load(a))
                    return g
                got = ctx.call("load", meas)
                verify(a, got, what)
                ctx.end()
                ctx.begin("load%d-f" % j, faults=[U.place(f, steps["n"], steps["py"])])
            else:
                archive.faults[len(archive.calls) + f["n"]] = f["kind"]
            before = sum(ctx.sim.fired.values())
            res, got = U.attempt(ctx, lambda: load(a))
            hit = sum(ctx.sim.fired.values()) > before
            ctx.end()
            archive.faults.clear()
            if hit:
                if res == "ok" and not (f["what"] == "download" and archive.retried()):
                    raise Violation("failure-hidden", "%s returned although a download or allocation failed" % what)
                if res == "ok":
                    verify(a, got, what)
                note("failures-surfaced")
            elif res != "ok":
                raise Violation("error:load", "%s failed: %s: %s" % (what, type(got).__name__, str(got)[:200]))
            if hit:
                ctx.begin("load%d-r" % j)
                what += " after a failed attempt"
                got = ctx.call("load", load, a)
                note("retries")
        ctx.end()
        verify(a, got, what)
        if a["spoil"]:
            spoil(got)
    if case["threads"] and not any(a["set"] in refusable for a in case["threads"]):
        ctx.begin("together")
        ths = [ctx.sim.spawn((lambda a: lambda: load(a))(a), "loader%d" % k, "py") for k, a in enumerate(case["threads"])]
        ctx.sim.join(ths)
        for k, t in enumerate(ths):
            if t.exc is not None:
                if isinstance(t.exc, (core.Violation, core.HarnessError)):
                    raise t.exc

                def again(e=t.exc):
                    raise e
                ctx.call("concurrent load", again)
        ctx.end()
        for k, t in enumerate(ths):
            verify(case["threads"][k], t.result, "concurrent load %d" % k)
        note("concurrent-loads", len(ths))
