# -*- coding: utf-8 -*-
"""C17: comparison diagrams say what the results of the campaign say."""
import contextlib
import io
import itertools
import re

import numpy as np
from .. import core
from ..core import Violation
from . import util as U

ID = "C17"
N_QUICK = 1800
RULE = ("A run delivers the results of a simulated campaign (3 to 8 models, up to 14 datasets, ties, missing results, percentages) in "
        "a random arrival order - every model's datasets in an order of its own, as parallel jobs finish - and draws critical-difference "
        "diagrams and pairwise plots of what has arrived, from one thread or several, at significance levels placed just above and just "
        "below the point where one comparison changes sides, with allocation failures and interrupts at random statements, failing "
        "writes of the image, retries and further results arriving in between; every diagram is decoded from the recorded "
        "drawing calls and compared with the tests, ranks and counts computed directly from the results.")

NAMES = ["RDST", "CIF", "DrCIF", "STC", "HC2", "TS-CHIEF", "1NN", "Rocket", "Arsenal", "TDE", "ROCKET", "STSF", "cif", "InceptionTime", "10NN", "a", "Hydra", "WEASEL"]


def gen(rng, tier, i):
    big = tier == "thorough" and rng.random() < 0.1
    m = rng.choice([3, 3, 4, 4, 5, 6, 8])
    if rng.random() < 0.02:
        m = rng.choice([9, 11, 14, 18])
    n = rng.choice([3, 5, 6, 7, 8, 10, 12, 14]) if not big else rng.choice([20, 40, 60])
    case = {"m": m, "n": n, "values": rng.choice(["fine", "fine", "coarse", "tie", "percent"]), "spread": rng.choice([0.0, 0.02, 0.05, 0.2]),
            "noise": rng.choice([0.01, 0.05, 0.15]), "seed": rng.randrange(10 ** 6),
            "order": rng.choice(["shuffled", "shuffled", "shuffled", "by-model", "by-dataset", "reversed"]),
            "index": rng.choice(["range", "range", "kept", "dup", "str"]),
            "sets": rng.choice(["str", "str", "int"]), "extra": rng.random() < 0.3, "missing": rng.choice([0, 0, 0, 1, 2]), "acts": [], "threads": []}
    for _ in range(rng.choice([1, 2, 2, 3])):
        case["acts"].append(act(rng, m))
    if rng.random() < 0.4:
        for _ in range(rng.choice([2, 2, 3])):
            a = act(rng, m)
            a["fault"] = None
            a["path"], a["title"] = "kept", False
            case["threads"].append(a)
    return case


def act(rng, m):
    a = {"op": rng.choice(["cd", "cd", "cd", "pair"]), "share": rng.choice([1.0, 1.0, 1.0, 0.7, 0.9]), "fault": None}
    if a["op"] == "cd":
        a.update(alpha=rng.choice(["near", "near", "near", 0.05, 0.1, 0.01, 0.5]), i=rng.randrange(64), side=rng.choice([-1, 1]),
                 labels=rng.random() < 0.5, light=rng.choice([None, None, rng.randrange(m)]), width=rng.choice([10, 10, 7, 14.5]),
                 title=rng.random() < 0.3, path=rng.choice([None, "x.png"]))
    else:
        a.update(base=rng.randrange(m), margin=rng.choice([0.015, 0.015, 0.0, 0.05, 0.1, "gap"]), cols=rng.choice([1, 2, 2, 3, 4, 9]),
                 names=rng.choice([0.7, 0.1, 0.05, 0.0]), share=1.0, pick=rng.choice([None, None, 2, 3]), i=rng.randrange(64))
    a["camp"] = rng.choice([0, 0, 1])
    if rng.random() < 0.35:
        if a["op"] == "cd" and a["path"] is None and rng.random() < 0.5:
            a["fault"] = {"what": "save", "kind": rng.choice(["OSError", "PermissionError"])}
        else:
            a["fault"] = dict(U.fault_spec(rng), what="step")
    return a


def shrink(case):
    out = []
    for i in range(len(case["acts"])):
        if len(case["acts"]) + len(case["threads"]) > 1:
            out.append(dict(case, acts=case["acts"][:i] + case["acts"][i + 1:]))
    if case["threads"] and case["acts"]:
        out.append(dict(case, threads=[]))
    if len(case["threads"]) > 2:
        out.append(dict(case, threads=case["threads"][:-1]))
    for k, lo in (("m", 3), ("n", 3)):
        if case[k] > lo:
            out.append(dict(case, **{k: case[k] - 1}))
    for k, v in (("missing", 0), ("extra", False), ("index", "range"), ("sets", "str"), ("order", "by-model"), ("spread", 0.2)):
        if case[k] != v:
            out.append(dict(case, **{k: v}))
    for i, a in enumerate(case["acts"]):
        for k, v in (("fault", None), ("labels", False), ("light", None), ("title", False), ("share", 1.0), ("alpha", 0.05), ("pick", None), ("cols", 2), ("camp", 0)):
            if k in a and a[k] != v:
                aa = list(case["acts"])
                aa[i] = dict(a, **{k: v})
                out.append(dict(case, acts=aa))
    return out


# ---- the campaign ---------------------------------------------------------------
def campaign(case, shift=0):
    """The results of a campaign, or of a later one of the same models on the same datasets (shift).
    -> model names, dataset names, {(model, dataset): accuracy}, [(model, dataset)] in the order of arrival"""
    r = np.random.RandomState(case["seed"] + 1000003 * shift)
    m, n = case["m"], case["n"]
    models = NAMES[:m]
    sets = ["set%02d" % j for j in range(n)] if case["sets"] == "str" else [3 * j + 1 for j in range(n)]
    base = r.rand(n) * 0.5 + 0.3
    skill = r.permutation(m) * case["spread"]
    acc = {}
    for i, c in enumerate(models):
        for j, d in enumerate(sets):
            a = base[j] + skill[i] + r.randn() * case["noise"]
            a = float(min(1.0, max(0.0, a)))
            if case["values"] == "coarse":
                a = round(a, 2)
            elif case["values"] == "tie":
                a = round(a, 1)
            elif case["values"] == "percent":
                a = round(100 * a, 1)
            acc[c, d] = a
    if case["order"] == "by-dataset":
        rows = [(c, d) for d in sets for c in models]
    else:
        rows = [(c, d) for c in models for d in sets]
        if case["order"] == "reversed":
            rows = rows[::-1]
        elif case["order"] == "shuffled":
            rows = [rows[i] for i in r.permutation(len(rows))]
    return models, sets, acc, rows


def table(case, rows, acc):
    import pandas as pd
    n = len(rows)
    ix = {"range": None, "kept": [(7 * i + 3) % (n + 11 if (n + 11) % 7 else n + 12) for i in range(n)], "dup": [i // 2 for i in range(n)],
          "str": ["run%d" % (n - i) for i in range(n)]}[case["index"]]
    d = {"classifier_name": [c for c, _ in rows], "dataset_name": [s for _, s in rows], "accuracy": [acc[k] for k in rows]}
    if case["extra"]:
        d = dict([("seconds", [float(i % 7) for i in range(n)])] + list(d.items()))
    return pd.DataFrame(d, index=ix) if ix is not None else pd.DataFrame(d)


def pivot(case, a, models, sets, acc, rows):
    """Results as one column per model; a few results may be missing."""
    import pandas as pd
    names = list(models)
    base = names[a["base"] % len(names)]
    if a["pick"]:
        names = [c for i, c in enumerate(names) if c == base or (i + a["i"]) % 3][:max(a["pick"], 2)]
        if base not in names:
            names[-1] = base
    seen = []
    for c, s in rows:
        if c in names and c not in seen:
            seen.append(c)
    if len(seen) < 2:
        seen = names
    order = []
    for c, s in rows:
        if s not in order:
            order.append(s)
    gone = set()
    for k in range(case["missing"]):
        gone.add((seen[(a["i"] + k) % len(seen)], order[(a["i"] * 3 + k) % len(order)]))
    d = {}
    for c in seen:
        d[c] = [float("nan") if (c, s) in gone else acc[c, s] for s in order]
    return pd.DataFrame(d, index=order), base


def frozen(df):
    return (list(df.columns), list(df.index), [[repr(v) for v in df[c]] for c in df.columns])


# ---- what the results say ----------------------------------------------------------
def statistics(rows, acc):
    """-> models compared (all with the largest number of results), their average ranks, [(p-value, model, model)]
    or None when those models were not run on the same datasets"""
    from scipy.stats import wilcoxon
    by = {}
    for c, s in rows:
        by.setdefault(c, []).append(s)
    top = max(len(v) for v in by.values())
    names = sorted(c for c in by if len(by[c]) == top)
    if len(set(tuple(sorted(by[c])) for c in names)) > 1 or len(names) < 3:
        return None
    sets = sorted(by[names[0]])
    A = np.array([[acc[c, s] for s in sets] for c in names])
    ranks = np.array([[1 + np.sum(A[:, j] > A[i, j]) + (np.sum(A[:, j] == A[i, j]) - 1) / 2.0 for j in range(len(sets))]
                      for i in range(len(names))]).mean(axis=1)
    ps = []
    for i, j in itertools.combinations(range(len(names)), 2):
        ps.append((float(wilcoxon(A[i], A[j], zero_method="pratt")[1]), names[i], names[j]))
    return names, dict(zip(names, ranks)), sorted(ps)


def level(a, ps):
    """The significance level of an action: clearly to one side of every comparison."""
    k = len(ps)
    adj = [p * (k - i) for i, (p, _, _) in enumerate(ps)]
    if a["alpha"] == "near":
        # just above or below one of the points where the decision about a comparison changes
        steps, top = [], -1.0
        for v in adj:
            if v > top:
                steps.append(v)
                top = v
        al = steps[a["i"] % len(steps)] * (1 + a["side"] * 1e-6)
    else:
        al = a["alpha"]
    while any(abs(v - al) <= 1e-9 * al for v in adj):
        al *= 1 + 3e-8
    return al


def cliques(names, ps, alpha):
    """Maximal sets (two or more) of models that are pairwise not significantly different."""
    joined, k = set(), len(ps)
    stop = False
    for i, (p, a, b) in enumerate(ps):
        if not stop and p <= alpha / (k - i):
            continue
        stop = True
        joined.add(frozenset((a, b)))
    near = dict((c, set(d for d in names if frozenset((c, d)) in joined and d != c)) for c in names)
    full = []

    def grow(inside, could, done):
        if not could and not done:
            full.append(frozenset(inside))
            return
        pivot = max(sorted(could | done), key=lambda c: len(near[c] & could))
        for c in sorted(could - near[pivot]):
            grow(inside + [c], could & near[c], done & near[c])
            could, done = could - set([c]), done | set([c])
    grow([], set(names), set())
    return [c for c in full if len(c) >= 2]


# ---- what was drawn ---------------------------------------------------------------
def find(ax, name):
    return [(a, k) for n, a, k in ax.calls if n == name]


def pairs(ok, n):
    """Can each of n things be given one of its own? ok(i, j)"""
    owner = {}

    def place(i, seen):
        for j in range(n):
            if j not in seen and ok(i, j):
                seen.add(j)
                if j not in owner or place(owner[j], seen):
                    owner[j] = i
                    return True
        return False
    return all(place(i, set()) for i in range(n))


def check_cd(fig, a, want, alpha, what):
    names, ranks, ps = want
    if len(fig.axes) != 1:
        raise Violation("drawing", "%s: %d axes" % (what, len(fig.axes)))
    ax = fig.axes[0]
    texts = [(float(t[0]), float(t[1]), str(t[2]), k) for t, k in find(ax, "text")]
    lines = [(np.asarray(l[0], dtype=float), np.asarray(l[1], dtype=float), k) for l, k in find(ax, "plot")]
    scale = {}
    for x, _, s, _k in texts:
        if s not in names and re.match(r"^-?\d+$", s):
            scale[int(s)] = x
    if len(scale) < 2 or not (min(scale) <= min(ranks.values()) + 1e-9 and max(scale) >= max(ranks.values()) - 1e-9):
        raise Violation("scale", "%s: the axis shows ranks %s, the average ranks are %s" % (what, sorted(scale), ranks))
    lo, hi = min(scale), max(scale)
    unit = (scale[hi] - scale[lo]) / (hi - lo)
    for r in scale:
        if abs(scale[lo] + (r - lo) * unit - scale[r]) > 1e-9:
            raise Violation("scale", "%s: rank %d is not at its place on the axis" % (what, r))
    if unit >= 0:
        raise Violation("scale", "%s: the best rank is not on the right" % what)
    rank_at = lambda x: lo + (x - scale[lo]) / unit
    light = None if a["light"] is None else NAMES[a["light"]]
    shown = [t for t in texts if t[2] in names]
    if sorted(t[2] for t in shown) != sorted(names):
        raise Violation("models", "%s: shows %s, the models with all results are %s" % (what, sorted(t[2] for t in shown), sorted(names)))
    stems = [l for l in lines if len(l[0]) == 3]
    for x, y, s, k in shown:
        mine = [l for l in stems if abs(l[1][2] - y) < 1e-9 and (l[0][2] < 0.5) == (x < 0.5)]
        if len(mine) != 1:
            raise Violation("drawing", "%s: %d stems lead to %s" % (what, len(mine), s))
        l = mine[0]
        if abs(rank_at(l[0][0]) - ranks[s]) > 1e-6:
            raise Violation("rank", "%s: %s is drawn at average rank %.6f, its results give %.6f" % (what, s, rank_at(l[0][0]), ranks[s]))
        if (k.get("color") == "red") != (s == light) or (l[2].get("color") == "red") != (s == light):
            raise Violation("highlight", "%s: %s is highlighted wrongly (asked for %s)" % (what, s, light))
        if a["labels"]:
            near = [t for t in texts if re.match(r"^\d+\.\d{4}$", t[2]) and (t[0] < 0.5) == (x < 0.5)]
            near = sorted(near, key=lambda t: abs(t[1] - y))[:1]
            if not any(abs(float(t[2]) - ranks[s]) <= 5.0001e-5 for t in near):
                raise Violation("label", "%s: %s carries the average rank %s, its results give %.4f" % (what, s, [t[2] for t in near], ranks[s]))
    flat = [l for l in lines if len(l[0]) == 2 and l[1][0] == l[1][1]]
    axis = min(l[1][0] for l in flat)
    bars = [sorted((float(l[0][0]), float(l[0][1]))) for l in flat if l[1][0] > axis + 1e-9]
    exp = []
    for c in cliques(names, ps, alpha):
        v = [scale[lo] + (ranks[q] - lo) * unit for q in c]
        exp.append((min(v), max(v), sorted(c)))
    tol = 0.03 / a["width"]
    say = lambda: "%s (alpha %.9g): bars join ranks %s, the models without significant difference are %s" % (
        what, alpha, [tuple(round(float(rank_at(x)), 3) for x in b[::-1]) for b in bars],
        [(round(float(rank_at(e[1])), 3), round(float(rank_at(e[0])), 3), e[2]) for e in exp])
    if len(bars) != len(exp) or not pairs(lambda i, j: abs(exp[i][0] - bars[j][0]) < tol and abs(exp[i][1] - bars[j][1]) < tol, len(exp)):
        raise Violation("cliques", say())


def check_pair(fig, df, base, a, margin, what):
    comps = [c for c in df.columns if c != base]
    used = {}
    for ax in fig.axes:
        lab = [t[0] for t, _ in find(ax, "set_xlabel")]
        sc = find(ax, "scatter")
        if not lab and not sc:
            continue
        if len(lab) != 1 or len(sc) != 1 or lab[0] in used:
            raise Violation("pairwise", "%s: a plot is labelled %s and shows %d clouds" % (what, lab, len(sc)))
        used[lab[0]] = (ax, sc[0])
    if sorted(used) != sorted(comps):
        raise Violation("pairwise", "%s: compares %s with %s, the table has %s" % (what, base, sorted(used), sorted(comps)))
    y = np.array(df[base].values, dtype=float)
    for c in comps:
        ax, (sc, _k) = used[c]
        x = np.array(df[c].values, dtype=float)
        if not (np.array_equal(np.asarray(sc[0], dtype=float), x, equal_nan=True) and np.array_equal(np.asarray(sc[1], dtype=float), y, equal_nan=True)):
            raise Violation("pairwise", "%s: the points of %s are not its results" % (what, c))
        d = y - x
        ok = ~np.isnan(d)
        text = [str(t[2]) for t, _ in find(ax, "text")]
        nums = [re.findall(r"\d+", t.split("\n")[-1]) for t in text if t.startswith("W")]
        if len(nums) != 1 or len(nums[0]) != 3:
            raise Violation("pairwise", "%s: %s shows the counts %r" % (what, c, text))
        w, dr, l = (int(v) for v in nums[0])
        near = np.abs(np.abs(d[ok]) - margin) < 1e-12
        lo = lambda b: int(np.sum(b & ~near))
        sure = (lo(d[ok] > margin), lo(np.abs(d[ok]) < margin), lo(d[ok] < -margin))
        k = int(near.sum())
        if w + dr + l != int(ok.sum()) or not all(s <= v <= s + k for s, v in zip(sure, (w, dr, l))):
            raise Violation("counts", "%s: %s against %s counts %d wins, %d draws, %d losses over %d datasets, the results give %d, %d, %d"
                            " (%d at the margin)" % ((what, base, c, w, dr, l, int(ok.sum())) + sure + (k,)))
        pts = {}
        for t, _ in find(ax, "annotate"):
            pts.setdefault(str(t[0]), []).append(tuple(float(v) for v in t[1]))
        for j, s in enumerate(df.index):
            g = abs(d[j])
            if np.isnan(g) or abs(g - a["names"]) < 1e-12:
                continue
            has = (x[j], y[j]) in pts.get(str(s), [])
            if has != (g > a["names"]):
                raise Violation("names", "%s: %s (difference %.4f, names from %g) is %s" % (
                    what, s, d[j], a["names"], "named" if has else "not named"))
    # the y axis belongs to the baseline
    if not any(t[0] == base for ax in fig.axes for t, _ in find(ax, "set_ylabel")):
        raise Violation("pairwise", "%s: the baseline %s is not named" % (what, base))


# ---- a run ----------------------------------------------------------------------------
def run(case, ctx):
    note = U.noter(ctx)
    ctx.boot()
    from matplotlib import pyplot as plt
    import convst.utils.plot_utils as P

    def prepare(a):
        """-> function that draws, function that judges the figure, table, fingerprint of the table"""
        models, sets, acc, rows = campaign(case, a.get("camp", 0))
        part = rows[:max(1, int(round(a["share"] * len(rows))))]
        if a["op"] == "pair":
            df, base = pivot(case, a, models, sets, acc, part)
            comps = len(df.columns) - 1
            margin = a["margin"]
            if margin == "gap":
                # exactly the difference of one of the datasets
                c = [q for q in df.columns if q != base][a["i"] % comps]
                j = a["i"] % len(df.index)
                margin = abs(float(df[base].values[j]) - float(df[c].values[j]))
                if not margin == margin:
                    margin = 0.015
            draw = lambda: P.pairwise_plot(df, base, margin=margin, max_ncols=a["cols"], show_names_above=a["names"],
                                           sns_context=None if a["i"] % 2 else "talk")
            return draw, lambda fig, got, what: check_pair(got, df, base, a, margin, what), df, frozen(df)
        df = table(case, part, acc)
        want = statistics(part, acc)
        if want is None:
            return None
        alpha = level(a, want[2])
        light = None if a["light"] is None else NAMES[a["light"]]
        draw = lambda: P.draw_cd_diagram(df_perf=df, alpha=alpha, title="Results" if a["title"] else None, width=a["width"],
                                         labels=a["labels"], path=a["path"], highlight=light)

        def judge(fig, got, what):
            check_cd(fig, a, want, alpha, what)
            if a["title"] and not any("Results" in t for t in [str(v[0]) for ax in fig.axes for v, _ in find(ax, "set_title")]):
                raise Violation("title", "%s: the title is missing" % what)
            if a["path"] is None and not find(fig, "savefig"):
                raise Violation("file", "%s: the diagram was not written" % what)
            note("comparisons-decided", len(want[2]))
        return draw, judge, df, frozen(df)

    def one(a, pr, what, owner=None, n0=0, got=None):
        draw, judge, df, fp = pr
        figs = [f for f in plt.FIGURES[n0:] if owner is None or f.owner is owner]
        if len(figs) != 1:
            raise Violation("drawing", "%s: %d figures were opened" % (what, len(figs)))
        judge(figs[0], got, what)
        if frozen(df) != fp:
            raise Violation("table-changed", "%s changed the table of results" % what)
        note("drawn-" + a["op"])

    sink = io.StringIO()
    with contextlib.redirect_stdout(sink):
        for j, a in enumerate(case["acts"]):
            what = "%s %d" % ({"cd": "critical-difference diagram", "pair": "pairwise plot"}[a["op"]], j)
            pr = prepare(a)
            if pr is None:
                note("not-comparable")
                continue
            f = a["fault"]
            if f is not None:
                ctx.begin("act%d-m" % j)
                n0 = len(plt.FIGURES)
                steps = {}

                def meas():
                    g, steps["n"], steps["py"] = U.measure(ctx, pr[0])
                    return g
                got = ctx.call("draw", meas)
                ctx.end()
                one(a, pr, what, n0=n0, got=got)
                if f["what"] == "step":
                    ctx.begin("act%d-f" % j, faults=[U.place(f, steps["n"], steps["py"])])
                else:
                    ctx.begin("act%d-f" % j)
                    plt.SAVE[0] = core.injected(f["kind"], "no space left on device")
                n0 = len(plt.FIGURES)
                before = sum(ctx.sim.fired.values())
                res, got = U.attempt(ctx, pr[0])
                if plt.SAVE[0] is not None:
                    plt.SAVE[0] = None
                    if res == "ok":
                        raise Violation("failure-hidden", "%s returned although its file could not be written" % what)
                    ctx.sim.fire("save:" + f["kind"])
                ctx.end()
                hit = sum(ctx.sim.fired.values()) > before
                if hit:
                    if res == "ok":
                        raise Violation("failure-hidden", "%s returned although an allocation failed" % what)
                    note("failures-surfaced")
                    what += " after a failed attempt"
                elif res != "ok":
                    raise Violation("error:draw", "%s failed: %s: %s" % (what, type(got).__name__, str(got)[:200]))
                if frozen(pr[2]) != pr[3]:
                    raise Violation("table-changed", "%s: the failed attempt changed the table of results" % what)
            ctx.begin("act%d" % j)
            n0 = len(plt.FIGURES)
            got = ctx.call("draw", pr[0])
            ctx.end()
            one(a, pr, what, n0=n0, got=got)
        prs = [(a, prepare(a)) for a in case["threads"]]
        prs = [(a, p) for a, p in prs if p is not None]
        if len(prs) > 1:
            ctx.begin("together")
            n0 = len(plt.FIGURES)
            ths = [ctx.sim.spawn(p[0], "draw%d" % k, "py") for k, (a, p) in enumerate(prs)]
            ctx.sim.join(ths)
            for t in ths:
                if t.exc is not None:
                    if isinstance(t.exc, (core.Violation, core.HarnessError)):
                        raise t.exc

                    def again(e=t.exc):
                        raise e
                    ctx.call("concurrent drawing", again)
            ctx.end()
            for k, ((a, p), t) in enumerate(zip(prs, ths)):
                one(a, p, "concurrent %s %d" % (a["op"], k), owner=t, n0=n0, got=t.result)
            note("concurrent-drawings", len(prs))
