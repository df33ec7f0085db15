T = "convst/transformers/"
U = "convst/utils/"
C = "convst/classifiers/"
PU = U + "plot_utils.py"
BUGS = []
def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what=what))

CD = """
import contextlib, io
import pandas as pd
from scipy.stats import wilcoxon
from convst.utils import plot_utils as P
def table(acc, sets=None):
    # acc: {model: accuracies}, rows of a model after one another
    rows = [(c, "set%02d" % j, v) for c in acc for j, v in enumerate(acc[c])]
    return pd.DataFrame({"classifier_name": [r[0] for r in rows], "dataset_name": [r[1] for r in rows], "accuracy": [r[2] for r in rows]})
def cd(df, **k):
    del D.DRAWN[:]
    k.setdefault("path", "none")
    with contextlib.redirect_stdout(io.StringIO()):
        P.draw_cd_diagram(df_perf=df, **k)
    return list(D.DRAWN)
def bars(drawn):
    flat = [(a[0], a[1]) for n, a, k in drawn if n == "plot" and len(a[0]) == 2 and a[1][0] == a[1][1]]
    top = min(y[0] for x, y in flat)
    return [x for x, y in flat if y[0] > top + 1e-9]
def texts(drawn):
    return [str(a[2]) for n, a, k in drawn if n == "text"]
def tests(acc):
    names = sorted(acc)
    return sorted((wilcoxon(acc[a], acc[b], zero_method="pratt")[1], a, b) for i, a in enumerate(names) for b in names[i + 1:])
def holm(ps, alpha):
    k = len(ps)
    for i, (p, a, b) in enumerate(ps):
        if p > alpha / (k - i):
            return [(a, b) for p, a, b in ps[i:]]
    return []
"""
# ------------------------------------------------------------------ C17
bug("c17-holm-goes-on", "C17",
    [(PU, """            # stop
            break
""", """            # not significant at this level
            continue
""")],
    CD + """
r = np.random.RandomState(0)
for t in range(3000):
    acc = dict((c, r.rand(10) + 0.15 * i) for i, c in enumerate(["a", "b", "c", "d"]))
    ps = tests(acc)
    alpha = 0.05
    if len(holm(ps, alpha)) == 6 and any(p <= alpha / (6 - i) * 0.99 for i, (p, _, _) in enumerate(ps)):
        break
else:
    raise SystemExit(0)
b = bars(cd(table(acc), alpha=alpha))
assert len(b) == 1, "the first comparison is not significant, so none is: one bar joins all models, got %d" % len(b)
""", "a comparison below its own level that follows one above its level", "Holm's procedure goes on after the first comparison that is not significant")

bug("c17-bonferroni", "C17",
    [(PU, "        new_alpha = float(alpha / (k - i))\n", "        new_alpha = float(alpha / k)\n")],
    CD + """
r = np.random.RandomState(0)
for t in range(3000):
    acc = dict((c, r.rand(10) * 0.5 + 0.4 * i) for i, c in enumerate(["a", "b", "c"]))
    ps = tests(acc)
    if not holm(ps, 0.01) and ps[-1][0] > 0.011 / 3 * 1.01:
        break
else:
    raise SystemExit(0)
assert not bars(cd(table(acc), alpha=0.01)), "all three comparisons are significant after Holm correction"
""", "a second or later comparison between alpha/k and its Holm level", "the largest correction is applied to every comparison")

bug("c17-ties-dropped", "C17",
    [(PU, "            p_value = wilcoxon(perf_1, perf_2, zero_method='pratt')[1]\n",
      "            p_value = wilcoxon(perf_1, perf_2)[1]\n")],
    CD + """
r = np.random.RandomState(0)
def plain(acc):
    names = sorted(acc)
    return sorted((wilcoxon(acc[a], acc[b])[1], a, b) for i, a in enumerate(names) for b in names[i + 1:])
for t in range(3000):
    acc = dict((c, np.round(r.rand(14) * 0.2 + 0.15 * i, 1)) for i, c in enumerate(["a", "b", "c"]))
    ps, qs = tests(acc), plain(acc)
    alpha = max(p * (3 - i) for i, (p, _, _) in enumerate(ps)) * 1.001
    if not holm(ps, alpha) and holm(qs, alpha):
        break
else:
    raise SystemExit("no such table")
assert not bars(cd(table(acc), alpha=alpha)), "models that differ significantly (equal results ranked, Pratt) are joined"
""", "models with equal accuracies on some datasets", "datasets on which two models are equal are left out of the test")

bug("c17-ranks-of-ties", "C17",
    [(PU, "    average_ranks = df_ranks.rank(ascending=False).mean(\n", "    average_ranks = df_ranks.rank(method='min', ascending=False).mean(\n")],
    CD + """
acc = {"a": [0.5, 0.5, 0.7, 0.9], "b": [0.5, 0.4, 0.6, 0.8], "c": [0.3, 0.5, 0.5, 0.1]}
t = texts(cd(table(acc), labels=True))
assert "%.4f" % ((1.5 + 1.5 + 1 + 1) / 4) in t, t
""", "equal accuracies of two models on a dataset", "models sharing a rank are given the best of the shared ranks instead of their average")

bug("c17-chains-joined", "C17",
    [(PU, "    return networkx.find_cliques(g)\n", "    return [sorted(c) for c in networkx.connected_components(g)]\n")],
    CD + """
r = np.random.RandomState(0)
for t in range(2000):
    acc = dict((c, r.rand(10) * 0.3 + 0.13 * i) for i, c in enumerate(["a", "b", "c"]))
    w = holm(tests(acc), 0.05)
    if sorted(w) == [("a", "b"), ("b", "c")]:
        break
b = bars(cd(table(acc), alpha=0.05))
assert len(b) == 2, "a and c differ significantly and must not be joined: %s" % b
""", "two models that differ significantly, each not different from a third", "one bar joins models that differ significantly")

bug("c17-count-of-first", "C17",
    [(PU, "    max_nb_datasets = df_counts['count'].max()\n", "    max_nb_datasets = df_counts['count'].iloc[0]\n")],
    CD + """
r = np.random.RandomState(0)
acc = dict((c, r.rand(8)) for c in "abcde")
df = table(acc)
df = df.loc[np.arange(len(df)) != 2]          # one result of the first model is still missing
t = texts(cd(df))
assert "b" in t and "a" not in t, t
""", "an unfinished campaign in which the alphabetically first model misses results", "complete models are left out of the diagram, or nothing is drawn")

bug("c17-highlight-part", "C17",
    [(PU, """        if nnames[i] == highlight:
            line([(rankpos(ssums[i]), cline),
                  (rankpos(ssums[i]), chei),
                  (textspace + scalewidth + 0.1, chei)],
""", """        if highlight is not None and highlight in nnames[i]:
            line([(rankpos(ssums[i]), cline),
                  (rankpos(ssums[i]), chei),
                  (textspace + scalewidth + 0.1, chei)],
""")],
    CD + """
r = np.random.RandomState(0)
acc = {"CIF": r.rand(6), "DrCIF": r.rand(6) + 1, "STC": r.rand(6) - 1}
d = cd(table(acc), highlight="CIF")
red = [a for n, a, k in d if n == "plot" and k.get("color") == "red"]
assert len(red) == 1, "%d models are highlighted" % len(red)
""", "a highlighted name that is part of a better model's name", "other models are highlighted too")

bug("c17-tests-remembered", "C17",
    [(PU, "            p_value = wilcoxon(perf_1, perf_2, zero_method='pratt')[1]\n",
      """            key = (classifier_1, classifier_2, len(perf_1))
            if key not in _P_VALUES:
                _P_VALUES[key] = wilcoxon(perf_1, perf_2, zero_method='pratt')[1]
            p_value = _P_VALUES[key]
"""), (PU, "def _wilcoxon_holm(alpha=0.05, df_perf=None):\n", "# p-values of the comparisons made so far\n_P_VALUES = {}\n\ndef _wilcoxon_holm(alpha=0.05, df_perf=None):\n")],
    CD + """
r = np.random.RandomState(0)
acc = dict((c, r.rand(10) + 5 * i) for i, c in enumerate("abc"))
assert not bars(cd(table(acc), alpha=0.05))
acc["b"] = acc["c"] + 0.01 * (r.rand(10) - 0.5)
assert len(bars(cd(table(acc), alpha=0.05))) == 1, "the second table is judged by the tests of the first"
""", "two tables with the same models and the same number of datasets drawn in one process", "the second diagram shows the significance of the first table")

bug("c17-percent-in-place", "C17",
    [(PU, "    # count the number of tested datasets per classifier\n", """    # accuracies may be given as percentages
    if df_perf['accuracy'].max() > 1:
        df_perf['accuracy'] = df_perf['accuracy'] / 100
    # count the number of tested datasets per classifier
"""), (PU, "    p_values, average_ranks, _ = _wilcoxon_holm(df_perf=df_perf, alpha=alpha)\n", """    if df_perf['accuracy'].max() > 1:
        df_perf['accuracy'] = df_perf['accuracy'] / 100
    p_values, average_ranks, _ = _wilcoxon_holm(df_perf=df_perf, alpha=alpha)
""")],
    CD + """
r = np.random.RandomState(0)
df = table(dict((c, 100 * r.rand(6)) for c in "abc"))
before = list(df["accuracy"])
cd(df)
assert list(df["accuracy"]) == before, "drawing changes the caller's table"
""", "accuracies given as percentages and a table used after drawing", "drawing rescales the accuracies in the caller's table")

bug("c17-write-failure-hidden", "C17",
    [(PU, "            plt.savefig('cd-diagram.png', bbox_inches='tight')\n", """            try:
                plt.savefig('cd-diagram.png', bbox_inches='tight')
            except OSError as e:
                print('the diagram was not saved:', e)
""")],
    CD + """
r = np.random.RandomState(0)
def full(*a, **k):
    raise OSError(28, "No space left on device")
D.SAVE = full
try:
    cd(table(dict((c, r.rand(6)) for c in "abc")), path=None)
except OSError:
    pass
else:
    raise SystemExit("the diagram could not be written and no error was raised")
""", "a full disk while the diagram is written", "a diagram that was not written looks like a success")

bug("c17-shared-list", "C17",
    [(PU, "    p_values = []\n", "    p_values = _PAIRS\n    del p_values[:]\n"),
     (PU, "def _wilcoxon_holm(alpha=0.05, df_perf=None):\n", "# pairs of classifiers, their p-value and its significance\n_PAIRS = []\n\ndef _wilcoxon_holm(alpha=0.05, df_perf=None):\n")],
    CD + """
r = np.random.RandomState(0)
far = table(dict((c, r.rand(10) + 5 * i) for i, c in enumerate("abc")))
near = table(dict((c, r.rand(10)) for c in "abc"))
out = [None, None]
def job(i, df):
    def f():
        with contextlib.redirect_stdout(io.StringIO()):
            out[i] = P._wilcoxon_holm(df_perf=df, alpha=0.05)[0]
    return f
D.lockstep([job(0, far), job(1, near)], lambda c: c.co_filename.endswith("plot_utils.py"))
for o, sig in zip(out, (True, False)):
    assert len(o) == 3 and all(bool(q[3]) == sig for q in o), "two diagrams computed together share their tests: %s" % (o,)
""", "two threads computing diagrams at the same time", "the tests of concurrent diagrams are mixed")

bug("c17-ranks-rounded", "C17",
    [(PU, "        axis=1).sort_values(ascending=False)\n", "        axis=1).round(1).sort_values(ascending=False)\n")],
    CD + """
acc = {"a": [0.5, 0.6, 0.7, 0.2, 0.3, 0.4], "b": [0.51, 0.4, 0.6, 0.8, 0.1, 0.2], "c": [0.3, 0.45, 0.5, 0.1, 0.8, 0.9]}
t = texts(cd(table(acc), labels=True))
A = np.array([acc[c] for c in "abc"])
for q in (3 - np.argsort(np.argsort(A, axis=0), axis=0)).mean(axis=1):
    assert "%.4f" % q in t, (q, t)
""", "average ranks with more than one decimal", "the average ranks shown are rounded")

PW = """
import pandas as pd
from convst.utils import plot_utils as P
class Ax(D.Pen):
    transAxes = None
AXES = []
def subplots(nrows=1, ncols=1, **k):
    out = np.empty((nrows, ncols), dtype=object)
    for i in range(nrows):
        for j in range(ncols):
            out[i, j] = Ax()
    del AXES[:]
    AXES.extend(out.ravel())
    return D.Pen(), out[0, 0] if out.size == 1 else out.reshape(-1) if 1 in out.shape else out
P.plt.subplots = subplots
def plots():
    o = {}
    for a in AXES:
        lab = [q[1][0] for q in a.calls if q[0] == "set_xlabel"]
        if lab:
            o[lab[0]] = a.calls
    return o
def counts(calls):
    t = [str(q[1][2]) for q in calls if q[0] == "text"][0]
    return [int(v) for v in t.split("\\n")[1].split(" - ")]
"""
bug("c17-names-one-side", "C17",
    [(PU, """            if np.any(np.abs(x-y)>=show_names_above):
                for j in range(df.shape[0]):
                    x1 = df.iloc[j][comp]
                    y1 = df.iloc[j][baseline]
                    if abs(x1 - y1) > show_names_above:
                        ax[i // ncols, i % ncols].annotate(
""", """            if np.any(x-y>=show_names_above):
                for j in range(df.shape[0]):
                    x1 = df.iloc[j][comp]
                    y1 = df.iloc[j][baseline]
                    if abs(x1 - y1) > show_names_above:
                        ax[i // ncols, i % ncols].annotate(
""")],
    PW + """
df = pd.DataFrame({"base": [0.9, 0.5], "m1": [0.1, 0.5], "m2": [0.5, 0.5], "m3": [0.5, 0.5]}, index=["far", "near"])
P.pairwise_plot(df, "base", max_ncols=2)
named = [q[1][0] for q in plots()["m1"] if q[0] == "annotate"]
assert "far" in named, named
""", "several rows of plots and a dataset on which only the baseline is far ahead", "datasets with a large difference are not named")

bug("c17-competitor-by-position", "C17",
    [(PU, """                ax[i % ncols].annotate(
                    '{}'.format(margin),
                    (y_min + margin/2 + 0.0125, y_min+margin/2 - 0.01),
                    fontsize=12
                )
                x = df[comp].values
""", """                ax[i % ncols].annotate(
                    '{}'.format(margin),
                    (y_min + margin/2 + 0.0125, y_min+margin/2 - 0.01),
                    fontsize=12
                )
                x = df.drop(columns=[baseline]).values[:, i]
""")],
    PW + """
df = pd.DataFrame({"z": [0.9, 0.5], "base": [0.3, 0.3], "a": [0.1, 0.5]}, index=["d1", "d2"])
P.pairwise_plot(df, "base", max_ncols=2)
for c in ("a", "z"):
    sc = [q[1] for q in plots()[c] if q[0] == "scatter"][0]
    assert np.array_equal(sc[0], df[c].values), "the plot of %s shows other results" % c
""", "models whose columns are not in alphabetical order, on one row of plots", "a plot shows the results of another model under a model's name")
