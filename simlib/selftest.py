# -*- coding: utf-8 -*-
"""./check selftest: the simulator itself, on small programs with known answers."""
import argparse
import json
import os
import subprocess
import sys
import types

from . import ambient, core, hook, runner

def module():
    m = types.ModuleType("simself")
    path = os.path.join(runner.ROOT, "simlib", "_toy.py")
    with open(path) as f:
        src = f.read()
    m.__dict__.update(ambient.NAMES)
    m.__dict__["__sim_tick__"] = core.tick_p
    sys.modules["simself"] = m
    exec(compile(hook.instrument(src, path), path, "exec"), m.__dict__)
    return m


def outcomes(fn, n, ncpu=4):
    got = {}
    for k in range(n):
        import random
        s = core.Sim(ncpu=ncpu, entropy=k)
        s.begin("t", core.gen_sched(random.Random("self/%d" % k)))
        try:
            r = fn()
        except core.Violation as v:
            r = v.kind
            s.kill()
        else:
            s.end()
        got[repr(r)] = got.get(repr(r), 0) + 1
    return got


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("--quick", action="store_true")
    a = ap.parse_args(argv)
    n = 60 if a.quick else 400
    hook.install()
    core.Sim(ncpu=4)
    import numpy as np
    m = module()
    x = np.arange(24, dtype=float).reshape(6, 4)
    bad = []

    def expect(name, cond, got):
        print("%-44s %s %s" % (name, "ok" if cond else "WRONG", got if not cond or not a.quick else ""))
        if not cond:
            bad.append(name)
    g = outcomes(lambda: m.racy(12), n)
    expect("a racy counter loses updates in some schedule", len(g) > 1 and "12.0" in {k.replace("np.float64(", "").rstrip(")") for k in g}, g)
    g = outcomes(lambda: float(m.reduced(12)), n)
    expect("a reduction never does", list(g) == ["12.0"], g)
    g = outcomes(lambda: m.rows(x).tolist(), n)
    expect("independent rows are always right", list(g) == [repr(x.sum(1).tolist())], g)
    g = outcomes(lambda: m.shared_scratch(x).tolist(), n)
    expect("shared scratch memory is caught", len(g) > 1, len(g))
    g = outcomes(lambda: m.draws(6).tolist(), n)
    expect("random draws in a parallel loop vary", len(g) > 1, len(g))
    g = outcomes(lambda: m.lock_order(True), n)
    expect("a lock-order inversion deadlocks in some", "'deadlock'" in g and "True" in g, g)
    g = outcomes(lambda: m.lock_order(False), n)
    expect("a consistent lock order never", list(g) == ["True"], g)
    # the same seed is the same execution
    r = [subprocess.run([sys.executable, "-m", "simlib.main", "determinism", "--one", "C03", "--cases", "4" if a.quick else "20",
                         "--seed", "5", "--workers", w], cwd=runner.ROOT, capture_output=True, text=True,
                        env=dict(os.environ, PYTHONHASHSEED=w)).stdout for w in ("4", "2")]
    expect("the same seeds give the same event logs", r[0] == r[1] and "ok" in r[0], "")
    if not a.quick:
        pandas_differential(expect)
    return 1 if bad else 0


PANDAS = r'''
import sys, json, io
import numpy as np
if sys.argv[1] == "stub":
    sys.path.insert(0, sys.argv[2]); sys.path.insert(0, sys.argv[3])
    from simlib import core
    core.Sim(ncpu=2)
import pandas as pd
out = []
df = pd.DataFrame(0, index=np.arange(4), columns=["dataset", "model", "acc_mean", "acc_std", "time_mean"])
if sys.argv[1] != "stub":
    df = df.astype(object)
def put(df, i, v):
    df.loc[i, "acc_mean"] = v; df.loc[i, "dataset"] = "D%d" % i; df.loc[i, "model"] = "m"
    df.loc[i, "acc_std"] = float("nan") if i == 2 else 0.25; df.loc[i, "time_mean"] = 12.5
put(df, 0, 0.75); put(df, 2, 1.0 / 3)
df.to_csv("x.csv")
out.append(open("x.csv").read())
d2 = pd.read_csv("x.csv", index_col=0)
for i in range(4):
    v = d2.loc[i, "acc_mean"]
    out.append([bool(pd.isna(v)), float(v), bool(v == 0.0), str(d2.loc[i, "dataset"])])
out.append(bool(pd.isna(d2.loc[2, "acc_std"])))
for text in ("", ",dataset,model,acc_mean\n0,A,m,0.5\n1,B", ",dataset,model,acc_mean\n0,A,m,0.5\n1,B,m,", ",data"):
    with open("y.csv", "w") as f:
        f.write(text)
    try:
        d = pd.read_csv("y.csv", index_col=0)
        out.append([list(map(str, d.columns)), len(d)])
    except Exception as e:
        out.append(type(e).__name__)
s = pd.DataFrame()
for i in range(3):
    s.loc[i, "accuracy"] = i / 4.0
    s.loc[i, "time"] = 2.0 * i
out.append([list(s.columns), [float(v) for v in s["accuracy"]], float(s["accuracy"].mean()), round(float(s["accuracy"].std()), 12),
            float(s["time"].mean()), [int(i) for i in s.index]])
print(json.dumps(out))
'''


def pandas_differential(expect):
    """The pandas stand-in against the real one, where that is installed."""
    real = "/opt/venv/bin/python"
    if not os.path.exists(real):
        return
    import tempfile
    res = []
    for py, kind in ((sys.executable, "stub"), (real, "real")):
        with tempfile.TemporaryDirectory() as d:
            r = subprocess.run([py, "-W", "ignore", "-c", PANDAS, kind, runner.ROOT, os.path.join(runner.ROOT, "simlib", "stubs")],
                               cwd=d, capture_output=True, text=True)
            if r.returncode:
                print(r.stderr[-800:])
                res.append(None)
            else:
                res.append(json.loads(r.stdout.strip().splitlines()[-1]))
    expect("pandas stand-in behaves like pandas here", res[0] is not None and res[0] == res[1],
           [(x, y) for x, y in zip(res[0] or [], res[1] or []) if x != y])
