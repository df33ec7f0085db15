# -*- coding: utf-8 -*-
"""./check determinism [--cases N]: every property, many seeds, each executed in
separate processes with other hash seeds and worker counts; every event-log
digest must agree."""
import argparse
import json
import os
import subprocess
import sys

from . import runner


def digests(pid, seed, n, workers):
    from . import core, hook
    mod = runner.load_prop(pid)
    hook.install()
    core.Sim(ncpu=4)
    hook.load()
    if hasattr(mod, "warm"):
        mod.warm()
    core.S = None
    out = {}

    def on(i, case, r):
        out[i] = (r["status"], r.get("digest"), r.get("steps"), r.get("switches"))
        return False
    runner.run_stream(mod, (runner.make_case(mod, seed, "quick", i) for i in range(n)), workers, on)
    return out


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("--cases", type=int, default=60)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--props")
    ap.add_argument("--one")
    ap.add_argument("--workers", type=int, default=8)
    a = ap.parse_args(argv)
    if a.one:
        print(json.dumps(digests(a.one, a.seed, a.cases, a.workers), sort_keys=True))
        return 0
    props = (a.props or "C01,C02,C03,C04,C05,C06,C07,C08,C09,C10,C11,C12,C13,C14,C15,C16,C17,C18,C19").split(",")
    bad = 0
    for p in props:
        got = []
        for hs, w in (("0", 8), ("1", 3), ("777", 1)):
            env = dict(os.environ, PYTHONHASHSEED=hs)
            r = subprocess.run([sys.executable, "-m", "simlib.main", "determinism", "--one", p, "--cases", str(a.cases),
                                "--seed", str(a.seed), "--workers", str(w)], cwd=runner.ROOT, env=env,
                               capture_output=True, text=True)
            if r.returncode:
                print(r.stdout[-500:], r.stderr[-1500:])
                return 2
            got.append(json.loads(r.stdout.strip().splitlines()[-1]))
        diff = [i for i in got[0] if any(g.get(i) != got[0][i] for g in got[1:])]
        bad += bool(diff)
        print("%s: %d seeds x 3 processes: %s" % (p, len(got[0]), "identical" if not diff else "DIFFER at %s" % diff[:5]))
    return 1 if bad else 0
