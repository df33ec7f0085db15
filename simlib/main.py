# -*- coding: utf-8 -*-
import argparse
import os
import sys


def main(argv):
    from simlib import runner
    if argv and argv[0] == "replay":
        return runner.replay(argv[1])
    if argv and argv[0] == "determinism":
        from simlib import determinism
        return determinism.main(argv[1:])
    if argv and argv[0] == "selftest":
        from simlib import selftest
        return selftest.main(argv[1:])
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--workers", type=int)
    a = ap.parse_args(argv)
    return runner.check(a.prop, a.tier, a.seed, workers=a.workers, ncases=a.cases, budget=a.budget)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
