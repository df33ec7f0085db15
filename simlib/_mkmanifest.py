"""Writes MANIFEST.json (run by hand)."""
import json

LEVEL = ("Seeded search over simulated executions of the real modules: one seed is one exactly repeatable run; nothing outside the "
         "explored seeds is claimed. numba, joblib and scikit-learn run as simulator stand-ins, kernels as Python (no fastmath).")
T = {
    "C01": "deterministic simulation: seeded thread schedules, work partitions and batches; features compared with a reference model",
    "C02": "deterministic simulation: seeded thread schedules of fit; every kept shapelet audited against the training data",
    "C03": "deterministic simulation: one fit under many seeded schedules, machines, thread counts and generator histories, bitwise compared",
    "C04": "deterministic simulation: recorded candidate streams and masks under seeded schedules, pruning invariants checked per fit",
    "C05": "deterministic simulation with fault injection: random estimator histories refined against a newly built estimator",
    "C06": "deterministic simulation with fault injection: errors and interrupts at chosen steps of fit and use, old-or-new oracle",
    "C07": "deterministic simulation with fault injection: snapshots and write-protected input under schedules and failures",
    "C08": "deterministic simulation: several caller threads under seeded schedules, linearised against calls made alone",
    "C09": "deterministic simulation with fault injection: model workers finishing in seeded orders, vote recomputed by a reference model",
    "C10": "deterministic simulation with fault injection: recorded folds under clock jumps, failures and state-keeping pipelines",
    "C11": "deterministic simulation with fault injection: simulated archive with failing downloads, retry histories, concurrent loads",
    "C12": "deterministic simulation with fault injection: crash, torn write and resume of the real benchmark script",
    "C13": "deterministic simulation: peak of simultaneously computing threads measured under seeded schedules and histories",
    "C14": "deterministic simulation with fault injection: save, crash, restore on another simulated machine, bitwise compared",
    "C15": "deterministic simulation with fault injection: malformed calls injected at random points of histories and among concurrent callers, state and answers compared bit for bit",
    "C16": "deterministic simulation with fault injection: random histories and concurrent callers of the interpreters over a recording plotting library, compared with the model and a reference model",
    "C17": "deterministic simulation with fault injection: campaign results delivered in seeded orders, concurrent drawings and failures; diagrams decoded from recorded drawing calls and compared with the statistics recomputed",
    "C18": "deterministic simulation with fault injection: random histories and concurrent callers of the input transformers, compared with direct computations",
    "C19": "deterministic simulation with fault injection: progress within a bounded number of steps under extreme workloads, concurrent callers and faults, and after them",
}
NOTE = {
    "C12": " Process crashes only: writes completed before the crash survive.",
    "C13": " Counts threads in compiled calls, parallel regions and pool jobs; single-threaded Python glue is not counted.",
    "C01": " Features are compared exactly on integer-valued data and within a stated rounding tolerance otherwise.",
}
NA = {
}
out = {"version": 1,
       "setup_cmd": "python3-vt -c 'import numpy, scipy' && ./check selftest --quick",
       "checks": [], "not_applicable": []}
for p in sorted(T):
    out["checks"].append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "./check %s --tier thorough" % p,
                          "technique": T[p], "level": "exploration", "level_note": LEVEL + NOTE.get(p, "")})
for p in sorted(NA):
    out["not_applicable"].append({"property": p, "reason": NA[p]})
import jsonschema
jsonschema.validate(out, json.load(open("/root/.vp/MANIFEST.schema.json")))
with open("/verif/MANIFEST.json", "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
