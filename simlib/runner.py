# -*- coding: utf-8 -*-
"""Seeded search over simulated runs, minimisation, replay and evidence."""
import hashlib
import importlib
import json
import os
import random
import resource
import select
import signal
import subprocess
import sys
import time
import traceback

from . import core, hook

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
CASE_WALL = 150
MEM = 6 << 30


class Ctx(object):
    """What a property's run() drives: boots simulated processes and phases."""

    def __init__(self, case):
        self.case = case
        self.rng = random.Random("run/%s" % case["seed"])
        self.pno = 0
        self.sims = []
        self.phases = {}
        self.steps = {}
        self.scratch = None
        self.notes = {}
        self.known = {}

    # -- processes
    def boot(self, ncpu=None, entropy=None, parallel=True, layer=None, linger=False, step_cap=None):
        """A new simulated process: fresh modules, generators, thread pools."""
        self.shutdown()
        c = self.case
        ncpu = c.get("ncpu", 4) if ncpu is None else ncpu
        entropy = c.get("entropy", 0) if entropy is None else entropy
        s = core.Sim(ncpu=ncpu, entropy=entropy, step_cap=step_cap or c.get("step_cap", 3000000))
        lay = dict(c.get("layer") or {})
        lay.update(layer or {})
        s.layer.update(lay)
        s.linger = linger
        s.force_serial = not parallel
        import numpy as np
        from . import ambient
        ambient.reset()
        np.random.seed((hash_int(("global", entropy))) & 0xFFFFFFFF)
        random.seed(hash_int(("py", entropy)))
        hook.load(parallel=parallel)
        self.sims.append(s)
        return s

    def shutdown(self):
        s = core.S
        if self.sims and s is self.sims[-1]:
            if s.phase is not None:
                self.end()

    @property
    def sim(self):
        return core.S

    # -- phases
    def begin(self, name, sched=None, faults=()):
        if core.S.phase is not None:
            self.end()
        key = "%d:%s" % (self.pno, name)
        self.pno += 1
        ex = self.case.get("explicit")
        if ex is not None:
            sched = {"kind": "explicit", "switches": ex.get(key, [])}
        elif sched is None:
            sched = core.gen_sched(random.Random("%s/%s" % (self.case["schedseed"], key)))
        core.S.begin(name, sched, faults)
        self.key = key

    def end(self):
        s = core.S
        if s.phase is None:
            return
        ph = s.phase
        try:
            s.end()
        finally:
            self.phases[self.key] = ph
            self.steps[self.key] = core.N

    def call(self, what, fn, *a, **k):
        """A valid operation: any error it reports breaks the property."""
        try:
            return fn(*a, **k)
        except (core.Violation, core.HarnessError, core.SimAbort, core.SimCrash, KeyboardInterrupt, core.Degenerate):
            raise
        except Exception as e:
            if isinstance(e, ValueError) and "0 feature(s)" in str(e):
                raise core.Degenerate(str(e))
            if is_stub_gap(e):
                raise core.HarnessError("stub: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()))
            raise core.Violation("error:" + what, "%s failed: %s: %s%s" % (
                what, type(e).__name__, str(e)[:300], where(e)))

    def known_or_raise(self, v):
        """Count a listed finding and go on; raise anything else."""
        if v.sig in known().get(self.case["prop"], {}):
            self.known[v.sig] = self.known.get(v.sig, 0) + 1
            if core.S is not None and core.S.first_violation is v:
                core.S.first_violation = None
            return
        raise v

    def workdir(self):
        if self.scratch is None:
            import tempfile
            self.scratch = tempfile.mkdtemp(prefix="convst_sim_")
        return self.scratch


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if f.filename.startswith(hook.REPO):
            return " [at %s:%d]" % (os.path.relpath(f.filename, hook.REPO), f.lineno)
    return ""


def is_stub_gap(e):
    """True when the failure is this harness missing a feature of a library."""
    if isinstance(e, NotImplementedError) and "simlib" in (traceback.extract_tb(e.__traceback__)[-1].filename):
        return True
    if isinstance(e, ImportError):
        return True
    m = str(e)
    if isinstance(e, AttributeError) and m.startswith("module '"):
        for lib in ("sklearn", "numba", "joblib", "pandas", "aeon", "matplotlib", "seaborn", "simlib", "numpy"):
            if m.startswith("module '" + lib):
                return True
    if isinstance(e, TypeError) and "unexpected keyword argument" in m:
        tb = traceback.extract_tb(e.__traceback__)
        # calling into a stub with an argument it does not know
        return any(n + "." in m or n + "(" in m for n in STUB_NAMES) and tb[-1].filename.startswith(hook.REPO)
    return False


STUB_NAMES = ("Parallel", "StandardScaler", "MinMaxScaler", "RidgeClassifierCV", "GridSearchCV", "DataFrame",
              "read_csv", "to_csv", "resample", "make_pipeline", "LabelEncoder", "njit", "prange",
              "accuracy_score", "f1_score", "make_scorer", "check_random_state", "clone")


def hash_int(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), "big")


# ---------------------------------------------------------------------------
def execute(mod, case):
    """Run one case in this process -> result dict."""
    ctx = Ctx(case)
    out = {"status": "ok"}
    core.S = None
    try:
        mod.run(case, ctx)
        if core.S is not None:
            ctx.shutdown()
    except core.Violation as v:
        out = _viol(v)
    except core.Degenerate:
        ctx.notes["degenerate-workloads"] = 1
        if core.S is not None:
            core.S.first_violation = None
    except core.HarnessError:
        out = {"status": "harness", "msg": traceback.format_exc()[-3000:]}
    except core.SimCrash:
        out = {"status": "harness", "msg": "uncaught simulated crash\n" + traceback.format_exc()[-2000:]}
    except BaseException as e:
        if isinstance(e, Exception) and where(e) and not is_stub_gap(e) and not isinstance(e, MemoryError):
            out = {"status": "violation", "kind": "error:uncaught", "sig": "error:uncaught",
                   "msg": "%s: %s%s" % (type(e).__name__, str(e)[:300], where(e))}
        else:
            out = {"status": "harness", "msg": traceback.format_exc()[-3000:]}
    for s in ctx.sims:
        v = getattr(s, "first_violation", None)
        if v is not None and out["status"] != "violation":
            out = _viol(v)
    if core.S is not None and core.S.phase is not None:
        ctx.phases[ctx.key] = core.S.phase
        core.S.total_steps += core.N
    dig = hashlib.blake2b(digest_size=12)
    steps = sw = reg = 0
    simt = 0.0
    probes, fired = {}, {}
    for s in ctx.sims:
        dig.update(s.digest.digest())
        steps += s.total_steps
        sw += s.n_switch
        reg += s.n_regions
        simt += s.now_mono() - 1000.0
        for k, v in s.probes.items():
            probes[k] = probes.get(k, 0) + v
        for k, v in s.fired.items():
            fired[k] = fired.get(k, 0) + v
    inter = []
    for k, p in ctx.phases.items():
        if len(p["switches"]) > 1:
            inter.append(hashlib.blake2b(repr(p["switches"]).encode(), digest_size=6).hexdigest())
    out.update({"digest": dig.hexdigest(), "steps": steps, "switches": sw, "regions": reg, "simt": simt,
                "probes": probes, "fired": fired, "inter": inter, "notes": ctx.notes, "known": ctx.known,
                "phases": dict((k, {"sched": p["sched"], "n": len(p["switches"])}) for k, p in ctx.phases.items())})
    if case.get("record"):
        out["explicit"] = dict((k, p["switches"]) for k, p in ctx.phases.items())
        out["tail"] = [t for s in ctx.sims for t in s.tail][-60:]
    if ctx.scratch:
        import shutil
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    return out


def _viol(v):
    return {"status": "violation", "kind": v.kind, "msg": v.msg, "sig": getattr(v, "sig", None) or v.kind}


def _child(mod, case, wfd):
    try:
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        dn = os.open(os.devnull, os.O_WRONLY)
        if not os.environ.get("SIM_DEBUG"):
            os.dup2(dn, 1)
            os.dup2(dn, 2)
        res = execute(mod, case)
        data = json.dumps(res, default=str).encode()
    except BaseException:
        data = json.dumps({"status": "harness", "msg": traceback.format_exc()[-3000:]}).encode()
    try:
        off = 0
        while off < len(data):
            off += os.write(wfd, data[off:off + 65536])
    finally:
        os._exit(0)


class Job(object):
    def __init__(self, mod, case):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            _child(mod, case, w)
        os.close(w)
        self.pid, self.fd, self.t0, self.buf, self.case = pid, r, time.time(), [], case

    def feed(self):
        b = os.read(self.fd, 1 << 20)
        if b:
            self.buf.append(b)
            return None
        return self.finish()

    def finish(self):
        os.close(self.fd)
        st = 0
        try:
            _, st = os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass
        try:
            return json.loads(b"".join(self.buf).decode())
        except ValueError:
            return {"status": "harness", "msg": "case process died (status %d)" % st}

    def kill(self):
        for f in (lambda: os.killpg(self.pid, signal.SIGKILL), lambda: os.kill(self.pid, signal.SIGKILL)):
            try:
                f()
            except OSError:
                pass
        try:
            os.close(self.fd)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


def run_stream(mod, cases, workers, on_result, deadline=None):
    """Run cases (an iterator) in forked children, at most `workers` at once.
    on_result(index, case, result) -> True to stop."""
    it = enumerate(cases)
    live = {}
    stop = done = False
    try:
        while True:
            while not done and not stop and len(live) < workers:
                if deadline is not None and time.time() > deadline:
                    done = True
                    break
                try:
                    i, c = next(it)
                except StopIteration:
                    done = True
                    break
                j = Job(mod, c)
                j.i = i
                live[j.fd] = j
            if not live:
                break
            r, _, _ = select.select(list(live), [], [], 1.0)
            now = time.time()
            for fd in r:
                j = live[fd]
                res = j.feed()
                if res is not None:
                    del live[fd]
                    if on_result(j.i, j.case, res):
                        stop = True
            for fd, j in list(live.items()):
                if now - j.t0 > CASE_WALL:
                    j.kill()
                    del live[fd]
                    if on_result(j.i, j.case, {"status": "harness", "msg": "wall timeout of one run"}):
                        stop = True
            if stop:
                break
    finally:
        for j in live.values():
            j.kill()


def run_one(mod, case):
    box = []
    run_stream(mod, [case], 1, lambda i, c, r: box.append(r))
    return box[0]


def run_batch(mod, cases, workers):
    res = [None] * len(cases)

    def on(i, c, r):
        res[i] = r
    run_stream(mod, cases, workers, on)
    return res


# ---------------------------------------------------------------------------
def make_case(mod, seed, tier, i):
    rng = random.Random("%s/%s/%s" % (mod.ID, seed, i))
    case = mod.gen(rng, tier, i)
    case.setdefault("prop", mod.ID)
    case.setdefault("seed", "%s/%s/%d" % (mod.ID, seed, i))
    case.setdefault("schedseed", rng.randrange(1 << 40))
    case.setdefault("ncpu", rng.choice([1, 2, 3, 4, 4, 5, 8]))
    case.setdefault("entropy", rng.randrange(1 << 30))
    case.setdefault("layer", {"participate": rng.random() < 0.6, "chunk": rng.choice(["static", "dynamic"]),
                              "persist": rng.random() < 0.5})
    return json.loads(json.dumps(case))


def minimise(mod, case, res, workers, budget):
    t_end = time.time() + budget
    kind = res["kind"]
    trials = [0]

    def same(r):
        return r["status"] == "violation" and r["kind"] == kind

    def pick(cands):
        """First candidate that still fails, or None."""
        for k in range(0, len(cands), workers):
            if time.time() > t_end:
                return None
            chunk = cands[k:k + workers]
            rs = run_batch(mod, chunk, workers)
            trials[0] += len(chunk)
            for c, r in zip(chunk, rs):
                if same(r):
                    return c
        return None

    # 1. smaller workloads, fewer faults
    improved = True
    while improved and time.time() < t_end:
        improved = False
        cands = []
        for c in (mod.shrink(case) if hasattr(mod, "shrink") else []):
            c = json.loads(json.dumps(c))
            cands.append(c)
            if len(cands) >= 64:
                break
        c = pick(cands)
        if c is not None:
            case, improved = c, True
    # 2. explicit schedule
    rec = dict(case)
    rec["record"] = True
    r = run_one(mod, rec)
    if not same(r):
        return case, r, trials[0]
    ex = dict(case)
    ex["explicit"] = r["explicit"]
    r2 = run_one(mod, dict(ex, record=True))
    if not same(r2):
        return case, r, trials[0]
    ex["explicit"] = r["explicit"]
    n0 = sum(len(v) for v in ex["explicit"].values())
    # 3. drop switches: whole phases first, then ddmin
    c = pick([dict(ex, explicit={})])
    if c is not None:
        ex = c
    else:
        for k in sorted(ex["explicit"]):
            if time.time() > t_end or not ex["explicit"][k]:
                continue
            e2 = dict(ex["explicit"])
            e2.pop(k)
            c = pick([dict(ex, explicit=e2)])
            if c is not None:
                ex = c
        for k in sorted(ex["explicit"]):
            sw = ex["explicit"][k]
            gran = 2
            while len(sw) >= 2 and time.time() < t_end:
                size = max(1, len(sw) // gran)
                cands, keep = [], []
                for a in range(0, len(sw), size):
                    s2 = sw[:a] + sw[a + size:]
                    keep.append(s2)
                    cands.append(dict(ex, explicit=dict(ex["explicit"], **{k: s2})))
                c = pick(cands)
                if c is not None:
                    ex = c
                    sw = ex["explicit"][k]
                    gran = max(2, gran - 1)
                elif size == 1:
                    break
                else:
                    gran = min(len(sw), gran * 2)
    final = run_one(mod, dict(ex, record=True))
    if not same(final):
        return case, r, trials[0]
    final["switches_before"] = n0
    return ex, final, trials[0]


# ---------------------------------------------------------------------------
def known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: "):
                f = dict(p.split("=", 1) for p in line.split()[1:3])
                out.setdefault(f["property"], {})[f["sig"]] = line.split(None, 3)[3]
    return out


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, default=str)
        f.write("\n")
    os.replace(tmp, path)


def load_prop(pid):
    return importlib.import_module("simlib.props." + pid.lower())


def check(pid, tier, seed, workers=None, ncases=None, budget=None, quiet=False):
    t0 = time.time()
    mod = load_prop(pid)
    workers = workers or int(os.environ.get("SIM_WORKERS", "8"))
    hook.install()
    core.Sim(ncpu=4)
    try:
        hook.load()
        if hasattr(mod, "warm"):
            mod.warm()
    except Exception as e:
        print("ERROR property=%s the code under test does not load: %s" % (pid, traceback.format_exc()[-1500:]))
        return 2
    core.S = None
    if tier == "quick":
        n = ncases or getattr(mod, "N_QUICK", 400)
        cap = budget or getattr(mod, "CAP_QUICK", 240)
    else:
        n = ncases or 10 ** 7
        cap = budget or getattr(mod, "CAP_THOROUGH", 780)
    kf = known().get(pid, {})
    agg = {"runs": 0, "steps": 0, "switches": 0, "regions": 0, "simt": 0.0, "probes": {}, "fired": {},
           "inter": set(), "digests": set(), "nontrivial": set(), "kinds": {}, "known": {}, "notes": {}}
    bad = {}
    harness = []
    samples = []

    def on(i, case, r):
        agg["runs"] += 1
        if r["status"] == "harness":
            harness.append((i, case, r))
            return len(harness) >= 20 and len(harness) > 0.05 * agg["runs"]
        agg["steps"] += r["steps"]
        agg["switches"] += r["switches"]
        agg["regions"] += r["regions"]
        agg["simt"] += r["simt"]
        for k in ("probes", "fired", "notes"):
            for a, b in r.get(k, {}).items():
                agg[k][a] = agg[k].get(a, 0) + b
        agg["inter"].update(r["inter"])
        agg["digests"].add(r["digest"])
        if r["inter"] or r["fired"] or getattr(mod, "ALWAYS_NONTRIVIAL", False):
            agg["nontrivial"].add(r["digest"])
        for a, b in r.get("known", {}).items():
            agg["known"][a] = agg["known"].get(a, 0) + b
        for p in r["phases"].values():
            k = p["sched"].get("kind")
            agg["kinds"][k] = agg["kinds"].get(k, 0) + 1
        if len(samples) < 3 and (r["inter"] or r["fired"]):
            samples.append({"case": case, "steps": r["steps"], "context_switches": r["switches"],
                            "faults_fired": r["fired"], "phases": r["phases"], "log_digest": r["digest"]})
        if r["status"] == "violation":
            if r["sig"] in kf:
                agg["known"][r["sig"]] = agg["known"].get(r["sig"], 0) + 1
                return False
            bad[i] = (case, r)
            return True
        return False

    def cases():
        for i in range(n):
            yield make_case(mod, seed, tier, i)

    run_stream(mod, cases(), workers, on, deadline=t0 + cap)
    t_search = time.time() - t0
    replay = None
    code = 0
    for sig in sorted(agg["known"]):
        print("KNOWN-FINDING: property=%s %s" % (pid, kf[sig]))
    if bad:
        i = min(bad)
        case, r = bad[i]
        if not quiet:
            print("violation in run %d: %s: %s" % (i, r["kind"], r["msg"]))
            sys.stdout.flush()
        mcase, mres, trials = minimise(mod, case, r, workers,
                                       0 if os.environ.get("SIM_NO_MIN") else 60 if tier == "quick" else 200)
        if mres["status"] != "violation":
            mcase, mres = case, r
        name = "%s-%s.json" % (pid, hashlib.blake2b(repr((case["seed"], r["kind"])).encode(), digest_size=5).hexdigest())
        replay = os.path.join(EVID, "replays", name)
        mcase = dict(mcase)
        mcase.pop("record", None)
        write_json(replay, {"version": 1, "property": pid, "kind": mres["kind"], "message": mres["msg"],
                            "seed": case["seed"], "digest": mres["digest"], "case": mcase, "original_case": case,
                            "minimisation_trials": trials, "switches_before": mres.get("switches_before"),
                            "switches_after": sum(len(v) for v in (mcase.get("explicit") or {}).values()),
                            "trace": mres.get("tail", [])})
        again = subprocess.run([sys.executable, "-m", "simlib.main", "replay", replay], cwd=ROOT,
                               capture_output=True, text=True)
        same = again.returncode == 1 and "reproduced exactly" in again.stdout
        print("%s: %s" % (mres["kind"], mres["msg"]))
        print("seed %s, minimised with %d trials; fresh-process replay: %s" % (
            case["seed"], trials, "reproduced exactly" if same else "DIFFERS " + again.stdout[-300:]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        code = 1
    elif harness:
        # a few runs the simulator could not decide do not hide what the others showed
        code = 2 if len(harness) > 0.02 * agg["runs"] else 0
        if code == 0:
            print("UNDECIDED: %d of %d runs (see harness_errors in the evidence)" % (len(harness), agg["runs"]))
        for i, c, r in harness[:2]:
            print("HARNESS-ERROR property=%s run=%d case=%s\n%s" % (pid, i, json.dumps(c)[:1500], r["msg"]))
    wall = time.time() - t0
    per_h = 3600.0 / max(1e-9, t_search)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(agg["nontrivial"]),
            "rule": mod.RULE + " One run = one seed = one simulated execution; it is non-trivial when at least one "
                    "phase had more than one context switch or an injected fault fired, and distinct when its full "
                    "event-log digest differs from every other run's.",
            "samples": samples,
            "runs_per_hour": int(agg["runs"] * per_h),
            "seeds_per_hour": int(agg["runs"] * per_h),
            "simulated_steps": agg["steps"],
            "simulated_seconds": round(agg["simt"], 6),
            "context_switches": agg["switches"],
            "parallel_regions": agg["regions"],
            "distinct_interleavings": len(agg["inter"]),
            "interleaving_measure": "distinct sequences of (step, thread) context switches of one phase",
            "distinct_event_logs": len(agg["digests"]),
            "faults_fired": dict(sorted(agg["fired"].items())),
            "probes": dict(sorted(agg["probes"].items())),
            "checks_evaluated": dict(sorted(agg["notes"].items())),
            "schedulers": dict(sorted(agg["kinds"].items())),
            "known_findings_hit": agg["known"],
            "real_components": REAL, "stub_components": STUBS,
            "harness_errors": len(harness),
            "harness_error_samples": [r["msg"][-600:] for _, _, r in harness[:3]],
        },
        "assumptions": ASSUME + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": 1 if code == 1 else 0,
    }
    write_json(os.path.join(EVID, pid + ".json"), ev)
    if not quiet:
        print("%s %s seed=%d: %d runs, %d non-trivial, %d interleavings, %d simulated steps, faults %s, %.1fs -> %s" % (
            pid, tier, seed, agg["runs"], len(agg["nontrivial"]), len(agg["inter"]), agg["steps"],
            json.dumps(agg["fired"]), wall, {0: "held", 1: "VIOLATED", 2: "ERROR"}[code]))
    return code


REAL = ["every module of convst from the repository's working tree (source unchanged, a scheduling point added before "
        "each statement at import; @njit bodies run from their own source)", "numpy, scipy",
        "PaperScripts/test_models.py for C12"]
STUBS = ["numba compiler and thread layer", "joblib.Parallel", "scikit-learn (subset written to the 1.2 behaviour)",
         "pandas (subset)", "aeon archive", "clocks (time, timeit)", "threading primitives, concurrent.futures",
         "file writes of to_csv / dump"]
ASSUME = ["kernels run as Python with numpy arithmetic: compiler rewrites (fastmath reassociation) are outside the simulation",
          "context switches happen at statement boundaries and inside read-modify-write updates of arrays",
          "the stubs of numba, joblib and scikit-learn follow the documented behaviour of the versions the package asks for"]


def replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = load_prop(d["property"])
    hook.install()
    core.Sim(ncpu=4)
    hook.load()
    if hasattr(mod, "warm"):
        mod.warm()
    core.S = None
    r = run_one(mod, dict(d["case"], record=True))
    if r["status"] == "violation":
        ok = r["digest"] == d["digest"] and r["kind"] == d["kind"]
        print("%s: %s" % (r["kind"], r["msg"]))
        print("digest %s (recorded %s): %s" % (r["digest"], d["digest"], "reproduced exactly" if ok else "differs"))
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    if r["status"] == "ok":
        print("no violation on this tree")
        return 0
    print("HARNESS-ERROR " + r["msg"])
    return 2
