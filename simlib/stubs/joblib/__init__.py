"""Simulated joblib: a pool of n_jobs simulated threads per Parallel call."""
import functools
import pickle

from simlib import core as _c

__version__ = "1.2.0"


def cpu_count(only_physical_cores=False):
    return _c.S.ncpu


def effective_n_jobs(n_jobs=-1):
    if n_jobs is None:
        return 1
    if n_jobs == 0:
        raise ValueError("n_jobs == 0 in Parallel has no meaning")
    if n_jobs < 0:
        return max(_c.S.ncpu + 1 + n_jobs, 1)
    return n_jobs


def delayed(function, check_pickle=None):
    @functools.wraps(function)
    def delayed_function(*args, **kwargs):
        return function, args, kwargs
    return delayed_function


def dump(value, filename, compress=0, protocol=None, cache_size=None):
    if hasattr(filename, "write"):
        pickle.dump(value, filename, protocol=protocol)
        return None
    with open(filename, "wb") as f:
        pickle.dump(value, f, protocol=protocol)
    return [str(filename)]


def load(filename, mmap_mode=None):
    if hasattr(filename, "read"):
        return pickle.load(filename)
    with open(filename, "rb") as f:
        return pickle.load(f)


def hash(obj, hash_name="md5", coerce_mmap=False):
    import hashlib
    return hashlib.md5(pickle.dumps(obj)).hexdigest()


class parallel_backend(object):
    def __init__(self, backend, n_jobs=-1, **k):
        self.backend, self.n_jobs = backend, n_jobs

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


parallel_config = parallel_backend


class _Job(object):
    __slots__ = ("fn", "args", "kw", "done", "res", "exc", "idx")

    def __init__(self, t, idx):
        self.fn, self.args, self.kw = t
        self.done = False
        self.res = None
        self.exc = None
        self.idx = idx


class Parallel(object):
    def __init__(self, n_jobs=None, backend=None, verbose=0, timeout=None, pre_dispatch="2 * n_jobs",
                 batch_size="auto", temp_folder=None, max_nbytes="1M", mmap_mode="r", prefer=None,
                 require=None, return_as="list", **kw):
        if require not in (None, "sharedmem"):
            raise ValueError("require=%r is not a valid constraint" % (require,))
        if prefer not in (None, "processes", "threads"):
            raise ValueError("prefer=%r is not a valid backend hint" % (prefer,))
        if require == "sharedmem" and prefer == "processes":
            raise ValueError("prefer == 'processes' and require == 'sharedmem' are inconsistent settings")
        self.n_jobs = n_jobs
        self.threads = require == "sharedmem" or prefer == "threads" or backend in ("threading", "sequential")
        self.backend = backend
        self.pre_dispatch = pre_dispatch

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, iterable):
        sim = _c.S
        n = effective_n_jobs(self.n_jobs)
        if n == 1 or self.backend == "sequential":
            return [fn(*a, **k) for fn, a, k in iterable]
        me = sim.cur
        jobs, queue = [], []
        st = {"closed": False, "abort": False}
        procs = not self.threads

        def run(job):
            sim.cur.busy = True
            try:
                fn, a, k = job.fn, job.args, job.kw
                if procs:
                    fn, a, k = pickle.loads(pickle.dumps((fn, a, k)))
                r = fn(*a, **k)
                if procs:
                    r = pickle.loads(pickle.dumps(r))
                job.res = r
            except _c.SimAbort:
                raise
            except BaseException as e:
                job.exc = e
            sim.cur.busy = False
            job.done = True
            job.fn = job.args = job.kw = None
            sim.log("job", job.idx, type(job.exc).__name__ if job.exc is not None else "ok")
            if me.state == "blocked" and me.interruptible == "job":
                me.state = "ready"

        def worker():
            t = sim.cur
            while True:
                if st["abort"]:
                    return
                if queue:
                    run(queue.pop(0))
                    continue
                if st["closed"]:
                    return
                idle.append(t)
                t.interruptible = False
                sim.block()
                if t in idle:
                    idle.remove(t)

        idle = []
        ths = [sim.spawn(worker, "job%d" % i, "job", lane_no=i) for i in range(n)]
        # pool threads wait for work: not computing yet
        for t in ths:
            t.state = "blocked"
            idle.append(t)

        def wake(k):
            for t in list(idle)[:k]:
                idle.remove(t)
                t.state = "ready"

        def close(abort):
            st["closed"] = True
            st["abort"] = st["abort"] or abort
            if abort:
                del queue[:]
            wake(len(idle))

        try:
            for i, task in enumerate(iterable):
                j = _Job(task, i)
                jobs.append(j)
                queue.append(j)
                wake(1)
                sim.yield_("spawn")
            # everything is dispatched: idle workers go away
            st["closed"] = True
            out = []
            for j in jobs:
                while not j.done:
                    if me.pending is not None and not isinstance(me.pending, _c.Violation):
                        e, me.pending = me.pending, None
                        raise e
                    me.interruptible = "job"
                    wake(len(idle)) if not queue else None
                    sim.block()
                    me.interruptible = False
                    if me.pending is not None:
                        e, me.pending = me.pending, None
                        raise e
                if j.exc is not None:
                    raise j.exc
                out.append(j.res)
        except BaseException:
            if sim.dead:
                raise
            close(True)
            sim.log("parallel-abort")
            if not sim.linger:
                sim.join(ths)
            raise
        close(False)
        sim.join(ths)
        return out


class Memory(object):
    def __init__(self, *a, **k):
        pass

    def cache(self, f=None, **k):
        return f if f is not None else (lambda g: g)
