from simlib import core as _c


class Future(object):
    def __init__(self):
        self._r = self._e = None
        self._t = None
        self._done = False

    def result(self, timeout=None):
        if not self._done:
            _c.S.join([self._t], interruptible=True)
        if self._e is not None:
            raise self._e
        return self._r

    def exception(self, timeout=None):
        if not self._done:
            _c.S.join([self._t], interruptible=True)
        return self._e

    def done(self):
        return self._done

    def cancel(self):
        return False


class ThreadPoolExecutor(object):
    def __init__(self, max_workers=None, *a, **k):
        self.n = max_workers or _c.S.ncpu
        self.live = []

    def submit(self, fn, *a, **k):
        f = Future()
        while len([t for t in self.live if t.state != "done"]) >= self.n:
            _c.S.join_any([t for t in self.live if t.state != "done"], interruptible=True)

        def run():
            _c.S.cur.busy = True
            try:
                f._r = fn(*a, **k)
            except _c.SimAbort:
                raise
            except BaseException as e:
                f._e = e
            _c.S.cur.busy = False
            f._done = True
        f._t = _c.S.spawn(run, "pool", "job")
        self.live.append(f._t)
        _c.S.yield_("spawn")
        return f

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*its)]
        return iter([f.result() for f in fs])

    def shutdown(self, wait=True, cancel_futures=False):
        if wait:
            _c.S.join([t for t in self.live if t.state != "done"])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


ProcessPoolExecutor = ThreadPoolExecutor


def as_completed(fs, timeout=None):
    fs = list(fs)
    while fs:
        d = [f for f in fs if f._done]
        if not d:
            _c.S.join_any([f._t for f in fs], interruptible=True)
            continue
        fs.remove(d[0])
        yield d[0]


def wait(fs, **k):
    for f in fs:
        f.exception()
    return set(fs), set()
