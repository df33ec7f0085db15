"""Threads and locks of the code under test, run by the simulator."""
from simlib import core as _c


class Lock(object):
    _re = False

    def __init__(self):
        self._o = None
        self._n = 0
        self._w = []

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")

    def acquire(self, blocking=True, timeout=-1):
        s = _c.S
        _c.tick_p()
        while self._o is not None and not (self._re and self._o is s.cur):
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            self._w.append(s.cur)
            s.block()
        self._o = s.cur
        self._n += 1
        return True

    def release(self):
        s = _c.S
        if self._o is None or (self._re and self._o is not s.cur):
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if self._n == 0 or not self._re:
            self._n = 0
            self._o = None
            for t in self._w:
                if t.state == "blocked":
                    t.state = "ready"
            del self._w[:]
            s._plan()

    def locked(self):
        return self._o is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    _re = True


class Condition(object):
    def __init__(self, lock=None):
        self._l = lock or RLock()
        self._w = []
        self.acquire, self.release = self._l.acquire, self._l.release

    def __enter__(self):
        return self._l.acquire()

    def __exit__(self, *a):
        self._l.release()

    def wait(self, timeout=None):
        s = _c.S
        self._w.append(s.cur)
        self._l.release()
        s.block()
        self._l.acquire()
        return True

    def wait_for(self, p, timeout=None):
        while not p():
            self.wait()
        return True

    def notify(self, n=1):
        for t in self._w[:n]:
            t.state = "ready"
        del self._w[:n]
        _c.S._plan()

    def notify_all(self):
        self.notify(len(self._w))


class Event(object):
    def __init__(self):
        self._f = False
        self._w = []

    def is_set(self):
        return self._f

    def set(self):
        self._f = True
        for t in self._w:
            if t.state == "blocked":
                t.state = "ready"
        del self._w[:]
        _c.S._plan()

    def clear(self):
        self._f = False

    def wait(self, timeout=None):
        while not self._f:
            if timeout is not None:
                return False
            self._w.append(_c.S.cur)
            _c.S.block()
        return True


class Semaphore(object):
    def __init__(self, value=1):
        self._v = value
        self._w = []

    def acquire(self, blocking=True, timeout=None):
        while self._v <= 0:
            if not blocking:
                return False
            self._w.append(_c.S.cur)
            _c.S.block()
        self._v -= 1
        return True

    def release(self, n=1):
        self._v += n
        for t in self._w:
            if t.state == "blocked":
                t.state = "ready"
        del self._w[:]
        _c.S._plan()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


BoundedSemaphore = Semaphore


class local(object):
    def __init__(self):
        object.__setattr__(self, "_d", {})

    def _m(self):
        return object.__getattribute__(self, "_d").setdefault(_c.S.cur, {})

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread._local' object")

    def __getattr__(self, k):
        m = object.__getattribute__(self, "_d").setdefault(_c.S.cur, {})
        if k == "__dict__":
            return m
        try:
            return m[k]
        except KeyError:
            raise AttributeError(k)

    def __setattr__(self, k, v):
        self._m()[k] = v

    def __delattr__(self, k):
        try:
            del self._m()[k]
        except KeyError:
            raise AttributeError(k)


class Thread(object):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._t, self._a, self._k = target, args, kwargs or {}
        self.name = name or "Thread"
        self.daemon = daemon
        self._s = None

    def run(self):
        if self._t is not None:
            self._t(*self._a, **self._k)

    def start(self):
        self._s = _c.S.spawn(self.run, self.name, "py")
        _c.S.yield_("spawn")

    def join(self, timeout=None):
        _c.S.join([self._s], interruptible=True)

    def is_alive(self):
        return self._s is not None and self._s.state != "done"

    @property
    def ident(self):
        return self._s.tid


class _Cur(object):
    def __init__(self, t):
        self.ident = t.tid
        self.name = t.name
        self.native_id = t.tid


def current_thread():
    return _Cur(_c.S.cur)


def main_thread():
    return _Cur(_c.S.main)


def get_ident():
    return _c.S.cur.tid


get_native_id = get_ident
allocate_lock = Lock


def active_count():
    return len([t for t in _c.S.threads if t.state != "done"])
