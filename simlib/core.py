# -*- coding: utf-8 -*-
"""Deterministic scheduler.

Every simulated thread is a real OS thread parked on its own lock; exactly one
runs at any instant and this module decides which.  Instrumented code calls
``tick_p`` (before every Python statement of the code under test) or ``tick_k``
(inside compiled kernels); the global step counter N is advanced there and
everything that can happen - preemption, fault, step cap - is a function of N
and of the recorded decisions of the phase.  Nothing here reads a real clock or
an unseeded generator.
"""
import sys
import hashlib
import random
import threading as _rt

INF = 1 << 62

N = 0          # step counter of the current phase
NXT = INF      # next step at which something may happen
S = None       # the current Sim


class SimAbort(BaseException):
    """Unwinds parked threads when a run is abandoned."""


class SimCrash(BaseException):
    """The simulated process dies here."""


class Violation(Exception):
    def __init__(self, kind, msg, sig=None):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = msg
        self.sig = sig or kind
        if S is not None and S.first_violation is None:
            S.first_violation = self


class HarnessError(Exception):
    pass


class Degenerate(Exception):
    """The generated workload leaves no shapelet at all: nothing to compare."""


class InjectedError(Exception):
    """A component failure injected by the simulator."""


_ERR = {}
ERR_KINDS = ["plain", "ValueError", "TypeError", "RuntimeError", "OSError", "FileNotFoundError", "KeyError", "IndexError",
             "AttributeError", "ZeroDivisionError", "ArithmeticError", "MemoryError", "TimeoutError", "ConnectionError",
             "EOFError", "NotImplementedError", "AssertionError"]


def injected(kind, msg):
    """A component failure that is also an exception of the given built-in kind."""
    if kind in (None, "plain"):
        return InjectedError(msg)
    if kind not in _ERR:
        import builtins
        _ERR[kind] = type("Injected" + kind, (InjectedError, getattr(builtins, kind)), {})
    return _ERR[kind](msg)


PYLOG = None   # when a list: the step numbers of the Python-level scheduling points


def tick_p():
    global N
    N += 1
    if PYLOG is not None:
        PYLOG.append(N)
    if N >= NXT:
        S._slow(True)


def tick_k():
    global N
    N += 1
    if N >= NXT:
        S._slow(False)


# --------------------------------------------------------------------------
class Strategy(object):
    """Decides preemptions.  next_at(n): step of the next preemption point."""

    def __init__(self, spec):
        self.spec = spec
        self.kind = spec.get("kind", "serial")
        self.rng = random.Random("sched/%s" % spec.get("seed", 0))
        k = self.kind
        self.prio = {}
        if k == "random":
            self.mean = spec.get("mean", 20)
        elif k == "pct":
            d = spec.get("d", 3)
            length = spec.get("len", 2000)
            self.points = sorted(self.rng.randrange(1, length + 1) for _ in range(d))
            self.low = 0
        elif k == "stall":
            self.mean = spec.get("mean", 30)
            self.victim = spec.get("victim", 0)
            self.until = spec.get("until", 100000)
        elif k == "rr":
            self.q = spec.get("q", 7)
        elif k == "explicit":
            self.table = dict((int(a), int(b)) for a, b in spec.get("switches", []))
            self.keys = sorted(self.table)
            self.ki = 0
        self.gap = None

    def next_at(self, n):
        k = self.kind
        if k == "random" or k == "stall":
            if self.mean <= 1:
                return n + 1
            return n + 1 + int(self.rng.expovariate(1.0 / self.mean))
        if k == "rr":
            return n + self.q
        if k == "pct":
            for p in self.points:
                if p > n:
                    return p
            return INF
        if k == "explicit":
            while self.ki < len(self.keys) and self.keys[self.ki] <= n:
                self.ki += 1
            return self.keys[self.ki] if self.ki < len(self.keys) else INF
        return INF

    def _prio(self, t):
        p = self.prio.get(t.tid)
        if p is None:
            p = self.prio[t.tid] = 1.0 + self.rng.random()
        return p

    def pick(self, cands, cur, n, why):
        """cands: runnable threads sorted by tid; cur in cands iff it can go on.
        why: 'preempt' | 'spawn' | 'block'"""
        k = self.kind
        if k == "explicit":
            tid = self.table.get(n)
            if tid is not None:
                for c in cands:
                    if c.tid == tid:
                        return c
            return cur if cur in cands else cands[0]
        if k == "serial":
            if cur in cands:
                return cur
            o = self.spec.get("order", "first")
            if o == "first":
                return cands[0]
            if o == "last":
                return cands[-1]
            return cands[self.rng.randrange(len(cands))]
        if k == "random":
            if why == "spawn" and cur in cands and self.rng.random() < 0.5:
                return cur
            return cands[self.rng.randrange(len(cands))]
        if k == "rr":
            if why == "spawn" and cur in cands:
                return cur
            t = cur.tid if cur is not None else -1
            for c in cands:
                if c.tid > t:
                    return c
            return cands[0]
        if k == "pct":
            if why == "preempt" and cur in cands:
                self.low -= 1
                self.prio[cur.tid] = self.low
            return max(cands, key=self._prio)
        if k == "stall":
            if n < self.until:
                others = [c for c in cands if c.lane_no != self.victim]
                if others:
                    cands = others
            return cands[self.rng.randrange(len(cands))]
        raise HarnessError("strategy " + k)


def gen_sched(rng, allow_serial=True):
    r = rng.random()
    seed = rng.randrange(1 << 30)
    if allow_serial and r < 0.08:
        return {"kind": "serial", "order": rng.choice(["first", "last", "rand"]), "seed": seed}
    if r < 0.45:
        return {"kind": "random", "mean": rng.choice([1, 2, 3, 5, 10, 30, 100, 400]), "seed": seed}
    if r < 0.75:
        return {"kind": "pct", "d": rng.choice([1, 2, 3, 5, 8]),
                "len": rng.choice([50, 200, 500, 1000, 3000, 10000]), "seed": seed}
    if r < 0.90:
        return {"kind": "stall", "victim": rng.choice([0, 0, 1, 1, 2, 3]),
                "mean": rng.choice([1, 5, 40, 200]),
                "until": rng.choice([300, 1000, 5000, 10 ** 6]), "seed": seed}
    return {"kind": "rr", "q": rng.choice([1, 2, 3, 7, 19, 61]), "seed": seed}


# --------------------------------------------------------------------------
class SimThread(object):
    __slots__ = ("tid", "lock", "state", "name", "kind", "parent", "lane_no", "fn",
                 "result", "exc", "waiting", "pending", "in_region", "num_threads",
                 "rng", "op", "interruptible", "ident", "done_cb", "pool", "kern", "busy")

    def __init__(self, tid, name, kind, parent):
        self.tid = tid
        self.name = name
        self.kind = kind            # 'main' | 'py' | 'job' | 'lane'
        self.parent = parent
        self.lane_no = tid
        self.lock = _rt.Lock()
        self.lock.acquire()
        self.state = "ready"
        self.fn = None
        self.result = None
        self.exc = None
        self.waiting = None
        self.pending = None
        self.in_region = False
        self.num_threads = None
        self.rng = None
        self.op = parent.op if parent is not None else None
        self.interruptible = False
        self.ident = None
        self.done_cb = None
        self.pool = None
        self.kern = 0               # depth of compiled calls
        self.busy = False           # a pool thread that holds a job


class Fault(object):
    def __init__(self, d):
        self.at = int(d["at"])
        self.exc = d["exc"]                  # KeyboardInterrupt | MemoryError | SimCrash
        self.where = d.get("where", "any")   # any | main
        self.d = d


class Sim(object):
    def __init__(self, ncpu=4, entropy=0, step_cap=3000000):
        global S
        S = self
        self.ncpu = ncpu
        self.entropy = entropy
        self.step_cap = step_cap
        self.layer = {"participate": True, "chunk": "static", "persist": True}
        self.dead = False
        self.first_violation = None
        self.threads = []
        self.next_tid = 0
        self.rngs = {}
        self.osidents = {}
        self.digest = hashlib.blake2b(digest_size=12)
        self.events = 0
        self.tail = []
        self.keep_tail = 400
        self.fired = {}
        self.probes = {}
        self.phases = []
        self.strategy = Strategy({"kind": "serial"})
        self.sw_next = INF
        self.faults = []
        self.total_steps = 0
        self.n_switch = 0
        self.n_regions = 0
        self.mono = 1000.0
        self.wall_off = 1.7e9
        self.jumps = []          # [simulated time, wall-clock adjustment] still to come
        self.tick_dt = 1e-6
        self.clock_base = 0
        self.jumps = []
        self.max_active = {}
        self.linger = False
        self.idle_os = []
        self.force_serial = False
        self.on_step = None
        self.step_every = 0
        self.phase = None
        t = SimThread(self._tid(), "main", "main", None)
        t.state = "run"
        self.main = t
        self.cur = t
        self.threads.append(t)
        self.osidents[_rt.get_ident()] = t
        t.ident = _rt.get_ident()

    # ---- ids, logs -------------------------------------------------------
    def _tid(self):
        i = self.next_tid
        self.next_tid += 1
        return i

    def log(self, *ev):
        s = repr((N,) + ev)
        self.digest.update(s.encode())
        self.events += 1
        if len(self.tail) < self.keep_tail:
            self.tail.append(s)

    def probe(self, name, k=1):
        self.probes[name] = self.probes.get(name, 0) + k

    def fire(self, name):
        self.fired[name] = self.fired.get(name, 0) + 1
        self.log("fault", name)

    # ---- phases ----------------------------------------------------------
    def begin(self, name, sched=None, faults=()):
        """Start a phase: its own step counter, schedule and fault plan."""
        global N
        if self.phase is not None:
            self.end()
        for t in self.threads:
            if t is not self.main and t.state != "done":
                raise HarnessError("phase %s begins with live thread %s" % (name, t.name))
        self.threads = [self.main]
        self.next_tid = 1
        N = 0
        self.clock_base = 0
        self.phase = {"name": name, "switches": [], "sched": sched or {"kind": "serial"}}
        self.strategy = Strategy(sched or {"kind": "serial"})
        self.faults = sorted([Fault(f) for f in faults], key=lambda f: f.at)
        self.sw_next = INF
        self._plan()
        self.log("phase", name)

    def end(self):
        """Finish a phase: drain lingering threads, restore the quiet schedule."""
        global N, NXT
        if self.phase is None:
            return
        self.faults = []
        self.main.pending = None
        self.drain()
        self.log("end", self.phase["name"])
        self.total_steps += N
        self.mono += (N - self.clock_base) * self.tick_dt
        self.clock_base = N
        self.phases.append(self.phase)
        self.phase = None
        self.strategy = Strategy({"kind": "serial"})
        self.sw_next = INF
        NXT = N + self.step_cap

    def drain(self):
        """Let every remaining thread run to its end."""
        while True:
            live = [t for t in self.threads if t is not self.main and t.state != "done"]
            if not live:
                return
            self.join(live)

    def _plan(self):
        global NXT
        if len([t for t in self.threads if t.state in ("ready", "run")]) > 1:
            if self.sw_next is INF or self.sw_next <= N:
                self.sw_next = self.strategy.next_at(N)
        else:
            self.sw_next = INF
        nx = self.sw_next
        if self.faults and self.faults[0].at < nx:
            nx = max(self.faults[0].at, N + 1)
        if self.main.pending is not None:
            nx = N + 1
        if self.step_cap < nx:
            nx = self.step_cap
        if self.step_every:
            nx = min(nx, N + self.step_every)
        if nx <= N:
            nx = N + 1
        NXT = nx

    def _slow(self, is_py):
        cur = self.cur
        if self.dead:
            raise SimAbort()
        if N > self.step_cap:
            raise Violation("no-progress", "no progress: %d simulated steps without finishing" % N)
        if self.on_step is not None:
            self.on_step()
        exc = None
        if cur is self.main and is_py and cur.pending is not None:
            exc = cur.pending
            cur.pending = None
        elif self.faults and self.faults[0].at <= N:
            f = self.faults[0]
            if f.exc == "MemoryError":
                ok = f.where == "any" or cur is self.main
                if ok:
                    self.faults.pop(0)
                    exc = MemoryError("injected: allocation failed")
                    self.fire("MemoryError@" + ("py" if is_py else "kernel"))
            elif f.exc == "KeyboardInterrupt":
                if cur is self.main and is_py:
                    self.faults.pop(0)
                    exc = KeyboardInterrupt("injected")
                    self.fire("KeyboardInterrupt@main")
                elif cur is not self.main and self.main.pending is None:
                    self.faults.pop(0)
                    self.main.pending = KeyboardInterrupt("injected")
                    self.fire("KeyboardInterrupt@waiting")
                    if self.main.state == "blocked" and self.main.interruptible:
                        self.main.state = "ready"
            elif f.exc == "SimCrash":
                if cur is self.main and is_py:
                    self.faults.pop(0)
                    exc = SimCrash("injected")
                    self.fire("crash")
        if exc is not None:
            self._plan()
            raise exc
        if self.sw_next <= N:
            self._reschedule("preempt")
        self._plan()

    # ---- switching -------------------------------------------------------
    def _cands(self):
        return [t for t in self.threads if t.state == "ready" or t.state == "run"]

    def _note(self, t, why):
        self.n_switch += 1
        if self.phase is not None and len(self.phase["switches"]) < 200000:
            self.phase["switches"].append((N, t.tid))
        s = "%d>%d;" % (N, t.tid)
        self.digest.update(s.encode())

    def _reschedule(self, why):
        global N
        cur = self.cur
        c = self._cands()
        if len(c) <= 1 and cur in c:
            return
        if not c:
            raise Violation("deadlock", "every simulated thread is blocked")
        t = self.strategy.pick(c, cur, N, why)
        if t is cur:
            return
        self._note(t, why)
        if cur.state == "run":
            cur.state = "ready"
        self._transfer(t)

    def _transfer(self, t):
        cur = self.cur
        t.state = "run"
        self.cur = t
        self._plan()
        t.lock.release()
        cur.lock.acquire()
        if self.dead:
            raise SimAbort()

    def block(self, pred_state="blocked"):
        """Current thread cannot go on; give way."""
        global N
        N += 1
        self.cur.state = pred_state
        c = self._cands()
        if not c:
            self.cur.state = "run"
            raise Violation("deadlock", "every simulated thread is blocked")
        t = self.strategy.pick(c, self.cur, N, "block")
        self._note(t, "block")
        self._transfer(t)
        self._plan()

    def yield_(self, why="spawn"):
        global N
        N += 1
        self._reschedule(why)
        self._plan()

    # ---- threads ---------------------------------------------------------
    def spawn(self, fn, name, kind="py", lane_no=None):
        cur = self.cur
        t = SimThread(self._tid(), name, kind, cur)
        if lane_no is not None:
            t.lane_no = lane_no
        t.fn = fn
        self.threads.append(t)
        if self.idle_os:
            box, lk = self.idle_os.pop()
            t.lock = lk
            box[0] = t
        else:
            box = [t]
            th = _rt.Thread(target=self._body, args=(box, t.lock), daemon=True)
            th.start()
        return t

    def _body(self, box, lk):
        global N
        while True:
            lk.acquire()
            if self.dead:
                return
            t = box[0]
            self.osidents[_rt.get_ident()] = t
            t.ident = t.tid + 100000
            try:
                t.result = t.fn()
            except SimAbort:
                return
            except BaseException as e:  # delivered to the joiner
                t.exc = e
            if self.dead:
                return
            t.state = "done"
            self.log("done", t.tid, type(t.exc).__name__ if t.exc is not None else "")
            N += 1
            for w in self.threads:
                if w.state == "blocked" and w.waiting is not None and t in w.waiting:
                    w.waiting.discard(t)
                    if not w.waiting or w.interruptible == "any":
                        w.state = "ready"
            try:
                c = self._cands()
                if not c:
                    # nobody can run: a deadlock the main thread must report
                    self.main.pending = Violation("deadlock", "every simulated thread is blocked")
                    self.main.state = "ready"
                    self.main.waiting = None
                    c = [self.main]
                nx = self.strategy.pick(c, None, N, "block")
            except BaseException as e:
                self.main.pending = e
                nx = self.main
            self._note(nx, "exit")
            nx.state = "run"
            self.cur = nx
            self.idle_os.append((box, lk))
            t.fn = None
            self._plan()
            nx.lock.release()

    def join(self, threads, interruptible=False):
        """Wait until all of them are done."""
        cur = self.cur
        while True:
            left = set(t for t in threads if t.state != "done")
            if not left:
                return
            cur.waiting = left
            cur.interruptible = interruptible
            self.block()
            cur.waiting = None
            cur.interruptible = False
            if cur.pending is not None and (interruptible or isinstance(cur.pending, Violation)):
                e = cur.pending
                cur.pending = None
                raise e

    def join_any(self, threads, interruptible=False):
        """Wait until at least one is done."""
        cur = self.cur
        while True:
            if any(t.state == "done" for t in threads):
                return
            cur.waiting = set(threads)
            cur.interruptible = "any"
            self.block()
            cur.waiting = None
            cur.interruptible = False
            if cur.pending is not None and (interruptible or isinstance(cur.pending, Violation)):
                e = cur.pending
                cur.pending = None
                raise e

    # ---- activity accounting --------------------------------------------
    def active(self, op):
        """Threads computing for op now: inside a compiled call, running a lane,
        or a pool thread holding a job (a caller that only waits is not one)."""
        n = 0
        for t in self.threads:
            if t.op == op and t.state in ("ready", "run"):
                if t.kern or t.busy or t.kind == "lane":
                    n += 1
        return n

    def note_active(self):
        op = self.cur.op
        if op is not None:
            n = self.active(op)
            if n > self.max_active.get(op, 0):
                self.max_active[op] = n

    # ---- randomness ------------------------------------------------------
    def thread_rng(self):
        t = self.cur
        r = t.rng
        if r is None:
            r = t.rng = self._rng_for(("t", t.tid, t.name))
        return r

    def _rng_for(self, key):
        r = self.rngs.get(key)
        if r is None:
            import numpy as np
            h = hashlib.blake2b(repr((self.entropy, key)).encode(), digest_size=4).digest()
            r = self.rngs[key] = np.random.RandomState(int.from_bytes(h, "big"))
        return r

    # ---- clocks ----------------------------------------------------------
    def now_mono(self):
        return self.mono + (N - self.clock_base) * self.tick_dt

    def now_wall(self):
        while self.jumps and self.jumps[0][0] <= self.now_mono():
            self.wall_off += self.jumps.pop(0)[1]
            self.fire("wall-jump")
        return self.now_mono() + self.wall_off

    def advance(self, dt):
        self.mono += dt

    def jump_wall(self, d):
        self.wall_off += d

    # ---- abandon ---------------------------------------------------------
    def kill(self):
        self.dead = True


def current():
    return S.cur


def pykey():
    return S.osidents.get(_rt.get_ident())
