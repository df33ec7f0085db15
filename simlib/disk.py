# -*- coding: utf-8 -*-
"""Simulated durability of files.  Real files in the run's scratch directory;
the simulator can tear a write: the process dies after some bytes reached the
disk."""
import os
from . import core

writes = 0
plan = {}      # n-th write -> fraction of bytes that reach the disk before the crash (or before ENOSPC)
log = []


def reset():
    global writes
    writes = 0
    plan.clear()
    del log[:]


def write_text(path, text, mode="w"):
    write_bytes(path, text.encode("utf-8"), mode.replace("b", "") or "w")


def write_bytes(path, data, mode="w"):
    global writes
    writes += 1
    k = plan.pop(writes, None)
    core.tick_p()
    if k is None:
        with open(path, mode + "b" if "b" not in mode else mode) as f:
            f.write(data)
        log.append((writes, os.path.basename(str(path)), "ok", len(data)))
        core.S.log("write", os.path.basename(str(path)), len(data))
        core.tick_p()
        return
    kind, frac = k
    n = int(len(data) * frac)
    with open(path, mode + "b") as f:
        f.write(data[:n])
    log.append((writes, os.path.basename(str(path)), kind, n))
    core.S.fire("torn-write" if kind == "crash" else "disk-full")
    core.S.log("write", os.path.basename(str(path)), kind, n)
    if kind == "crash":
        raise core.SimCrash("crash in the middle of a write")
    raise OSError(28, "No space left on device")
