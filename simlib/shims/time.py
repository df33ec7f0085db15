from simlib import core as _c
from time import struct_time, strftime, gmtime, localtime, mktime, ctime  # noqa


def time():
    return _c.S.now_wall()


def time_ns():
    return int(_c.S.now_wall() * 1e9)


def perf_counter():
    return _c.S.now_mono()


def monotonic():
    return _c.S.now_mono()


def perf_counter_ns():
    return int(_c.S.now_mono() * 1e9)


def monotonic_ns():
    return int(_c.S.now_mono() * 1e9)


def process_time():
    return _c.S.total_steps * 1e-6 + _c.N * 1e-6


thread_time = process_time


def sleep(s):
    _c.S.advance(s)
    _c.tick_p()
