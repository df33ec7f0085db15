from simlib import core as _c


def default_timer():
    return _c.S.now_mono()
