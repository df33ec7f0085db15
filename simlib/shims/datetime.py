import datetime as _d
from datetime import *  # noqa
from datetime import timezone as _tz
from simlib import core as _c


class datetime(_d.datetime):
    @classmethod
    def now(cls, tz=None):
        t = _c.S.now_wall()
        return cls.fromtimestamp(t, tz) if tz is not None else cls.fromtimestamp(t, _tz.utc).replace(tzinfo=None)

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(_c.S.now_wall(), _tz.utc).replace(tzinfo=None)

    today = now


class date(_d.date):
    @classmethod
    def today(cls):
        d = datetime.now()
        return cls(d.year, d.month, d.day)
