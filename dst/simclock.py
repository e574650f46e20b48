"""The host's clock under simulation: a fake `datetime.datetime` and `time.time`, installed before the package is imported."""
import datetime as _d
import time as _t

REAL = _d.datetime
UTC = _d.timezone.utc


class HostClock:
    """wall clock of the host; `on_read` is called at every reading (a fault can make it jump between two readings)"""

    def __init__(self):
        self.set(0)

    def set(self, us: int, zone_min: int = 0, on_read=None):
        self.us, self.zone_min, self.on_read, self.reads = us, zone_min, on_read, 0

    def read(self) -> int:
        self.reads += 1
        if self.on_read is not None:
            self.on_read()
        return self.us


CLOCK = HostClock()
EPOCH = REAL(1970, 1, 1)


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, REAL)

    def __subclasscheck__(cls, x):
        return issubclass(x, REAL)


class SimDateTime(REAL, metaclass=_Meta):
    @classmethod
    def _of(cls, x, tz=None):
        return cls(x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond, tz)

    @classmethod
    def now(cls, tz=None):
        utc = EPOCH + _d.timedelta(microseconds=CLOCK.read())
        if tz is None:
            return cls._of(utc + _d.timedelta(minutes=CLOCK.zone_min))
        return cls._of(utc.replace(tzinfo=UTC).astimezone(tz), tz)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        return cls._of(EPOCH + _d.timedelta(microseconds=CLOCK.read()))

    def astimezone(self, tz=None):
        if tz is None:
            tz = _d.timezone(_d.timedelta(minutes=CLOCK.zone_min))
        if self.tzinfo is None:
            return self.replace(tzinfo=_d.timezone(_d.timedelta(minutes=CLOCK.zone_min))).astimezone(tz)
        return super().astimezone(tz)

    def timestamp(self):
        if self.tzinfo is None:
            return self.replace(tzinfo=_d.timezone(_d.timedelta(minutes=CLOCK.zone_min))).timestamp()
        return super().timestamp()


def install():
    _d.datetime = SimDateTime
    _t.time = lambda: CLOCK.read() / 1e6
    _t.time_ns = lambda: CLOCK.read() * 1000
