MODULE = "aiootp.asynchs.clocks"

from time import time_ns, get_clock_info
from time import perf_counter as s_counter
from time import perf_counter_ns as ns_counter
from aiootp._typing import Typing as t
from aiootp._constants import EPOCH_NS, BIG
from aiootp._constants import NANOSECONDS, MICROSECONDS, MILLISECONDS, CENTISECONDS, DECISECONDS, SECONDS, MINUTES, HOURS, DAYS, MONTHS, YEARS
from aiootp._constants import SAFE_TIMESTAMP_BYTES
from aiootp._exceptions import Issue, TimestampExpired
from aiootp.commons import FrozenNamespace, FrozenTypedSlots
from aiootp.asynchs.loops import asleep

_YEAR_WITH_LEAP_DAYS = 365.24225


class TimeUnit:

    @classmethod
    def time(unit, /, epoch: int=0):
        return int((time_ns() - epoch) / unit.as_ns)


class Nanoseconds(TimeUnit):
    name = NANOSECONDS
    as_ns = 1
    per_s = 1000000000


class Microseconds(TimeUnit):
    name = MICROSECONDS
    as_ns = Nanoseconds.as_ns * 1000
    per_s = Nanoseconds.per_s // 1000


class Milliseconds(TimeUnit):
    name = MILLISECONDS
    as_ns = Microseconds.as_ns * 1000
    per_s = Microseconds.per_s // 1000


class Centiseconds(TimeUnit):
    name = CENTISECONDS
    as_ns = Milliseconds.as_ns * 10
    per_s = Milliseconds.per_s // 10


class Deciseconds(TimeUnit):
    name = DECISECONDS
    as_ns = Centiseconds.as_ns * 10
    per_s = Centiseconds.per_s // 10


class Seconds(TimeUnit):
    name = SECONDS
    as_ns = Deciseconds.as_ns * 10
    per_s = Deciseconds.per_s // 10


class Minutes(TimeUnit):
    name = MINUTES
    as_ns = Seconds.as_ns * 60
    per_s = Seconds.per_s / 60


class Hours(TimeUnit):
    name = HOURS
    as_ns = Minutes.as_ns * 60
    per_s = Minutes.per_s / 60


class Days(TimeUnit):
    name = DAYS
    as_ns = Hours.as_ns * 24
    per_s = Hours.per_s / 24


class Months(TimeUnit):
    name = MONTHS
    as_ns = Days.as_ns * (_YEAR_WITH_LEAP_DAYS / 12)
    per_s = Days.per_s / (_YEAR_WITH_LEAP_DAYS / 12)


class Years(TimeUnit):
    name = YEARS
    as_ns = Days.as_ns * _YEAR_WITH_LEAP_DAYS
    per_s = Days.per_s / _YEAR_WITH_LEAP_DAYS


class Clock(FrozenTypedSlots):
    _UNMAPPED_ATTRIBUTES = frozenset({'_epoch', '_resolution_needed', '_time'})
    _DIRLESS_ATTRIBUTES = frozenset({'NANOSECONDS', 'MICROSECONDS', 'MILLISECONDS', 'CENTISECONDS', 'DECISECONDS', 'SECONDS', 'MINUTES', 'HOURS', 'DAYS', 'MONTHS', 'YEARS'})
    _SYSTEM_TIME_RESOLUTION = get_clock_info('time').resolution
    _times = FrozenNamespace({NANOSECONDS: Nanoseconds, MICROSECONDS: Microseconds, MILLISECONDS: Milliseconds, CENTISECONDS: Centiseconds, DECISECONDS: Deciseconds, SECONDS: Seconds, MINUTES: Minutes, HOURS: Hours, DAYS: Days, MONTHS: Months, YEARS: Years})
    NANOSECONDS = NANOSECONDS
    MICROSECONDS = MICROSECONDS
    MILLISECONDS = MILLISECONDS
    CENTISECONDS = CENTISECONDS
    DECISECONDS = DECISECONDS
    SECONDS = SECONDS
    MINUTES = MINUTES
    HOURS = HOURS
    DAYS = DAYS
    MONTHS = MONTHS
    YEARS = YEARS
    TimestampExpired = TimestampExpired
    slots_types = dict(_epoch=int, _resolution_needed=(float, int), _time=t.Callable, unit=t.TimeUnitType)

    def __init__(self, /, units=SECONDS, *, epoch: int=EPOCH_NS):
        if units not in self._times:
            raise Issue.invalid_value('time units', units)
        self.unit = self._times[units]()
        self._time = self.unit.time
        self._resolution_needed = 1 / self.unit.per_s
        self._epoch = epoch

    def __repr__(self, /):
        return f'{self.__class__.__qualname__}({self.unit.name!r}, epoch={self._epoch})'

    def has_adequate_resolution(self, /):
        return self._resolution_needed >= self._SYSTEM_TIME_RESOLUTION

    def time(self, /):
        return self._time(self._epoch)

    def make_timestamp(self, /, *, size: int=SAFE_TIMESTAMP_BYTES, byte_order=BIG):
        return self.time().to_bytes(size, byte_order)

    def read_timestamp(self, /, timestamp, *, byte_order=BIG):
        return int.from_bytes(timestamp, byte_order)

    def delta(self, /, timestamp, *, byte_order=BIG):
        stamp = self.read_timestamp(timestamp, byte_order=byte_order)
        return self.time() - stamp

    def test_timestamp(self, /, timestamp, ttl: int | None, *, byte_order=BIG):
        if ttl is None:
            return
        delta = self.delta(timestamp, byte_order=byte_order)
        timestamp_is_expired = delta > ttl
        expired_by = delta - ttl
        if timestamp_is_expired:
            raise self.TimestampExpired(self.unit.name, expired_by)
