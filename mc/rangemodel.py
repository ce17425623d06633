"""Reference for date/time ranges: plain integers of microseconds."""
from datetime import date, datetime, time, timedelta, timezone, tzinfo

US = 1000000
DAY = 86400 * US
UNITS = {'weeks': 7 * DAY, 'days': DAY, 'hours': 3600 * US,
         'minutes': 60 * US, 'seconds': US, 'microseconds': 1}
UTC = timezone.utc
EAST = timezone(timedelta(hours=5, minutes=30))
WEST = timezone(timedelta(hours=-8))


def us_of(v):
    """A date/time value as a number of microseconds (own time zone)."""
    if isinstance(v, time):
        return ((v.hour * 60 + v.minute) * 60 + v.second) * US + v.microsecond
    if isinstance(v, datetime):
        return v.toordinal() * DAY + us_of(v.time())
    return v.toordinal() * DAY


def make(us, like):
    """The value at a number of microseconds, like another one."""
    if isinstance(like, time):
        us %= DAY
        s, micro = divmod(us, US)
        return time(s // 3600, s // 60 % 60, s % 60, micro,
                    tzinfo=like.tzinfo)
    days, rest = divmod(us, DAY)
    d = date.fromordinal(days)
    if not isinstance(like, datetime):
        assert not rest
        return d
    s, micro = divmod(rest, US)
    return datetime(d.year, d.month, d.day, s // 3600, s // 60 % 60, s % 60,
                    micro, tzinfo=like.tzinfo)


def td_us(td):
    return (td.days * 86400 + td.seconds) * US + td.microseconds


def us_td(us):
    return timedelta(days=us // DAY, seconds=us % DAY // US,
                     microseconds=us % US)


def values(start, n, step):
    """The tuple of values; step in microseconds."""
    base = us_of(start)
    return tuple(make(base + i * step, start) for i in range(n))


def same(a, b):
    return type(a) is type(b) and a == b and \
        getattr(a, 'tzinfo', None) is getattr(b, 'tzinfo', None)


def same_all(xs, ys):
    xs, ys = list(xs), list(ys)
    return len(xs) == len(ys) and all(map(same, xs, ys))


class Summer(tzinfo):
    """A zone with summer time (from 28 March to 31 October, at 1:00 UTC)."""

    def __init__(self, hours):
        self.base = timedelta(hours=hours)

    def utcoffset(self, dt):
        return self.base + self.dst(dt)

    def dst(self, dt):
        if dt is None:
            return timedelta(0)
        naive = dt.replace(tzinfo=None)
        on = datetime(dt.year, 3, 28, 1) + self.base
        off = datetime(dt.year, 10, 31, 2) + self.base
        hour = timedelta(hours=1)
        if on <= naive < on + hour:              # the gap
            return hour * dt.fold
        if off - hour <= naive < off:            # comes twice
            return hour * (not dt.fold)
        return hour * (on <= naive < off)

    def fromutc(self, dt):
        naive = dt.replace(tzinfo=None)
        on = datetime(dt.year, 3, 28, 1)
        off = datetime(dt.year, 10, 31, 1)
        hour = timedelta(hours=1)
        return dt + self.base + hour if on <= naive < off else (
            dt + self.base).replace(fold=off <= naive < off + hour)

    def tzname(self, dt):
        return 'summer'

    def __reduce__(self):
        return Summer, (self.base // timedelta(hours=1),)


CET, EAST2, CET2 = Summer(1), Summer(5), Summer(1)
CEST = timezone(timedelta(hours=2))
