"""dtrange against a reference that only counts microseconds: complete grids
of starts x stops x steps x units for dates, datetimes and times, given as
objects or ISO strings; every value checked for ranges of moderate length, the
length and ends for long ones; and grids of invalid arguments."""
import math
from datetime import date, datetime, time, timedelta

from fauxdoc.dtrange import DateOrTimeRange, dtrange

from ..common import is_err, outcome
from ..explore import Scenario
from ..rangemodel import (CEST, CET, CET2, DAY, EAST, EAST2, UNITS, US, UTC,
                          WEST, make, same, same_all, td_us, us_of, us_td)

DATES = [date(2020, 2, 27), date(2020, 2, 28), date(2020, 2, 29),
         date(2020, 3, 1), date(2019, 12, 31), date(2021, 1, 1),
         date(1900, 2, 28), date(2000, 3, 1), date(1, 1, 1),
         date(9999, 12, 31)]
DATETIMES = [datetime(2020, 2, 28, 23, 59, 59), datetime(2020, 2, 29),
             datetime(2020, 2, 29, 0, 0, 0, 1), datetime(2020, 3, 1, 12, 30),
             datetime(2019, 12, 31, 23, 59, 59, 999999),
             datetime(2020, 1, 1, 0, 0, 1), datetime(1, 1, 1),
             datetime(9999, 12, 31, 23, 59, 59, 999999)]
AWARE = [datetime(2020, 2, 29, tzinfo=UTC), datetime(
    2020, 2, 29, 5, 30, tzinfo=EAST), datetime(2020, 2, 29, 6, tzinfo=EAST),
    datetime(2020, 2, 28, 16, tzinfo=WEST), datetime(
        2020, 3, 1, 0, 0, 0, 5, tzinfo=UTC)]
TIMES = [time(0, 0), time(0, 0, 0, 1), time(0, 0, 1), time(6, 30),
         time(11, 59, 59, 999999), time(12, 0), time(12, 0, 0, 1),
         time(18, 45), time(23, 59, 59), time(23, 59, 59, 999999)]
ZTIMES = [time(0, 0, tzinfo=UTC), time(7, 7, tzinfo=UTC),
          time(23, 0, 0, 3, tzinfo=UTC)]
# step, unit (None: the default), microseconds
DATE_STEPS = [(1, None), (-1, None), (2, 'days'), (-3, 'days'), (1, 'weeks'),
              (-2, 'weeks'), (7, None), (366, 'days'), (-146097, None),
              (24, 'hours'), (-48, 'hours'), (1440, 'minutes'),
              (86400, 'seconds'), (2.0, None), (0.5, 'weeks'),
              (10 ** 8, 'days'), (-999999, 'days')]
STEPS = [(1, None), (-1, None), (1, 'seconds'), (90, 'minutes'),
         (-90, 'minutes'), (1, 'hours'), (-5, 'hours'), (0.5, 'days'),
         (-0.25, 'days'), (7, None), (-11, None), (1.5, None),
         (250, 'microseconds'), (1, 'microseconds'), (-1, 'microseconds'),
         (23, 'hours'), (-86399, None), (0.1, 'seconds'),
         (2.5, 'minutes'), (0.75, 'hours'), (-1000001, 'microseconds'),
         (1439, 'minutes'), (0.00025, 'hours'), (1.00005, 'minutes'),
         (0.000125, 'days'), (-0.0000125, 'days'), (2.000007, None),
         (2.75, 'microseconds'), (-1.6, 'microseconds')]
LONGSTEPS = [(1, 'days'), (-1, 'days'), (1.5, 'days'), (1, 'weeks'),
             (-0.5, 'weeks'), (36, 'hours'), (1461, 'days'),
             (-86401, None), (31536000, None)]
ENOUGH = 400


def step_us(step, unit, like):
    if unit is None:
        unit = 'seconds' if isinstance(like, (time, datetime)) else 'days'
    return round(step * UNITS[unit])


def reference(start, stop, step):
    """The number of values (microsecond arithmetic, own reading)."""
    if isinstance(start, time):
        gap = us_of(stop) - us_of(start)
        gap = gap % DAY if step > 0 else -(-gap % DAY)
        if not gap:
            gap = DAY if step > 0 else -DAY
    else:
        gap = us_of(stop) - us_of(start)
        if isinstance(start, datetime) and start.tzinfo is not None:
            gap -= td_us(stop.utcoffset()) - td_us(start.utcoffset())
    if gap == 0 or (gap > 0) != (step > 0):
        return 0
    return -(-abs(gap) // abs(step))


def verify(ctx, r, start, stop, step, what):
    ctx.check(isinstance(r, DateOrTimeRange), '%s is a %s', what, type(r))
    n = reference(start, stop, step)
    ctx.check(len(r) == n, '%s has %d values instead of %d', what, len(r), n)
    ctx.check(same(r.start, start) and td_us(r.step) == step, '%s has start '
              '%r, step %r', what, r.start, r.step)
    base = us_of(start)
    if n <= ENOUGH:
        want = [make(base + i * step, start) for i in range(n)]
        ctx.check(same_all(r, want), '%s has %r instead of %r', what,
                  list(r)[:20], want[:20])
        # By definition: all before the stop, and the next is not.
        if n and not isinstance(start, time):
            ctx.check(all(v < stop if step > 0 else v > stop for v in r),
                      '%s goes beyond its stop', what)
    for i in {0, 1, n // 2, n - 2, n - 1}:
        if 0 <= i < n:
            v = make(base + i * step, start)
            ctx.check(same(r[i], v), '%s: value %d is %r instead of %r',
                      what, i, r[i], v)
    return n


def forms(ctx, start, stop, step, unit):
    """The same range by objects, by strings, by mixtures."""
    us = step_us(step, unit, start)
    args = (step,) if unit is None else (step, unit)
    what = 'dtrange(%s, %s, %s)' % (start, stop, ', '.join(map(repr, args)))
    out = outcome(dtrange, start, stop, *args)
    ctx.step('%s -> %r', what, out[0])
    ctx.check(out[0] == 'ok', '%s failed: %r', what, out)
    n = verify(ctx, out[1], start, stop, us, what)
    s1, s2 = start.isoformat(), stop.isoformat()
    for a, b in ((s1, s2), (s1, stop), (start, s2)):
        o = outcome(dtrange, a, b, *args)
        ctx.stats.transitions += 1
        ctx.check(o[0] == 'ok' and o[1] == out[1], 'dtrange(%r, %r) is %r '
                  'instead of %r', a, b, o[1:], out[1].start)
        ctx.check(o[1].start == start and type(o[1].start) is type(start) and
                  o[1].step == out[1].step, 'dtrange(%r, %r) has start %r',
                  a, b, o[1].start)
    if unit is None and step == 1:
        o = outcome(dtrange, start, stop)
        ctx.check(o[0] == 'ok' and o[1] == out[1], 'the default step gives '
                  'another range')
    o = outcome(lambda: dtrange(stop=stop, start=start, step=step,
                                step_unit=unit))
    ctx.check(o[0] == 'ok' and o[1] == out[1], 'keyword arguments give '
              'another range')
    ctx.state((start, stop, step, unit))
    ctx.outcome((start, n, us))


def valid_date_step(step, unit):
    return step_us(step, unit, date(1, 1, 1)) % DAY == 0


def dates(ctx):
    start = ctx.pick(DATES)
    for stop in DATES:
        for step, unit in DATE_STEPS:
            if valid_date_step(step, unit):
                forms(ctx, start, stop, step, unit)


def datetimes(ctx):
    start = ctx.pick(DATETIMES)
    for stop in DATETIMES:
        for step, unit in STEPS + LONGSTEPS:
            forms(ctx, start, stop, step, unit)


def aware(ctx):
    pool = ctx.pick([AWARE, ZTIMES])
    start = ctx.pick(pool)
    for stop in pool:
        for step, unit in STEPS + (LONGSTEPS if pool is AWARE else []):
            us = step_us(step, unit, start)
            what = 'dtrange(%r, %r, %r, %r)' % (start, stop, step, unit)
            out = outcome(dtrange, start, stop, step, unit)
            ctx.step('%s', what)
            ctx.check(out[0] == 'ok', '%s failed: %r', what, out)
            n = verify(ctx, out[1], start, stop, us, what)
            o = outcome(dtrange, start.isoformat(), stop.isoformat(), step,
                        unit)
            ctx.check(o[0] == 'ok' and o[1] == out[1], 'from strings: %r', o)
            ctx.state((start, stop, step, unit))
            ctx.outcome((n, us))


def zones(ctx):
    """Start and stop in different zones, also with summer time between:
    steps count local time of the start, up to the moment of the stop."""
    zone = ctx.pick([CET, EAST2, UTC, CEST, EAST])
    other = ctx.pick([UTC, CET, CET2, EAST2, CEST, WEST])
    start = ctx.pick([datetime(2021, 3, 20, 12), datetime(
        2021, 10, 20, 12, 0, 1), datetime(2021, 6, 1)])
    start = start.replace(tzinfo=zone)
    step, unit = ctx.pick([(1, 'days'), (-1, 'days'), (12, 'hours'), (
        1, 'hours'), (-1, 'hours'), (90, 'minutes'), (1, 'weeks'),
        (7, 'hours')])
    us = step_us(step, unit, start)
    for days in (0, 1, 2, 7, 12, 21, 40, 240):
        for off in (0, 1, -1, 3600 * US, -3600 * US, 7200 * US):
            at = make(us_of(start) + (days * DAY + off) * (
                1 if us > 0 else -1), start)
            stop = at.astimezone(other)
            what = 'dtrange(%s, %s, %r, %r)' % (start, stop, step, unit)
            out = outcome(dtrange, start, stop, step, unit)
            ctx.stats.transitions += 1
            ctx.check(out[0] == 'ok', '%s failed: %r', what, out)
            r = out[1]
            gap = us_of(at) - us_of(start)
            n = max(0, -(-gap // us))
            ctx.check(len(r) == n, '%s has %d values instead of %d', what,
                      len(r), n)
            ctx.check(n == 0 or (r[0] is start or same(r[0], start)),
                      '%s starts with %r', what, r[0] if n else None)
            if n:
                v = make(us_of(start) + (n - 1) * us, start)
                ctx.check(same(r[-1], v), '%s ends with %r', what, r[-1])
            if not 3600 * US >= abs(us) and n < 300:
                ctx.check(all(v < stop if us > 0 else v > stop for v in r),
                          '%s goes beyond its stop', what)
    ctx.step('from %s, stops in %s', start, other)
    ctx.state((str(start), str(other), step, unit))
    ctx.outcome((str(start), step, unit))


def times(ctx):
    start = ctx.pick(TIMES)
    for stop in TIMES:
        for step, unit in STEPS:
            forms(ctx, start, stop, step, unit)


def all_times(ctx):
    """All pairs of half hours (quick: hours), by all steps in minutes."""
    grain = 60 if ctx.quick else 30
    start = ctx.choose(1440 // grain) * grain
    for stop in range(0, 1440, grain):
        for step in (1, 7, 15, 30, 60, 90, 120, 600, 660, 720, 721, 1439):
            for sign in (1, -1):
                a = make(start * 60 * US, time(0, 0))
                b = make(stop * 60 * US, time(0, 0))
                us = sign * step * 60 * US
                r = dtrange(a, b, sign * step, 'minutes')
                ctx.stats.transitions += 1
                # Walk, as a person would.
                want, at = [], start
                while True:
                    want.append(at % 1440)
                    nxt = at + sign * step
                    gap = (stop - start) * sign % 1440 or 1440
                    if abs(nxt - start) >= gap:
                        break
                    at = nxt
                ctx.check(len(r) == len(want), 'from %s to %s by %d '
                          'minutes: %d values instead of %d', a, b,
                          sign * step, len(r), len(want))
                ctx.check([v.hour * 60 + v.minute for v in r] == want,
                          'from %s to %s by %d minutes: %r', a, b,
                          sign * step, list(r)[:30])
                assert reference(a, b, us) == len(want)
    ctx.step('all ranges of times from %d minutes', start)
    ctx.state(start)
    ctx.outcome(start)


def all_dates(ctx):
    """All pairs of days around a leap day and a new year."""
    base, span = ctx.pick([(date(2020, 2, 20), 16), (date(2099, 12, 24), 16),
                           (date(1, 1, 1), 12), (date(9999, 12, 20), 12)])
    o = base.toordinal()
    i = ctx.choose(span)
    for j in range(span):
        for step in (1, 2, 3, 5, 7, 11, -1, -2, -4, -7, -30):
            a, b = date.fromordinal(o + i), date.fromordinal(o + j)
            r = dtrange(a, b, step)
            ctx.stats.transitions += 2
            want = [date.fromordinal(x) for x in range(o + i, o + j, step)]
            ctx.check(same_all(r, want), 'dtrange(%s, %s, %d): %r', a, b,
                      step, list(r))
            a, b = (datetime(x.year, x.month, x.day, 13) for x in (a, b))
            r = dtrange(a, b, step, 'days')
            want = [datetime(x.year, x.month, x.day, 13) for x in want]
            ctx.check(same_all(r, want), 'dtrange(%s, %s, %d): %r', a, b,
                      step, list(r))
    ctx.step('all ranges of dates from %s + %d', base, i)
    ctx.state((base, i))
    ctx.outcome((base, i))


STRINGS = [
    ('2020-02-29', date(2020, 2, 29)),
    ('2020-02-29T10:20:30', datetime(2020, 2, 29, 10, 20, 30)),
    ('2020-02-29 10:20', datetime(2020, 2, 29, 10, 20)),
    ('2020-02-29T10:20:30.000400', datetime(2020, 2, 29, 10, 20, 30, 400)),
    ('2020-02-29T00:00:00', datetime(2020, 2, 29)),
    ('2020-02-29T10:20:30+05:30', datetime(2020, 2, 29, 10, 20, 30,
                                           tzinfo=EAST)),
    ('10:20', time(10, 20)), ('10:20:30', time(10, 20, 30)),
    ('00:00', time(0, 0)), ('00:00:00', time(0, 0)),
    ('23:59:59.999999', time(23, 59, 59, 999999)),
    ('10:20:30+00:00', time(10, 20, 30, tzinfo=UTC))]
BAD = ['abc', '', None, 5, 2020.5, b'2020-01-01', timedelta(1), '2020-13-01',
       '2020-02-30', '25:00', '24:00', '10:61', '2020-02-29T', 'Tx', '-1',
       (2020, 1, 1), [], object(), '2019-02-29', 'now', '2020-01-01 x',
       '10:20:30x']
LIKE = [date(2020, 1, 1), datetime(2020, 1, 1), time(5, 0), '2020-01-01',
        '05:00', '2020-01-01T05:00']


def lengths(ctx):
    """Ranges of every length, with stops on and between values."""
    n = ctx.number()
    start, step, unit, us, like = ctx.pick([
        (date(2020, 1, 20), 1, None, DAY, 'd'),
        (date(2020, 3, 1), -2, 'days', -2 * DAY, 'd'),
        (date(2020, 3, 1), 1, 'weeks', 7 * DAY, 'd'),
        (datetime(2020, 2, 27, 5), 3, 'hours', 10800 * 10 ** 6, 't'),
        (datetime(2020, 2, 27), -1, 'microseconds', -1, 't'),
        (datetime(2020, 2, 27), 25, 'minutes', 1500 * 10 ** 6, 't'),
        (time(0, 0), 11, 'minutes', 660 * 10 ** 6, 't'),
        (time(23, 0), -7, 'seconds', -7 * 10 ** 6, 't')])
    base = us_of(start)
    grain = DAY if like == 'd' else 1
    offs = {0, grain, -grain, abs(us) // 2 // grain * grain}
    if isinstance(start, time) and not n:
        offs = {0}
    for off in offs:
        at = base + n * us + off
        if isinstance(start, time) and not 0 <= at < DAY:
            continue
        forms(ctx, start, make(at, start), step, unit)


def strings(ctx):
    text, val = ctx.pick(STRINGS)
    for later in (us_td(0), timedelta(days=3), timedelta(hours=5)):
        if isinstance(val, time):
            stop = make(us_of(val) + td_us(later), val)
        else:
            stop = val + later
        for step, unit in ((1, None), (-1, None), (1, 'days'),
                           (2, 'hours')):
            a = outcome(dtrange, text, stop, step, unit)
            b = outcome(dtrange, val, stop, step, unit)
            c = outcome(dtrange, stop, text, step, unit)
            d = outcome(dtrange, stop, val, step, unit)
            ctx.step('dtrange(%r, %s, %r, %r)', text, stop, step, unit)
            ctx.check(a == b and c == d, 'the string %r gives %r instead of '
                      '%r, or %r instead of %r', text, a, b, c, d)
            if a[0] == 'ok':
                ctx.check(same(a[1].start, val) or val.tzinfo is not None and
                          a[1].start == val, 'the string '
                          '%r means %r', text, a[1].start)
    for text2, val2 in STRINGS:
        if getattr(val, 'tzinfo', None) or getattr(val2, 'tzinfo', None):
            continue
        out = outcome(dtrange, text, text2)
        out2 = outcome(dtrange, val, val2)
        out3 = outcome(dtrange, val, text2)
        ctx.step('dtrange(%r, %r)', text, text2)
        if type(val) is type(val2):
            ctx.check(out[0] == 'ok' and out == out2 == out3, 'dtrange(%r, '
                      '%r) is %r, and %r for objects', text, text2, out,
                      out2)
        else:
            for o in (out, out2, out3):
                ctx.check(is_err(o, 'ValueError'), 'mixed types %r and %r '
                          'gave %r', text, text2, o)
    ctx.state(text)
    ctx.outcome(text)


def invalid(ctx):
    what = ctx.pick(['value', 'unit', 'zero', 'dates', 'times', 'direct',
                     'steptype', 'mixed'])
    n = 0

    def refused(f, *args):
        out = outcome(f, *args)
        ctx.step('%s%r -> %r', f.__name__, args, out[:2])
        ctx.check(is_err(out, 'ValueError'), '%s%r gave %r instead of a '
                  'ValueError', f.__name__, args, out)
    if what == 'value':
        for bad in BAD:
            for like in LIKE:
                refused(dtrange, bad, like)
                refused(dtrange, like, bad)
            refused(dtrange, bad, bad)
    elif what == 'unit':
        for unit in ('years', 'months', 'Days', 'day', '', 'second', ' days',
                     'fortnights', 's', 'step', 'decades'):
            for like in LIKE:
                refused(dtrange, like, like, 1, unit)
                refused(dtrange, like, like, -2, unit)
    elif what == 'zero':
        for like in LIKE:
            for zero in (0, 0.0, -0.0, False, 1e-12):
                refused(dtrange, like, like, zero)
            for unit in UNITS:
                refused(dtrange, like, like, 0, unit)
            refused(dtrange, like, like, 0.1, 'microseconds')
    elif what == 'dates':
        for a, b in (('2020-01-01', '2020-01-31'), (date(2020, 1, 31),
                                                    date(2020, 1, 1))):
            for step, unit in ((1, 'hours'), (1, 'seconds'), (1.5, 'days'),
                               (0.25, None), (25, 'hours'), (-1, 'minutes'),
                               (0.5, 'weeks'), (86401, 'seconds'),
                               (1, 'microseconds'), (12, 'hours'),
                               (-36, 'hours')):
                refused(dtrange, a, b, step, unit)
    elif what == 'times':
        for a, b in (('10:00', '12:00'), (time(12, 0), time(10, 0)),
                     (time(1, 0), time(1, 0))):
            for step, unit in ((1, 'days'), (-1, 'days'), (24, 'hours'),
                               (1, 'weeks'), (86400, None), (-86400, None),
                               (1440, 'minutes'), (25, 'hours'),
                               (-1441, 'minutes'), (90000, 'seconds'),
                               (1.5, 'days')):
                refused(dtrange, a, b, step, unit)
    elif what == 'steptype':
        for like in LIKE:
            for bad in ('1', None, [], timedelta(1), 1j, float('nan')):
                refused(dtrange, like, like, bad)
    elif what == 'mixed':
        vals = [date(2020, 1, 1), datetime(2020, 1, 1), time(1, 0)]
        for a in vals:
            for b in vals:
                if a is b:
                    continue
                for x in (a, a.isoformat()):
                    for y in (b, b.isoformat()):
                        refused(dtrange, x, y)
                        refused(dtrange, x, y, -1, 'days')
    else:
        R = DateOrTimeRange
        day = timedelta(days=1)
        for bad in ('2020-01-01', None, 5, timedelta(1)):
            refused(R, bad, 3, day)
        for bad in (1, None, '1', 1.5):
            refused(R, date(2020, 1, 1), 3, bad)
        for bad in ('x', '', '1.5', float('nan')):
            refused(R, date(2020, 1, 1), bad, day)
        for bad in (timedelta(hours=1), timedelta(days=1, microseconds=1),
                    timedelta(seconds=-1), -timedelta(hours=36)):
            refused(R, date(2020, 1, 1), 3, bad)
        for bad in (day, -day, 2 * day, timedelta(hours=25),
                    -timedelta(hours=25)):
            refused(R, time(1, 0), 3, bad)
        for n, want in ((3, 3), ('4', 4), (2.9, 2), (-1, 0), (-10 ** 9, 0),
                        (True, 1), (0, 0)):
            r = R(date(2020, 1, 1), n, day)
            ctx.check(r.length == want == len(r) == len(list(r)),
                      'length %r gives %r', n, r.length)
    ctx.state(what)
    ctx.outcome(what)


def scenarios(tier, seed):
    return [Scenario('dates', dates), Scenario('datetimes', datetimes),
            Scenario('aware', aware), Scenario('zones', zones), Scenario('times', times),
            Scenario('all_times', all_times),
            Scenario('all_dates', all_dates), Scenario('strings', strings),
            Scenario('lengths', lengths, split=2),
            Scenario('invalid', invalid)]
