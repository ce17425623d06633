"""Date/time ranges against plain tuples of integers-turned-values: for a grid
of starts, steps and lengths, all indexes, all slices (and slices of slices),
all values in and around the range with all index bounds, reversal, count,
and equality and hash of all pairs, with every range also obtained by slicing.
Long ranges (thousands to millions of values) are checked at all indexes that
matter."""
import copy
import pickle
from datetime import date, datetime, time, timedelta, timezone

from fauxdoc.dtrange import DateOrTimeRange, dtrange

from ..common import is_err, outcome
from ..explore import Scenario
from ..rangemodel import (CEST, CET, CET2, DAY, EAST, EAST2, US, UTC, WEST,
                          make, same, same_all, td_us, us_of, us_td, values)

H = 3600 * US
M = 60 * US
STARTS = {
    'date': [date(2020, 2, 27), date(1999, 12, 30), date(1, 3, 5),
             date(9999, 8, 20)],
    'datetime': [datetime(2020, 2, 28, 22, 30), datetime(
        1999, 12, 31, 23, 59, 59, 999998), datetime(1900, 3, 1),
        datetime(2021, 6, 1, 4, 0, 0, 1, tzinfo=UTC),
        datetime(2021, 1, 1, 1, tzinfo=EAST)],
    'time': [time(0, 0), time(23, 59, 59, 999999), time(12, 30),
             time(7, 0, 0, 1), time(22, 15, tzinfo=WEST),
             time(1, 0, tzinfo=UTC)],
}
STEPS = {
    'date': [DAY, -DAY, 2 * DAY, -3 * DAY, 7 * DAY, 0],
    'datetime': [US, -US, 1, -1, 90 * M, -36 * H, DAY, 7 * US + 3, 25 * H,
                 -DAY // 3, 0],
    'time': [H, -H, 6 * H, -6 * H, 7 * H, -11 * H, 13 * H, 25 * M, 1, -1,
             DAY - 1, 1 - DAY, 12 * H, -12 * H, 23 * H, 0, 5 * H + 7,
             -5 * M],
}
LENGTHS = [0, 1, 2, 3, 4, 6, 9]


def build(start, n, step):
    return DateOrTimeRange(start, n, us_td(step))


def strangers(like):
    """Values that are in no range of values like this one."""
    out = [None, 'x', 5, 2.5, (), object, '2020-02-27', timedelta(1), b'']
    d, dt, t = date(2020, 2, 28), datetime(2020, 2, 28), time(0, 0)
    if isinstance(like, datetime):
        out += [d, t, like.date(), like.timetz()]
        out.append(like.replace(tzinfo=None if like.tzinfo else UTC))
    elif isinstance(like, time):
        out += [d, dt]
        out.append(like.replace(tzinfo=None if like.tzinfo else UTC))
    else:
        out += [dt, t, datetime(like.year, like.month, like.day)]
    return out


def nearby(start, n, step, t):
    """Values around those of the range."""
    out = list(t)
    base = us_of(start)
    grain = DAY if isinstance(start, date) and not isinstance(
        start, datetime) else 1
    pts = set()
    for i in (-2, -1, 0, 1, n // 2, n - 1, n, n + 1):
        for off in (0, grain, -grain, step // 2, step // 3):
            pts.add(base + i * step + off // grain * grain)
    for p in sorted(pts):
        try:
            v = make(p, start)
        except (ValueError, OverflowError):
            continue
        out.append(v)
    if isinstance(start, datetime) and start.tzinfo is not None:
        out += [v.astimezone(WEST) for v in list(out)[:n + 3]]
    seen = []
    for v in out:
        if not any(v is s for s in seen):
            seen.append(v)
    return seen


def probe(ctx, r, t, what, full=True):
    """Compares a range with the tuple of its values."""
    n = len(t)
    st = ctx.stats
    st.transitions += 6 + 2 * n
    ctx.check(len(r) == n, '%s: len is %d instead of %d', what, len(r), n)
    ctx.check(bool(r) is bool(t), '%s: truth is %r', what, bool(r))
    ctx.check(same_all(r, t), '%s: iterates over %r instead of %r', what,
              list(r), t)
    ctx.check(same_all(reversed(r), t[::-1]), '%s: reversed gives %r', what,
              list(reversed(r)))
    for i in range(-n - 2, n + 2):
        out = outcome(lambda: r[i])
        if -n <= i < n:
            ctx.check(out[0] == 'ok' and same(out[1], t[i]), '%s: [%d] is '
                      '%r instead of %r', what, i, out, t[i])
        else:
            ctx.check(is_err(out, 'IndexError'), '%s: [%d] is %r, not an '
                      'IndexError', what, i, out)
    if not full:
        return
    for v in t[:1] + t[-1:] + t[n // 2:n // 2 + 1]:
        ctx.check(v in r, '%s: %r is not in it', what, v)
        ctx.check(r.index(v) == t.index(v) and r.count(v) == t.count(v),
                  '%s: index or count of %r wrong', what, v)


def search(ctx, r, t, start, n, step, what):
    bounds = [None] + sorted({-n - 1, -n, -n + 1, -1, 0, 1, 2, n - 1, n,
                              n + 3, n // 2})
    for v in nearby(start, n, step, t) + strangers(start):
        inside = v in t
        ctx.stats.transitions += 3 + len(bounds) ** 2
        ctx.check((v in r) is inside, '%s: %r in it is %r', what, v,
                  not inside)
        out = outcome(r.count, v)
        ctx.check(out == ('ok', t.count(v)), '%s: count(%r) is %r instead '
                  'of %d', what, v, out, t.count(v))
        out = outcome(r.index, v)
        if inside:
            ctx.check(out == ('ok', t.index(v)), '%s: index(%r) is %r '
                      'instead of %d', what, v, out, t.index(v))
        else:
            ctx.check(is_err(out, 'ValueError'), '%s: index(%r) is %r, not '
                      'a ValueError', what, v, out)
        if not inside:
            continue
        for a in bounds:
            for b in bounds:
                out = outcome(r.index, v, a, b)
                want = outcome(t.index, v, 0 if a is None else a,
                               n if b is None else b)
                ctx.check(out[:2] == want[:2], '%s: index(%r, %r, %r) is %r '
                          'instead of %r', what, v, a, b, out, want)


def slice_args(n, wide):
    ends = [None] + sorted({x for x in range(-n - 2, n + 3)}
                           if wide else {-n, -2, -1, 0, 1, 2, n - 1, n,
                                         n + 5, -n - 5})
    steps = [None, 1, -1, 2, -2, 3, -3, n or 1, -(n or 1), 10 ** 7,
             -10 ** 12] if wide else [None, -1, 2, -2, 3, 10 ** 6]
    return [(a, b, c) for a in ends for b in ends for c in steps]


def small(ctx):
    kind, start, step = ctx.pick([
        (k, s, d) for k in sorted(STARTS) for s in STARTS[k]
        for d in STEPS[k]])
    n = ctx.pick(LENGTHS if ctx.quick else LENGTHS + [12, 17])
    t = values(start, n, step)
    r = build(start, n, step)
    what = 'range of %d from %s by %s' % (n, start, us_td(step))
    ctx.step('%s', what)
    probe(ctx, r, t, what)
    search(ctx, r, t, start, n, step, what)
    if n < 9 or not ctx.quick:
        seen = set()
        for a, b, c in slice_args(n, n <= 6):
            s, u = r[a:b:c], t[a:b:c]
            w = '%s [%r:%r:%r]' % (what, a, b, c)
            ctx.check(isinstance(s, DateOrTimeRange), '%s is a %s', w,
                      type(s))
            key = range(n)[a:b:c]
            probe(ctx, s, u, w, full=len(u) < 4)
            ctx.check(s == s[:] and hash(s) == hash(s[:]), '%s is not equal '
                      'to its copy', w)
            if len(u) < 2:
                other = build(u[0] if u else start, len(u), step)
            else:
                other = build(u[0], len(u), key.step * step % DAY
                              if kind == 'time' else key.step * step)
            ctx.check(s == other and not s != other and
                      hash(s) == hash(other), '%s is not equal to the range '
                      'of the same values %r', w, u)
            if (key.start, key.step, len(key)) in seen or len(u) < 2:
                continue
            seen.add((key.start, key.step, len(key)))
            # Slices of slices.
            search(ctx, s, u, u[0], len(u), key.step * step, w) \
                if n <= 4 else None
            for a2, b2, c2 in slice_args(len(u), False)[::3 if ctx.quick
                                                        else 1]:
                s2, u2 = s[a2:b2:c2], u[a2:b2:c2]
                ctx.stats.transitions += 1
                ctx.check(same_all(s2, u2), '%s [%r:%r:%r] has %r instead '
                          'of %r', w, a2, b2, c2, list(s2), u2)
    ctx.check(is_err(outcome(lambda: r[::0]), 'ValueError'), 'a slice by 0 '
              'did not raise ValueError')
    probe(ctx, r, t, what + ' (again)')
    ctx.state((kind, start, step, n))
    ctx.outcome((kind, t))


def frozen(ctx):
    """Nothing changes a range."""
    kind = ctx.pick(sorted(STARTS))
    start = ctx.pick(STARTS[kind])
    step = ctx.pick(STEPS[kind][:3])
    n = ctx.pick([0, 1, 4])
    t = values(start, n, step)
    for via in ('built', 'sliced'):
        r = build(start, n, step)
        if via == 'sliced':
            r = r[:]
        h = hash(r)
        for name, v in (('start', start), ('stop', start),
                        ('length', n + 1), ('step', us_td(step * 2)),
                        ('length', n), ('step', us_td(step))):
            out = outcome(setattr, r, name, v)
            ctx.step('%s range: setting %s', via, name)
            ctx.check(is_err(out, 'AttributeError'), 'setting %s: %r, not '
                      'an AttributeError', name, out)
            out = outcome(delattr, r, name)
            ctx.check(is_err(out, 'AttributeError'), 'deleting %s: %r', name,
                      out)

        def setitem():
            r[0] = start

        def delitem():
            del r[0]
        for f in (setitem, delitem):
            ctx.check(is_err(outcome(f), 'TypeError'), '%s: %r', f.__name__,
                      outcome(f))
        s = r.stop
        ctx.check(same(s, make(us_of(start) + n * step, start)), 'stop is '
                  '%r', s)
        repr(r), str(r)
        ctx.check(r.start == start and r.length == n and
                  td_us(r.step) == step and r.stop == s, 'attributes are '
                  '%r', (r.start, r.length, r.step))
        ctx.check(hash(r) == h, 'the hash changed')
        ctx.check(same_all(r, t), 'the values changed: %r', list(r))
        for c in (copy.copy(r), copy.deepcopy(r),
                  pickle.loads(pickle.dumps(r))):
            ctx.check(c == r and hash(c) == h and
                      list(c) == list(t), 'a copy differs')
    ctx.state((kind, start, step, n))
    ctx.outcome(t)


def pool():
    """Ranges of all kinds, many of them with equal values."""
    out = []
    for kind in STARTS:
        for start in STARTS[kind][:3]:
            for step in STEPS[kind][:9] + STEPS[kind][-2:]:
                for n in (0, 1, 2, 3, 5):
                    out.append((start, n, step))
    day = [time(0, 0), time(12, 0)]
    for start in day:
        for step in (12 * H, -12 * H, 6 * H, -18 * H, 18 * H, -6 * H,
                     H, -23 * H, 23 * H, -H, 1 - DAY, 1, DAY - 1, -1):
            for n in (2, 3, 4, 24, 25):
                out.append((start, n, step))
    return out


def _use(r):
    for f in (repr, str, hash, lambda x: x.stop, lambda x: x[-1],
              lambda x: x[0] in x):
        outcome(f, r)


def pairs(ctx):
    ps = pool()
    i = ctx.choose(len(ps))
    start, n, step = ps[i]
    t = values(start, n, step)
    mine = [build(start, n, step)]
    if n:
        # The same values in other ways.
        last = t[-1]
        if not isinstance(start, date) or start.year < 9990:
            longer = build(start, n + 3, step)
            mine.append(longer[:n])
        mine.append(build(last, n, -step)[::-1] if n > 1 or
                    not isinstance(start, time) else build(last, 1, step))
        if not step % 2 and isinstance(start, time):
            mine.append(build(start, 2 * n, step // 2)[::2])
    ctx.step('range of %d from %s by %s', n, start, us_td(step))
    for r in mine:
        ctx.check(same_all(r, t), 'a range got by slicing has %r instead of '
                  '%r', list(r), t)
    # (What was done with the ranges before makes no difference.)
    used = i % 2 if ctx.quick else ctx.choose(2)
    if used:
        for r in mine:
            _use(r)
    for s2, n2, step2 in ps:
        u = values(s2, n2, step2)
        o = build(s2, n2, step2)
        if used:
            _use(o)
        want = t == u
        for r in mine:
            ctx.stats.transitions += 1
            ctx.check((r == o) is want and (o == r) is want and
                      (r != o) is (not want), 'ranges of %r and %r: == is '
                      '%r', t, u, r == o)
            ctx.check(not want or hash(r) == hash(o), 'equal ranges of %r '
                      'have different hashes (%r, %r)', t, r, o)
    for other in (t, list(t), None, 'x', range(3), n):
        ctx.check(not (mine[0] == other) and mine[0] != other, 'equal to %r',
                  other)
    ctx.check(len({*mine}) == 1, 'equal ranges are different in a set')
    ctx.state(ps[i])
    ctx.outcome(t)


LONG = [
    (date(1, 1, 1), 3652059, DAY), (date(9999, 12, 31), 3652059, -DAY),
    (date(1900, 1, 1), 40000, 7 * DAY), (datetime(1, 1, 1), 87649415, H),
    (datetime(2000, 1, 1), 10 ** 9, US), (datetime(
        2000, 1, 1, tzinfo=UTC), 10 ** 13, 1),
    (datetime(1, 1, 1), 315537897599, US + 1 - 1), (datetime(
        1, 1, 2, 3, 4, 5, 6), 10 ** 17, 3), (datetime(
            9999, 12, 31, 23, 59, 59, 999999), 3 * 10 ** 16, -7),
    (datetime(1500, 1, 1, tzinfo=EAST), 10 ** 12, 12345),
    (time(0, 0), 86400, US), (time(23, 0), 86401, -US),
    (time(6, 0), 260000, US), (time(12, 0, 1), 200000, -3 * US),
    (time(0, 0), 10 ** 9, 1), (time(5, 30), 1440 * 7, M),
    (time(5, 30), 1440 * 5 + 7, -M), (time(0, 0, tzinfo=EAST), 3000, 7 * M),
    (time(1, 0), 5000, 23 * H), (time(1, 0), 500, DAY - 7 * US)]


def lengths(ctx):
    """Ranges of every length."""
    n = ctx.number((151, 257, 641))
    start, step = ctx.pick([
        (date(2020, 1, 20), DAY), (date(2021, 3, 5), -3 * DAY),
        (datetime(2020, 2, 27, 12), 7 * H), (datetime(2020, 2, 27), -US),
        (datetime(2021, 6, 1, tzinfo=UTC), DAY), (time(0, 0), 11 * M),
        (time(22, 30), -7 * H), (time(5, 0, tzinfo=WEST), H)])
    r = build(start, n, step)
    t = values(start, n, step)
    ctx.step('%d from %r by %r', n, start, us_td(step))
    ctx.check(len(r) == n and same_all(r, t), '%d values: %r', n, list(r))
    ctx.check(same_all(reversed(r), t[::-1]), 'reversed: %r',
              list(reversed(r)))
    for i in range(-n, n):
        ctx.check(same(r[i], t[i]), '[%d] of %d is %r', i, n, r[i])
        v = t[i]
        ctx.check(v in r and r.index(v) == t.index(v) and
                  r.count(v) == t.count(v), 'index or count of %r (of %d '
                  'values)', v, n)
    for i in (n, -n - 1):
        ctx.check(is_err(outcome(lambda: r[i]), 'IndexError'), '[%d] of %d',
                  i, n)
    for c in (None, 1, -1, 2, -2, 7, -10, n or 1, n + 1):
        for a, b in ((None, None), (n // 3, None), (None, n // 2),
                     (-n // 2, -1), (n - 1, 0), (n, None), (1, n - 1),
                     (n // 2, n // 2 + 1)):
            s = r[a:b:c]
            ctx.stats.transitions += 1
            ctx.check(len(s) == len(t[a:b:c]) and same_all(s, t[a:b:c]),
                      '[%r:%r:%r] of %d values is %r', a, b, c, n, list(s))
    twin = build(start, n, step)
    ctx.check(r == twin and hash(r) == hash(twin), 'ranges of %d values '
              'differ', n)
    ctx.check((r == build(start, n + 1, step)) is False, 'ranges of %d and '
              '%d values are equal', n, n + 1)
    ctx.state((n, start, step))
    ctx.outcome((n, start, step))


def long(ctx):
    """Long ranges, at all places that matter."""
    start, n, step = ctx.pick(LONG)
    r = build(start, n, step)
    base = us_of(start)

    def at(i):
        return make(base + i * step, start)
    pts = sorted({0, 1, 2, 3, 10, 99, 1000, n // 7, n // 3, n // 2, n - n // 3,
                  n - 100, n - 3, n - 2, n - 1} |
                 {DAY // abs(step) * d + e for d in (1, 2, 3, 5)
                  for e in (-1, 0, 1)})
    pts = [p for p in pts if 0 <= p < n]
    ctx.step('range of %d from %s by %s', n, start, us_td(step))
    ctx.check(len(r) == n, 'len is %d', len(r))
    # Number of steps after which a time recurs.
    if isinstance(start, time):
        import math
        period = DAY // math.gcd(DAY, abs(step))
    else:
        period = None
    for p in pts:
        v = at(p)
        ctx.stats.transitions += 6
        ctx.check(same(r[p], v) and same(r[p - n], v), '[%d] is %r instead '
                  'of %r', p, r[p], v)
        first = p if period is None else p % period
        count = 1 if period is None else len(range(first, n, period))
        ctx.check(v in r, '%r is not in it', v)
        out = outcome(r.index, v)
        ctx.check(out == ('ok', first), 'index(%r) is %r instead of %d', v,
                  out, first)
        out = outcome(r.index, v, p, p + 1)
        ctx.check(out == ('ok', p), 'index(%r, %d, %d) is %r', v, p, p + 1,
                  out)
        if p:
            out = outcome(r.index, v, 0, first)
            ctx.check(is_err(out, 'ValueError') or not first, 'index(%r, 0, '
                      '%d) is %r', v, first, out)
        ctx.check(r.count(v) == count, 'count(%r) is %r instead of %d', v,
                  r.count(v), count)
        if abs(step) > 2 and not (isinstance(start, date) and not
                                  isinstance(start, datetime)):
            off = make(us_of(v) + (1 if step > 0 else -1), start)
            want = isinstance(start, time) and math.gcd(DAY, step) == 1
            if not want:
                ctx.check(off not in r and r.count(off) == 0, '%r is in it',
                          off)
    for a in pts[::2] + [None]:
        for b in pts[1::2] + [None]:
            for c in (None, 2, -1, -7, n // 2 + 1, -(n // 3) - 1, 1000003,
                      -86400, 24):
                idx = range(n)[a:b:c]
                s = r[a:b:c]
                ctx.stats.transitions += 1
                ctx.check(len(s) == len(idx), '[%r:%r:%r] has %d values '
                          'instead of %d', a, b, c, len(s), len(idx))
                m = len(idx)
                for q in {0, 1, m // 2, m - 1}:
                    if 0 <= q < m:
                        ctx.check(same(s[q], at(idx[q])), '[%r:%r:%r][%d] '
                                  'is %r instead of %r', a, b, c, q, s[q],
                                  at(idx[q]))
                        ctx.check(s[q] in s, '[%r:%r:%r]: %r is not in it',
                                  a, b, c, s[q])
                        k = s.index(s[q])
                        ctx.check(0 <= k <= q and s[k] == s[q], 'index of '
                                  'element %d of [%r:%r:%r] is %d', q, a, b,
                                  c, k)
    it = iter(reversed(r))
    for k in range(3):
        ctx.check(same(next(it), at(n - 1 - k)), 'reversed is wrong')
    ctx.state((start, n, step))
    ctx.outcome((start, n, step))


ZONES = [UTC, CET, EAST2, CET2, CEST, EAST, WEST, timezone(timedelta(
    hours=1), 'X')]
ZSTARTS = [datetime(2021, 3, 26, 12), datetime(2021, 10, 29, 12),
           datetime(2021, 6, 1), datetime(2021, 12, 31, 23, 30)]
ZSTEPS = [DAY, -DAY, 12 * H, H, -H, 23 * H, 25 * H]


def zones(ctx):
    """Ranges and values of different time zones, also of zones whose offset
    changes: two datetimes are equal if they are the same moment."""
    zone = ctx.pick(ZONES)
    at = ctx.choose(len(ZSTARTS))
    start = ZSTARTS[at].replace(tzinfo=zone)
    step = ctx.pick(ZSTEPS)
    n = ctx.pick([1, 2, 4, 60] if ctx.quick else [1, 2, 3, 6, 60, 200])
    t = values(start, n, step)
    r = build(start, n, step)
    ctx.step('range of %d from %s by %s', n, start, us_td(step))
    probe(ctx, r, t, 'range')
    other = ctx.pick(ZONES)
    vals = [v.astimezone(other) for v in t]
    if n > 6:
        # Those around changes of the offset, and some others.
        offs = [(v.utcoffset(), w.utcoffset()) for v, w in zip(t, vals)]
        at_change = {i + d for i in range(1, n) if offs[i] != offs[i - 1]
                     for d in (-2, -1, 0, 1)}
        vals = [v for i, v in enumerate(vals) if i in at_change or
                not i % 7 or i == n - 1]
    vals += [v + timedelta(hours=h) for v in vals[:9] + vals[-9:]
             for h in (1, -1, 24)]
    vals += [v.replace(tzinfo=other) for v in t[:3] + t[-3:]]
    for v in vals:
        ctx.stats.transitions += 3
        inside = v in t
        ctx.check((v in r) is inside, '%s in it is %r', v, not inside)
        out = outcome(r.count, v)
        ctx.check(out == ('ok', t.count(v)), 'count(%s) is %r instead of '
                  '%d', v, out, t.count(v))
        out = outcome(r.index, v)
        want = outcome(t.index, v)
        ctx.check(out[:2] == want[:2], 'index(%s) is %r instead of %r', v,
                  out, want)
        if inside:
            for a, b in ((0, n), (want[1], None), (want[1] + 1, None),
                         (None, want[1])):
                got = outcome(r.index, v, a, b)
                w = outcome(t.index, v, a or 0, n if b is None else b)
                ctx.check(got[:2] == w[:2], 'index(%s, %r, %r) is %r instead '
                          'of %r', v, a, b, got, w)
    first = t[0].astimezone(other)
    for m in {1, 2, n, n - 1} - {0}:
        for st in ZSTEPS + [step + H, step - H]:
            o = build(first, m, st)
            u = values(first, m, st)
            if m % 2:
                _use(o)
                _use(r)
            for a, x in ((r, t), (r[:m], t[:m])):
                want = x == u
                ctx.stats.transitions += 1
                ctx.check((a == o) is want and (o == a) is want and
                          (a != o) is (not want), '%r == %r is %r', x[:4],
                          u[:4], not want)
                ctx.check(not want or hash(a) == hash(o), 'equal ranges %r '
                          'and %r have different hashes', x[:4], u[:4])
    ctx.state((ZONES.index(zone), at, step, n, ZONES.index(other)))
    ctx.outcome((t, ZONES.index(other)))


def clocks(ctx):
    """Time ranges in different fixed zones."""
    zs = [UTC, EAST, WEST, CEST]
    a, b = ctx.pick(zs), ctx.pick(zs)
    base = ctx.pick([time(0, 0), time(12, 30), time(23, 59, 59)])
    step = ctx.pick([H, -H, 6 * H, 18 * H, 25 * M])
    n = ctx.pick([1, 2, 4, 30])

    def shift(v, z):
        d = datetime.combine(date(2020, 5, 5), v).astimezone(z)
        return d.timetz()
    start = base.replace(tzinfo=a)
    t, r = values(start, n, step), build(start, n, step)
    ctx.step('range of %d from %s by %s', n, start, us_td(step))
    first = shift(start, b)
    for st in (step, -step, step - DAY if step > 0 else step + DAY, 12 * H):
        for m in {1, 2, n}:
            u, o = values(first, m, st), build(first, m, st)
            # (Times are compared by their moment on one day, so that the
            # same clock time can be of another day.)
            want = t == u
            ctx.check((r == o) is want and (not want or hash(r) == hash(o)),
                      '%r == %r is %r', t, u, r == o)
    ctx.state((str(a), str(b), base, step, n))
    ctx.outcome((t, str(b)))


def edges(ctx):
    """Ranges up to the very first and last date that there are."""
    kind = ctx.pick(['date', 'datetime', 'aware'])
    last = ctx.choose(2)
    zone = UTC if kind == 'aware' else None
    n = ctx.pick([1, 2, 5, 40])
    step = ctx.pick([DAY, 2 * DAY] if kind == 'date' else
                    [DAY, H, 1, 7 * US + 3])
    end = (date.max if last else date.min) if kind == 'date' else (
        datetime.max if last else datetime.min).replace(tzinfo=zone)
    away = make(us_of(end) + (-step if last else step) * (n - 1), end)
    sign = 1 if last else -1
    for start, st in ((away, sign * step), (end, -sign * step)):
        t = values(start, n, st)
        r = build(start, n, st)
        what = 'range of %d from %s by %s' % (n, start, us_td(st))
        ctx.step('%s', what)
        probe(ctx, r, t, what)
        for v in list(t[:9]) + list(t[-9:]):
            for a in (None, 0, -1, n - 1):
                out = outcome(r.index, v, a)
                want = outcome(t.index, v, a or 0)
                ctx.check(out[:2] == want[:2], '%s: index(%s, %r) is %r',
                          what, v, a, out)
        for v in (make(us_of(end) - sign * DAY * 50, end),
                  strangers(start)[-1]):
            ctx.check((v in r) is (v in t) and r.count(v) == t.count(v),
                      '%s: %s in it', what, v)
        for a, b, c in slice_args(n, False):
            s, u = r[a:b:c], t[a:b:c]
            ctx.stats.transitions += 1
            ctx.check(same_all(s, u), '%s [%r:%r:%r] has %r', what, a, b, c,
                      list(s)[:5])
            ctx.check(s == r[a:b:c] and hash(s) == hash(r[a:b:c]),
                      '%s [%r:%r:%r] is not equal to itself', what, a, b, c)
    ctx.state((kind, last, n, step))
    ctx.outcome((kind, last, n, step))


class Index:
    def __init__(self, i):
        self.i = i

    def __index__(self):
        return self.i


def odd(ctx):
    """Indexes that are not integers, and use as a sequence."""
    import collections.abc
    import random
    kind = ctx.pick(sorted(STARTS))
    start = STARTS[kind][0]
    step = STEPS[kind][ctx.choose(3)]
    n = ctx.pick([1, 5, 30])
    r = build(start, n, step)
    t = values(start, n, step)
    ctx.step('%r', (start, n, step))
    ctx.check(isinstance(r, collections.abc.Sequence), 'not a Sequence')
    ctx.check(same(r[Index(0)], t[0]) and same(r[True if n > 1 else False],
                                               t[1 if n > 1 else 0]),
              'objects with __index__ do not work')
    for bad in ('0', 1.0, None, (0,), [0]):
        out = outcome(lambda: r[bad])
        ctx.check(is_err(out, 'TypeError'), '[%r] is %r, not a TypeError',
                  bad, out)
    ctx.check(same_all(r[Index(0):Index(n):Index(1)], t), 'slices with '
              '__index__ do not work')
    ctx.check(list(enumerate(r)) == list(enumerate(t)) and
              list(zip(r, r)) == list(zip(t, t)) and
              max(r) == max(t) and sorted(r) == sorted(t), 'differs as an '
              'iterable')
    x, y = random.Random(3), random.Random(3)
    ctx.check(x.choices(r, k=9) == y.choices(t, k=9) and
              x.sample(r, k=n) == y.sample(t, k=n), 'differs as a '
              'population')
    i, j = iter(r), iter(r)
    ctx.check([next(i), next(j), *i] == [t[0], t[0], *t[1:]] and
              list(j) == list(t[1:]), 'iterators disturb each other')
    ctx.state((kind, step, n))
    ctx.outcome(t)


def scenarios(tier, seed):
    return [Scenario('small', small), Scenario('frozen', frozen),
            Scenario('pairs', pairs), Scenario('lengths', lengths, split=2),
            Scenario('long', long, exec_limit=120),
            Scenario('zones', zones), Scenario('clocks', clocks),
            Scenario('edges', edges), Scenario('odd', odd)]
