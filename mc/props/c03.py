"""Weighted choice: the exact distribution of every request is computed by
enumerating all answers of the RNG on an aligned grid, and compared with the
product of weight/total as exact fractions, after every short history of
setting changes; 'never' is checked on extreme answers (0.0, just below 1,
and both sides of every boundary)."""
import collections
import itertools
import math
from fractions import Fraction

from fauxdoc.emitters import Choice, chance

from .. import hrng, law
from ..choicemodel import ChoiceModel, check_attributes
from ..common import outcome
from ..explore import Scenario, every_size, periodic
from .c22 import WEIGHTS, long_use

CONFIGS = [
    (['a', 'b', 'c'], [1, 2, 3]),
    (['a', 'b'], [3, 1]),
    (['a', 'b', 'c', 'd'], [0, 1, 2, 0]),
    (['a', 'b'], [0.25, 0.75]),
    (['a', 'b', 'c'], [1, 0, 0]),
    (['a', 'b', 'c'], [0, 0, 1]),
    (['a', 'b', 'a', 'c'], [1, 1, 2, 2]),
    (range(6), [0.5, 0.5, 0, 1, 1, 1]),
    ('xyz', None),
    (['a'], None),
    (['a'], [5]),
    (['a', 'a', 'b'], None),
    (list('abcdef'), None),
    ((0, False, None, ''), None),
    (list('abcd'), [300, 300, 0, 600]),
    (list('abc'), [Fraction(1, 3), Fraction(1, 3), Fraction(1, 3)]),
    ([10, 20], [0.0, 2.0]),
    (list('abcdefghijkl'), None),
]


def _make(items, weights, how):
    n = len(items)
    if weights is None:
        if how == 0:
            return Choice(items)
        if how == 1:
            return Choice(items, None, True, False, '', None, None)
        em = Choice(items, [1] * (n - 1) + [2])
        if how == 2:
            em.weights = None
        else:
            em.cum_weights = None
        return em
    cum = list(itertools.accumulate(weights))
    if how == 0:
        return Choice(items, weights)
    if how == 1:
        return Choice(items, cum_weights=cum)
    em = Choice(items) if how == 2 else Choice(items, [1] * n)
    if how == 2:
        em.weights = tuple(weights)
    else:
        em.cum_weights = cum
    return em


def _want(items, weights, k):
    ws = [Fraction(w) for w in (weights or [1] * len(items))]
    tot = sum(ws)
    one = {}
    for x, w in zip(items, ws):
        if w or len(items) == 1:
            p = w / tot if len(items) > 1 else Fraction(1)
            one[repr(x)] = one.get(repr(x), 0) + p
    out = {(): Fraction(1)}
    for _ in range(k):
        out = {a + (x,): p * q for a, p in out.items()
               for x, q in one.items()}
    return out


def _compare(ctx, got, want, what, tol=0):
    for r in set(got) | set(want):
        g, w = got.get(r, 0), want.get(r, 0)
        if w == 0 or g == 0 or abs(g - w) > tol:
            if w == g == 0:
                continue
            ctx.check(False, '%s emits %r with probability %s instead of %s',
                      what, r, g, w)


PRE = ['none', 'call3', 'reset', 'seed', 'noreplace_and_back',
       'roac_and_back', 'bad_weights', 'bad_cum', 'exhaust_and_back',
       'other_weights_and_back', 'error_call', 'long use', 'long changes']


def _pre(em, op, items, weights):
    n = len(items)
    if op == 'call3':
        em(3)
        em()
        em(0)
    elif op == 'reset':
        em.reset()
    elif op == 'seed':
        em.seed('s')
    elif op == 'noreplace_and_back':
        em.replace = False
        em()
        em.replace = True
    elif op == 'roac_and_back':
        em.replace_only_after_call = True
        em(min(2, n))
        em.replace_only_after_call = False
    elif op == 'bad_weights':
        outcome(setattr, em, 'weights', [1] * (n + 1))
    elif op == 'bad_cum':
        outcome(setattr, em, 'cum_weights', range(n + 1))
    elif op == 'exhaust_and_back':
        em.replace = False
        em(n)
        outcome(em)
        em.replace = True
    elif op == 'other_weights_and_back':
        em.cum_weights = range(1, n + 1)
        em()
        em.weights = weights
    elif op == 'long use':
        for i in range(40):
            em() if i % 2 else em(i % 5)
    elif op == 'long changes':
        for i in range(36):
            em.weights = weights
            em()
            if i % 3 == 1:
                em.replace = False
                em()
                em.reset()
                em.replace = True
    elif op == 'error_call':
        em.replace_only_after_call = True
        outcome(em, n + 5)
        em.replace = True
        em.replace_only_after_call = False


def laws(ctx):
    items, weights = ctx.pick(CONFIGS)
    how = ctx.choose(4)
    depth = 1 if ctx.quick else 2
    pre = [PRE[ctx.choose(len(PRE))] for _ in range(depth)]
    req = ctx.pick([('call', None), ('call', 1), ('call', 2), ('call', 3),
                    ('emit', None), ('emit_many', 1), ('emit_many', 2),
                    ('call_roac', 1), ('call_roac', None), ('call', 0)])
    n = len(items)
    if req[1] == 3 and n > 4:
        req = ('call', 2)

    def setup():
        with hrng.control(hrng.Pattern('golden')):
            em = _make(items, weights, how)
            for op in pre:
                _pre(em, op, items, weights)
            if req[0] == 'call_roac':
                em.replace_only_after_call = True
            return em

    def fn(em):
        kind, k = req
        v = em.emit() if kind == 'emit' else em.emit_many(k) \
            if kind == 'emit_many' else em(k)
        if k is None:
            return (repr(v),)
        ctx.check(type(v) is list, '%r returned %r', req, v)
        return tuple(map(repr, v))

    ctx.step('Choice %r weights %r (form %d), after %r: %r', items, weights,
             how, pre, req)
    em = setup()
    model = ChoiceModel(items, weights, True, req[0] == 'call_roac')
    check_attributes(ctx, em, model, pre)
    m = 24 if n == 6 and weights else 12
    got = law.law(ctx, fn, m, setup)
    k = 1 if req[1] is None else req[1]
    _compare(ctx, got, _want(items, weights, k), '%r of %r, weights %r (form '
             '%d, after %r)' % (req, items, weights, how, pre))
    ctx.state((repr(items), repr(weights), how, pre, req))
    ctx.outcome((repr(items), repr(weights), req))


class OneDraw(hrng.Pattern):
    """Answers one of the draws with the j-th of `total` spread values."""

    def __init__(self, j, at, total):
        super().__init__('golden')
        self.j, self.at, self.draws, self.total = j, at, 0, total

    def draw_random(self, rng):
        self.draws += 1
        return ((self.j + 0.5) / self.total if self.draws - 1 == self.at
                else super().draw_random(rng))

    def draw_below(self, rng, nn):
        self.draws += 1
        return (self.j * nn // self.total if self.draws - 1 == self.at
                else super().draw_below(rng, nn))


def wide(ctx):
    """Many items: exact one-draw law, and of each position of a request."""
    n = ctx.size([5, 7, 13, 31, 32, 33, 64, 100, 127, 128, 129, 200, 255,
                  256, 257, 300, 500, 1000])
    kind = ctx.choose(4)
    weights = [None, [1 + i % 3 for i in range(n)],
               [(i + 1) % 4 for i in range(n)],
               [0] * (n - 1) + [1]][kind]
    how = ctx.some(range(4))
    pos = ctx.some([None, 0, 1, 4])
    total = n if weights is None else sum(weights)
    items = range(n)
    ctx.step('%d items, weights %d, form %d, position %r', n, kind, how, pos)
    with hrng.control(hrng.Pattern('golden')):
        em = _make(items, weights, how)
    check_attributes(ctx, em, ChoiceModel(items, weights, True), 'creation')
    got = {}

    for j in range(total):
        with hrng.control(OneDraw(j, pos or 0, total)):
            v = em() if pos is None else em(6)[pos]
        ctx.stats.transitions += 1
        got[v] = got.get(v, 0) + 1
    want = {i: (1 if weights is None else weights[i]) for i in items}
    for i in range(n):
        ctx.check(got.get(i, 0) == want[i], 'item %d of %d was chosen by %d '
                  'of %d equally likely answers instead of %d (weights %s)',
                  i, n, got.get(i, 0), total, want[i],
                  None if weights is None else weights[:8])
    ctx.state((n, kind, how, pos))
    ctx.outcome((n, kind))


def numbers(ctx):
    """The exact law of every place of requests for every number."""
    k = ctx.size([1])
    kind = ctx.choose(4)
    how = ctx.some(range(4))
    weights = [[1, 2, 0, 3], [5, 1], None, [1, 0, 0, 0, 1]][kind]
    items = ['i%d' % i for i in range(len(weights or 'abc'))]
    total = sum(weights or [1] * 3)
    with hrng.control(hrng.Pattern('golden')):
        em = _make(items, weights, how)
        # (Some requests before.)
        em(3)
        em()
    ctx.step('%r, weights %r, requests for %d', items, weights, k)
    for pos in {0, k // 3, k // 2, k - 2, k - 1} - {-1}:
        got = collections.Counter()
        for j in range(total):
            with hrng.control(OneDraw(j, pos, total)):
                got[em(k)[pos]] += 1
            ctx.stats.transitions += 1
        want = collections.Counter({
            i: w for i, w in zip(items, weights or [1] * 3) if w})
        ctx.check(got == want, 'value %d of a request for %d: of %d equally '
                  'likely answers, %r instead of %r', pos, k, total,
                  dict(got), dict(want))
    ctx.state((k, kind, how))
    ctx.outcome((k, kind))


class TwoDraws(hrng.Pattern):
    """Answers two of the draws with the i-th and j-th of `total` values."""

    def __init__(self, at, total):
        super().__init__('golden')
        self.at, self.draws, self.total = at, 0, total

    def draw_random(self, rng):
        self.draws += 1
        j = self.at.get(self.draws - 1)
        return super().draw_random(rng) if j is None else \
            (j + 0.5) / self.total

    def draw_below(self, rng, nn):
        self.draws += 1
        j = self.at.get(self.draws - 1)
        return super().draw_below(rng, nn) if j is None else \
            j * nn // self.total


def joint(ctx):
    """Two values of one request are independent, however many items there
    are and whether or not their weights differ: the exact joint law."""
    n = ctx.pick([2, 5, 8, 12, 20, 33] if ctx.quick else
                 [2, 3, 5, 8, 12, 16, 20, 33, 64])
    kind = ctx.choose(5)
    weights = [None, [1] * n, [0.25] * n, [1 + i % 2 for i in range(n)],
               [i % 2 for i in range(n)]][kind]
    how = ctx.choose(4)
    k = ctx.pick([2, 3, 5, 7, n, n + 1])
    if k < 2:
        k = 2
    a, b = ctx.pick([(0, 1), (0, k - 1), (k - 2, k - 1)])
    ints = [1] * n if kind in (0, 1, 2) else weights
    total = sum(ints)
    with hrng.control(hrng.Pattern('golden')):
        em = _make(range(n), weights, how)
    ctx.step('%d items, weights %d, form %d, values %d and %d of %d', n,
             kind, how, a, b, k)
    got = {}
    for i in range(total):
        for j in range(total):
            with hrng.control(TwoDraws({a: i, b: j}, total)):
                v = em(k)
            ctx.stats.transitions += 1
            ctx.check(len(v) == k, 'call(%d) gave %d values', k, len(v))
            got[v[a], v[b]] = got.get((v[a], v[b]), 0) + 1
    for x in range(n):
        for y in range(n):
            g, w = got.get((x, y), 0), ints[x] * ints[y]
            ctx.check(g == w, 'values %d and %d of a call for %d are items '
                      '%d and %d of %d for %d of %d equally likely answers '
                      'instead of %d (weights %r)', a, b, k, x, y, n, g,
                      total * total, w, weights and weights[:6])
    ctx.state((n, kind, how, k, a, b))
    ctx.outcome((n, kind, k))


def never(ctx):
    """Zero-weight items, on extreme and boundary answers."""
    n = ctx.pick([2, 3, 4, 5, 8, 17, 64])
    zero = ctx.pick(['first', 'last', 'ends', 'odd', 'allbutone', 'mid'])
    scale = ctx.pick([1, 0.1, 1e-9, 1e9, 3, 1 / 3, 7.7])
    how = ctx.choose(4)
    iszero = {
        'first': lambda i: i == 0, 'last': lambda i: i == n - 1,
        'ends': lambda i: n > 2 and i in (0, n - 1),
        'odd': lambda i: i % 2 == 1, 'allbutone': lambda i: i != n // 2,
        'mid': lambda i: n > 2 and i == n // 2}[zero]
    # With cumulative weights, a zero has to be an exact repetition.
    weights = [0 if iszero(i) else scale * (1 + i % 3) for i in range(n)]
    items = range(n)
    em = _make(items, weights, how)
    ctx.step('weights %r, form %d', weights, how)
    cum = list(itertools.accumulate(weights))
    us = {0.0, hrng.MINU, 0.5, hrng.MAXU}
    for c in cum:
        u = c / cum[-1]
        for x in (u, math.nextafter(u, 0), math.nextafter(u, 1)):
            if 0 <= x < 1:
                us.add(x)
    for u in sorted(us):
        for k in (None, 1, 2, 5):
            with hrng.control(law.Branch((u,), ())):
                out = em(k)
            ctx.stats.transitions += 1
            for v in (out if k is not None else [out]):
                ctx.check(not iszero(v), 'item %d of weight 0 was emitted '
                          'for RNG answer %r', v, u)
    ctx.state((n, zero, scale, how))
    ctx.outcome((n, zero))


def chances(ctx):
    p = ctx.pick([-1e308, -5, -1, -1e-9, -0.0, 0, 0.0, False, 5e-324, 1e-300,
                  1e-9, 1 / 12, .1, 0.25, 0.3, 1 / 3, 0.5, 7 / 12, 0.75, 0.9,
                  11 / 12, 0.95, 1 - 1e-9, 1 - 2.0 ** -53, 1, 1.0, True,
                  1.0000001, 1.5, 2, 17, 100, 1e308, float('inf'),
                  float('-inf'), Fraction(1, 4), Fraction(5, 4)])
    seed = ctx.pick([None, 3, 'x'])
    pre = ctx.pick(['none', 'call3', 'reset', 'seed'])
    k = ctx.pick([None, 1, 2, 3])

    def setup():
        em = chance(p, seed) if seed != 3 else chance(p, rng_seed=3)
        _pre(em, pre, [True, False], None)
        return em

    def fn(em):
        v = em(k)
        return (v,) if k is None else tuple(v)

    ctx.step('chance(%r)(%r) after %s', p, k, pre)
    m = 20 if p in (.1, .3, .9, .95) else 12
    got = law.law(ctx, fn, m, setup)
    q = Fraction(max(0, min(1, p)))
    want = {}
    kk = k or 1
    for combo in itertools.product([True, False], repeat=kk):
        w = Fraction(1)
        for v in combo:
            w *= q if v else 1 - q
        want[combo] = w
    if 1e-8 < q < 1 - 1e-8:
        for combo in want:
            g = got.get(combo, 0)
            ctx.check(abs(g - want[combo]) < 1e-9, 'chance(%r)(%r) gives %r '
                      'with probability %s', p, k, combo, float(g))
    if q in (0, 1):
        for u in (0.0, hrng.MINU, 1e-300, 0.5, math.nextafter(1, 0),
                  hrng.MAXU):
            em = setup()
            with hrng.control(law.Branch((u,), ())):
                for _ in range(3):
                    for v in fn(em):
                        ctx.check(v is (q == 1), 'chance(%r) emitted %r for '
                                  'RNG answer %r', p, v, u)
    ctx.check(all(type(v) is bool for c in got for v in c),
              'chance emitted %r', got)
    ctx.state((repr(p), seed, pre, k))
    ctx.outcome((repr(p), k))


def fine(ctx):
    """Weightings and chances that need many steps to be told apart: the
    exact number of N equally spread answers for which each item is chosen."""
    total = ctx.pick([250, 1000, 4096, 10007] if not ctx.quick else
                     [250, 1000, 4096])
    kind = ctx.pick(['chance', 'two', 'three', 'cum', 'scaled'])
    part = ctx.pick([1, 2, 3, 5, 7, total // 200, total // 100 + 1,
                     total // 8 - 1, total // 3, total // 2,
                     total // 2 + 1, total - 7, total - 2, total - 1])
    pos = ctx.pick([None, 0, 1, 2])
    want = {True: part, False: total - part}
    if kind == 'three':
        want = {'a': part, 'b': 1, 'c': total - part - 1}
    rest = dict(want)

    def make():
        with hrng.control(hrng.Pattern('golden')):
            if kind == 'chance':
                return chance(part / total)
            if kind == 'cum':
                return Choice([True, False], cum_weights=[part, total])
            if kind == 'scaled':
                return Choice([True, False], [part * 7.5e-7,
                                              (total - part) * 7.5e-7])
            return Choice(list(rest), list(rest.values()))

    ctx.step('%s with %d of %d, position %r', kind, part, total, pos)
    em = make()
    got = {}
    for j in range(total):
        with hrng.control(OneDraw(j, pos or 0, total)):
            v = em() if pos is None else em(4)[pos]
        ctx.stats.transitions += 1
        got[v] = got.get(v, 0) + 1
    for v, w in want.items():
        ctx.check(got.get(v, 0) == w, '%s: %r was chosen by %d of %d equally '
                  'likely answers instead of %d', kind, v, got.get(v, 0),
                  total, w)
    ctx.state((total, kind, part, pos))
    ctx.outcome((total, kind, part))


def attrs(ctx):
    """The two weight attributes stay two views of one weighting."""
    n = ctx.pick([1, 2, 3, 4, 7, 50])
    items = list(range(n))
    ws = [[1] * n, [i + 1 for i in range(n)], [0.1 * (i + 1) for i in
                                               range(n)],
          [0] * (n - 1) + [3], [2.5] + [0] * (n - 1), None]
    sets = [('weights', w) for w in ws] + [
        ('cum_weights', None if w is None else
         list(itertools.accumulate(w))) for w in ws]
    m = ChoiceModel(items, None)
    form = ctx.choose(3)
    if form == 0:
        em = Choice(items)
    elif form == 1:
        em = Choice(items, ws[1])
        m.weights = ws[1]
    else:
        em = Choice(items, cum_weights=tuple(itertools.accumulate(ws[2])))
        m.weights = ws[2]
    check_attributes(ctx, em, m, 'creation')
    for _ in range(2 if ctx.quick else 3):
        i = ctx.choose(len(sets))
        name, value = sets[i]
        given = None if value is None else list(value)
        setattr(em, name, given)
        ctx.step('%s = %r', name, value)
        m.set_weights(ws[i % len(ws)])
        check_attributes(ctx, em, m, (name, value))
        if given:
            # Changing the list that was passed in changes nothing.
            given[0] = 99
            given.append(1)
            check_attributes(ctx, em, m, 'changing the caller\'s list')
    ctx.state((n, form, repr(m.weights)))
    got = law.law(ctx, lambda: (repr(em()),), 12 * (n if n < 5 else 1))
    if n < 5:
        _compare(ctx, got, _want(items, m.weights, 1), 'call()',
                 Fraction(1, 9))
    ctx.outcome((n, repr(m.weights)))


SCALES = [[1000000, 0.5], [0.5, 1000000], [3, 10 ** 9, 2, 7], [1e-9, 1.0],
          [10 ** 15, 1, 0, 10 ** 15], [1e300, 1e290], [123457] * 3,
          [1e-300, 2e-300], [0.001] * 7 + [99999.5], [2 ** 53, 1, 1],
          list(range(500, 0, -1)), [1, 10 ** 5, 10 ** 10]]


def scales(ctx):
    """Weights of any magnitude stay as they are, in every form."""
    ws = ctx.pick(SCALES)
    form = ctx.choose(6)
    times = ctx.pick([1, 0.25, 64])
    ws = [w * times for w in ws]
    items = list(range(len(ws)))
    cum = list(itertools.accumulate(ws))
    if form == 0:
        em = Choice(items, ws)
    elif form == 1:
        em = Choice(items, cum_weights=cum)
    elif form == 2:
        em = Choice(items)
        em.weights = ws
    elif form == 3:
        em = Choice(items, [1] * len(items))
        em.cum_weights = cum
    elif form == 4:
        em = Choice(items, tuple(ws), False)
        em.replace = True
    else:
        em = Choice(items, ws, replace_only_after_call=True)
        em(2)
    ctx.step('weights %r', ws)
    for name, want in (('weights', ws), ('cum_weights', cum)):
        got = list(getattr(em, name))
        ctx.check(len(got) == len(want) and all(
            abs(a - b) <= 1e-9 * cum[-1] for a, b in zip(got, want)),
            '%s are %r for weights %r', name, got, ws)
    # At every value where the choice goes from one item to the next (and
    # well away from it), the weights decide.
    if form not in (4, 5):
        for i in range(len(ws)):
            lo = (cum[i - 1] if i else 0) / cum[-1]
            hi = cum[i] / cum[-1]
            if hi - lo < 1e-6:
                continue
            for part in (0.001, 0.5, 0.999):
                at = lo + (hi - lo) * part
                with hrng.control(OneDraw(int(at * 2 ** 40), 0, 2 ** 40)):
                    v = outcome(em)
                ctx.check(v == ('ok', i), 'an answer of %r chose %r instead '
                          'of %r (weights %r)', at, v, i, ws)
    ctx.state((repr(ws), form))
    ctx.outcome((repr(ws), form))


class Spread(hrng.Controller):
    """Answers that differ from draw to draw, without any short period."""

    def __init__(self, start):
        self.state = start * 7919 + 12345

    def _next(self):
        self.state = (self.state * 6364136223846793005 +
                      1442695040888963407) % 2 ** 64
        return self.state >> 11

    def draw_random(self, rng):
        return self._next() / 2 ** 53

    def draw_below(self, rng, n):
        return self._next() * n >> 53


def aliases(ctx):
    """In requests of any size, each value is chosen on its own: no two
    positions have the same value whatever the RNG answers."""
    n = 997
    kind = ctx.choose(3)
    how = ctx.some(range(4), 1)
    roac = ctx.choose(2)
    k = ctx.size([2, 3, 8, 17, 65, 130, 257, 600, 996] +
                 [1100, 5001, 12000, 30000] * (not roac))
    weights = [None, [1] * n, [1 + i % 3 for i in range(n)]][kind]
    em = _make(range(n), weights, how)
    if roac:
        em.replace_only_after_call = True
    ctx.step('%d of %d items, weights %d, form %d', k, n, kind, how)
    cols = []
    for start in range(4):
        with hrng.control(Spread(start)):
            cols.append(em(k))
        ctx.stats.transitions += k
        ctx.check(len(cols[-1]) == k, 'emitted %d values', len(cols[-1]))
    rows = list(zip(*cols))
    different = len(set(rows))
    ctx.check(different >= k - k // 100, 'only %d of the %d values of one '
              'request are chosen on their own', different, k)
    if not roac:
        # No two neighbours (and no two further away) go together, either.
        for d in (1, 2, k // 2, k - 1):
            same = sum(a == b for a, b in zip(rows, rows[d:])) if d else 0
            ctx.check(same <= max(1, k // 100), '%d pairs of values at a '
                      'distance of %d are the same for all answers', same, d)
        per_item = {}
        for v in cols[0] + cols[1] + cols[2] + cols[3]:
            per_item[v] = per_item.get(v, 0) + 1
        ctx.check(k < 5000 or (len(per_item) > n * .98 and
                               max(per_item.values()) < 40 * k / n),
                  '%d of %d items were emitted', len(per_item), n)
    ctx.state((kind, how, roac, k))
    ctx.outcome((kind, roac, k))


def scenarios(tier, seed):
    return [Scenario('scales', scales), Scenario('laws', laws),
            Scenario('long use', periodic(lambda ctx: long_use(
                ctx, [{}], WEIGHTS + [('replace', True)])), split=2), Scenario('wide', wide),
            Scenario('every size', every_size(wide), split=2),
            Scenario('numbers', every_size(numbers), split=2),
            Scenario('every number', every_size(aliases, range(2, 131),
                                                (151, 257, 641)), split=2),
            Scenario('joint', joint), Scenario('never', never), Scenario('chances', chances),
            Scenario('fine', fine), Scenario('attrs', attrs), Scenario('aliases', aliases)]
