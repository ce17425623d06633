"""Iterative and Sequential: every sequence of up to four (thorough: five)
operations - requests, resets, reset_after_call switches, new factories good
and bad, direct use of the iterator - against a position model; and every way
of splitting several rounds into requests, for longer sequences."""
import collections
import itertools
import weakref

from fauxdoc.emitters.fixed import Iterative, Sequential

from ..common import is_err, outcome
from ..explore import Scenario, every_size, periodic


def _gen3():
    yield 'g1'
    yield None
    yield 'g3'


class Countdown:
    """An iterable with an iterator written by hand."""

    def __iter__(self):
        n = [3]

        class It:
            def __iter__(self):
                return self

            def __next__(self):
                n[0] -= 1
                if n[0] < 0:
                    raise StopIteration
                return n[0]
        return It()


ITER = [
    ('range', lambda: iter(range(3)), [0, 1, 2]),
    ('one', lambda: iter(['x']), ['x']),
    ('generator', _gen3, ['g1', None, 'g3']),
    ('two', lambda: iter([False, 0]), [False, 0]),
    ('by hand', lambda: iter(Countdown()), [2, 1, 0]),
    ('count', lambda: itertools.count(7), list(range(7, 1400))),
    ('map', lambda: map(str, [5, 6, 5, 7]), ['5', '6', '5', '7']),
]
SEQ = [
    (['a', 'b', 'c'], list('abc')), ('xy', list('xy')), ((7,), [7]),
    (range(4), [0, 1, 2, 3]), ([None, False, None], [None, False, None]),
    (collections.deque([1, 2]), [1, 2]),
]


class Model:
    def __init__(self, seq, rac):
        self.seq, self.rac, self.pos = seq, rac, 0

    def take(self, n):
        out = []
        for _ in range(n):
            out.append(self.seq[self.pos % len(self.seq)])
            self.pos += 1
        return out

    def request(self, n):
        out = self.take(n)
        if self.rac:
            self.pos = 0
        return out


OPS = ([('call', k) for k in (None, 0, 1, 2, 3, 4, 7)] +
       [('emit',), ('emit_many', 1), ('emit_many', 2), ('reset',),
        ('toggle',), ('factory', 0), ('factory', 1), ('bad',), ('next',)])


def _request(ctx, em, m, op):
    kind = op[0]
    k = op[1] if len(op) > 1 else None
    if kind == 'emit':
        out = outcome(em.emit)
    elif kind == 'emit_many':
        out = outcome(em.emit_many, k)
    else:
        out = outcome(em, k) if k is not None else outcome(em)
    want = m.request(1 if k is None else k)
    want = want[0] if k is None else want
    ctx.step('%s(%r) -> %r', kind, k, out)
    ctx.check(out[0] == 'ok', '%s(%r) failed: %r', kind, k, out)
    ctx.check(type(out[1]) is type(want) and out[1] == want and
              repr(out[1]) == repr(want),
              '%s(%r) returned %r instead of %r', kind, k, out[1], want)


def _new(ctx):
    if ctx.choose(2):
        name, factory, seq = ctx.some(ITER)
        rac = bool(ctx.choose(2))
        em = Iterative(factory, rac) if rac else Iterative(factory)
        ctx.step('Iterative(%s, %r)', name, rac)
        return em, Model(seq, rac), True
    items, seq = ctx.some(SEQ)
    rac = bool(ctx.choose(2))
    em = Sequential(items, reset_after_call=rac)
    ctx.step('Sequential(%r, %r)', items, rac)
    return em, Model(seq, rac), False


def histories(ctx):
    # (First choice: the first operation, for even parallel work.)
    depth = 4 if ctx.quick else 5
    first = ctx.choose(1 if ctx.loop else len(OPS))
    em, m, iterative = _new(ctx)
    fac = 0
    for op in itertools.chain([OPS[first]], ctx.history(depth - 1, OPS)):
        kind = op[0]
        if kind in ('call', 'emit', 'emit_many'):
            _request(ctx, em, m, op)
            continue
        ctx.step('%r', op)
        if kind == 'reset':
            em.reset()
            m.pos = 0
        elif kind == 'toggle':
            m.rac = not m.rac
            em.reset_after_call = m.rac
        elif kind == 'factory':
            seq = [['n1', 'n2'], [9, 8, 7, 6]][op[1]]
            em.iterator_factory = lambda seq=seq: iter(seq)
            m.seq, m.pos = seq, 0
        elif kind == 'bad':
            if iterative:
                bad = [lambda: iter([]), lambda: (x for x in ())][fac % 2]
            else:
                bad = [lambda: iter([]), _gen3, lambda: itertools.count(),
                       lambda: map(str, [1])][fac % 4]
            fac += 1
            out = outcome(setattr, em, 'iterator_factory', bad)
            ctx.check(is_err(out, 'ValueError'), 'an unsuitable factory gave '
                      '%r', out)
        else:
            ctx.equal(next(em.iterator), m.take(1)[0], 'next(iterator)')
        if not iterative:
            ctx.check(list(em.items) == m.seq, 'items are %r instead of %r',
                      em.items, m.seq)
        ctx.check(em.reset_after_call is m.rac, 'reset_after_call is %r',
                  em.reset_after_call)
    _request(ctx, em, m, ('call', 5))
    _request(ctx, em, m, ('call', None))
    ctx.state((type(em).__name__, repr(m.seq[:9]), m.rac, m.pos))
    ctx.outcome((repr(m.seq[:9]), m.rac, m.pos % len(m.seq)))


def splits(ctx):
    """All splits of 2 n + 1 values, for n items, into up to four requests."""
    n = ctx.pick([1, 2, 3, 4, 5, 6, 8] if ctx.quick else range(1, 15))
    total = 2 * n + 1
    cuts = ctx.pick(list(itertools.combinations_with_replacement(
        range(total + 1), 3)))
    kind = ctx.choose(4)
    items = ['v%d' % i for i in range(n)]
    em = [lambda: Sequential(items), lambda: Iterative(lambda: iter(items)),
          lambda: Sequential(tuple(items), True),
          lambda: Iterative(lambda: (x for x in items), True)][kind]()
    m = Model(items, kind >= 2)
    parts = [b - a for a, b in zip((0,) + cuts, cuts + (total,))]
    ctx.step('%d items, split %r, kind %d', n, parts, kind)
    for p in parts:
        for k in ([None] if p == 1 else [p]):
            _request(ctx, em, m, ('call', k))
    em.reset()
    m.pos = 0
    _request(ctx, em, m, ('emit_many', n + 1))
    ctx.state((n, cuts, kind))
    ctx.outcome((n, parts[0], kind))


def large(ctx):
    n = ctx.size([10, 31, 32, 33, 64, 99, 100, 101, 128, 255, 256, 257, 1000])
    chunk = ctx.some([1, 2, 3, 7, max(1, n - 1), n, n + 1, 2 * n, 2 * n + 3,
                      5 * n, 10 * n, 11 * n + 1, 12 * n, 40 * n + 7], 5)
    kind = ctx.choose(4)
    start = ctx.some([0, 1, n // 2, n - 1, n + 1], 3)
    items = list(range(n))
    em = [lambda: Sequential(items), lambda: Iterative(lambda: iter(items)),
          lambda: Sequential(range(n), True),
          lambda: Iterative(lambda: (x for x in items), True)][kind]()
    m = Model(items, kind >= 2)
    if start:
        _request(ctx, em, m, ('call', start))
    for i in range(max(3, min(400, 3 * n // chunk + 2))):
        _request(ctx, em, m, ('call', chunk))
        if i % 50 == 3:
            _request(ctx, em, m, ('call', None))
    ctx.state((n, chunk, kind, start))
    ctx.outcome((n, chunk, kind))


def numbers(ctx):
    """Requests for every number of values."""
    k = ctx.number()
    n = ctx.pick([1, 2, 7, 50])
    kind = ctx.choose(4)
    items = list(range(n))
    em = [lambda: Sequential(items), lambda: Iterative(lambda: iter(items)),
          lambda: Sequential(range(n), True),
          lambda: Iterative(lambda: (x for x in items), True)][kind]()
    m = Model(items, kind >= 2)
    for req in (('call', k), ('call', None), ('call', k), ('emit_many', k),
                ('call', 2), ('call', k)):
        _request(ctx, em, m, req)
    em.reset()
    m.pos = 0
    _request(ctx, em, m, ('call', k))
    ctx.state((k, n, kind))
    ctx.outcome((k, n, kind))


CONTENT = [['x', 'y', 'x'], ['x', 'x', 'x', 'y'], [0, False, 0.0, 1, True],
           [None, 'a', None], [[1], [1], {}], ['z'], [None], 'aab', range(3),
           (1, 2, 1, 2, 3), ['b', 'a', 'c', 'a']]


def factories(ctx):
    """Sources of all kinds of content, given at creation or set later."""
    content = ctx.pick(CONTENT)
    kind = ctx.choose(5)
    before = ctx.choose(4)
    rac = bool(ctx.choose(2))
    reqs = ctx.pick(list(itertools.product([None, 0, 1, 2, 3, 7], repeat=3)))
    if kind == 0:
        em = Sequential(content, rac)
    elif kind == 1:
        em = Iterative(lambda: iter(content), rac)
    else:
        em = Sequential(['old1', 'old2', 'old3'], rac) if kind == 2 else \
            Iterative(lambda: iter(['old1', 'old2', 'old3']), rac)
        for _ in range(before):
            em()
        if kind == 4:
            em.iterator_factory = lambda: iter(['mid1', 'mid2'])
            em(before)
        em.iterator_factory = lambda: iter(content)
    m = Model(list(content), rac)
    ctx.step('content %r, kind %d, after %d', content, kind, before)
    for k in reqs:
        _request(ctx, em, m, ('call', k))
    em.reset()
    m.pos = 0
    _request(ctx, em, m, ('emit_many', len(content) + 1))
    if hasattr(em, 'items'):
        ctx.check(repr(list(em.items)) == repr(list(content)),
                  'items are %r instead of %r', em.items, content)
    ctx.state((repr(content), kind, before, rac, reqs))
    ctx.outcome((repr(content), kind, rac))


def rounds(ctx):
    """A source that says which round it is in: every round is taken whole
    and only then the next one begun."""
    n = ctx.pick([1, 2, 3, 5])
    made = [0]

    def factory():
        made[0] += 1
        return iter([(made[0], i) for i in range(n)])
    em = Iterative(factory)
    got = []
    for _ in range(3):
        k = ctx.pick([None, 0, 1, 2, 3, 4, 11])
        got += [em()] if k is None else em(k)
        ctx.step('call(%r)', k)
        if ctx.choose(2):
            em.reset()
            got.append('reset')
    at = None
    seen = set()
    for v in got:
        if v == 'reset':
            at = None
            continue
        if at is None or at[1] == n - 1:
            ctx.check(v[1] == 0 and v[0] not in seen, 'a round begins with '
                      '%r: %r', v, got)
            seen.add(v[0])
        else:
            ctx.check(v == (at[0], at[1] + 1), '%r follows %r: %r', v, at,
                      got)
        at = v
    ctx.state((n, repr(got)))
    ctx.outcome((n, len(got)))


class Value:
    """(Can be referred to weakly.)"""


def lazy(ctx):
    """A source is only taken from as far as it is emitted, and what was
    emitted isn't kept."""
    n = ctx.pick([1, 2, 3, 7, 60])
    rac = bool(ctx.choose(2))
    byhand = ctx.choose(2)
    taken = []
    alive = weakref.WeakSet()

    def one():
        v = Value()
        alive.add(v)
        taken.append(1)
        return v

    def generator():
        for _ in range(n):
            yield one()

    class ByHand:
        def __init__(self):
            self.left = n

        def __iter__(self):
            return self

        def __next__(self):
            self.left -= 1
            if self.left < 0:
                raise StopIteration
            return one()
    em = Iterative([generator, ByHand][byhand], rac)
    for _ in range(3):
        del taken[:]
        k = ctx.pick([None, 0, 1, 2, 3, 7, 8, 200])
        got = [em()] if k is None else em(k)
        ctx.step('call(%r)', k)
        want = 1 if k is None else k
        ctx.check(len(got) == len(set(got)) == want, '%r values are %d',
                  k, len(set(got)))
        ctx.check(len(taken) == want, 'emitting %d values took %d from the '
                  'source', want, len(taken))
        ctx.check(len(alive) <= want + 2, '%d emitted values are kept',
                  len(alive) - want)
        del got
        ctx.check(len(alive) <= 2, '%d emitted values are kept', len(alive))
        if ctx.choose(2):
            em.reset()
    ctx.state((n, rac, byhand, len(ctx.trace), [c for c, _, _ in ctx.trace]))
    ctx.outcome((n, rac, byhand))


def creation(ctx):
    """Empty sources are refused; a good one starts at its first item."""
    i = ctx.choose(12)
    make = [
        (lambda: Sequential([]), None), (lambda: Sequential(''), None),
        (lambda: Sequential(()), None), (lambda: Sequential(range(0)), None),
        (lambda: Iterative(lambda: iter([])), None),
        (lambda: Iterative(lambda: iter(())), None),
        (lambda: Iterative(lambda: (x for x in [])), None),
        (lambda: Iterative(lambda: itertools.islice([1], 0)), None),
        (lambda: Sequential([None]), [None, None]),
        (lambda: Sequential([0]), [0, 0]),
        (lambda: Iterative(lambda: iter([None])), [None, None]),
        (lambda: Iterative(lambda: iter([''])), ['', '']),
    ][i]
    out = outcome(make[0])
    ctx.step('creation %d -> %r', i, out[0])
    if make[1] is None:
        ctx.check(is_err(out, 'ValueError'), 'an empty source (%d) gave %r',
                  i, out)
    else:
        ctx.check(out[0] == 'ok', 'creation %d failed: %r', i, out)
        ctx.equal(out[1](2), make[1], 'call(2)')
    ctx.state(i)
    ctx.outcome(i)


def scenarios(tier, seed):
    return [Scenario('histories', histories),
            Scenario('long use', periodic(histories), split=3), Scenario('splits', splits),
            Scenario('numbers', numbers),
            Scenario('every size', every_size(large), split=2),
            Scenario('large', large), Scenario('factories', factories),
            Scenario('rounds', rounds), Scenario('lazy', lazy),
            Scenario('creation', creation)]
