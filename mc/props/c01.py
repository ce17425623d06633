"""Choice without replacement: explicit-state search to a fixpoint over all
operation histories (requests of every size, resets, reseeds, new weights,
refused operations) with every RNG answer of a small grid as a branch, each
operation compared with a multiset model; plus every way of splitting larger
rounds into calls under fixed answer patterns."""
from fauxdoc.emitters import Choice, gaussian_choice, poisson_choice

from .. import hrng
from ..choicemodel import ChoiceModel, check_attributes, full_key, request
from ..common import dump, is_err, outcome
from ..explore import Scenario, every_size, periodic
from .c22 import WEIGHTS, long_use

DICTS = [{'a': 1}, {'a': 1}, {}]
CONFIGS = [
    (['a', 'b', 'c'], None),
    (['a', 'a', 'b'], None),
    ('xyz', [1, 2, 3]),
    (range(3), [5, 0, 1]),
    (DICTS, None),
    (('solo',), None),
    (['p', 'q'], [0.25, 0.75]),
    ([None, 0, False], None),
    (['a', 'b', 'a', 'b'], None),
]


def fixpoint(ctx):
    items, weights = ctx.pick(CONFIGS)
    n = len(items)
    grid = (0.0, 0.3, 0.9) if n < 4 else (0.2, 0.8)
    with hrng.control(hrng.Scripted(ctx, grid=grid)):
        em = Choice(items, weights=weights, replace=False, rng_seed=1)
        ctx.step('Choice(%r, weights=%r, replace=False)', items, weights)
        m = ChoiceModel(items, weights, replace=False)
        check_attributes(ctx, em, m, 'construction')
        w1 = [i + 1 for i in range(n)]
        w0 = [1] + [0] * (n - 1)
        ops = (['call'] * 0 +
               [('call', k) for k in [None, 0, -1] + list(range(1, n + 2))] +
               [('emit', None), ('emit_many', 1), ('emit_many', n),
                ('emit_many', 0), ('reset',), ('seed', 5),
                ('weights', w1), ('weights', w0), ('weights', None),
                ('cum', [2 * i + 2 for i in range(n)]),
                ('badweights', w1 + [1]), ('replace_noop',), ('noun',)])
        while True:
            ctx.merge(full_key(em, m))
            op = ctx.pick(ops, label='op')
            kind = op[0]
            before = dump(em)
            if kind in ('call', 'emit', 'emit_many'):
                had = len(m.left)
                got = request(ctx, em, m, op[1], kind)
                if got is None or (op[1] is not None and op[1] <= 0):
                    ctx.check(dump(em) == before,
                              '%r (refused or empty) changed the emitter',
                              op)
                    ctx.equal(len(m.left), had, 'model')
                else:
                    ctx.outcome((repr(items), kind, op[1], repr(got)))
            elif kind == 'badweights':
                out = outcome(setattr, em, 'weights', op[1])
                ctx.step('weights = %r -> %r', op[1], out)
                ctx.check(is_err(out, 'ValueError'),
                          'wrong number of weights gave %r', out)
                ctx.check(dump(em) == before, 'refused weights changed the '
                          'emitter')
            else:
                ctx.step('%r', op)
                if kind == 'reset':
                    em.reset()
                    m.restart()
                elif kind == 'seed':
                    em.seed(op[1])
                    m.restart()
                elif kind == 'weights':
                    em.weights = op[1]
                    m.set_weights(op[1])
                elif kind == 'cum':
                    em.cum_weights = op[1]
                    m.set_weights([2] * n)
                elif kind == 'replace_noop':
                    em.replace = False
                    m.set_replace(False)
                elif kind == 'noun':
                    em.noun = 'thing'
            check_attributes(ctx, em, m, op)


def _compositions(n):
    if n == 0:
        yield []
        return
    for first in range(1, n + 1):
        for rest in _compositions(n - first):
            yield [first] + rest


def splits(ctx):
    """Every composition of a round of n items into calls; two rounds."""
    n = ctx.pick([1, 2, 3, 4, 5, 6] if ctx.quick else list(range(1, 10)))
    comp = ctx.pick(list(_compositions(n)))
    wkind = ctx.choose(4)
    weights = [None, [1] * n, list(range(1, n + 1)),
               [0 if i % 2 else 2.5 for i in range(n)]][wkind]
    pattern = ctx.pick(hrng.Pattern.NAMES)
    over = ctx.choose(3)
    with hrng.control(hrng.Pattern(pattern, ctx=ctx)):
        items = ['i%d' % i for i in range(n)]
        em = Choice(items, weights=weights, replace=False, rng_seed=2)
        m = ChoiceModel(items, weights, replace=False)
        ctx.step('Choice(%d items, weights=%r), pattern %s', n, weights,
                 pattern)
        for rnd in range(2):
            for j, k in enumerate(comp):
                if over == 1:
                    request(ctx, em, m, len(m.left) + 1 + j)
                elif over == 2:
                    request(ctx, em, m, -1 - j)
                    request(ctx, em, m, 0)
                request(ctx, em, m, k if j % 2 or k > 1 else None)
                check_attributes(ctx, em, m, 'call %d' % j)
            ctx.check(not m.left, 'round not complete: %r left', m.left)
            request(ctx, em, m, None)
            request(ctx, em, m, 1)
            request(ctx, em, m, 0)
            check_attributes(ctx, em, m, 'exhaustion')
            em.reset() if rnd == 0 else em.seed(9)
            m.restart()
            check_attributes(ctx, em, m, 'restart')
        ctx.state(('splits', n, tuple(comp), wkind, pattern, over))
        ctx.outcome((n, wkind, pattern))


LARGE = [7, 8, 10, 12, 13, 16, 20, 24, 25, 31, 33, 50, 64, 65, 100, 128, 200,
         256, 257, 500, 1000]


def large(ctx):
    """Large item counts, chunked; items from every factory."""
    kind = ctx.pick(['plain', 'weights', 'zeros', 'cum', 'poisson', 'gauss',
                     'dups', 'list'])
    n = ctx.size(LARGE[:-2] if ctx.quick else LARGE)
    chunk = ctx.some(range(1, n + 1), 130) if n == 130 else ctx.some((
        [1, 2, 3, 7] if n <= 65 else [7]) + [
        max(1, int(n * 0.42)), int(n * 0.42) + 1, max(1, n - 1), n], 4)
    pattern = ctx.some(['golden', 'zero', 'max', 'up'] if ctx.quick
                       else hrng.Pattern.NAMES, 1)
    with hrng.control(hrng.Pattern(pattern, ctx=ctx)):
        items = range(100, 100 + n)
        w = None
        if kind == 'plain':
            em = Choice(items, replace=False)
        elif kind == 'weights':
            w = [1 + (i * 7) % 5 for i in range(n)]
            em = Choice(items, w, replace=False)
        elif kind == 'zeros':
            w = [(i * 7) % 3 for i in range(n)]
            em = Choice(items, w, replace=False)
        elif kind == 'cum':
            w = [1] * n
            em = Choice(items, cum_weights=list(range(1, n + 1)),
                        replace=False)
        elif kind == 'poisson':
            em = poisson_choice(items, mu=3, replace=False)
            w = list(em.weights)
        elif kind == 'gauss':
            em = gaussian_choice(items, mu=n / 3, sigma=2, replace=False,
                                 weight_floor=0.0)
            w = list(em.weights)
        elif kind == 'dups':
            items = [i // 2 for i in range(n)]
            em = Choice(items, replace=False)
        else:
            items = [[i // 3] for i in range(n)] if n <= 64 else \
                ['s%d' % i for i in range(n)]
            em = Choice(items, replace=False)
        ctx.step('%s choice of %d items, chunks of %d, pattern %s', kind, n,
                 chunk, pattern)
        m = ChoiceModel(items, w, replace=False)
        i = 0
        while m.left:
            k = min(chunk, len(m.left))
            request(ctx, em, m, k)
            i += 1
            if i < 4 or len(m.left) < 2 * chunk:
                request(ctx, em, m, 0)
                request(ctx, em, m, -1)
            if i % 5 == 1 or len(m.left) < 3:
                check_attributes(ctx, em, m, 'chunk')
                request(ctx, em, m, len(m.left) + 1)
            if chunk == 1 and i > 120:
                request(ctx, em, m, len(m.left))
        ctx.check(is_err(outcome(em), 'ValueError'),
                  'an exhausted emitter did not raise ValueError')
        em.reset()
        m.restart()
        check_attributes(ctx, em, m, 'reset')
        request(ctx, em, m, n)
        ctx.state((n, kind, chunk, pattern))
        ctx.outcome((n, kind, chunk))


def huge(ctx):
    """Thousands of items (counted by numbers, against a plain counter)."""
    import collections
    n = ctx.pick([1001, 2500, 10007, 70001, 150001])
    kind = ctx.pick(['plain', 'weights', 'zeros', 'dups', 'strings'])
    pattern = ctx.pick(['golden', 'zero'])
    items = range(n)
    w = None
    if kind == 'weights':
        w = [1 + i % 3 for i in items]
    elif kind == 'zeros':
        w = [i % 2 for i in items]
    elif kind == 'dups':
        items = [i // 3 for i in items]
    elif kind == 'strings':
        items = tuple('s%d' % i for i in items)
    with hrng.control(hrng.Pattern(pattern, ctx=ctx)):
        em = Choice(items, w, replace=False)
        ctx.step('Choice of %d items (%s)', n, kind)
        for rnd in range(2):
            left = collections.Counter(items)
            num = n
            for k in (0, 1, None, -1, 2, 999, 0, n // 3, n // 2, n + 1,
                      'rest', 0, 1, None):
                if k == 'rest':
                    k = num
                ctx.stats.transitions += 1
                ctx.check(em.num_unique_values == len(+left), 'with %d '
                          'left, num_unique_values is %d', num,
                          em.num_unique_values)
                out = outcome(em) if k is None else outcome(em, k)
                want = 1 if k is None else max(k, 0)
                if want > num:
                    ctx.check(is_err(out, 'ValueError'), 'a request for %r '
                              'with %d left: %r', k, num, out[0])
                    continue
                ctx.check(out[0] == 'ok', 'a request for %r with %d left: '
                          '%r', k, num, out)
                got = [out[1]] if k is None else out[1]
                ctx.check(len(got) == want, 'a request for %r gave %d', k,
                          len(got))
                left.subtract(got)
                num -= want
                ctx.check(min(left.values()) >= 0 and sum(left.values()) ==
                          num, 'values were emitted more often than they '
                          'occur (after a request for %r)', k)
                if kind == 'zeros' and num >= n - n // 2:
                    ctx.check(all(v % 2 for v in got), 'items of weight 0 '
                              'came before others')
            em.reset()
    ctx.state((n, kind, pattern))
    ctx.outcome((n, kind))


def scenarios(tier, seed):
    return [Scenario('fixpoint', fixpoint, bfs=True),
            Scenario('splits', splits),
            Scenario('long use', periodic(lambda ctx: long_use(
                ctx, [{'replace': False}], WEIGHTS)), split=2),
            Scenario('every size', every_size(large), split=2),
            Scenario('large', large), Scenario('huge', huge)]
