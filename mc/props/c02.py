"""replace_only_after_call: for every small configuration and every history of
up to two (thorough: three) operations, all RNG answers of the next request
are enumerated - the reachable results must be exactly the repetition-free
selections; plus every (n, k) up to 40 and large sizes under fixed answer
patterns."""
import itertools

from fauxdoc.emitters import Choice

from .. import hrng, law
from ..choicemodel import ChoiceModel, check_attributes, request
from ..common import is_err, outcome
from ..explore import Scenario, every_size, periodic
from .c22 import WEIGHTS, long_use

EPS = 1e-12
SMALL = (EPS, 0.5, hrng.MAXU)
ZEROS = (0.0, 0.5, hrng.MAXU)
FINE = (EPS, .06, .15, .3, .45, .55, .65, .72, .8, .9, .97, hrng.MAXU)

CONFIGS = [
    (['a', 'b', 'c'], None),
    (['a', 'b', 'c', 'd'], None),
    (['a', 'b', 'a'], None),
    ('ab', None),
    ([7], None),
    ([7], [3]),
    (range(5), None),
    (['a', 'b', 'c'], [1, 2, 3]),
    (['a', 'b', 'c', 'd'], [4, 1, 1, 2]),
    (['a', 'b', 'c'], [1, 0, 2]),
    (('a', 'b', 'a', 'c', 'd'), [1, 1, 2, 0, 1]),
    ([[1], [1], {}], None),
]

HISTORY = ([('call', k) for k in (None, 0, 1, 2, 3, 'n', 'n+1', -1)] +
           [('emit', None), ('emit_many', 1), ('emit_many', 2),
            ('reset',), ('seed', 3), ('same_weights',), ('via_no_replace',),
            ('replace_true',), ('roac_off_on',), ('bad_weights',)])


def _apply(ctx, em, op, items, weights, silent):
    kind = op[0]
    n = len(items)
    if kind in ('call', 'emit', 'emit_many'):
        k = op[1]
        k = n if k == 'n' else n + 1 if k == 'n+1' else k
        out = outcome(em.emit) if kind == 'emit' else outcome(
            em if kind == 'call' else em.emit_many, k)
        if silent:
            return
        ctx.step('%s(%r) -> %r', kind, k, out)
        if k is not None and k > n and k > 1:
            ctx.check(is_err(out, 'ValueError'), '%s(%d) of %d items gave %r',
                      kind, k, n, out)
        else:
            ctx.check(out[0] == 'ok', '%s(%r) of %d items gave %r', kind, k,
                      n, out)
    elif kind == 'reset':
        em.reset()
    elif kind == 'seed':
        em.seed(op[1])
    elif kind == 'same_weights':
        em.weights = weights
    elif kind == 'bad_weights':
        outcome(setattr, em, 'weights', [1] * (n + 2))
    elif kind == 'via_no_replace':
        em.replace = False
        em()
        em.replace_only_after_call = True
    elif kind == 'replace_true':
        em.replace = True
    elif kind == 'roac_off_on':
        em.replace_only_after_call = False
        em(2)
        em.replace_only_after_call = True
    if not silent:
        ctx.step('%r', op)


def reach(ctx):
    items, weights = ctx.some(CONFIGS, 4)
    n = len(items)
    big = n > 4 or (n == 4 and weights)
    depth = 1 if ctx.quick and big else (2 if ctx.quick else 3 - big)
    ops = list(ctx.history(depth, HISTORY, stop=True))
    k = ctx.some([None] + list(range(0, n + 1)) + [n + 1])
    mode = ctx.choose(2)
    keys = ['%d:%r' % (i, x) for i, x in enumerate(items)]

    def setup(silent=True):
        with hrng.control(hrng.Pattern('golden')):
            if mode == 0:
                em = Choice(items, weights, replace_only_after_call=True)
            else:
                em = Choice(items, weights, False, True)
            for op in ops:
                _apply(ctx, em, op, items, weights, silent)
            return em

    ctx.step('Choice(%r, %r, replace_only_after_call=True)', items, weights)
    em = setup(silent=False)
    ctx.check(em.replace is True and em.replace_only_after_call is True,
              'settings are %r, %r', em.replace, em.replace_only_after_call)
    ctx.check(em.num_unique_items == n and not em.emits_unique_values,
              'num_unique_items %r, emits_unique_values %r',
              em.num_unique_items, em.emits_unique_values)
    if k is not None and k > n and k > 1:
        ctx.check(is_err(outcome(em, k), 'ValueError'),
                  'requesting %d of %d items was not refused', k, n)
        return
    usable = [x for x, w in zip(items, weights or [1] * n) if w or n == 1]

    def fn(em):
        out = em(k)
        if k is None:
            return repr(out)
        ctx.check(type(out) is list and len(out) == k,
                  'call(%r) returned %r', k, out)
        return tuple(map(repr, out))

    if k is None or k == 1:
        want = {repr(x) if k is None else (repr(x),) for x in usable}
        ok = want

        def allowed(r):
            return None if r in ok else (
                'call(%r) emitted %s; usable are %r' % (k, r, usable))
        wanted = want
    else:
        reps = list(map(repr, items))
        pool = list(map(repr, usable)) if k <= len(usable) else reps

        def allowed(r):
            left = list(reps)
            for x in r:
                if x not in left:
                    return 'one call emitted %r: an item twice (items %r)' % (
                        r, items)
                left.remove(x)
            if k <= len(usable):
                left = list(pool)
                for x in r:
                    if x not in left:
                        return '%r includes an item without weight' % (r,)
                    left.remove(x)
            return None
        if k <= len(usable):
            wanted = set(itertools.permutations(pool, k))
        else:
            wanted = set(itertools.permutations(pool[:0], 0)) \
                if k == 0 else set()
    grids = (SMALL, FINE)
    missing = law.reach(ctx, fn, allowed, wanted, grids, setup)
    ctx.check(not missing, 'after %r, call(%r) can not emit %r any more',
              ops, k, sorted(missing)[:5])
    if weights and n > 1:
        law.reach(ctx, fn, allowed, set(), (ZEROS,), setup)
    ctx.state((repr(items), weights, ops, k))
    ctx.outcome((repr(items), k))


def late(ctx, weights=None):
    """After any number of requests, what one can emit is still every
    selection, all equally likely."""
    n = 3
    items = list('abc')
    used = ctx.number((151, 257, 641))
    size = ctx.choose(3)
    k = 2

    def setup():
        with hrng.control(hrng.Pattern('golden')):
            em = Choice(items, weights, replace_only_after_call=True)
            for _ in range(used):
                em(size) if size else em()
            return em
    want = set(itertools.permutations(items, k))
    ctx.step('%d requests for %r before', used, size)
    missing = law.reach(
        ctx, lambda em: tuple(em(k)), lambda r: None if r in want else
        'emitted %r' % (r,), want, (SMALL, FINE), setup)
    ctx.check(not missing, 'after %d requests for %r, one for %d items can '
              'not give %r any more', used, size, k, sorted(missing))
    ctx.state((used, size, n, repr(weights)))
    ctx.outcome((size, k))


def late_w(ctx):
    late(ctx, [3, 4, 5])


def sizes(ctx):
    """Every n and k: unique positions, full length, no carry-over."""
    n = ctx.pick(list(range(1, 41)) if ctx.quick else list(range(1, 101)))
    k = ctx.choose(n + 2)
    wkind = ctx.pick(['none', 'ramp', 'zeros', 'float', 'huge'])
    weights = {
        'none': None, 'ramp': [1 + i for i in range(n)],
        'zeros': [0 if i % 3 == 1 else 2 for i in range(n)],
        'float': [0.1 + (i * 37 % 11) / 7 for i in range(n)],
        'huge': [10.0 ** (i * 5 % 19 - 9) for i in range(n)]}[wkind]
    for pattern in (['zero', 'max', 'golden', 'saw'] if ctx.quick
                    else hrng.Pattern.NAMES):
        with hrng.control(hrng.Pattern(pattern, ctx=ctx)):
            items = range(1000, 1000 + n)
            em = Choice(items, weights, replace_only_after_call=True)
            m = ChoiceModel(items, weights, roac=True)
            ctx.note('n=%d k=%d weights %s pattern %s', n, k, wkind, pattern)
            for _ in range(2):
                request(ctx, em, m, k)
                request(ctx, em, m, n if n > 1 else 1)
                request(ctx, em, m, None)
            check_attributes(ctx, em, m, 'calls')
    ctx.state((n, k, wkind))
    ctx.outcome((n, k))


def large(ctx):
    n = ctx.size([64, 100, 128, 129, 255, 256, 257, 500, 1000])
    wkind = ctx.choose(3)
    k = ctx.pick(range(131)) if n == 130 else ctx.some(
        sorted({2, 3, 5, 21, 22, int(n * .42) - 1, int(n * .42),
                int(n * .42) + 1, n // 2, n - 1, n, n + 1}), 5)
    pattern = ctx.some(['golden'] + [p for p in hrng.Pattern.NAMES
                                     if p != 'golden'], 1)
    weights = [None, [1 + i % 7 for i in range(n)],
               [(i % 5) / 2 for i in range(n)]][wkind]
    items = [None, list(range(n)), tuple('v%d' % (i // 2)
                                         for i in range(n))][
        1 + ctx.choose(2)]
    with hrng.control(hrng.Pattern(pattern, ctx=ctx)):
        em = Choice(items, weights, replace_only_after_call=True)
        m = ChoiceModel(items, weights, roac=True)
        ctx.note('n=%d k=%d weights %d pattern %s', n, k, wkind, pattern)
        for kk in (k, None, k, 1, n + 1, k):
            request(ctx, em, m, kk)
        check_attributes(ctx, em, m, 'calls')
    ctx.state((n, k, wkind, pattern, type(items).__name__))
    ctx.outcome((n, k))


def huge(ctx):
    """Thousands of items."""
    n = ctx.pick([1001, 5000, 20011, 150001])
    wkind = ctx.choose(3)
    pattern = ctx.pick(['golden', 'saw'])
    items = [range(n), ['s%d' % i for i in range(n)]][ctx.choose(2)]
    weights = [None, [1 + i % 7 for i in range(n)],
               [i % 2 for i in range(n)]][wkind]
    with hrng.control(hrng.Pattern(pattern, ctx=ctx)):
        em = Choice(items, weights, replace_only_after_call=True)
        ctx.step('%d items, weights %d', n, wkind)
        for k in (0, 1, None, 500, n // 3, n // 2, n + 1, n, -1, n - 1, 2,
                  65, 999):
            out = outcome(em) if k is None else outcome(em, k)
            ctx.stats.transitions += 1
            if k is not None and k > n:
                ctx.check(is_err(out, 'ValueError'), 'a request for %d of '
                          '%d: %r', k, n, out[0])
                continue
            ctx.check(out[0] == 'ok', 'a request for %r of %d: %r', k, n, out)
            got = [out[1]] if k is None else out[1]
            want = 1 if k is None else max(k, 0)
            ctx.check(len(got) == want, 'a request for %r gave %d', k,
                      len(got))
            ctx.check(len(set(got)) == want, 'a request for %r of %d items '
                      'has only %d different ones', k, n, len(set(got)))
            nums = got if not wkind or isinstance(items, range) else [
                int(v[1:]) for v in got]
            if wkind == 2 and want <= n // 2:
                ctx.check(all(v % 2 for v in nums), 'items without weight '
                          'were emitted')
            if want == n:
                ctx.check(set(got) == set(items), 'not all items came')
    ctx.state((n, wkind, pattern, type(items).__name__))
    ctx.outcome((n, wkind))


def scenarios(tier, seed):
    return [Scenario('reach', reach),
            Scenario('long reach', periodic(reach, 40, (1,)), split=3),
            Scenario('long use', periodic(lambda ctx: long_use(
                ctx, [{'replace_only_after_call': True}], WEIGHTS)), split=2), Scenario('sizes', sizes),
            Scenario('late', late), Scenario('late w', late_w),
            Scenario('every size', every_size(large, range(41, 131)),
                     split=2),
            Scenario('large', large), Scenario('huge', huge)]
