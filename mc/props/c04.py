"""weighted_shuffle: all (n, k, weights) up to 5 items with all RNG answers
from a grid with extremes; the law of both algorithms by enumeration over an
aligned grid; every (n, k) up to 60 and larger sizes under answer patterns."""
import itertools
import random
from fractions import Fraction

from fauxdoc.mathtools import weighted_shuffle

from .. import hrng, law
from ..common import Obj, is_err, outcome
from ..explore import Scenario, every_size


def _judge(ctx, items, weights, k, res):
    """items must be distinct."""
    want = len(items) if k is None else k
    ctx.check(type(res) is list, 'returned %r instead of a list', res)
    ctx.check(len(res) == want, 'returned %d items instead of %d: %r',
              len(res), want, res)
    pos = {id(x) if isinstance(x, Obj) else x: i for i, x in enumerate(items)}
    idx = []
    for x in res:
        p = pos.get(id(x) if isinstance(x, Obj) else x)
        ctx.check(p is not None, 'returned %r, which is not an item', x)
        idx.append(p)
    ctx.check(len(set(idx)) == len(idx), 'returned an item twice: positions '
              '%r', idx)
    nnz = sum(1 for w in weights if w)
    for j, p in enumerate(idx):
        ctx.check(bool(weights[p]) == (j < nnz), 'items of zero weight come '
                  'too early: positions %r of weights %r', idx, list(weights))
    return tuple(idx)


def small(ctx):
    n = ctx.pick([5, 4, 3, 2, 1, 0] if ctx.quick else [6, 5, 4, 3, 2, 1, 0])
    first = ctx.choose(4) if n else 0
    vals = (0, 1e-9, 2.5, 60)
    weights = ([vals[first]] + [vals[ctx.choose(4)] for _ in range(n - 1)]) \
        if n else []
    items = [Obj('i%d' % i) for i in range(n)]
    keep_i, keep_w = list(items), list(weights)
    grid = (0.0, 0.45, hrng.MAXU) if n > 3 else (
        0.0, hrng.MINU, 0.3, 0.7, hrng.MAXU)
    if n == 6:
        grid = (0.0, hrng.MAXU)
    for k in [None] + list(range(n + 1)):
        rng = random.Random(1)
        seen = set()
        for res, _ in law.branches(
                ctx, lambda: weighted_shuffle(items, weights, rng, k), grid):
            seen.add(_judge(ctx, items, weights, k, res))
            if items != keep_i or weights != keep_w:
                ctx.check(False, 'the items or weights passed were modified')
        ctx.outcome((n, k, len(seen)))
    ctx.step('weights %r', weights)
    ctx.state(tuple(weights))


LAWS = [([1, 1], None, 200), ([1, 2], None, 200), ([3, 1], 2, 200),
        ([1, 4], 1, 200), ([1, 2, 3], 1, 60), ([1, 2, 3], 2, 72),
        ([1, 2, 3], 3, 72), ([1, 1, 1], 3, 72), ([5, 1, 1], None, 72),
        ([0, 1, 3], 2, 72), ([0, 1, 3], None, 72), ([2, 0.5, 0], 1, 60),
        ([1, 2, 3, 2], 1, 24), ([1, 2, 3, 2], 2, 24), ([1, 2, 3, 2], 4, 24),
        ([1, 1, 1, 1, 1], 2, 60), ([1, 2, 3, 4, 2], 2, 60),
        ([10, 1, 1, 1, 1], 2, 60), ([0, 3, 1, 0, 2], 2, 60),
        ([1, 1, 1, 1, 1, 1, 1, 1], 3, 40), ([0.25, 0.5, 0.75], 2, 72)]


def laws(ctx):
    weights, k, m = ctx.pick(LAWS)
    n = len(weights)
    form = ctx.choose(5)
    # The scale of all weights together makes no difference.
    scale = (1, 1, 2.0 ** -30, 2.0 ** -14, 10 ** 9)[form]
    weights = [w * scale for w in weights]
    if form > 1 and m ** (k or n) > 200000:
        m = m * 2 // 3
    items = list('abcdefgh')[:n] if form != 1 else range(n)
    rng = random.Random(1)
    if form:
        ctx.step('law(%r, k=%r)', weights, k)
    got = law.law(ctx, lambda: tuple(weighted_shuffle(items, weights, rng,
                                                      k)), m, jitter=0.05)
    kk = n if k is None else k
    ws = [Fraction(w) for w in weights]
    worst = 0
    for perm in itertools.permutations(range(n), kk):
        p, left = Fraction(1), sum(ws)
        for i in perm:
            p = p * ws[i] / left if left else p * 0
            left -= ws[i]
            if not left:
                break
        nz = [i for i in perm if weights[i]]
        if len(nz) < min(kk, sum(1 for w in weights if w)) or \
                list(perm[:len(nz)]) != nz:
            p = Fraction(0)
        zeros = [i for i in perm if not weights[i]]
        g = got.get(tuple(items[i] for i in perm), Fraction(0))
        if zeros and len(zeros) > 1:
            continue        # any order among those
        worst = max(worst, abs(float(g - p)))
        tol = {2: 0.006, 3: 0.012}.get(n, 0.02) * (1 + (form > 1))
        ctx.check(abs(g - p) < tol, 'order %r of weights %r has probability '
                  '%.4f instead of %.4f', perm, weights, float(g), float(p))
    ctx.note('largest deviation %.4f', worst)
    ctx.state((weights, k, form))
    ctx.outcome((weights, k))


KINDS = ['one', 'ramp', 'zeros', 'mostlyzero', 'huge', 'tiny', 'float']


def _weights(kind, n):
    return {
        'one': [1] * n, 'ramp': [i + 1 for i in range(n)],
        'zeros': [0.0 if i % 3 == 1 else 2 for i in range(n)],
        'mostlyzero': [0 if i % 7 else 1.5 for i in range(n)],
        'huge': [10.0 ** (i * 5 % 19 + 200) for i in range(n)],
        'tiny': [10.0 ** -(i * 5 % 19 + 100) for i in range(n)],
        'float': [0.1 + (i * 37 % 11) / 7 for i in range(n)]}[kind]


def sizes(ctx):
    n = ctx.pick(list(range(1, 46 if ctx.quick else 121)))
    kind = ctx.pick(KINDS)
    weights = tuple(_weights(kind, n))
    items = range(n)
    for k in [None] + list(range(n + 1)):
        for pattern in hrng.Pattern.NAMES:
            with hrng.control(hrng.Pattern(pattern, ctx=ctx)):
                out = outcome(weighted_shuffle, items, weights,
                              random.Random(2), k)
            ctx.stats.transitions += 1
            ctx.check(out[0] == 'ok', 'n=%d k=%r %s, pattern %s: %r', n, k,
                      kind, pattern, out)
            if len(set(weights)) == n or True:
                _judge(ctx, items, weights, k, out[1])
    ctx.step('n=%d, weights %s, every k', n, kind)
    ctx.state((n, kind))
    ctx.outcome((n, kind))


def large(ctx):
    n = ctx.size([99, 100, 101, 127, 128, 200, 256, 300, 500, 1000, 2000])
    kind = ctx.some(KINDS, 4)
    pattern = ctx.some(['golden'] + [p for p in hrng.Pattern.NAMES
                                     if p != 'golden'], 1)
    weights = _weights(kind, n)
    items = tuple('x%d' % i for i in range(n))
    keep = list(weights)
    for k in {0, 1, 2, 9, 10, int(n * .1), int(n * .42) - 1, int(n * .42),
              int(n * .42) + 1, n // 2, n - 1, n, None} | (
                  set(range(131)) if n == 130 else set()):
        with hrng.control(hrng.Pattern(pattern, ctx=ctx)):
            out = outcome(weighted_shuffle, items, weights,
                          random.Random(2), number=k)
        ctx.step('n=%d k=%r', n, k)
        ctx.check(out[0] == 'ok', 'n=%d k=%r %s: %r', n, k, kind, out)
        _judge(ctx, items, weights, k, out[1])
        ctx.check(weights == keep, 'the weights passed were modified')
    ctx.state((n, kind, pattern))
    ctx.outcome((n, kind))


class Middle(hrng.Controller):
    """An RNG whose answers stay away from both ends."""

    def __init__(self, pattern):
        self.pattern = pattern

    def draw_random(self, rng):
        return 0.001 + 0.998 * self.pattern.draw_random(rng)

    def draw_below(self, rng, n):
        return self.pattern.draw_below(rng, n)


def contrast(ctx):
    """Weights so far apart that, unless an answer is next to 0 or 1, the
    order of heavy, medium and light items is certain at any size."""
    n = ctx.pick([3, 5, 8, 12, 24, 25, 50, 99, 100, 101, 128, 256, 300, 600]
                 + ([] if ctx.quick else [1000, 3000]))
    place = ctx.choose(6)
    heavy = ctx.pick([1, 2, n // 10 + 1, n // 3, n // 2, n - 1])
    pattern = ctx.pick(hrng.Pattern.NAMES)
    m = n // 3
    order = [list(range(n)), list(range(n))[::-1],
             sorted(range(n), key=lambda i: (i % 2, i)),
             sorted(range(n), key=lambda i: (-(i % 2), i)),
             list(range(m, n)) + list(range(m)),
             sorted(range(n), key=lambda i: (i * 7 % 10, i))][place]
    light = set(order[:n - heavy])
    weights = [1e-150 * (1 + i % 3) if i in light else 1e150 * (1 + i % 2)
               for i in range(n)]
    ks = sorted({0, 1, heavy - 1, heavy, heavy + 1, n - 1, n, int(n * .42),
                 int(n * .42) + 1, heavy // 2 + 1})
    for k in ks:
        if not 0 <= k <= n:
            continue
        with hrng.control(Middle(hrng.Pattern(pattern, ctx=ctx))):
            out = outcome(weighted_shuffle, range(n), weights,
                          random.Random(2), number=k)
        ctx.stats.transitions += 1
        ctx.check(out[0] == 'ok', 'n=%d k=%r: %r', n, k, out)
        got = out[1]
        ctx.check(len(got) == k == len(set(got)), 'n=%d, k=%d gave %d items, '
                  '%d of them different', n, k, len(got), len(set(got)))
        for j, x in enumerate(got):
            ctx.check((x in light) == (j >= heavy), 'n=%d, k=%d: item %d of '
                      'weight %r came %dth although %d items weigh %r times '
                      'as much as others', n, k, x, weights[x], j + 1, heavy,
                      1e300)
    ctx.step('n=%d, %d heavy, place %d, %s', n, heavy, place, pattern)
    ctx.state((n, heavy, place, pattern))
    ctx.outcome((n, heavy, place))


def forms(ctx):
    """Items and weights of other sequence types, duplicates, default
    generator, refused arguments."""
    n = ctx.pick([1, 2, 3, 5, 8, 20])
    typ = ctx.choose(5)
    wtyp = ctx.choose(4)
    use = ctx.choose(3)
    k = ctx.pick([None, 0, 1, max(1, n // 3), n])
    items = [['a', 'b'] * n, 'xy' * n, ([{}], [], [{}]) * n,
             range(3, 3 + n), [None] * n][typ][:n]
    weights = [[2] * n, (1.5,) * n, range(1, n + 1),
               [Fraction(1, 3)] * n][wtyp]
    args = [(random.Random(4), k), (random.Random('a'),), ()][use]
    ctx.step('weighted_shuffle(%r, %r) k=%r', items, weights, k)
    with hrng.control(hrng.Pattern('golden')):
        if use == 0:
            res = weighted_shuffle(items, weights, *args)
        elif use == 1:
            res = weighted_shuffle(items, weights, *args, number=k)
        else:
            res = weighted_shuffle(items, weights, number=k)
        want = n if k is None else k
        ctx.check(type(res) is list and len(res) == want, 'returned %r', res)
        left = list(items)
        for x in res:
            ctx.check(x in left, 'returned %r of %r', res, items)
            left.remove(x)
        for wrong in ([1] * (n + 1), [1] * (n - 1), [], (1,) * (2 * n)):
            if len(wrong) != n:
                for kk in (None, 0, 1, n):
                    out = outcome(weighted_shuffle, items, wrong, number=kk)
                    ctx.check(is_err(out, 'ValueError'), '%d items, %d '
                              'weights, number=%r gave %r', n, len(wrong),
                              kk, out)
    ctx.state((n, typ, wtyp, use, k))
    ctx.outcome((n, typ, k))


def scenarios(tier, seed):
    return [Scenario('small', small), Scenario('laws', laws, exec_limit=120),
            Scenario('sizes', sizes), Scenario('large', large),
            Scenario('every size', every_size(large, range(40, 131)), split=2),
            Scenario('contrast', contrast),
            Scenario('forms', forms)]
