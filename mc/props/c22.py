"""Reconfiguring choices: explicit-state search to a fixpoint over histories
that mix every change of settings with requests, resets and reseeds, branching
over RNG answers, in lockstep with a model of the documented settings; for
every history of setting changes up to a bound, the exact law of later
requests against that of a newly built emitter with the resulting settings;
and for longer histories the very same values after seeding alike."""
import itertools

from fauxdoc.emitters import Choice
from fauxdoc.emitters.choice import chance, gaussian_choice, poisson_choice

from .. import hrng, law
from ..choicemodel import ChoiceModel, check_attributes, full_key, request
from ..common import is_err, outcome
from ..explore import Scenario, every_size, periodic


def wset(n):
    return {'w1': list(range(1, n + 1)), 'w0': [0] * (n - 1) + [3],
            'none': None}


def apply(em, m, op):
    """Applies a change of settings to an emitter and to its model."""
    kind, value = op
    n = len(m.items)
    if kind == 'replace':
        em.replace = value
        m.set_replace(value)
    elif kind == 'roac':
        em.replace_only_after_call = value
        m.set_roac(value)
    elif kind == 'weights':
        em.weights = wset(n)[value]
        m.set_weights(wset(n)[value])
    elif kind == 'cum':
        w = wset(n)[value]
        em.cum_weights = w and list(itertools.accumulate(w))
        m.set_weights(w)
    elif kind == 'reset':
        em.reset()
        m.restart()
    elif kind == 'seed':
        em.seed(value)
        m.restart()
    elif kind == 'bad':
        for attr in ('weights', 'cum_weights'):
            outcome(setattr, em, attr, [1] * (n + 1))
    else:
        raise AssertionError(op)


SETTINGS = [('replace', False), ('replace', True), ('roac', True),
            ('roac', False), ('weights', 'w1'), ('weights', 'w0'),
            ('weights', 'none'), ('cum', 'w1'), ('cum', 'none')]
MODES = [{}, {'replace': False}, {'replace_only_after_call': True},
         {'replace': False, 'replace_only_after_call': True}]
CONFIGS = [(['a', 'b', 'c'], None), (['x', 'x', 'y'], [1, 2, 3]),
           (('solo',), None), ([{'k': 1}, 'u'], [0, 1]),
           (range(4), [1, 1, 0, 5])]


def build(items, weights, mode):
    em = Choice(items, weights, rng_seed=1, **mode)
    m = ChoiceModel(items, weights, mode.get('replace', True),
                    mode.get('replace_only_after_call', False))
    return em, m


def fixpoint(ctx):
    items, weights = ctx.pick(CONFIGS if not ctx.quick else CONFIGS[:4])
    mode = ctx.pick(MODES)
    n = len(items)
    with hrng.control(hrng.Scripted(ctx, grid=(0.2, 0.8))):
        em, m = build(items, weights, mode)
        ctx.step('Choice(%r, %r, %r)', items, weights, mode)
        check_attributes(ctx, em, m, 'construction')
        ops = SETTINGS + [('reset', None), ('seed', 4), ('bad', None)] + [
            ('call', k) for k in [None, 1, 2, n, n + 1]] + [
                ('emit_many', 1), ('emit', None)]
        while True:
            ctx.merge(full_key(em, m))
            op = ctx.pick(ops, label='op')
            if op[0] in ('call', 'emit', 'emit_many'):
                got = request(ctx, em, m, op[1], op[0])
                ctx.outcome((op, m.replace, m.roac, repr(got)))
            else:
                ctx.step('%r', op)
                apply(em, m, op)
            check_attributes(ctx, em, m, op)


LAWS = {}


def _law_of(ctx, key, setup, probe):
    def fn(em):
        out = []
        for k in probe[1]:
            r = outcome(em, k)
            out.append(repr(r) if r[0] == 'ok' else r[1])
        return tuple(out)
    return law.law(ctx, fn, m=probe[0], setup=setup, jitter=0.01)


def laws(ctx):
    """The law of later requests equals that of a new emitter."""
    first = ctx.choose(len(SETTINGS))
    items, weights = ctx.pick([(['a', 'b', 'c'], None),
                               (['a', 'b', 'c'], [1, 2, 3])])
    mode = ctx.pick(MODES[:3])
    calls = ctx.choose(3)       # requests in between: none, some, many
    depth = 2 if ctx.quick else 3
    ops = [SETTINGS[first]]
    for _ in range(depth - 1):
        k = ctx.choose(len(SETTINGS) + 1)
        if k:
            ops.append(SETTINGS[k - 1])
    n = len(items)

    def drive(renew):
        em, m = build(items, weights, mode)
        for op in ops:
            if calls == 1:
                outcome(em)
            elif calls == 2:
                outcome(em, 2)
                outcome(em, 2)
            apply(em, m, op)
        # What is left of a round is not as new: start one.
        return em, m
    em, m = drive(False)
    ctx.step('%r %r %r calls %d: %r', items, weights, mode, calls, ops)
    check_end = ChoiceModel(items, m.weights, m.replace, m.roac)
    if m.replace:
        check_attributes(ctx, em, check_end, ops)
    probes = [(5, (None,)), (5, (1,)), (5, (2,)), (4, (3,)), (3, (None, 2))]
    renews = [None]
    if not m.replace:
        renews = [('reset', None), ('replace', 'cycle'), ('seed', 3),
                  ('weights', 'same')]
    renew = ctx.pick(renews)
    if not m.replace and calls != 1:
        probes = [(4, (n,)), (4, (None, 1))]
    for probe in probes:
        def setup():
            return drive(False)[0]

        def start(e):
            if renew is None:
                return
            if renew[0] == 'reset':
                e.reset()
            elif renew[0] == 'seed':
                e.seed(3)
            elif renew[1] == 'cycle':
                e.replace = True
                e.replace = False
            else:
                e.weights = e.weights

        def fn(e):
            start(e)
            out = []
            for k in probe[1]:
                r = outcome(e, k)
                out.append(repr(r[1]) if r[0] == 'ok' else r[1])
            return tuple(out)
        got = law.law(ctx, fn, m=probe[0], setup=setup, jitter=0.01)

        key = (repr(items), repr(m.weights), m.replace, m.roac, probe,
               renew is None)
        if key not in LAWS:
            def fresh(_):
                e = Choice(items, m.weights, m.replace, m.roac)
                out = []
                for k in probe[1]:
                    r = outcome(e, k)
                    out.append(repr(r[1]) if r[0] == 'ok' else r[1])
                return tuple(out)
            LAWS[key] = law.law(ctx, fresh, m=probe[0], setup=lambda: None,
                                jitter=0.01)
        want = LAWS[key]
        ctx.check(got == want, 'after %r (and %r), requests %r give %r with '
                  'probability %s, but %s from a new emitter', ops, renew,
                  probe[1], *next(
                      ((r, got.get(r, 0), want.get(r, 0))
                       for r in sorted(set(got) | set(want))
                       if got.get(r, 0) != want.get(r, 0)), (0, 0, 0)))
    ctx.state((repr(items), repr(weights), repr(mode), calls, tuple(ops),
               renew))
    ctx.outcome((repr(m.weights), m.replace, m.roac, renew))


LONG = SETTINGS + [('call', None), ('call', 2), ('reset', None), ('seed', 9)]


def same_seed(ctx):
    """Seeded alike, it emits what a new emitter emits."""
    first = ctx.choose(len(LONG))
    cfg = ctx.choose(5)
    mode = ctx.pick(MODES[:3])
    depth = 3 if ctx.quick else 4
    ops = [LONG[first]]
    for _ in range(depth - 1):
        k = ctx.choose(len(LONG) + 1)
        if k == 0:
            break
        ops.append(LONG[k - 1])
    items = [list('abcde'), range(40), (7,), list('aabb'), list('xyz')][cfg]
    n = len(items)
    weights = [None, [1 + i % 3 for i in range(n)], None, [0, 1, 2, 3],
               [1] * n][cfg]
    em, m = build(items, weights, mode)
    ctx.step('%r %r %r: %r', items, weights, mode, ops)
    for op in ops:
        if op[0] == 'call':
            request(ctx, em, m, op[1])
        else:
            apply(em, m, op)
            check_attributes(ctx, em, m, op)
    new = Choice(items, m.weights, m.replace, m.roac, rng_seed='s')
    em.seed('s')
    em.reset()
    m.restart()
    check_attributes(ctx, em, m, 'seed and reset')
    for k in (None, 2, 1, 0, 3, n, n // 2, None, 5):
        a, b = outcome(em, k), outcome(new, k)
        ctx.check(repr(a) == repr(b), 'after %r, seeded alike, a request for '
                  '%r gave %r, but %r from a new emitter with the resulting '
                  'settings', ops, k, a, b)
        for attr in ('num_unique_items', 'num_unique_values',
                     'emits_unique_values', 'replace',
                     'replace_only_after_call', 'weights', 'cum_weights'):
            ctx.check(getattr(em, attr) == getattr(new, attr), '%s is %r '
                      'instead of %r', attr, getattr(em, attr),
                      getattr(new, attr))
    ctx.state((cfg, repr(mode), tuple(ops)))
    ctx.outcome((cfg, m.replace, m.roac, repr(m.weights)))


WEIGHTS = [s for s in SETTINGS if s[0] in ('weights', 'cum')]


def long_use(ctx, modes=MODES[:3], settings=SETTINGS):
    """Long histories, against the model."""
    items, weights = ctx.pick(CONFIGS)
    mode = ctx.pick(modes)
    n = len(items)
    ops = settings + [('reset', None), ('seed', 4), ('bad', None)] + [
        ('call', k) for k in [None, 0, 1, 2, n, n + 1]] + [
            ('emit_many', 1), ('emit', None)]
    with hrng.control(hrng.Pattern(ctx.pick(['golden', 'zero']), ctx=ctx)):
        em, m = build(items, weights, mode)
        ctx.step('Choice(%r, %r, %r)', items, weights, mode)
        for op in ctx.history(3, ops):
            if op[0] in ('call', 'emit', 'emit_many'):
                request(ctx, em, m, op[1], op[0])
            else:
                ctx.step('%r', op)
                apply(em, m, op)
            check_attributes(ctx, em, m, op)
    ctx.state((repr(items), repr(mode), m.key()))
    ctx.outcome((repr(items), m.replace, m.roac))


def sizes(ctx):
    """The same on larger item counts, and for every factory."""
    n = ctx.size([1, 2, 5, 12, 13, 50, 100, 240, 400])
    make = ctx.pick([
        ('choice', lambda i: Choice(i)),
        ('weights', lambda i: Choice(i, [1 + x % 4 for x in range(len(i))])),
        ('norep', lambda i: Choice(i, replace=False)),
        ('roac', lambda i: Choice(i, replace_only_after_call=True)),
        ('poisson', lambda i: poisson_choice(i, mu=3, weight_floor=1e-3)),
        ('gauss', lambda i: gaussian_choice(i, mu=9, sigma=4,
                                            replace=False)),
    ])
    pattern = ctx.some(['golden', 'zero', 'max', 'up'], 1)
    ops = [ctx.pick(SETTINGS) for _ in range(
        1 if ctx.dense else 2 if ctx.quick else 3)]
    items = ['v%d' % i for i in range(n)]
    with hrng.control(hrng.Pattern(pattern, ctx=ctx)):
        em = make[1](items)
        m = ChoiceModel(items, em.weights, em.replace,
                        em.replace_only_after_call)
        ctx.step('%s of %d, pattern %s: %r', make[0], n, pattern, ops)
        for op in ops:
            request(ctx, em, m, max(1, n // 3))
            apply(em, m, op)
            check_attributes(ctx, em, m, op)
        for k in (None, n // 2 + 1, n, n + 1, 1):
            request(ctx, em, m, k)
            check_attributes(ctx, em, m, 'request %r' % k)
    ctx.state((n, make[0], pattern, tuple(ops)))
    ctx.outcome((n, make[0], m.replace, m.roac))


def construction(ctx):
    """Both settings together, in every combination and way to pass them."""
    rep, roac = bool(ctx.choose(2)), bool(ctx.choose(2))
    how = ctx.choose(4)
    wk = ctx.choose(3)
    items = list('abc')
    w = [None, [1, 2, 3], [1, 2, 3]][wk]
    kw = {} if w is None else (
        {'weights': w} if wk == 1 else {'cum_weights': [1, 3, 6]})
    kw['rng_seed'] = 2
    if how == 0:
        em = Choice(items, replace=rep, replace_only_after_call=roac, **kw)
    elif how == 1 and wk != 2:
        em = Choice(items, w, rep, roac, '', 2)
    elif how == 2:
        em = Choice(items, **kw)
        em.replace = rep
        em.replace_only_after_call = roac
    else:
        em = Choice(items, replace=False, **kw)
        em.replace_only_after_call = roac
        if rep and not roac:
            em.replace = True
    m = ChoiceModel(items, w, rep, roac)
    ctx.step('replace=%r, replace_only_after_call=%r, how %d, %r', rep, roac,
             how, kw)
    check_attributes(ctx, em, m, 'construction')
    request(ctx, em, m, 3)
    request(ctx, em, m, 2)
    request(ctx, em, m, None)
    request(ctx, em, m, 4)
    # A function for chances is a choice like any other.
    c = chance(0.25, 1)
    c.weights = [0, 1]
    ctx.check(not any(c(20)), 'chance with new weights')
    c.weights = None
    ctx.check(c.weights is None and c.cum_weights is None, 'no weights')
    ctx.state((rep, roac, how, wk))
    ctx.outcome((rep, roac, how, wk))


def scenarios(tier, seed):
    return [Scenario('fixpoint', fixpoint, bfs=True, split=2),
            Scenario('laws', laws, split=2),
            Scenario('long use', periodic(long_use), split=2),
            Scenario('same seed', same_seed, split=2),
            Scenario('sizes', sizes, split=2),
            Scenario('every size', every_size(sizes, tail=(151, 257, 641)), split=2),
            Scenario('construction', construction)]
