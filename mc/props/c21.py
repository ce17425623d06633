"""Curves and the factories built on them: poisson, gaussian and clamp over
grids of arguments against 60-digit decimal arithmetic; the weights of every
factory-made emitter over grids of sizes (hundreds of items included),
parameters and floors against the same; every replacement mode and request
size emitting under several answer patterns and real generators, in step with
a multiset model and with a Choice built directly from those weights."""
import decimal
import functools
import math
import random

from fauxdoc.emitters.choice import (Choice, chance, gaussian_choice,
                                     poisson_choice)
from fauxdoc.mathtools import clamp, gaussian, poisson

from .. import hrng
from ..choicemodel import ChoiceModel, check_attributes, request
from ..common import outcome
from ..explore import Scenario, every_size

D = decimal.Decimal
CTX = decimal.Context(prec=60, Emin=-999999, Emax=999999)
PI = D('3.14159265358979323846264338327950288419716939937510582097494459')
TINY = 1e-300     # below this only absolute differences count


@functools.lru_cache(None)
def fact(x):
    return D(1) if x < 2 else CTX.multiply(fact(x - 1), D(x))


for _i in range(3000):
    fact(_i)          # (without deep recursion)


def true_poisson(x, mu):
    if not mu:
        return 1.0 if not x else 0.0
    m = D(mu)
    v = CTX.divide(CTX.multiply(CTX.power(m, x) if x else D(1),
                                CTX.exp(-m)), fact(x))
    return float(v)


def true_gaussian(x, mu, sigma):
    s = D(sigma)
    z = CTX.divide(CTX.subtract(D(x), D(mu)), s)
    e = CTX.divide(CTX.multiply(z, z), D(-2))
    if e < -100000:
        return 0.0
    return float(CTX.divide(CTX.exp(e), CTX.multiply(CTX.sqrt(2 * PI), s)))


def close(got, want):
    # z * z / 2 has a relative error of a few ulp, which exp() magnifies.
    return abs(got - want) <= 1e-9 * abs(want) + 1e-305


MUS = [0, 0.0, 1e-9, 0.001, 0.25, 0.5, 0.99, 1, 1.0, 1.5, 2, 3, 4.75, 10, 12,
       33.3, 50, 99, 100.0, 142, 143.0, 170, 171, 200, 250.5, 300, 400, 500,
       600.0, 700, 708, 709.5, 720, 744.0, 745, 746.0, 800, 800.0, 1000,
       1500.5]


def poisson_values(ctx):
    mu = ctx.pick(MUS)
    step = 1 if not ctx.quick else 1
    top = 420 if ctx.quick else 2500
    for x in range(0, top, step):
        got = outcome(poisson, x, mu)
        want = true_poisson(x, mu)
        ctx.check(got[0] == 'ok' and isinstance(got[1], (int, float)) and
                  close(got[1], want), 'poisson(%d, %r) gave %r instead of '
                  '%r', x, mu, got[1:], want)
    if mu == 1:
        for x in range(6):
            ctx.equal(poisson(x), poisson(x, 1), 'poisson default mu')
    total = math.fsum(poisson(x, mu) for x in range(0, top))
    if mu * 2 + 40 < top:
        ctx.check(abs(total - 1) < 1e-9, 'poisson(x, %r) adds up to %r', mu,
                  total)
    ctx.step('poisson(0..%d, %r)', top, mu)
    ctx.state(mu)
    ctx.outcome(mu)


GMU = [0, 1, 0.5, -3, 7.25, 50, 100, 400, 1e6, -1e6, 1e-6, 1e150]
SIGMA = [1, 1.0, 0.5, 2, 0.1, 3.3, 10, 100, 1e-3, 1e3, 1e6, 1e-100, 1e-160,
         1e200]


def gaussian_values(ctx):
    mu, sigma = ctx.pick(GMU), ctx.pick(SIGMA)
    xs = list(range(-20, 420)) + [0.5, 0.25, -0.75, mu, mu + sigma,
                                  mu - sigma, mu + sigma * 2.5,
                                  mu + sigma * 30, 1e9, 1e155, -1e200]
    for x in xs:
        got = outcome(gaussian, x, mu, sigma)
        want = true_gaussian(x, mu, sigma)
        ok = got[0] == 'ok' and isinstance(got[1], (int, float))
        # (Near the mean of a narrow curve x - mu itself is inexact, and the
        # exponent's rounding error grows with its size.)
        z2 = min(1500.0, float(min(D(10) ** 6, abs(CTX.divide(
            D(x) - D(mu), D(sigma)))) ** 2))
        tol = 1e-9
        if float(D(x) - D(mu)) != x - mu or D(x - mu) != D(x) - D(mu):
            tol = 1e-9 + 1e-15 * z2 * max(1, abs(mu), abs(x)) / max(
                abs(x - mu), 1e-300)
        ctx.check(ok and abs(got[1] - want) <= tol * want + 1e-305,
                  'gaussian(%r, %r, %r) gave %r instead of %r', x, mu, sigma,
                  got[1:], want)
    if mu == 0 and sigma == 1:
        for x in range(4):
            ctx.equal(gaussian(x), gaussian(x, 0, 1), 'gaussian defaults')
    ctx.step('gaussian(%d values, %r, %r)', len(xs), mu, sigma)
    ctx.state((mu, sigma))
    ctx.outcome((mu, sigma))


CL = [None, -10, -1, 0, 0.0, 0.5, 1, 1.0, 2, 7, 10, 1e9, -math.inf,
      math.inf]


def clamps(ctx):
    mn, mx = ctx.pick(CL), ctx.pick(CL)
    if mn is not None and mx is not None and mn > mx:
        ctx.state((mn, mx))
        return      # (no documented meaning)
    for x in [c for c in CL if c is not None] + [-5, 3, 0.25, 9.75, 10.5,
                                                 -0.0]:
        got = clamp(x, mn=mn, mx=mx)
        want = x
        if mn is not None and x < mn:
            want = mn
        elif mx is not None and x > mx:
            want = mx
        ctx.check(got == want, 'clamp(%r, %r, %r) gave %r', x, mn, mx, got)
        ctx.check(clamp(x, mn, mx) == want, 'positional clamp')
        if mn is None and mx is None:
            ctx.check(clamp(x) == x, 'clamp(%r)', x)
        elif mx is None:
            ctx.check(clamp(x, mn=mn) == want, 'clamp(%r, mn=%r)', x, mn)
        elif mn is None:
            ctx.check(clamp(x, mx=mx) == want, 'clamp(%r, mx=%r)', x, mx)
    ctx.step('clamp(x, %r, %r)', mn, mx)
    ctx.state((mn, mx))
    ctx.outcome((mn, mx))


SIZES = [1, 2, 3, 5, 10, 20, 64, 100, 143, 144, 145, 169, 170, 171, 172, 200,
         256, 300, 400, 700]
FLOORS = [0, 0.0, 1e-300, 1e-9, 1e-4, 0.05, 0.5, 1, 3]


def weights(ctx):
    """Weights of every factory-made emitter over a grid of parameters."""
    which = ctx.choose(2)
    n = ctx.size(SIZES if not ctx.quick else SIZES[:-1])
    items = range(n)
    if which == 0:
        mu = ctx.some(MUS if n > 64 or not ctx.quick else MUS[::3], 4)
        true = [true_poisson(x, mu) for x in range(1, n + 1)]

        def make(fl, **kw):
            return poisson_choice(items, mu=mu, weight_floor=fl, **kw)
        name = 'poisson_choice(%d, mu=%r' % (n, mu)
    else:
        mu = ctx.some([0, 1, 2.5, 10, 100, n, n / 2, -5], 3)
        sigma = ctx.some([1, 0.3, 2, 7.5, 50, 1000, 1e-3], 3)
        true = [true_gaussian(x, mu, sigma) for x in range(1, n + 1)]

        def make(fl, **kw):
            return gaussian_choice(items, mu=mu, sigma=sigma,
                                   weight_floor=fl, **kw)
        name = 'gaussian_choice(%d, mu=%r, sigma=%r' % (n, mu, sigma)
    for fl in FLOORS:
        if not fl and not any(true):
            continue
        out = outcome(make, fl)
        ctx.check(out[0] == 'ok', '%s, weight_floor=%r) failed: %r', name,
                  fl, out)
        em = out[1]
        ctx.check(em.weights is not None and len(em.weights) == n,
                  '%s, weight_floor=%r) has weights %r', name, fl,
                  em.weights)
        for i, (w, t) in enumerate(zip(em.weights, true)):
            t = max(t, fl)
            ctx.check(abs(w - t) <= 1e-9 * t + 1e-305, '%s, weight_floor=%r) '
                      'gives item %d the weight %r instead of %r', name, fl,
                      i + 1, w, t)
            ctx.check(w >= fl, '%s: weight %r of item %d is below the floor '
                      '%r', name, w, i + 1, fl)
        cum = 0
        for w, c in zip(em.weights, em.cum_weights):
            cum += w
            ctx.check(abs(c - cum) < 1e-9 * max(1, cum), 'cum_weights')
        ctx.check(list(em.items) == list(items), '%s: items are %r', name,
                  em.items)
        ctx.step('%s, weight_floor=%r)', name, fl)
    ctx.state(name)
    ctx.outcome(name)


MODES = [{}, {'replace': False}, {'replace_only_after_call': True},
         {'replace': False, 'replace_only_after_call': True}]


def _factory(ctx):
    which = ctx.choose(4)
    floor = ctx.pick([0, 1e-3])
    kw = {'weight_floor': floor} if floor else {}
    if which == 0:
        return lambda i, **m: poisson_choice(i, mu=4, **kw, **m)
    if which == 1:
        return lambda i, **m: poisson_choice(i, **kw, **m)
    if which == 2:
        return lambda i, **m: gaussian_choice(i, mu=6, sigma=2.5, **kw, **m)
    return lambda i, **m: gaussian_choice(i, mu=1, sigma=0.2, **kw, **m)


def emission(ctx):
    make = _factory(ctx)
    n = ctx.size([1, 2, 3, 5, 8, 12, 13, 24, 60, 150, 300] if ctx.quick else
                 [1, 2, 3, 4, 5, 6, 8, 12, 13, 24, 25, 60, 61, 150, 170, 171,
                  300, 400])
    mode = ctx.pick(MODES)
    how = ctx.some(['real 1', 'real 2', 'zero', 'max', 'golden', 'up'], 1)
    items = ['i%d' % i for i in range(n)]

    def drive():
        em = make(items, rng_seed=int(how[-1]) if how[:4] == 'real' else 1,
                  **mode)
        m = ChoiceModel(items, list(em.weights), mode.get('replace', True),
                        mode.get('replace_only_after_call', False))
        ctx.step('%d items, %r, answers %s', n, mode, how)
        check_attributes(ctx, em, m, 'construction')
        for k in sorted({1, 2, 3, n // 3, int(n * 0.42), int(n * 0.42) + 1,
                         n // 2 + 1, n - 1, n}):
            if k < 1:
                continue
            if not m.replace and k > len(m.left):
                request(ctx, em, m, k)
                em.reset()
                m.restart()
            if m.replace and not m.roac and not any(m.weights):
                break
            request(ctx, em, m, k)
            request(ctx, em, m, None)
        request(ctx, em, m, 0)
        if not m.replace or m.roac:
            em.reset()
            m.restart()
            got = request(ctx, em, m, n)
            ctx.check(sorted(got) == sorted(items) or n == 1, 'a full '
                      'request gave %r', got)
            # Items with no weight come last, those with weight first.
            good = set(m.usable())
            ctx.check(set(got[:len(good)]) == good or n == 1, 'items '
                      'without weight were emitted before others')
            if n > 1 or not m.replace:
                request(ctx, em, m, n + 1)
        check_attributes(ctx, em, m, 'emission')
    if how[:4] == 'real':
        drive()
    else:
        with hrng.control(hrng.Pattern(how, ctx=ctx)):
            drive()
    ctx.state((ctx.trace and tuple(c for c, _, _ in ctx.trace)))
    ctx.outcome((n, repr(mode), how))


def passed_on(ctx):
    """Same as a Choice built from those weights; all ways to pass args."""
    seed = ctx.pick([1, 7, 'seed', 2.5, None, 0, '', 0.0, b'', -1])
    mode = ctx.pick(MODES)
    noun = ctx.pick(['', 'vegetable'])
    which = ctx.pick(['poisson', 'poisson positional', 'gauss',
                      'gauss positional'])
    items = ctx.pick([list('abcdefgh'), 'xyzuvw', (1, [2], None), range(50)])
    rep = mode.get('replace', True)
    roac = mode.get('replace_only_after_call', False)
    if which == 'poisson':
        em = poisson_choice(items, mu=3, weight_floor=0.01, noun=noun,
                            rng_seed=seed, **mode)
        true = [max(0.01, true_poisson(x + 1, 3)) for x in range(len(items))]
    elif which == 'poisson positional':
        em = poisson_choice(items, 2.5, 0.02, rep, roac, noun, seed)
        true = [max(0.02, true_poisson(x + 1, 2.5))
                for x in range(len(items))]
    elif which == 'gauss':
        em = gaussian_choice(items, mu=3, sigma=2, weight_floor=0.01,
                             noun=noun, rng_seed=seed, **mode)
        true = [max(0.01, true_gaussian(x + 1, 3, 2))
                for x in range(len(items))]
    else:
        em = gaussian_choice(items, 1.5, 3, 0.02, rep, roac, noun, seed)
        true = [max(0.02, true_gaussian(x + 1, 1.5, 3))
                for x in range(len(items))]
    ctx.step('%s(%r, %r, noun=%r, seed=%r)', which, items, mode, noun, seed)
    for w, t in zip(em.weights, true):
        ctx.check(close(w, t), 'weights %r instead of %r', em.weights, true)
    ctx.check(list(em.items) == list(items), 'items are %r', em.items)
    ctx.equal(em.noun, noun, 'noun')
    ctx.equal(em.replace, rep or roac, 'replace')
    ctx.equal(em.replace_only_after_call, roac, 'replace_only_after_call')
    ctx.equal(em.rng_seed, seed, 'rng_seed')
    out = outcome(setattr, em, 'weights', [1])
    ctx.check(out[0] == 'err' and out[1] == 'ValueError', 'wrong weights '
              'gave %r', out)
    if noun:
        ctx.check(noun in out[2], 'the noun is not in the error message %r',
                  out[2])
    if seed is not None:
        twin = Choice(items, em.weights, rep, roac, noun, seed)
        for k in (None, 2, 1, 0, 3):
            if k and not twin.replace and k > twin.num_unique_items:
                continue
            a, b = outcome(em, k), outcome(twin, k)
            ctx.check(a == b, 'request %r gave %r, but %r from a Choice '
                      'built alike', k, a, b)
        em.reset()
        twin.reset()
        ctx.equal(em(2), twin(2), 'after a reset')
    ctx.state((which, repr(mode), noun, repr(seed), repr(items)))
    ctx.outcome((which, repr(mode), repr(seed)))


DEFAULTS = [
    ('poisson', {}), ('poisson', {'mu': 4}), ('poisson', {'weight_floor': 0.3}),
    ('poisson', {'replace': False}), ('poisson', {'rng_seed': 1}),
    ('gauss', {}), ('gauss', {'mu': 4}), ('gauss', {'sigma': 3}),
    ('gauss', {'weight_floor': 0.3}), ('gauss', {'mu': 2, 'sigma': 0.5}),
    ('gauss', {'replace_only_after_call': True})]


def defaults(ctx):
    """What is left out has its documented default."""
    which, kw = ctx.pick(DEFAULTS)
    n = ctx.pick([1, 2, 3, 8, 40, 120])
    items = list(range(n))
    full = dict(mu=1 if which == 'poisson' else 0, sigma=1, weight_floor=0,
                replace=True, replace_only_after_call=False, noun='',
                rng_seed=None)
    full.update(kw)
    if which == 'poisson':
        em = poisson_choice(items, **kw)
        true = [true_poisson(x, full['mu']) for x in range(1, n + 1)]
    else:
        em = gaussian_choice(items, **kw)
        true = [true_gaussian(x, full['mu'], full['sigma'])
                for x in range(1, n + 1)]
    true = [max(t, full['weight_floor']) for t in true]
    ctx.step('%s of %d items with %r', which, n, kw)
    ctx.check(len(em.weights) == n and all(
        close(w, t) or (t < TINY and abs(w - t) < TINY)
        for w, t in zip(em.weights, true)), 'weights %r instead of %r',
        list(em.weights)[:9], true[:9])
    ctx.equal(em.replace, full['replace'], 'replace')
    ctx.equal(em.replace_only_after_call, full['replace_only_after_call'],
              'replace_only_after_call')
    ctx.equal(em.noun, full['noun'], 'noun')
    ctx.equal(em.rng_seed, full['rng_seed'], 'rng_seed')
    ctx.check(em() in items, 'emitted something else')
    ctx.state((which, repr(kw), n))
    ctx.outcome((which, repr(kw), n))


def chances(ctx):
    p = ctx.pick([0, 0.0, 1, 1.0, 0.5, 0.3, 1e-9, 1 - 1e-9, -1, -0.5, 2, 1.5,
                  math.inf, -math.inf, 1e-300, 0.1, 0.9, True, False])
    em = chance(p, rng_seed=ctx.pick([None, 3, 0, '']))
    q = min(1.0, max(0.0, p))
    ctx.step('chance(%r): weights %r', p, em.weights)
    ctx.check(list(em.items) == [True, False], 'items %r', em.items)
    ctx.check(close(em.weights[0], q) and abs(em.weights[1] - (1 - q)) <
              1e-12, 'weights of chance(%r) are %r', p, em.weights)
    for pattern in hrng.Pattern.NAMES:
        with hrng.control(hrng.Pattern(pattern, ctx=ctx)):
            got = em(50) + [em() for _ in range(10)]
        if q == 0:
            ctx.check(not any(got), 'chance(%r) emitted True', p)
        if q == 1:
            ctx.check(all(got), 'chance(%r) emitted False', p)
        ctx.check(all(v is True or v is False for v in got), '%r', got)
    ctx.state((p, em.rng_seed))
    ctx.outcome(p)


def scenarios(tier, seed):
    return [Scenario('poisson values', poisson_values),
            Scenario('gaussian values', gaussian_values),
            Scenario('clamp', clamps),
            Scenario('weights', weights, split=2),
            Scenario('emission', emission, split=3),
            Scenario('every size', every_size(weights), split=2),
            Scenario('emission, every size', every_size(emission), split=2),
            Scenario('passed on', passed_on, split=2),
            Scenario('defaults', defaults),
            Scenario('chance', chances)]
