"""Replay: for every emitter, field and schema of a zoo, after every history of
up to three operations, a reset (or a seed and a reset) must give what a new
twin gives, under the real generator with seeds of all types and under an
uninterpreted one (a function of seed and position, every single deviation a
branch); and all emissions must be the same in other processes with other hash
seeds."""
import json
import os
import subprocess
import sys

from fauxdoc.emitters import (BasedOnFields, Choice, Static, Text, WrapMany,
                              WrapOne, Word, chance, gaussian_choice,
                              poisson_choice)
from fauxdoc.profile import Field

from .. import digest, hrng, main, zoo
from ..common import outcome
from ..explore import Scenario, every_size, periodic

GROUPS = [(n, b, 'emitter') for n, b in zoo.EMITTERS] + \
    [(n, b, 'field') for n, b in zoo.FIELDS] + \
    [(n, b, 'schema') for n, b in zoo.SCHEMAS]
SKIP_ORACLE = ('choice norep', 'choice norep w')

OPS_E = [('call', None), ('call', 1), ('call', 2), ('call', 5), ('reset',),
         ('seed', 'B'), ('seed_reset', 'C'), ('rng_seed', 'B'),
         ('call', 100000), ('read',), ('emit_many', 3)]
OPS_F = [('call', None), ('calls', 3), ('reset',), ('seed', 'B'),
         ('seed_reset', 'C'), ('rng_seed', 'B'), ('read',)]


def _seed(obj, kind, s):
    if kind == 'schema':
        obj.seed_fields(s)
    elif hasattr(obj, 'seed'):
        obj.seed(s)


def _reset(obj, kind):
    obj.reset_fields() if kind == 'schema' else obj.reset()


def _read(obj):
    """Reading attributes is not an operation: it must not matter."""
    for a in ('num_unique_values', 'emits_unique_values', 'items', 'weights',
              'cum_weights', 'num_unique_items', 'emitters', 'previous',
              'multi_valued', 'public_fields', 'hidden_fields', 'iterator',
              'replace'):
        getattr(obj, a, None)
    repr(obj)


def _do(obj, kind, op, cur):
    """Returns (observed, seed in force after the next reset)."""
    o = op[0]
    if o == 'call':
        if op[1] is None:
            return outcome(obj), cur
        if op[1] > 1000 and getattr(obj, 'replace', True) and not getattr(
                obj, 'replace_only_after_call', False):
            return outcome(obj, 40), cur
        return outcome(obj, op[1]), cur
    if o == 'calls':
        return [outcome(obj) for _ in range(op[1])], cur
    if o == 'emit_many':
        return outcome(obj.emit_many, op[1]), cur
    if o == 'reset':
        _reset(obj, kind)
    elif o == 'read':
        _read(obj)
    elif o == 'seed':
        _seed(obj, kind, op[1])
        cur = op[1]
    elif o == 'seed_reset':
        _seed(obj, kind, op[1])
        _reset(obj, kind)
        cur = op[1]
    elif o == 'rng_seed':
        if kind == 'schema':
            obj.fields.setattr('rng_seed', op[1])
        elif hasattr(obj, 'rng_seed'):
            obj.rng_seed = op[1]
        cur = op[1]
    return None, cur


def _compare(ctx, name, kind, obj, fresh, what, steps=digest.PROBE):
    for i, k in enumerate(steps):
        args = () if k is None or kind != 'emitter' else (k,)
        a, b = repr(outcome(obj, *args)), repr(outcome(fresh, *args))
        if i == 0 and kind != 'emitter':
            ctx.note('%s: first value %s', what, a)
        ctx.check(a == b, '%s, %s: request %d (%r) gave %s, a new instance '
                  'gives %s', name, what, i, k, a[:300], b[:300])
    if kind == 'field':
        ctx.check(repr(obj.previous) == repr(fresh.previous), '%s, %s: '
                  'previous differs', name, what)


FINALS = ['reset', 'seed', 'attr', 'reset2']


def _history(ctx, depth, start):
    name, build, kind = ctx.pick(GROUPS)
    ops = OPS_E if kind == 'emitter' else OPS_F
    hist = list(ctx.history(depth, ops, stop=True))
    return name, build, kind, hist, ctx.some(FINALS)


def _run(ctx, name, build, kind, hist, final, start, new, steps):
    obj, twin = build(start), build(start)
    cur = start
    ctx.step('%s with seed %r', name, start)
    for op in hist:
        a, cur = _do(obj, kind, op, cur)
        b, _ = _do(twin, kind, op, cur)
        ctx.step('%r -> %r', op, a)
        ctx.check(repr(a) == repr(b), '%s: two alike instances differ after '
                  '%r: %r gave %s and %s', name, hist, op, repr(a)[:300],
                  repr(b)[:300])
    if final == 'seed':
        _seed(obj, kind, new)
        cur = new
    elif final == 'attr':
        _, cur = _do(obj, kind, ('rng_seed', new), cur)
    _reset(obj, kind)
    if final == 'reset2':
        _reset(obj, kind)
    if kind == 'field':
        ctx.check(obj.previous is None, '%s: previous is %r after reset',
                  name, obj.previous)
    _compare(ctx, name, kind, obj, build(cur),
             'after %r and %s' % (hist, final), steps)
    ctx.state((name, hist, final, repr(start)))
    ctx.outcome((name, final))


def histories(ctx):
    name, build, kind, hist, final = _history(ctx, 2 if ctx.quick else 3, 0)
    _run(ctx, name, build, kind, hist, final, 'A', 'D', digest.PROBE)


def seeds(ctx):
    """Seeds of every type, in every place where one is given."""
    name, build, kind = ctx.pick(GROUPS)
    start, new = ctx.pick(digest.SEEDS), ctx.pick(digest.SEEDS)
    hist = ctx.pick([[], [('call', None)], [('seed', new)],
                     [('call', None), ('seed_reset', new), ('call', None)]])
    final = ctx.pick(FINALS)
    _run(ctx, name, build, kind, hist, final, start, new, (None, 3, 2))


def oracle(ctx):
    """The generator as an uninterpreted function of seed and position."""
    name, build, kind, hist, final = _history(ctx, 1, 0)
    if name in SKIP_ORACLE:
        return
    with hrng.control(hrng.Oracle(ctx, grid=(0.2, 0.5, 0.9, hrng.MAXU),
                                  cap=3, first=8 if ctx.quick else 30)):
        _run(ctx, name, build, kind, hist, final, 'A', 'D', (None, 3, 1))


def long_histories(ctx):
    """Long use before the reset; long comparison after it."""
    name, build, kind = ctx.pick(GROUPS)
    n = ctx.size([1, 7, 50, 130])
    final = ctx.some(FINALS, 1)
    obj = build('S')
    cur = 'S'
    for i in range(n):
        args = () if kind != 'emitter' or i % 3 else (i % 7,)
        outcome(obj, *args)
    ctx.step('%s: %d requests', name, n)
    if final == 'seed':
        _seed(obj, kind, 'T')
        cur = 'T'
    elif final == 'attr':
        _, cur = _do(obj, kind, ('rng_seed', 'T'), cur)
    _reset(obj, kind)
    steps = [[None, 2, 1, 0, 7, 3][i % 6] for i in range(40)]
    _compare(ctx, name, kind, obj, build(cur), 'after %d requests' % n, steps)
    ctx.state((name, n, final))
    ctx.outcome((name, n))


MEMORYLESS = [
    ('choice', lambda s: Choice(range(1000), rng_seed=s)),
    ('choice weights', lambda s: Choice('abcdef', [1, 2, 3, 4, 5, 6],
                                        rng_seed=s)),
    ('choice roac', lambda s: Choice(range(100), replace_only_after_call=True,
                                     rng_seed=s)),
    ('chance', lambda s: chance(0.5, rng_seed=s)),
    ('gaussian', lambda s: gaussian_choice(range(30), 12, 5, rng_seed=s)),
    ('poisson', lambda s: poisson_choice(range(1, 30), 5, rng_seed=s)),
    ('word', lambda s: Word(Choice([3, 4, 5]), Choice('abcdefghij'),
                            rng_seed=s)),
    ('text', lambda s: Text(Choice([1, 2, 3]), Word(
        Choice([1, 2]), Choice('abcdefgh')), Choice('-+*/'), rng_seed=s)),
    ('wrap', lambda s: WrapOne(Choice(range(99)), lambda v, rng: (
        v, rng.random()), rng_seed=s)),
    ('wrap many', lambda s: WrapMany({
        'a': Choice(range(99)), 'b': Choice('xyz')}, lambda a, b, rng: (
            a, b, rng.random()), rng_seed=s)),
    ('deep', lambda s: WrapOne(WrapOne(WrapOne(Choice(range(99)), repr), len),
                               lambda v, rng: (v, rng.random()),
                               rng_seed=s)),
    ('hidden', lambda s: WrapOne(zoo.Hidden(), zoo.jitter, rng_seed=s)),
    ('hiddens', lambda s: WrapMany({'a': zoo.Hidden(), 'b': Word(
        Choice([1, 2]), WrapOne(zoo.Hidden(), str))}, lambda a, b: (a, b),
        rng_seed=s)),
    ('field', lambda s: Field('f', Choice(range(99)), Choice([1, 2, 3]),
                              chance(0.7), rng_seed=s)),
    ('based', lambda s: BasedOnFields(Field('s', Static(1)), lambda v, rng:
                                      rng.random(), rng_seed=s)),
]
MORE_SEEDS = [0, 1, -5, 10 ** 30, 'A', '', 'seed', b'', b'bytes', b'\xff',
              bytearray(b'x'), 0.5, -2.25, True, 'abc' * 50]


def seed_alone(ctx):
    """Seeding restarts the generators at once: what has no other state
    then emits what a new instance with the seed does, without a reset."""
    name, build = ctx.pick(MEMORYLESS)
    start = ctx.some([None, 'A', 3], 1)
    new = ctx.some(MORE_SEEDS, 2)
    before = ctx.size([0, 1, 5, -15, -40])
    obj, fresh = build(start), build(new)
    for i in range(abs(before)):
        # (Also many seeds.)
        obj() if before > 0 else obj.seed(i)
    ctx.step('%s with seed %r, %d calls, seed(%r)', name, start, before, new)
    obj.seed(new)
    steps = (None, 3, 1, None, 2) if not isinstance(obj, Field) else \
        (None,) * 9
    for i, k in enumerate(steps):
        args = () if k is None else (k,)
        a, b = repr(outcome(obj, *args)), repr(outcome(fresh, *args))
        ctx.check(a == b, '%s: request %d after seed(%r) gave %s, a new '
                  'instance gives %s', name, i, new, a, b)
    obj.reset()
    fresh = build(new)
    for i, k in enumerate(steps):
        args = () if k is None else (k,)
        a, b = repr(outcome(obj, *args)), repr(outcome(fresh, *args))
        ctx.check(a == b, '%s: request %d after seed(%r) and reset gave %s, '
                  'a new instance gives %s', name, i, new, a, b)
    ctx.state((name, start, repr(new), before))
    ctx.outcome((name, repr(new), a))


def no_seed(ctx):
    """None is a seed, too: what was seeded before is forgotten."""
    name, build = ctx.pick(MEMORYLESS)
    start = ctx.pick([None, 'A', 3])
    final = ctx.pick(['reset', 'attr', 'twice'])
    steps = [None] * 30 if name == 'field' else [None, 30, 1, 9]

    def run(obj):
        return repr([outcome(obj, *(() if k is None else (k,)))
                     for k in steps])
    obj = build(start)
    old = run(build(3))
    obj.seed(3)
    obj()
    ctx.step('%s with seed %r, seed(3), seed(None), %s', name, start, final)
    if final == 'attr':
        obj.seed(None)
        ctx.check(obj.rng_seed is None, 'rng_seed is %r after seed(None)',
                  obj.rng_seed)
    else:
        obj.seed(None)
        obj.reset()
    if final == 'twice':
        obj.reset()
    if name not in ('based',):
        a = run(obj)
        ctx.check(a != old, '%s: after seed(None), it emits what it emits '
                  'for the seed it had before', name)
    ctx.state((name, start, final))
    ctx.outcome((name, final))


def processes(ctx):
    """The same emissions in other processes, with other hash seeds."""
    hashseed = ctx.pick(['0', '1', '7', '12345', '4242'])
    env = dict(os.environ, PYTHONHASHSEED=hashseed)
    out = subprocess.run(
        [sys.executable, '-m', 'mc.digest', os.path.join(main.REPO, 'src')],
        cwd=main.VERIF, env=env, capture_output=True, text=True, timeout=100)
    ctx.step('process with PYTHONHASHSEED=%s', hashseed)
    ctx.check(out.returncode == 0, 'the process failed: %s', out.stderr[-500:])
    theirs = json.loads(out.stdout)
    mine = digest.digests(zoo, digest.SEEDS)
    for k in mine:
        ctx.check(theirs.get(k) == mine[k], '%s emits other data in another '
                  'process (PYTHONHASHSEED=%s)', k, hashseed)
        ctx.state((k, mine[k]))
    ctx.outcome(len(set(mine.values())))


def scenarios(tier, seed):
    return [Scenario('histories', histories),
            Scenario('long use', periodic(
                histories, 45, more=()), split=3), Scenario('seeds', seeds),
            Scenario('seed_alone', seed_alone), Scenario('no_seed', no_seed),
            Scenario('oracle', oracle, dev_bound=1),
            Scenario('long', long_histories),
            Scenario('every number', every_size(long_histories), split=2),
            Scenario('many seeds', every_size(seed_alone, range(-45, 0), ()),
                     split=2),
            Scenario('processes', processes, exec_limit=150)]
