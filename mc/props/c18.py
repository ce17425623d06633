"""Refused operations: for every type of object, every history of operations
up to a bound and every operation that has to be refused at every point of it,
the documented error is raised and the object stays in step with a twin that
was never asked: same attributes right afterwards, same values from all later
operations (new weights, replacement switches, resets and reseeds included).
Constructors and functions that refuse their arguments are enumerated too,
with the arguments checked to be untouched."""
import collections
import datetime
import itertools
import random

from fauxdoc import dtrange as dtmod
from fauxdoc.dtrange import DateOrTimeRange, dtrange
from fauxdoc.emitters import Choice, gaussian_choice, poisson_choice
from fauxdoc.emitters.choice import chance
from fauxdoc.emitters.fixed import Iterative, Sequential, Static
from fauxdoc.emitters.fromfields import BasedOnFields, CopyFields
from fauxdoc.emitters.text import Text, Word
from fauxdoc.emitters.wrappers import BoundWrapper, WrapMany, WrapOne
from fauxdoc.mathtools import weighted_shuffle
from fauxdoc.profile import Field, Schema

from .. import hrng
from ..common import outcome
from ..explore import Scenario, periodic

CH_ATTRS = ('items', 'weights', 'cum_weights', 'replace',
            'replace_only_after_call', 'num_unique_items',
            'num_unique_values', 'emits_unique_values', 'noun', 'rng_seed')


def _plain(v):
    if isinstance(v, (str, int, float, type(None), list, tuple, dict, set,
                      range, DateOrTimeRange)):
        return repr(v)
    return type(v).__name__


def view(obj, attrs):
    return [(a, _plain(getattr(obj, a))) for a in attrs]


def same(ctx, a, b, attrs, what):
    va, vb = view(a, attrs), view(b, attrs)
    ctx.check(va == vb, '%s: attributes are now %r, but %r without the '
              'refused operation', what,
              [x for x, y in zip(va, vb) if x != y],
              [y for x, y in zip(va, vb) if x != y])


def both(ctx, a, b, name, op):
    """Runs an operation on both; results must agree."""
    ra, rb = outcome(op, a), outcome(op, b)
    ctx.step('%s -> %r', name, ra)
    ctx.check(repr(ra) == repr(rb), '%s gave %r, but %r without the refused '
              'operation', name, ra, rb)
    return ra


def refuse(ctx, obj, name, op, errors):
    out = outcome(op, obj)
    ctx.step('(refused) %s -> %r', name, out)
    ctx.check(out[0] == 'err' and out[1] in errors,
              '%s gave %r instead of a %s', name, out, '/'.join(errors))


def setter(attr, value):
    return lambda o: setattr(o, attr, value)


def caller(*args):
    return lambda o: o(*args)


# -- choices ----------------------------------------------------------------

N = {'few': ['a', 'b', 'c', 'd'], 'dups': ['x', 'y', 'x'], 'one': [7],
     'many': list(range(40))}


def choice_build(kind, mode, weighted):
    items = N[kind]
    w = [1 + i % 3 for i in range(len(items))] if weighted else None
    kw = {'replace': mode == 'rep'} if mode != 'roac' else {
        'replace_only_after_call': True}
    return lambda: Choice(list(items), w, rng_seed=11, **kw)


CH_OPS = [
    ('call()', caller()), ('call(1)', caller(1)), ('call(2)', caller(2)),
    ('call(0)', caller(0)), ('call(-1)', caller(-1)),
    ('emit_many(3)', lambda o: o.emit_many(3)),
    ('all', lambda o: o(o.num_unique_items)),
    ('reset', lambda o: o.reset()), ('seed', lambda o: o.seed(5)),
    ('weights', lambda o: setattr(o, 'weights', [
        2 + i % 2 for i in range(len(o.items))])),
    ('no weights', setter('weights', None)),
    ('cum', lambda o: setattr(o, 'cum_weights', range(
        1, len(o.items) + 1))),
    ('norep', setter('replace', False)), ('rep', setter('replace', True)),
    ('roac', setter('replace_only_after_call', True)),
    ('no roac', setter('replace_only_after_call', False)),
]
V = ('ValueError',)
A = ('AttributeError',)
CH_REFUSED = [
    ('one too many', lambda o: o(max(2, o.num_unique_items + 1)), V,
     'limited'),
    ('far too many', lambda o: o(10 ** 6), V, 'limited'),
    ('emit_many too many', lambda o: o.emit_many(
        max(2, o.num_unique_items + 1)), V, 'limited'),
    ('call()', caller(), V, 'empty'),
    ('call(1)', caller(1), V, 'empty'),
    ('emit()', lambda o: o.emit(), V, 'empty'),
    ('emit_many(1)', lambda o: o.emit_many(1), V, 'empty'),
    ('too few weights', lambda o: setattr(
        o, 'weights', [1] * (len(o.items) - 1)), V, None),
    ('too many weights', lambda o: setattr(
        o, 'weights', (1,) * (len(o.items) + 1)), V, None),
    ('empty weights', setter('weights', ()), V, None),
    ('too few cum_weights', lambda o: setattr(
        o, 'cum_weights', list(range(1, len(o.items)))), V, None),
    ('too many cum_weights', lambda o: setattr(
        o, 'cum_weights', list(range(len(o.items) + 1))), V, None),
    ('empty cum_weights', setter('cum_weights', []), V, None),
    ('items =', setter('items', ['q']), A, None),
    ('num_unique_items =', setter('num_unique_items', 1), A, None),
    ('num_unique_values =', setter('num_unique_values', 1), A, None),
    ('emits_unique_values =', setter('emits_unique_values', True), A, None),
]


def _refusable(o, when):
    if when is None:
        return True
    limited = not o.replace or o.replace_only_after_call
    if when == 'limited':
        return limited
    return not o.replace and not o.num_unique_items


MANY = [1, 40]


def choice(ctx):
    kind = ctx.some(['few', 'dups', 'one', 'many'])
    mode = ctx.pick(['norep', 'roac', 'rep'])
    weighted = ctx.choose(1 if ctx.loop else 2)
    build = choice_build(kind, mode, weighted)
    a, b = build(), build()
    ctx.step('Choice(%s, %s, weighted=%r)', kind, mode, weighted)
    small = kind in ('few', 'dups')
    depth = (2 if small else 1) if ctx.quick else 2
    name = None
    hist = []
    for name, op in ctx.history(depth, CH_OPS, stop=True):
        hist.append(name)
        both(ctx, a, b, name, op)
    rs = [r for r in CH_REFUSED if _refusable(b, r[3])]
    r = ctx.some(rs, 5)
    once = len(hist) == 2 and ctx.quick
    for i in range(1 if once else ctx.pick(MANY) if ctx.loop else
                   1 + ctx.choose(2)):
        refuse(ctx, a, r[0], r[1], r[2])
        same(ctx, a, b, CH_ATTRS, r[0])
    post = ctx.some(range(len(CH_OPS)))
    name, op = CH_OPS[post]
    both(ctx, a, b, name, op)
    same(ctx, a, b, CH_ATTRS, name)
    # Everything left, then each mode in turn.
    both(ctx, a, b, 'call(2)', caller(2))
    both(ctx, a, b, 'emit', lambda o: o.emit())
    both(ctx, a, b, 'all', lambda o: o(o.num_unique_items))
    same(ctx, a, b, CH_ATTRS, 'rest')
    for name, op in (('rep', setter('replace', True)),
                     ('call(5)', caller(5)),
                     ('roac', setter('replace_only_after_call', True)),
                     ('call(3)', caller(3)),
                     ('norep', setter('replace', False)),
                     ('all', lambda o: o(len(o.items)))):
        both(ctx, a, b, name, op)
    same(ctx, a, b, CH_ATTRS, 'end')
    ctx.state((kind, mode, weighted, tuple(hist), r[0], post))
    ctx.outcome((kind, mode, weighted, r[0], post))


# -- other objects ------------------------------------------------------------

def _gen():
    yield 'g1'
    yield 'g2'
    yield 'g3'


def _schema():
    f = Field('a', Sequential('abc'), rng_seed=3)
    g = Field('b', Choice(range(20)), repeat=Choice([1, 2, 3]),
              gate=chance(0.7), hide=True, rng_seed=4)
    return Schema(f, g, Field('c', CopyFields([f, g])))


def jitter(v, rng):
    return (v, rng.randrange(9))


OBJ = {
    'static': (lambda: Static([1]), ('items', 'value', 'num_unique_values',
                                     'emits_unique_values'),
               [('set', setter('value', 'w'))],
               [('items =', setter('items', [2]), A),
                ('num_unique_values =', setter('num_unique_values', 3), A),
                ('emits_unique_values =', setter('emits_unique_values', 1),
                 A)]),
    'iterative': (lambda: Iterative(_gen), (
        'reset_after_call', 'iterator_factory', 'num_unique_values'), [
            ('rac', setter('reset_after_call', True)),
            ('no rac', setter('reset_after_call', False)),
            ('factory', setter('iterator_factory', lambda: iter('xy')))],
        [('empty factory', setter('iterator_factory', lambda: iter([])), V),
         ('empty generator', setter('iterator_factory',
                                    lambda: (x for x in ())), V),
         ('empty slice', setter('iterator_factory', lambda: itertools.islice(
             itertools.count(), 0)), V),
         ('iterator =', setter('iterator', iter('q')), A),
         ('num_unique_values =', setter('num_unique_values', 3), A)]),
    'sequential': (lambda: Sequential(['s', 't', 'u', 's']), (
        'items', 'reset_after_call', 'num_unique_values',
        'emits_unique_values'), [
            ('rac', setter('reset_after_call', True)),
            ('no rac', setter('reset_after_call', False)),
            ('factory', setter('iterator_factory', lambda: iter('xyz')))],
        [('empty factory', setter('iterator_factory', lambda: iter([])), V),
         ('empty string', setter('iterator_factory', lambda: iter('')), V),
         ('generator', setter('iterator_factory', _gen), V),
         ('count', setter('iterator_factory', lambda: itertools.count()), V),
         ('map', setter('iterator_factory', lambda: map(str, [1, 2])), V),
         ('iterator =', setter('iterator', iter('q')), A),
         ('items =', setter('items', 'q'), A)]),
    'word': (lambda: Word(Choice([0, 1, 3]), Choice('abcdef'), rng_seed=2), (
        'num_unique_values', 'emits_unique_values', 'rng_seed',
        'length_emitter', 'alphabet_emitter'),
        [('seed', lambda o: o.seed(8))],
        [('length_emitter =', setter('length_emitter', Static(2)), A),
         ('alphabet_emitter =', setter('alphabet_emitter', Static('z')), A),
         ('emitters =', setter('emitters', {}), A),
         ('num_unique_values =', setter('num_unique_values', 3), A),
         ('emits_unique_values =', setter('emits_unique_values', 1), A)]),
    'text': (lambda: Text(Choice([0, 1, 3]), Choice(['foo', 'bar', 'baz']),
                          Choice([' ', '-']), rng_seed=2), (
        'num_unique_values', 'emits_unique_values', 'rng_seed'),
        [('seed', lambda o: o.seed(8))],
        [('numwords_emitter =', setter('numwords_emitter', Static(2)), A),
         ('word_emitter =', setter('word_emitter', Static('z')), A),
         ('sep_emitter =', setter('sep_emitter', Static('z')), A),
         ('emitters =', setter('emitters', {}), A),
         ('num_unique_values =', setter('num_unique_values', 3), A)]),
    'wrap one': (lambda: WrapOne(Choice(range(30)), jitter, rng_seed=6), (
        'num_unique_values', 'emits_unique_values', 'rng_seed'),
        [('seed', lambda o: o.seed(8)),
         ('wrapper', lambda o: o.set_wrapper_function(str))],
        [('emitters =', setter('emitters', {}), A),
         ('signature =', lambda o: setattr(o.wrapper, 'signature', None), A),
         ('wants_rng =', lambda o: setattr(o.wrapper, 'wants_rng', False),
          A),
         ('num_unique_values =', setter('num_unique_values', 3), A)]),
    'wrap many': (lambda: WrapMany(
        {'p': Choice(range(30)), 'q': Sequential('abc')},
        lambda p, q, rng: (p, q, rng.random()), rng_seed=6), (
            'num_unique_values', 'emits_unique_values', 'rng_seed'),
        [('seed', lambda o: o.seed(8))],
        [('emitters =', setter('emitters', {}), A),
         ('wants_rng =', lambda o: setattr(o.wrapper, 'wants_rng', False),
          A)]),
    'field': (lambda: Field('f', Choice(range(40)), repeat=Choice([1, 2]),
                            gate=chance(0.8), rng_seed=3),
              ('previous', 'multi_valued', 'name', 'hide', 'rng_seed'),
              [('seed', lambda o: o.seed(8)), ('hide', setter('hide', True))],
              [('previous =', setter('previous', 'x'), A),
               ('multi_valued =', setter('multi_valued', False), A),
               ('emitters =', setter('emitters', {}), A)]),
    'schema': (_schema, ('public_fields', 'hidden_fields', 'fields'),
               [('hide', lambda o: setattr(o.fields['a'], 'hide', True)),
                ('seed', lambda o: o.seed_fields(4)),
                ('reset fields', lambda o: o.reset_fields())],
               [('public_fields =', setter('public_fields', {}), A),
                ('hidden_fields =', setter('hidden_fields', {}), A)]),
}
COMMON = [('call()', caller()), ('call(2)', caller(2)), ('call(0)',
                                                         caller(0)),
          ('reset', lambda o: o.reset())]


def _view_keys(v):
    return list(v) if isinstance(v, dict) else v


def objects(ctx):
    kind = ctx.pick(sorted(OBJ))
    build, attrs, extra, refused = OBJ[kind]
    a, b = build(), build()
    ctx.step(kind)
    ops = (COMMON if kind not in ('field', 'schema') else [
        ('call()', caller()), ('reset', lambda o: o.reset() if hasattr(
            o, 'reset') else o.reset_fields())]) + extra
    depth = 3 if ctx.quick else 4
    hist = []
    for op in ctx.history(depth, ops, stop=True):
        hist.append(op[0])
        both(ctx, a, b, *op)
    r = ctx.some(refused, 9)
    for _ in range(ctx.pick(MANY) if ctx.loop else 1 + ctx.choose(2)):
        refuse(ctx, a, *r)

        def keys(o):
            return [(x, _plain(_view_keys(getattr(o, x)))) for x in attrs]
        ctx.check(keys(a) == keys(b), 'after the refused %s: attributes are '
                  '%r instead of %r', r[0], keys(a), keys(b))
    for name, op in [('call()', caller())] * 3 + ops + [
            ('call()', caller())] * 2:
        both(ctx, a, b, name, op)
    ctx.check(keys(a) == keys(b), 'at the end: attributes are %r instead of '
              '%r', keys(a), keys(b))
    ctx.state((kind, tuple(hist), r[0]))
    ctx.outcome((kind, r[0], len(hist)))


# -- date and time ranges -----------------------------------------------------

D = datetime
DAY = D.timedelta(days=1)
RANGES = [
    lambda: dtrange('2020-02-27', '2020-03-03'),
    lambda: dtrange('2020-02-27T10:00', '2020-02-27T14:00', 2, 'hours'),
    lambda: dtrange('22:00', '03:00', 1, 'hours'),
    lambda: dtrange('2020-02-27', '2020-02-27'),
    lambda: DateOrTimeRange(D.date(2020, 1, 1), 3, DAY * -2),
]


def ranges(ctx):
    build = ctx.pick(RANGES)
    a, b = build(), build()
    warm = ctx.choose(3)
    for r in (a, b):
        if warm == 1:
            r.stop
        elif warm == 2:
            list(r)
    bad = [('start =', setter('start', D.date(2000, 1, 1)), A),
           ('same start =', lambda o: setattr(o, 'start', o.start), A),
           ('length =', setter('length', 9), A),
           ('length = 0', setter('length', 0), A),
           ('step =', setter('step', DAY * 3), A),
           ('bad step =', setter('step', 'x'), A + V),
           ('stop =', setter('stop', D.date(2000, 1, 1)), A),
           ('index(missing)', lambda o: o.index(D.date(1999, 1, 1)), V),
           ('index(None)', lambda o: o.index(None), V),
           ('[99]', lambda o: o[99], ('IndexError',)),
           ('[-99]', lambda o: o[-99], ('IndexError',)),
           ('["x"]', lambda o: o['x'], ('TypeError',)),
           ('[::0]', lambda o: o[::0], V),
           ('item assignment', lambda o: o.__setitem__(0, 1),
            ('TypeError', 'AttributeError')),
           ('append', lambda o: o.append(1), A)]
    r = ctx.pick(bad)
    ctx.step('%r', a)
    refuse(ctx, a, *r)
    r2 = ctx.pick(bad)
    refuse(ctx, a, *r2)
    for name, op in (('list', list), ('repr', repr), ('len', len),
                     ('stop', lambda o: o.stop), ('start', lambda o: o.start),
                     ('step', lambda o: o.step), ('hash', hash),
                     ('length', lambda o: o.length),
                     ('[1:]', lambda o: list(o[1:])),
                     ('last', lambda o: o[-1]),
                     ('count', lambda o: o.count(o.start))):
        both(ctx, a, b, name, op)
    ctx.check(a == b and b == a, 'no longer equal to its twin')
    ctx.state((repr(b), warm, r[0], r2[0]))
    ctx.outcome((repr(b), r[0], r2[0]))


# -- constructors and functions -------------------------------------------------

def _make_cases():
    c = []

    def add(name, errors, fn, *data):
        c.append((name, errors, fn, data))
    T = ('TypeError',)
    for name, items in (('[]', []), ('()', ()), ("''", ''),
                        ('range(0)', range(0)), ('None', None), ('0', 0),
                        ('5', 5), ('set', {1, 2}), ('empty set', set()),
                        ('dict', {1: 2}), ('frozenset', frozenset('ab')),
                        ('deque view', {1: 2}.keys()),
                        ('empty dtrange', dtrange('2020-01-01',
                                                  '2020-01-01'))):
        for kw in ({}, {'replace': False}, {'replace_only_after_call': True},
                   {'rng_seed': 3}):
            add('Choice(%s, %r)' % (name, kw), V,
                lambda i, k: Choice(i, **k), items, kw)
    add('Choice(generator)', V, lambda: Choice(x for x in 'ab'))
    add('Choice(iterator)', V, lambda: Choice(iter([1, 2])))
    for n in (1, 2, 3, 5, 40):
        for k in sorted({0, 1, n - 1, n + 1, 2 * n}):
            if k == n:
                continue
            for arg in ('weights', 'cum_weights'):
                for rep in ({}, {'replace': False},
                            {'replace_only_after_call': True},
                            {'noun': 'vegetable'}):
                    for kind in (list, tuple):
                        add('Choice(%d items, %s=%s of %d, %r)' % (
                            n, arg, kind.__name__, k, rep), V,
                            lambda i, w, a, r: Choice(i, **{a: w}, **r),
                            list(range(n)), kind(range(1, k + 1)), arg, rep)
            add('weighted_shuffle(%d, %d)' % (n, k), V,
                lambda i, w: weighted_shuffle(i, w, random.Random(1)),
                list(range(n)), [1] * k)
            add('weighted_shuffle(%d, %d, number=1)' % (n, k), V,
                lambda i, w: weighted_shuffle(i, w, random.Random(1), 1),
                list(range(n)), [1] * k)
            add('weighted_shuffle(%d, %d, number=0)' % (n, k), V,
                lambda i, w: weighted_shuffle(i, w, random.Random(1), 0),
                list(range(n)), [1] * k)
    for w in ([1, 2], [], (3, 4), [1]):
        for cw in ([1, 3], [], (1,)):
            for rep in ({}, {'replace': False}):
                add('Choice(weights=%r, cum_weights=%r)' % (w, cw), T,
                    lambda i, w, cw, r: Choice(i, weights=w, cum_weights=cw,
                                               **r),
                    ['a', 'b'], w, cw, rep)
    add('Choice(positional weights, cum_weights)', T, lambda i, w: Choice(
        i, w, cum_weights=w), ['a', 'b'], [1, 2])
    for f in (poisson_choice, gaussian_choice):
        add('%s([])' % f.__name__, V, f, [])
        add('%s(())' % f.__name__, V, f, ())
        add('%s(set)' % f.__name__, V, f, {1, 2})
    for items in ([], (), '', range(0)):
        for rac in (False, True):
            add('Sequential(%r, %r)' % (items, rac), V, Sequential, items,
                rac)
    for rac in (False, True):
        add('Iterative(empty, %r)' % rac, V, lambda r: Iterative(
            lambda: iter([]), r), rac)
        add('Iterative(empty generator, %r)' % rac, V, lambda r: Iterative(
            lambda: (x for x in ''), r), rac)
    T_ = D.time
    sec = D.timedelta(seconds=1)
    for name, args in {
            'start None': (None, 2, DAY), 'start str': ('2020-01-01', 2, DAY),
            'start int': (5, 2, DAY), 'start timedelta': (DAY, 2, DAY),
            'step None': (D.date(2020, 1, 1), 2, None),
            'step int': (D.date(2020, 1, 1), 2, 1),
            'date sub-day': (D.date(2020, 1, 1), 2, sec),
            'date day and a bit': (D.date(2020, 1, 1), 2, DAY + sec),
            'date minus sub-day': (D.date(2020, 1, 1), 2, -sec),
            'date microsecond': (D.date(2020, 1, 1), 2, sec / 10**6),
            'date minus microsecond': (D.date(2020, 1, 1), 2, -sec / 10**6),
            'date day and a microsecond': (D.date(2020, 1, 1), 2,
                                           DAY + sec / 10**6),
            'date minus a day and a microsecond': (
                D.date(2020, 1, 1), 2, -DAY - sec / 10**6),
            'date 36 hours': (D.date(2020, 1, 1), 2, DAY * 1.5),
            'time day': (T_(1), 2, DAY), 'time -day': (T_(1), 2, -DAY),
            'time week': (T_(1), 2, DAY * 7),
            'time -week': (T_(1), 2, -DAY * 7),
            'time day and a bit': (T_(1), 2, DAY + sec / 10**6),
            'time -day and a bit': (T_(1), 2, -DAY - sec / 10**6),
            'time 36 hours': (T_(1), 2, DAY * 1.5),
            'time -25 hours': (T_(1), 2, -DAY / 24 * 25),
            'length word': (D.date(2020, 1, 1), 'two', DAY),
            }.items():
        add('DateOrTimeRange ' + name, V, DateOrTimeRange, *args)
    for name, args in {
            'mixed 1': (D.date(2020, 1, 1), D.datetime(2020, 1, 2)),
            'mixed 2': (D.datetime(2020, 1, 1), D.date(2020, 1, 2)),
            'mixed 3': (D.date(2020, 1, 1), T_(1)),
            'mixed 4': (T_(1), D.datetime(2020, 1, 2)),
            'mixed str': ('2020-01-01', '10:00'),
            'mixed str 2': ('2020-01-01T00:00', '2020-01-02'),
            'nonsense': ('x', '2020-01-02'), 'nonsense 2': ('2020-01-01',
                                                            'tomorrow'),
            'empty str': ('', '2020-01-02'), 'None': (None, '2020-01-02'),
            'no such day': ('2021-02-29', '2021-03-02'),
            'no such hour': ('25:00', '01:00'),
            'unit': ('2020-01-01', '2020-01-03', 1, 'fortnights'),
            'unit month': ('2020-01-01', '2020-01-03', 1, 'months'),
            'zero step': ('2020-01-01', '2020-01-03', 0),
            'zero step 2': ('10:00', '11:00', 0, 'minutes'),
            'zero float': ('2020-01-01T00:00', '2020-01-03T00:00', 0.0),
            'half day': ('2020-01-01', '2020-01-03', 0.5),
            'time day': ('10:00', '11:00', 1, 'days'),
            'time -day': ('10:00', '11:00', -1, 'days'),
            'time 24 hours': ('10:00', '10:00', 24, 'hours'),
            'time -24 hours': ('10:00', '09:00', -24, 'hours'),
            'time weeks': ('10:00', '11:00', 2, 'weeks'),
            'time -weeks': ('10:00', '11:00', -0.5, 'weeks'),
            'time -86400 seconds': ('10:00', '11:00', -86400),
            'hours for dates': ('2020-01-01', '2020-01-03', 1, 'hours'),
            }.items():
        add('dtrange ' + name, V, dtrange, *args)
    return c


CASES = _make_cases()


def creation(ctx):
    name, errors, fn, data = CASES[ctx.choose(len(CASES))]
    before = [repr(d) for d in data]
    for i in range(2):
        out = outcome(fn, *data)
        ctx.step('%s -> %r', name, out)
        ctx.check(out[0] == 'err' and out[1] in errors, '%s gave %r instead '
                  'of a %s', name, out, errors[0])
    ctx.check(before == [repr(d) for d in data], '%s changed its arguments: '
              '%r became %r', name, before, [repr(d) for d in data])
    ctx.state(name)
    ctx.outcome((name, out[1]))


def sizes(ctx):
    """Every number of items, and of weights, requested or given."""
    n = ctx.pick([*range(1, 131), 151, 257, 641, 1025])
    mode = ctx.pick(['norep', 'roac', 'rep'])
    weighted = ctx.choose(2)
    items = ['i%d' % i for i in range(n)]
    w = [1 + i % 3 for i in range(n)] if weighted else None
    kw = {'replace': mode == 'rep'} if mode != 'roac' else {
        'replace_only_after_call': True}
    a, b = [Choice(items, w, rng_seed=11, **kw) for _ in range(2)]
    ctx.step('Choice of %d, %s, weighted=%r', n, mode, weighted)
    others = sorted({0, 1, n - 1, n + 1, n // 2, 2 * n, 40, 130} - {n})
    for m in others:
        for attr in ('weights', 'cum_weights'):
            ws = list(range(1, m + 1))
            refuse(ctx, a, '%s of %d for %d items' % (attr, m, n),
                   setter(attr, ws), V)
            out = outcome(lambda: Choice(items, **{attr: ws}, **kw))
            if m:
                ctx.check(out[0] == 'err' and out[1] == 'ValueError',
                          '%d items with %d %s: %r', n, m, attr, out)
        same(ctx, a, b, CH_ATTRS, m)
        if m:
            out = outcome(weighted_shuffle, items, [1] * m, random.Random(1))
            ctx.check(out[0] == 'err' and out[1] == 'ValueError',
                      'a shuffle of %d items with %d weights: %r', n, m, out)
    left = n
    for k in (n // 3, 1, n // 2):
        if mode != 'rep':
            over = left + 1 if mode == 'norep' else n + 1
            refuse(ctx, a, 'call(%d)' % max(2, over), caller(max(2, over)),
                   V)
            same(ctx, a, b, CH_ATTRS, over)
        if k <= left:
            both(ctx, a, b, 'call(%d)' % k, caller(k))
            left -= k
        same(ctx, a, b, CH_ATTRS, k)
    if mode == 'norep':
        both(ctx, a, b, 'call(%d)' % left, caller(left))
        for r in (caller(), caller(1), caller(n)):
            refuse(ctx, a, 'a request when nothing is left', r, V)
        same(ctx, a, b, CH_ATTRS, 'the end')
        both(ctx, a, b, 'reset', lambda o: o.reset())
        both(ctx, a, b, 'all', caller(n))
    ctx.state((n, mode, weighted))
    ctx.outcome((n, mode, weighted))


def accepted(ctx):
    """What is just within the documented limits isn't refused."""
    us = D.timedelta(microseconds=1)
    cases = [(D.time(1), DAY - us), (D.time(1), us - DAY), (D.time(1), us),
             (D.time(1), -us), (D.time(23, 59), DAY / 2),
             (D.date(2020, 1, 5), DAY), (D.date(2020, 1, 5), -DAY),
             (D.date(2020, 1, 5), DAY * 30), (D.date(2020, 1, 5), -DAY * 7),
             (D.datetime(2020, 1, 5), us), (D.datetime(2020, 1, 5), -us),
             (D.datetime(2020, 1, 5), DAY + us),
             (D.datetime(2020, 1, 5), -DAY * 9 - us)]
    start, step = ctx.pick(cases)
    length = ctx.pick([0, 1, 2, True, '3', 2.9, -1, '-7', -0.5])
    out = outcome(DateOrTimeRange, start, length, step)
    ctx.step('DateOrTimeRange(%r, %r, %r) -> %r', start, length, step, out)
    ctx.check(out[0] == 'ok', 'a suitable range was refused: %r', out)
    r = out[1]
    ctx.check((r.start, r.step) == (start, step) and
              r.length == len(r) == max(int(length), 0) and
              len(list(r)) == len(r), 'it has start %r, step %r, length %r',
              r.start, r.step, r.length)
    ctx.state((start, step, length))
    ctx.outcome((start, step, length))


def shuffle_rng(ctx):
    """A refused shuffle draws nothing from the generator it was given."""
    n, k, num = ctx.pick([(3, 2, None), (3, 4, 1), (10, 9, 3), (1, 0, None),
                          (50, 51, 10), (0, 1, None)])
    r1, r2 = random.Random(5), random.Random(5)
    out = outcome(weighted_shuffle, list(range(n)), [1] * k, r1, num)
    ctx.step('weighted_shuffle(%d items, %d weights, number=%r) -> %r', n, k,
             num, out)
    ctx.check(out[0] == 'err' and out[1] == 'ValueError', 'gave %r', out)
    ctx.check(r1.getstate() == r2.getstate(), 'a refused shuffle used the '
              'generator')
    ctx.state((n, k, num))
    ctx.outcome((n, k, num))


def scenarios(tier, seed):
    return [Scenario('choice', choice, split=3), Scenario('objects', objects,
                                                          split=2),
            Scenario('ranges', ranges), Scenario('creation', creation),
            Scenario('long choice', periodic(choice, 45), split=3),
            Scenario('long objects', periodic(objects), split=3),
            Scenario('sizes', sizes, split=2),
            Scenario('accepted', accepted),
            Scenario('shuffle rng', shuffle_rng)]
