"""Isolation: all interleavings of the operations of two instances, for every
ordered pair of a zoo of emitters, fields and schemas, against what each does
alone; the same for instances built from the very same input objects; the
process-wide generator and all inputs passed in are compared before and
after."""
import collections
import copy
import itertools
import random
import types

from fauxdoc import mathtools
from fauxdoc.dtrange import dtrange
from fauxdoc.emitters import (BasedOnFields, Choice, CopyFields, Iterative,
                              Sequential, Static, Text, WrapMany, WrapOne,
                              Word, chance, gaussian_choice, make_alphabet,
                              poisson_choice)
from fauxdoc.group import ObjectGroup, ObjectMap
from fauxdoc.mathtools import weighted_shuffle
from fauxdoc.profile import Field, Schema

from .. import zoo
from ..common import outcome
from ..explore import Scenario
from .c07 import GROUPS, _read, _reset, _seed

SCRIPTS = [
    [('call', None), ('call', 3), ('call', 1)],
    [('call', 2), ('reset',), ('call', 2)],
    [('seed', 'X'), ('call', 4), ('call', None)],
    [('read',), ('call', 5), ('reset',)],
    [('call', 0), ('call', 400), ('call', None)],
]


def _op(obj, kind, op):
    if op[0] == 'call':
        if kind != 'emitter' or op[1] is None:
            return repr(outcome(obj))
        return repr(outcome(obj, op[1]))
    if op[0] == 'reset':
        _reset(obj, kind)
    elif op[0] == 'seed':
        _seed(obj, kind, op[1])
    else:
        _read(obj)
    return None


_SOLO = {}


def _solo(i, seed, script, build=None):
    key = (i, seed, script)
    if build is not None or key not in _SOLO:
        obj = (build or GROUPS[i][1])(seed)
        kind = GROUPS[i][2] if build is None else 'emitter'
        res = [_op(obj, kind, op) for op in SCRIPTS[script]]
        if build is not None:
            return res
        _SOLO[key] = res
    return _SOLO[key]


def _interleave(ctx, a, b, ka, kb, sa, sb, want, names):
    na, nb = len(SCRIPTS[sa]), len(SCRIPTS[sb])
    order = ctx.pick(list(itertools.combinations(range(na + nb), na)))
    got = [[], []]
    for t in range(na + nb):
        w = 0 if t in order else 1
        op = SCRIPTS[(sa, sb)[w]][len(got[w])]
        r = _op((a, b)[w], (ka, kb)[w], op)
        ctx.step('%s: %r -> %s', names[w], op, r)
        got[w].append(r)
    for w in (0, 1):
        ctx.check(got[w] == want[w], '%s, used while %s is used too, gave '
                  '%s instead of %s', names[w], names[1 - w],
                  str(got[w])[:300], str(want[w])[:300])


def pairs(ctx):
    i = ctx.choose(len(GROUPS))
    j = ctx.choose(len(GROUPS))
    (na, ba, ka), (nb, bb, kb) = GROUPS[i], GROUPS[j]
    if ctx.quick:
        sa, sb = ctx.pick([(0, (i + j) % 5), ((i * 3 + j) % 5, 1)]
                          if i != j else
                          [(0, 0), (1, 1), (2, 0), (0, 3), (4, 1)])
    else:
        sa, sb = ctx.choose(5), ctx.choose(5)
    same = i == j and ctx.choose(2)
    s2 = 'A' if same else 'B'
    want = _solo(i, 'A', sa), _solo(j, s2, sb)
    _interleave(ctx, ba('A'), bb(s2), ka, kb, sa, sb, want,
                (na + ' (1st)', nb + ' (2nd)'))
    ctx.state((na, nb, sa, sb, same))
    ctx.outcome((na, nb))


# -- the same input objects given to two instances -------------------------

def _shared_inputs():
    return {
        'items': ['a', 'b', 'c', 'd', 'e', 'b'],
        'weights': [1, 2, 0.5, 3, 1, 1],
        'cum': [1, 3, 4, 8, 9, 10],
        'letters': list('pqrs'),
        'lengths': [1, 3, 2],
        'ranges': [(97, 99), (48, 50)],
        'big': list(range(60)),
        'bigw': [1 + i % 3 for i in range(60)],
        'words': ['w1', 'w2', 'w3', 'w4'],
    }


SHARED = [
    ('choice', lambda d, s: Choice(d['items'], rng_seed=s)),
    ('choice w', lambda d, s: Choice(d['items'], d['weights'], rng_seed=s)),
    ('choice cum', lambda d, s: Choice(d['items'], cum_weights=d['cum'],
                                       rng_seed=s)),
    ('norep', lambda d, s: Choice(d['items'], replace=False, rng_seed=s)),
    ('norep w', lambda d, s: Choice(d['items'], d['weights'], False,
                                    rng_seed=s)),
    ('norep cum', lambda d, s: Choice(d['items'], None, False, rng_seed=s,
                                      cum_weights=d['cum'])),
    ('roac', lambda d, s: Choice(d['items'], None, False, True, rng_seed=s)),
    ('roac w', lambda d, s: Choice(d['items'], d['weights'], False, True,
                                   rng_seed=s)),
    ('roac big w', lambda d, s: Choice(d['big'], d['bigw'], False, True,
                                       rng_seed=s)),
    ('poisson', lambda d, s: poisson_choice(d['items'], 2, rng_seed=s)),
    ('gauss', lambda d, s: gaussian_choice(d['items'], 2, replace=False,
                                           rng_seed=s)),
    ('seq', lambda d, s: Sequential(d['items'])),
    ('seq rac', lambda d, s: Sequential(d['items'], True)),
    ('iter', lambda d, s: Iterative(lambda: iter(d['items']))),
    ('static', lambda d, s: Static(d['items'])),
    ('word', lambda d, s: Word(Choice(d['lengths']), Choice(d['letters']),
                               rng_seed=s)),
    ('word seq', lambda d, s: Word(Sequential(d['lengths']), Sequential(
        d['letters']), rng_seed=s)),
    ('alphabet', lambda d, s: Word(Choice(d['lengths']), Choice(
        make_alphabet(d['ranges'])), rng_seed=s)),
    ('text', lambda d, s: Text(Choice(d['lengths']), Choice(d['words']),
                               rng_seed=s)),
    ('text roac', lambda d, s: Text(
        Choice(d['lengths']), Choice(d['words'],
                                     replace_only_after_call=True),
        rng_seed=s)),
    ('wrap', lambda d, s: WrapOne(Choice(d['items'], d['weights']), str,
                                  rng_seed=s)),
]


def shared(ctx):
    i, j = ctx.choose(len(SHARED)), ctx.choose(len(SHARED))
    sa, sb = ctx.pick([(0, 1), (1, 0), (4, 2)] if ctx.quick else list(
        itertools.product(range(5), range(5))))
    want = (_solo(0, 'A', sa, lambda s: SHARED[i][1](_shared_inputs(), s)),
            _solo(0, 'A', sb, lambda s: SHARED[j][1](_shared_inputs(), s)))
    data = _shared_inputs()
    keep = copy.deepcopy(data)
    a, b = SHARED[i][1](data, 'A'), SHARED[j][1](data, 'A')
    _interleave(ctx, a, b, 'emitter', 'emitter', sa, sb, want,
                (SHARED[i][0] + ' (1st)', SHARED[j][0] + ' (2nd)'))
    ctx.check(data == keep, 'the inputs of %s and %s were changed: %r',
              SHARED[i][0], SHARED[j][0],
              [k for k in data if data[k] != keep[k]])
    ctx.state((i, j, sa, sb))
    ctx.outcome((i, j))


def process_wide(ctx):
    """No use of the module-level generator, nor of the time or such."""
    i = ctx.choose(len(GROUPS))
    name, build, kind = GROUPS[i]
    script = ctx.choose(len(SCRIPTS))
    want = _solo(i, 'A', script)
    state0 = random.getstate()
    try:
        random.seed(ctx.pick([1, 2, 'x']))
        st = random.getstate()
        obj = build('A')
        ctx.check(random.getstate() == st, 'creating %s used or changed the '
                  'process-wide generator', name)
        for n, op in enumerate(SCRIPTS[script]):
            r = _op(obj, kind, op)
            ctx.step('%s: %r -> %s', name, op, r)
            ctx.check(random.getstate() == st, '%r on %s used or changed the '
                      'process-wide generator', op, name)
            ctx.check(r == want[n], '%s: %r gave %s instead of %s', name, op,
                      r, want[n])
            # Use of it by the application changes nothing either.
            random.random()
            st = random.getstate()
        # An unseeded instance doesn't touch it either.
        obj = build(None)
        for op in SCRIPTS[script]:
            if op[0] != 'seed':
                _op(obj, kind, op)
        ctx.check(random.getstate() == st, 'an unseeded %s used or changed '
                  'the process-wide generator', name)
    finally:
        random.setstate(state0)
    ctx.state((name, script))
    ctx.outcome(name)


FUNCTIONS = {
    'weighted_shuffle': lambda n: weighted_shuffle(
        list(range(n)), [1 + i % 3 for i in range(n)]),
    'weighted_shuffle number': lambda n: weighted_shuffle(
        list(range(n)), [i % 3 + .5 for i in range(n)], number=n // 2),
    'weighted_shuffle one': lambda n: weighted_shuffle(
        list(range(n)), [1] * n, number=1),
    'weighted_shuffle zeros': lambda n: weighted_shuffle(
        list(range(n)), [i % 2 for i in range(n)]),
    'weighted_shuffle rng': lambda n: weighted_shuffle(
        list(range(n)), [1] * n, random.Random(3)),
    'make_alphabet': lambda n: make_alphabet([(97, 97 + n)]),
    'make_alphabet default': lambda n: make_alphabet(),
    'chance': lambda n: chance(1 / n)(n),
    'poisson_choice': lambda n: poisson_choice(range(1, n + 1), 2)(n),
    'gaussian_choice': lambda n: gaussian_choice(range(n), 2, 1)(n),
    'poisson': lambda n: mathtools.poisson(n, 2),
    'gaussian': lambda n: mathtools.gaussian(n, 2, 1),
    'clamp': lambda n: mathtools.clamp(n, 1, 2),
    'dtrange': lambda n: list(dtrange('2020-01-01', '2020-01-%02d' % min(
        n + 1, 31))),
    'ObjectMap': lambda n: ObjectMap({'a': Choice(range(n))}).do_method(
        'seed', n),
    'ObjectGroup': lambda n: ObjectGroup(Choice(range(n))).do_method('reset'),
}


def _parts(obj):
    yield obj
    for child in getattr(obj, 'emitters', {}).values():
        yield from _parts(child)


def _same_generators(obj):
    """Sets all generators of an unseeded emitter to a known state."""
    for i, part in enumerate(_parts(obj)):
        if hasattr(part, 'rng'):
            part.rng.setstate(random.Random(i).getstate())
    for part in _parts(obj):
        if hasattr(part, 'replace') and not part.replace:
            part.replace = True
            part.replace = False


def unseeded(ctx):
    """Without seeds too, what is emitted depends on the emitter's own
    generators alone."""
    i = ctx.choose(len(SHARED))
    j = ctx.choose(len(SHARED))
    name, build = SHARED[i]
    other = SHARED[j][1](_shared_inputs(), None)
    calls = ctx.pick([(None, 3, 1), (0, 40, None), (2, 2, 5, None, 1)])
    if name == 'text roac':
        # (Resets its word emitter, and so makes a new generator, on its
        # own.)
        calls = (None, None)
    got = []
    for noise in (0, 1):
        em = build(_shared_inputs(), None)
        _same_generators(em)
        got.append([])
        for n in calls:
            got[-1].append(repr(outcome(em, n)))
            if noise:
                outcome(other, 3)
                _same_generators(other)
                if hasattr(em, 'replace') and not em.replace:
                    # (Has to be refilled, lest it run out.)
                    em.weights = em.weights
            elif hasattr(em, 'replace') and not em.replace:
                em.weights = em.weights
    ctx.step('%s, with %s in between: %r', name, SHARED[j][0], got)
    ctx.check(got[0] == got[1], 'with the same states of its generators, %s '
              'emits %s when %s is used in between instead of %s', name,
              str(got[1])[:200], SHARED[j][0], str(got[0])[:200])
    ctx.state((i, j, calls))
    ctx.outcome((i, j))


def functions(ctx):
    """The functions, without a generator of one's own, leave the
    process-wide one alone, and do not depend on it."""
    name = ctx.pick(sorted(FUNCTIONS))
    n = ctx.pick([1, 2, 3, 10, 40, 300])
    seed = ctx.pick([1, 'x'])
    state0 = random.getstate()
    try:
        random.seed(seed)
        st = random.getstate()
        for _ in range(3):
            out = outcome(FUNCTIONS[name], n)
            ctx.step('%s(%d) -> %s', name, n, out[0])
            ctx.check(random.getstate() == st, '%s used or changed the '
                      'process-wide generator', name)
    finally:
        random.setstate(state0)
    ctx.state((name, n, seed))
    ctx.outcome(name)


def inputs(ctx):
    """Containers passed in are never modified."""
    case = ctx.choose(11)
    n = ctx.pick([2, 3, 5, 12, 40])
    items = ['i%d' % i for i in range(n)]
    weights = [1 + i % 3 for i in range(n)]
    cum = list(itertools.accumulate(weights))
    script = ctx.pick(SCRIPTS)
    ctx.step('case %d, %d items, %r', case, n, script)
    if case < 4:
        data = [items, weights, cum]
        keep = copy.deepcopy(data)
        em = Choice(items, weights, bool(case & 1), bool(case & 2),
                    rng_seed=1)
        for op in script:
            _op(em, 'emitter', op)
        em.weights = weights
        em.cum_weights = cum
        for op in script:
            _op(em, 'emitter', op)
        em.replace = not em.replace
        for op in script:
            _op(em, 'emitter', op)
        ctx.check(data == keep, 'items or weights changed: %r', data)
    elif case == 4:
        kids = {'b': Choice(items), 'a': Sequential(items)}
        keep = dict(kids)
        em = WrapMany(kids, zoo.join, rng_seed=1)
        for op in script:
            _op(em, 'emitter', op)
        em.emitters['c'] = Static(1)
        ctx.check(kids == keep and list(kids) == list(keep),
                  'the mapping of sources changed: %r', kids)
    elif case == 5:
        f1, f2 = Field('f1', Choice(items)), Field('f2', Static(2))
        lst = [f1, f2]
        for em in (CopyFields(lst), BasedOnFields(lst, zoo.join)):
            f1(), f2()
            for op in script:
                _op(em, 'emitter', op)
            em.source.append(f1)
            ctx.check(len(lst) == 2 and lst[0] is f1 and lst[1] is f2,
                      'the list of source fields changed')
        lst.append(f1)
        em = CopyFields([f1])
        ctx.check(len(em.source) == 1, 'source fields changed')
    elif case == 6:
        ranges = [(97, 99), (48, 50)]
        keep = copy.deepcopy(ranges)
        a = make_alphabet(ranges)
        a.append('!')
        b = make_alphabet(ranges)
        ctx.check(ranges == keep and len(b) == 6, 'alphabet ranges changed')
        d = make_alphabet()
        d.clear()
        ctx.check(len(make_alphabet()) > 100, 'default alphabet is shared')
    elif case == 7:
        keep = items[:], weights[:]
        for k in (None, 0, 1, n // 2, n):
            weighted_shuffle(items, weights, random.Random(1), k)
            weighted_shuffle(items, weights, number=k)
        ctx.check((items, weights) == keep, 'items or weights changed')
    elif case in (9, 10):
        # One mapping of any type given to two instances.
        for make in (dict, collections.OrderedDict, ObjectMap,
                     types.MappingProxyType, collections.ChainMap):
            kids = make({'b': Choice(items), 'a': Sequential(items)})
            keep = dict(kids)
            two = [WrapMany(kids, zoo.join, rng_seed=s) for s in (1, 2)]
            want = [WrapMany({'b': Choice(items), 'a': Sequential(items)},
                             zoo.join, rng_seed=s)(4) for s in (1, 2)]
            changed = two[case - 9]
            changed.emitters['a'] = Static('!')
            changed.emitters['c'] = Static('?')
            del changed.emitters['b']
            other = two[10 - case]
            other.seed(2 - (case - 9))
            other.reset()
            ctx.check(dict(kids) == keep and list(kids) == ['b', 'a'],
                      'the %s of sources changed: %r', make.__name__, kids)
            ctx.check(other(4) == want[10 - case], 'replacing the children '
                      'of one emitter changes another made from the same %s',
                      make.__name__)
            for op in script:
                _op(other, 'emitter', op)
            lst = [Field('f1', Static(1)), Field('f2', Static(2))]
            for cont in (list, tuple, collections.deque, collections.UserList,
                         lambda x: ObjectGroup(*x)):
                src = cont(lst)
                a, b = CopyFields(src), BasedOnFields(src, zoo.join)
                a.source.pop()
                b.source.reverse()
                ctx.check(list(src) == lst, 'the source fields passed in '
                          'changed: %r', src)
                ctx.check(len(b.source) == 2 and a.source[0] is lst[0],
                          'two emitters share their source fields')
    else:
        # Instances with default children don't share them.
        f, g = Field('f', Choice(items), rng_seed=1), Field(
            'g', Static(3), rng_seed=1)
        f.gate_emitter.value = False
        f.repeat_emitter.value = 2
        ctx.check(g() == 3 and Field('h', Static(4))() == 4,
                  'fields share their default emitters')
        t = Text(Static(2), Static('w'))
        t.sep_emitter.value = '+'
        ctx.check(Text(Static(2), Static('w'))() == 'w w',
                  'texts share their default separator')
        s1, s2 = Schema(), Schema()
        s1.add_fields(f)
        ctx.check(not s2.fields and not Schema().fields,
                  'schemas share their fields')
        c1, c2 = chance(0.5), chance(0.5)
        c1.weights = [1, 0]
        ctx.check(list(c2.weights) == [0.5, 0.5], 'emitters share weights')
    ctx.state((case, n, script))
    ctx.outcome((case, n))


def scenarios(tier, seed):
    return [Scenario('pairs', pairs), Scenario('shared', shared),
            Scenario('process_wide', process_wide),
            Scenario('functions', functions),
            Scenario('unseeded', unseeded),
            Scenario('inputs', inputs)]
