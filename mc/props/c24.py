"""Any sequence will do: for every kind of sequence (slicing or not, mutable
or not, of atoms or of anything) in every place that takes one, and every
history of up to three (thorough: four) operations, what is emitted, counted
and reported is compared with a twin built from a plain list of the same
values, under an uninterpreted RNG with every deviation up to a bound; the
same for mappings and for the ways to pass source fields."""
import array
import collections
import collections.abc
import datetime
import random
import types

from fauxdoc.dtrange import dtrange
from fauxdoc.emitters import (BasedOnFields, Choice, CopyFields, Sequential,
                              Static, WrapMany, Word, gaussian_choice,
                              poisson_choice)
from fauxdoc.emitters.text import make_alphabet
from fauxdoc.group import ObjectGroup, ObjectMap
from fauxdoc.mathtools import weighted_shuffle
from fauxdoc.mixins import count_unique
from fauxdoc.profile import Field, Schema

from .. import hrng
from ..common import outcome
from ..explore import Scenario, every_size


class Least(collections.abc.Sequence):
    """Only what collections.abc.Sequence asks for: no slices, no +, no *."""

    def __init__(self, values):
        self.values = tuple(values)

    def __len__(self):
        return len(self.values)

    def __getitem__(self, i):
        if not isinstance(i, int):
            raise TypeError('indices must be integers')
        return self.values[i]


class Unhash(list):
    def __add__(self, other):
        raise TypeError('no +')

    __radd__ = __add__

    def __mul__(self, other):
        raise TypeError('no *')

    __rmul__ = __imul__ = __mul__


class Walked(Least):
    """Has an __iter__ of its own."""

    def __iter__(self):
        for i in range(len(self.values)):
            yield self.values[i]


class Named(collections.namedtuple('Named', 'x y z')):
    pass


SEQS = {
    'tuple': lambda: ('a', 'b', 'b', None),
    'tuple of one': lambda: (0,),
    'namedtuple': lambda: Named(1, 2, 3),
    'str': lambda: 'abca',
    'one char': lambda: 'x',
    'blanks': lambda: ' a\n ',
    'sentence': lambda: 'to be, to',
    'bytes with blanks': lambda: b' to b',
    'falsy chars': lambda: '0\0 ',
    'bytes': lambda: b'abba',
    'bytearray': lambda: bytearray(b'xyz'),
    'memoryview': lambda: memoryview(b'qrs'),
    'range': lambda: range(3, 8),
    'range of one': lambda: range(1),
    'range down': lambda: range(9, 0, -2),
    'dtrange': lambda: dtrange('2020-02-27', '2020-03-03'),
    'dtrange slice': lambda: dtrange('2020-02-27', '2020-03-30')[::7],
    'times': lambda: dtrange('23:59:58', '00:00:02', 1, 'seconds'),
    'UserList': lambda: collections.UserList([1, [2], {}, [2]]),
    'UserString': lambda: collections.UserString('user'),
    'deque': lambda: collections.deque('deque'),
    'deque of one': lambda: collections.deque([None]),
    'ObjectGroup': lambda: ObjectGroup(3, 1, 2, 1),
    'array': lambda: array.array('d', [0.5, 1.5, 0.5]),
    'least': lambda: Least([(1,), 'z', 0, False]),
    'list without operators': lambda: Unhash([[1], [2], [1]]),
    'own iterator': lambda: Walked(range(5)),
}
IS_SEQ = {k for k, f in SEQS.items()
          if isinstance(f(), collections.abc.Sequence)}
NAMES = sorted(SEQS)

MODES = [{}, {'replace': False}, {'replace_only_after_call': True}]


def _oracle(ctx):
    return hrng.control(hrng.Oracle(
        ctx, grid=(0.05, 0.45, 0.95), cap=3, first=4))


def _built(ctx, name, how, mode, weighted):
    """(emitter from the sequence, its twin from a list)."""
    out = []
    for i in range(2):
        seq = SEQS[name]()
        if i:
            seq = list(seq)
        n = len(seq)
        w = [2, 1, 0.5, 3, 1, 1, 1, 1, 1][:n] if weighted else None
        kw = dict(MODES[mode], rng_seed=5)
        if how == 'choice':
            out.append((seq, Choice(seq, w, **kw)))
        elif how == 'poisson':
            out.append((seq, poisson_choice(seq, 2, 0.01, **kw)))
        elif how == 'gaussian':
            out.append((seq, gaussian_choice(seq, 1, 2, 0.01, **kw)))
        else:
            out.append((seq, Sequential(seq, reset_after_call=bool(mode))))
    return out


OPS = [('call', None), ('call', 2), ('call', 0), ('call', 1), ('all',),
       ('more',), ('reset',), ('seed',), ('weights',), ('replace',),
       ('roac',), ('counts',)]


def _attr(em, name):
    return repr(outcome(getattr, em, name))


def _apply(em, op, n):
    if op[0] == 'call':
        return outcome(em, op[1])
    if op[0] == 'all':
        return outcome(em, n)
    if op[0] == 'more':
        return outcome(em, n + 2)
    if op[0] == 'reset':
        em.reset()
    elif op[0] == 'seed':
        em.seed(6)
    elif op[0] == 'weights':
        em.weights = None if em.weights else list(range(1, n + 1))
    elif op[0] == 'replace':
        em.replace = not em.replace
    elif op[0] == 'roac':
        em.replace_only_after_call = not em.replace_only_after_call
    elif op[0] == 'counts':
        return [_attr(em, a) for a in (
            'num_unique_values', 'num_unique_items', 'emits_unique_values',
            'replace', 'replace_only_after_call', 'weights', 'cum_weights')]
    return None


def items2(ctx):
    items(ctx, 1)


def weights2(ctx):
    weights(ctx, 1)


def items(ctx, depth=None):
    name = ctx.pick([n for n in NAMES if n in IS_SEQ])
    how = ctx.pick(['choice', 'sequential', 'poisson', 'gaussian'])
    mode = ctx.choose(3 if how != 'sequential' else 2)
    weighted = ctx.choose(2) if how == 'choice' else 0
    with _oracle(ctx):
        (seq, em), (lst, twin) = _built(ctx, name, how, mode, weighted)
        ctx.step('%s of %s, %r, weights: %d', how, name, MODES[mode],
                 weighted)
        ctx.check(em.items is seq or list(em.items) == lst, 'items is %r',
                  em.items)
        ops = OPS if how != 'sequential' else [
            o for o in OPS if o[0] in ('call', 'all', 'more', 'reset',
                                       'counts')]
        hist = []
        for _ in range(depth or (2 if ctx.quick else 3)):
            op = ctx.pick(ops)
            hist.append(op)
            a, b = _apply(em, op, len(lst)), _apply(twin, op, len(lst))
            ctx.step('%r -> %r', op, a)
            ctx.check(repr(a) == repr(b), '%s of a %s: %r gave %r; for a '
                      'list it gives %r', how, name, op, a, b)
        for op in (('counts',), ('call', None), ('call', 2), ('all',),
                   ('reset',), ('call', 3), ('counts',)):
            if op[0] == 'counts' and how == 'sequential':
                a, b = em.num_unique_values, twin.num_unique_values
            else:
                a, b = _apply(em, op, len(lst)), _apply(twin, op, len(lst))
            ctx.check(repr(a) == repr(b), '%s of a %s: then %r gave %r; for '
                      'a list it gives %r', how, name, op, a, b)
        ctx.check(repr(list(seq)) == repr(list(SEQS[name]())), 'the %s was '
                  'changed: %r', name, seq)
    ctx.state((name, how, mode, weighted, hist))
    ctx.outcome((name, how, repr(a)[:200]))


WEIGHTS = {
    'tuple': lambda: (1, 2, 0.5), 'range': lambda: range(1, 4),
    'bytes': lambda: b'\x01\x02\x04', 'deque':
    lambda: collections.deque([1, 0, 3]),
    'array': lambda: array.array('d', [1, 2.5, 3.5]),
    'UserList': lambda: collections.UserList([3, 4, 5]),
    'least': lambda: Least([1, 3, 6]), 'walked': lambda: Walked([2, 3, 5]),
    'ints': lambda: array.array('i', [1, 5, 5]),
    'no operators': lambda: Unhash([1, 1, 8]),
    'ObjectGroup': lambda: ObjectGroup(1, 2, 2),
}


def weights(ctx, depth=None):
    name = ctx.pick(sorted(WEIGHTS))
    cum = ctx.choose(2)
    late = ctx.choose(2)
    mode = ctx.choose(3)
    if cum and list(WEIGHTS[name]()) != sorted(WEIGHTS[name]()):
        return
    key = 'cum_weights' if cum else 'weights'
    with _oracle(ctx):
        ems = []
        for i in range(2):
            w = WEIGHTS[name]()
            if i:
                w = list(w)
            if late:
                em = Choice('pqr', rng_seed=5, **MODES[mode])
                setattr(em, key, w)
            else:
                em = Choice('pqr', rng_seed=5, **{key: w}, **MODES[mode])
            ems.append(em)
        em, twin = ems
        ctx.step('%s = %s (%s), %r', key, name, 'later' if late else
                 'at once', MODES[mode])
        hist = []
        for _ in range(depth or (2 if ctx.quick else 3)):
            op = ctx.pick(OPS)
            hist.append(op)
            a, b = _apply(em, op, 3), _apply(twin, op, 3)
            ctx.check(repr(a) == repr(b), '%s given as %s: %r gave %r; for a '
                      'list it gives %r', key, name, op, a, b)
        for op in (('counts',), ('call', None), ('call', 2), ('reset',),
                   ('call', 3)):
            a, b = _apply(em, op, 3), _apply(twin, op, 3)
            ctx.check(repr(a) == repr(b), '%s given as %s: then %r gave %r; '
                      'for a list it gives %r', key, name, op, a, b)
    ctx.state((name, cum, late, mode, hist))
    ctx.outcome((name, cum, repr(a)))


def shuffles(ctx):
    """weighted_shuffle and count_unique, on all pairs of kinds."""
    wname = ctx.pick(sorted(WEIGHTS) + ['list'])
    name = ctx.pick(sorted(SEQS3) + ['list'])
    k = ctx.pick([None, 0, 1, 2, 3])
    w = WEIGHTS.get(wname, lambda: [1, 2, 3])()
    s = SEQS3.get(name, lambda: [7, 8, 9])()
    with _oracle(ctx):
        got = []
        for a, b in ((s, w), (list(s), list(w))):
            got.append(outcome(weighted_shuffle, a, b, random.Random(3), k))
    ctx.step('weighted_shuffle of %s by %s, %r -> %r', name, wname, k, got[0])
    ctx.check(repr(got[0]) == repr(got[1]), 'weighted_shuffle of a %s by a '
              '%s gave %r; for lists it gives %r', name, wname, got[0],
              got[1])
    ctx.check(got[0][0] == 'ok' and type(got[0][1]) is list,
              'weighted_shuffle gave %r', got[0])
    ctx.check(count_unique(s) == count_unique(list(s)), 'count_unique of a '
              '%s gave %r; of a list it gives %r', name, count_unique(s),
              count_unique(list(s)))
    ctx.state((name, wname, k))
    ctx.outcome((name, wname, repr(got[0])))


SEQS3 = {k: f for k, f in SEQS.items() if len(f()) == 3}


# -- other places ------------------------------------------------------------

def alphabets(ctx):
    outer = ctx.pick([list, tuple, collections.deque, collections.UserList,
                      Least, Walked, lambda x: ObjectGroup(*x)])
    inner = ctx.pick([tuple, list, Least, collections.deque,
                      lambda x: range(x[0], x[1] + 1, x[1] - x[0]),
                      lambda x: array.array('i', x), bytes])
    pairs = ctx.pick([[(97, 99)], [(48, 50), (97, 98)],
                      [(33, 35), (34, 36), (65, 66)]])
    want = [chr(c) for a, b in pairs for c in range(a, b + 1)]
    got = outcome(make_alphabet, outer([inner(p) for p in pairs]))
    ctx.step('make_alphabet of %r as %r of %r', pairs, outer, inner)
    ctx.check(got == ('ok', want), 'make_alphabet gave %r instead of %r',
              got, want)
    ctx.state(repr((pairs, ctx.trace)))
    ctx.outcome(len(want))


class Maps(collections.abc.Mapping):
    """Only what collections.abc.Mapping asks for."""

    def __init__(self, d):
        self.d = dict(d)

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


MAPS = [dict, collections.OrderedDict, ObjectMap, types.MappingProxyType,
        Maps, collections.UserDict, lambda d: collections.ChainMap({}, d),
        lambda d: collections.defaultdict(list, d)]


def mappings(ctx):
    """Sources of a WrapMany, members of a map, in any mapping."""
    m = ctx.pick(MAPS)
    rand = ctx.choose(2)
    size = ctx.choose(4)
    keys = ['b', 'a', 'rngs', 'c'][:size + 1]
    ops = [ctx.pick(['one', 'two', 'reset', 'seed', 'zero'])
           for _ in range(2 if ctx.quick else 3)]

    def parts():
        return {k: Choice('xyz', rng_seed=1) if rand else Sequential(k * 2 +
                                                                     'z')
                for k in keys}
    with _oracle(ctx):
        p = parts()
        given = m(p)
        a = WrapMany(given, lambda **kw: list(kw.items()), rng_seed=3)
        b = WrapMany(parts(), lambda **kw: list(kw.items()), rng_seed=3)
        for op in ops + ['one', 'two']:
            res = []
            for em in (a, b):
                if op in ('reset', 'seed'):
                    res.append(em.reset() if op == 'reset' else em.seed(4))
                else:
                    res.append(outcome(em, {'one': None, 'two': 2,
                                            'zero': 0}[op]))
            ctx.step('%s -> %r', op, res[0])
            ctx.check(repr(res[0]) == repr(res[1]), 'for a %r, %s gave %r; '
                      'for a dict it gives %r', type(given), op, *res)
        ctx.check(list(given) == keys and all(given[k] is p[k] for k in keys),
                  'the mapping was changed: %r', given)
        o = ObjectMap(given)
        ctx.check(list(o) == keys and all(o[k] is p[k] for k in keys),
                  'ObjectMap of a %r has %r', type(given), o)
    ctx.state((MAPS.index(m), rand, size, ops))
    ctx.outcome((MAPS.index(m), repr(res[0])))


HOLD = [list, tuple, lambda x: ObjectGroup(*x), Least, collections.deque,
        collections.UserList, Walked]


def fields(ctx):
    """Source fields, passed in any sequence."""
    hold = ctx.pick(HOLD)
    n = ctx.pick([1, 2, 3])
    sep = ctx.pick([None, '', ', '])
    repeats = [ctx.pick([None, 2]) for _ in range(n)]
    late = ctx.choose(2)

    def schema(h):
        fs = [Field('f%d' % i, Sequential([1, 2, None, 'x']),
                    repeat=Static(r))
              for i, r in enumerate(repeats)]
        extra = Field('e', Static(9))
        src = h(fs)
        copy = CopyFields(extra if late else src, sep)
        action = (lambda v: ('of', v)) if n == 1 else (
            lambda **kw: sorted(kw.items()))
        based = BasedOnFields([extra] if late else src, action if not late
                              else (lambda *a, **kw: (a, sorted(kw.items()))))
        if late:
            copy.set_source_fields(src)
            based.set_source_fields(src)
        return Schema(*fs, extra, Field('copy', copy),
                      Field('based', based)), src

    (a, src), (b, _) = schema(hold), schema(list)
    before = list(src)
    ctx.step('%d fields in a %r, separator %r', n, type(src), sep)
    for i in range(5):
        x, y = outcome(a), outcome(b)
        ctx.check(x == y, 'from fields in a %r: %r; from a list: %r',
                  type(src), x, y)
        ctx.check(x[0] == 'ok', 'failed: %r', x)
    after = list(src)
    ctx.check(len(before) == len(after) and all(
        p is q for p, q in zip(before, after)), 'the sequence of fields was '
        'changed')
    ctx.state((HOLD.index(hold), n, sep, repeats, late))
    ctx.outcome((n, sep, repr(x)))


def words(ctx):
    """Items of length and alphabet emitters in any sequence."""
    name = ctx.pick(['str', 'least', 'deque', 'range', 'tuple', 'bytes'])
    letters = {'str': lambda: 'abc', 'least': lambda: Least('abc'),
               'deque': lambda: collections.deque('abc'),
               'tuple': lambda: ('a', 'b', 'c'),
               'range': lambda: Walked('abc'),
               'bytes': lambda: ObjectGroup(*'abc')}[name]()
    lengths = {'str': lambda: b'\x01\x02', 'least': lambda: Least([1, 2]),
               'deque': lambda: collections.deque([1, 2]),
               'tuple': lambda: (1, 2), 'range': lambda: range(1, 3),
               'bytes': lambda: bytearray(b'\x01\x02')}[name]()
    kind = ctx.choose(2)
    mk = [lambda s: Choice(s, rng_seed=2), Sequential][kind]
    with _oracle(ctx):
        a = Word(mk(lengths), mk(letters), rng_seed=4)
        b = Word(mk(list(lengths)), mk(list(letters)), rng_seed=4)
        ctx.check(a.num_unique_values == b.num_unique_values == 12,
                  'num_unique_values is %r and %r', a.num_unique_values,
                  b.num_unique_values)
        for n in (None, 3, 0, 2, 1):
            x, y = outcome(a, n), outcome(b, n)
            ctx.check(x == y and x[0] == 'ok', 'words from a %s: %r; from a '
                      'list: %r', name, x, y)
    ctx.step('words from %r, %r', lengths, letters)
    ctx.state((name, kind))
    ctx.outcome((name, repr(x)))


def huge(ctx):
    """Long sequences."""
    n = ctx.size([255, 256, 257, 1000, 4097, 110003])
    kind = ctx.pick(['range', 'tuple', 'str', 'bytes', 'deque', 'least',
                     'dtrange', 'array', 'unhashable'])
    seq = {
        'range': lambda: range(5, n + 5), 'tuple': lambda: tuple(range(n)),
        'str': lambda: ''.join(chr(0x4e00 + i % 20000) for i in range(n)),
        'bytes': lambda: bytes(i % 251 for i in range(n)),
        'deque': lambda: collections.deque(range(n)),
        'least': lambda: Least(range(n)),
        'dtrange': lambda: dtrange('2000-01-01', '2299-12-31')[:n],
        'array': lambda: array.array('l', [i * 7 for i in range(n)]),
        'unhashable': lambda: [[i] for i in range(n)]}[kind]()
    n = len(seq)
    mode = ctx.pick(['items', 'norep', 'roac', 'weights', 'norep weights',
                     'sequential', 'poisson', 'shuffle'])
    if n > 10000 and (kind in ('unhashable', 'deque') or mode == 'poisson'):
        return
    w = [1 + i % 3 for i in range(n)]
    got = []
    for s, ws in ((seq, tuple(w)), (list(seq), w)):
        with hrng.control(hrng.Pattern('golden')):
            if mode == 'shuffle':
                got.append([weighted_shuffle(s, ws, random.Random(1), k)
                            for k in (1, n // 2, n)])
                continue
            em = Sequential(s) if mode == 'sequential' else \
                poisson_choice(s, 3) if mode == 'poisson' else Choice(
                    s, ws if 'weights' in mode else None,
                    mode != 'norep' and mode != 'norep weights',
                    mode == 'roac')
            got.append([em.num_unique_values if kind != 'unhashable' or
                        n < 300 else None, em(0), em(1), em(), em(n // 2),
                        em(n // 3), em.num_unique_values
                        if n < 300 else None, list(em.items)])
    ctx.step('%s of %d, %s', kind, n, mode)
    a, b = got
    ctx.check(len(a) == len(b), 'differs')
    for x, y in zip(a, b):
        ctx.check(x == y, '%s of %d (%s): a %s gives %r, a list %r', mode, n,
                  kind, kind, repr(x)[:80], repr(y)[:80])
    if mode == 'shuffle':
        ctx.check([len(x) for x in a] == [1, n // 2, n], 'wrong sizes')
    else:
        ctx.check(len(a[4]) == n // 2 and len(a[5]) == n // 3 and
                  len(a[7]) == n, 'wrong sizes')
        if mode in ('norep', 'roac', 'norep weights') and n > 250 and \
                kind in ('range', 'tuple', 'least'):
            ctx.check(len(set(a[4])) == n // 2 and max(a[4] + a[5]) >
                      n * .9, 'values are missing')
        ctx.check(all(x == y for x, y in zip(a[7], seq)), 'the items differ')
    ctx.state((kind, n, mode))
    ctx.outcome((kind, n, mode))


def scenarios(tier, seed):
    d = 1 if tier == 'quick' else 2
    more = [] if tier == 'quick' else [
        Scenario('items, more answers', items2, dev_bound=2),
        Scenario('weights, more answers', weights2, dev_bound=2)]
    return [Scenario('items', items, dev_bound=1),
            Scenario('weights', weights, dev_bound=1),
            Scenario('shuffles', shuffles, dev_bound=d + 1),
            Scenario('alphabets', alphabets),
            Scenario('mappings', mappings, dev_bound=d),
            Scenario('fields', fields), Scenario('huge', huge),
            Scenario('every size', every_size(huge, range(12, 131)), split=2),
            Scenario('words', words, dev_bound=d + 1)] + more
