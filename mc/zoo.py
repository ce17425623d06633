"""Builders for emitters, fields and schemas of every kind and composition.

Each entry is (name, build(seed)): two calls build two separate, alike
instances.  LIMITED names those that run out of values.
"""
import itertools
import random

from fauxdoc.emitter import Emitter
from fauxdoc.emitters.choice import (Choice, chance, gaussian_choice,
                                     poisson_choice)
from fauxdoc.emitters.fixed import Iterative, Sequential, Static
from fauxdoc.emitters.fromfields import BasedOnFields, CopyFields
from fauxdoc.emitters.text import Text, Word, make_alphabet
from fauxdoc.emitters.wrappers import WrapMany, WrapOne
from fauxdoc.dtrange import dtrange
from fauxdoc.mixins import RandomMixin
from fauxdoc.profile import Field, Schema


class Dice(RandomMixin, Emitter):
    """A user's own random emitter, with the documented mixin."""

    def __init__(self, rng_seed=None):
        super().__init__(rng_seed=rng_seed)

    def emit(self):
        return self.rng.randrange(6)

    def emit_many(self, number):
        return [self.rng.randrange(6) for _ in range(number)]


class Counter(Emitter):
    """A user's own emitter with state and no randomness."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.n = 0

    def emit(self):
        self.n += 1
        return self.n

    def emit_many(self, number):
        return [self.emit() for _ in range(number)]


class Hidden:
    """Random, without any base class, and with a generator of its own."""
    num_unique_values = None
    emits_unique_values = False

    def __init__(self):
        self.rng_seed = None
        self.reset()

    def reset(self):
        self._own = random.Random(self.rng_seed)

    def seed(self, s):
        self.rng_seed = s
        self._own.seed(s)

    def __call__(self, number=None):
        if number is None:
            return self._own.randrange(50)
        return [self() for _ in range(number)]

    emit = __call__

    def emit_many(self, number):
        return self(number)


class Bare:
    """The least a child can be: just callable."""

    def __init__(self):
        self.n = 0

    def __call__(self, number=None):
        if number is None:
            self.n += 1
            return self.n
        return [self() for _ in range(number)]

    def reset(self):
        self.n = 0


def _gen():
    yield 'g1'
    yield 'g2'
    yield 'g3'


def jitter(value, rng):
    return (value, rng.randrange(4))


def join(**kw):
    return '|'.join('%s=%s' % i for i in kw.items())


def roll(rng, **kw):
    return (rng.randrange(5), tuple(kw.values()))


WORDS = ['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta']


def word(seed=None, lengths=(0, 1, 3), letters='abcd'):
    return Word(Choice(lengths), Choice(letters), rng_seed=seed)


def text(seed=None):
    return Text(Choice(range(0, 4), [1, 3, 3, 1]), word(lengths=(1, 2, 4)),
                Choice([' ', '--', ', '], [4, 1, 2]), rng_seed=seed)


def _field(emitter, **kw):
    f = Field('f', emitter, **kw)
    f()
    return f


EMITTERS = [
    ('static', lambda s: Static('v')),
    ('static none', lambda s: Static(None)),
    ('static list', lambda s: Static([1, 2])),
    ('iterative', lambda s: Iterative(lambda: iter(range(3)))),
    ('iterative gen', lambda s: Iterative(_gen)),
    ('iterative count', lambda s: Iterative(lambda: itertools.count(5))),
    ('iterative rac', lambda s: Iterative(_gen, True)),
    ('sequential', lambda s: Sequential(['a', None, 'b', 'a'])),
    ('sequential str', lambda s: Sequential('xy')),
    ('sequential one', lambda s: Sequential((7,))),
    ('sequential rac', lambda s: Sequential(range(5), reset_after_call=True)),
    ('choice', lambda s: Choice(range(10), rng_seed=s)),
    ('choice one', lambda s: Choice(['solo'], rng_seed=s)),
    ('choice one tuple', lambda s: Choice(('solo',), [3], rng_seed=s)),
    ('choice one str', lambda s: Choice('z', rng_seed=s)),
    ('choice one range', lambda s: Choice(range(4, 5), [0.5], rng_seed=s)),
    ('choice one dtrange', lambda s: Choice(
        dtrange('12:00', '12:01', 1, 'minutes'), rng_seed=s)),
    ('choice tuple', lambda s: Choice((3, 1, 2, 2), rng_seed=s)),
    ('choice str', lambda s: Choice('abcd', rng_seed=s)),
    ('choice norep one', lambda s: Choice('z', replace=False, rng_seed=s)),
    ('choice norep str', lambda s: Choice(WORDS[0] * 70, replace=False,
                                          rng_seed=s)),
    ('choice roac str', lambda s: Choice(WORDS[0] * 70, rng_seed=s,
                                         replace_only_after_call=True)),
    ('choice roac one', lambda s: Choice(('z',), [2], rng_seed=s,
                                         replace_only_after_call=True)),
    ('choice dtrange', lambda s: Choice(
        dtrange('2020-02-20', '2020-03-10'), rng_seed=s)),
    ('choice weights', lambda s: Choice('abc', [1, 0, 2.5], rng_seed=s)),
    ('choice cum', lambda s: Choice((1, 2, 3), cum_weights=[1, 4, 9],
                                    rng_seed=s)),
    ('choice norep', lambda s: Choice(range(300), replace=False,
                                      rng_seed=s)),
    ('choice norep w', lambda s: Choice(
        list(range(300)), [1 + i % 3 for i in range(300)], replace=False,
        rng_seed=s)),
    ('choice norep short', lambda s: Choice(WORDS, [1, 2, 3, 0, 1, 1], False,
                                            rng_seed=s)),
    ('choice roac', lambda s: Choice(range(120), replace_only_after_call=True,
                                     rng_seed=s)),
    ('choice roac w', lambda s: Choice(
        range(120), [1 + i % 4 for i in range(120)],
        replace_only_after_call=True, rng_seed=s)),
    ('choice roac short', lambda s: Choice('abcde', [1, 2, 3, 4, 5], False,
                                           True, rng_seed=s)),
    ('poisson', lambda s: poisson_choice(range(1, 20), mu=4, rng_seed=s)),
    ('gauss', lambda s: gaussian_choice(range(1, 20), mu=8, sigma=2.5,
                                        weight_floor=1e-6, rng_seed=s)),
    ('gauss roac', lambda s: gaussian_choice(
        range(150), mu=60, sigma=30, replace_only_after_call=True,
        rng_seed=s)),
    ('chance', lambda s: chance(0.3, rng_seed=s)),
    ('dice', lambda s: Dice(rng_seed=s)),
    ('counter', lambda s: Counter()),
    ('word', lambda s: word(s)),
    ('word fixed', lambda s: Word(Static(5), Choice(make_alphabet(
        [(97, 122)])), rng_seed=s)),
    ('word zero', lambda s: Word(Static(0), Choice('ab'), rng_seed=s)),
    ('word seq', lambda s: Word(Sequential([2, 0, 1, 3]), Sequential('abcde'),
                                rng_seed=s)),
    ('word of words', lambda s: Word(Choice([1, 2]), word(), rng_seed=s)),
    ('word roac letters', lambda s: Word(
        Choice([1, 2]), Choice([chr(i) for i in range(97, 97 + 400)],
                               replace_only_after_call=True), rng_seed=s)),
    ('text', lambda s: text(s)),
    ('text default sep', lambda s: Text(Choice([1, 2, 3]), Choice(WORDS),
                                        rng_seed=s)),
    ('text seq', lambda s: Text(Sequential([0, 2, 3, 1]), Sequential(WORDS),
                                Sequential('-+'), rng_seed=s)),
    ('text roac words', lambda s: Text(
        Choice([1, 2, 0, 4]), Choice(WORDS, replace_only_after_call=True),
        rng_seed=s)),
    ('text of texts', lambda s: Text(Static(2), text(), Static('; '),
                                     rng_seed=s)),
    ('wrap one', lambda s: WrapOne(Choice(range(9)), str, rng_seed=s)),
    ('wrap one rng', lambda s: WrapOne(Choice('abc'), jitter, rng_seed=s)),
    ('wrap one text', lambda s: WrapOne(text(), lambda v: v.upper(),
                                        rng_seed=s)),
    ('wrap many', lambda s: WrapMany({'b': Choice('xyz'), 'a': Sequential(
        [1, 2, 3]), 'c': Static(None)}, join, rng_seed=s)),
    ('wrap many rng', lambda s: WrapMany({'p': Dice(), 'q': Iterative(
        _gen)}, roll, rng_seed=s)),
    ('wrap many one', lambda s: WrapMany({'only': Dice()},
                                         lambda only: -only, rng_seed=s)),
    ('wrap rac', lambda s: WrapOne(Sequential('pq', True), str.upper,
                                   rng_seed=s)),
    ('wrap bare', lambda s: WrapMany({'x': Bare(), 'y': Counter()}, join,
                                     rng_seed=s)),
    ('deep', lambda s: WrapOne(WrapMany({
        'title': text(), 'n': WrapOne(Choice(range(50)), jitter),
        'w': WrapMany({'d': Dice(), 'g': gaussian_choice(range(9), mu=4)},
                      roll)}, roll), jitter, rng_seed=s)),
    ('deep text', lambda s: Text(
        WrapOne(Choice([0, 1, 2]), lambda n: n + 1),
        WrapMany({'u': word(lengths=(1, 2)), 'v': WrapOne(
            Choice('..,'), lambda v, rng: v * rng.randrange(1, 3))}, join),
        WrapOne(Dice(), lambda v: ' ' * v), rng_seed=s)),
    ('wrap hidden', lambda s: WrapOne(Hidden(), str, rng_seed=s)),
    ('wrap hiddens', lambda s: WrapMany(
        {'a': Hidden(), 'b': WrapOne(Hidden(), jitter)}, roll, rng_seed=s)),
    ('word hidden', lambda s: Word(Choice([1, 2]), WrapOne(Hidden(), str),
                                   rng_seed=s)),
    ('copy', lambda s: CopyFields(_field(Static('cv')))),
    ('copy multi', lambda s: CopyFields([_field(Static('x'),
                                                repeat=Static(3)),
                                         _field(Static(None)),
                                         _field(Static(1))])),
    ('copy sep', lambda s: CopyFields([_field(Static('x')),
                                       _field(Static(5))], separator='-')),
    ('based', lambda s: BasedOnFields(_field(Static(3)), lambda v: v * 2,
                                      rng_seed=s)),
]
# CopyFields and BasedOnFields emit one value per call by design, repeated
# for each value asked for: with an rng action only one draw is made.
DETERMINED = [n for n, _ in EMITTERS]
LIMITED = ('choice norep one', 'choice norep str', 'choice roac str',
           'choice roac one', 'choice norep', 'choice norep w', 'choice norep short',
           'choice roac', 'choice roac w', 'choice roac short', 'gauss roac',
           'word roac letters')


def _schema(s):
    one = Field('one', text(), rng_seed=s)
    many = Field('many', Choice('abc', [1, 2, 3]),
                 repeat=Choice(range(0, 4)), gate=chance(0.7), rng_seed=s)
    hid = Field('hid', Dice(), hide=True, rng_seed=s)
    seq = Field('seq', Sequential([1, 2, 3]), rng_seed=s)
    cp = Field('cp', CopyFields([one, many, hid]), rng_seed=s)
    based = Field('based', BasedOnFields([many, hid], roll, rng_seed=s),
                  rng_seed=s)
    return Schema(one, many, hid, seq, cp, based)


FIELDS = [
    ('field', lambda s: Field('f', Choice(range(30)), rng_seed=s)),
    ('field multi', lambda s: Field('f', word(), repeat=Choice([0, 1, 2, 3]),
                                    rng_seed=s)),
    ('field gated', lambda s: Field('f', text(), gate=chance(0.5),
                                    rng_seed=s)),
    ('field all', lambda s: Field(
        'f', WrapMany({'a': word(), 'b': Dice()}, roll),
        repeat=poisson_choice(range(1, 6), mu=2), gate=chance(0.75),
        rng_seed=s)),
    ('field norep', lambda s: Field('f', Choice(range(40), replace=False),
                                    repeat=Choice([None, 1, 2]), rng_seed=s)),
    ('field seq', lambda s: Field('f', Sequential('abc'), repeat=Sequential(
        [2, 1, 0]), gate=Sequential([True, True, False]), rng_seed=s)),
]
FIELDS.append(('field hidden', lambda s: Field(
    'f', WrapOne(Hidden(), str), repeat=Choice([1, 2]), rng_seed=s)))
SCHEMAS = [
    ('schema', _schema),
    ('schema one', lambda s: Schema(Field('x', Dice(), rng_seed=s))),
    ('schema norep', lambda s: Schema(
        Field('id', Choice(range(50), replace=False), rng_seed=s),
        Field('t', Text(Choice([1, 2]), word(lengths=(1, 2))), rng_seed=s,
              gate=chance(0.5)))),
]
