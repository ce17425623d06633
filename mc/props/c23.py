"""Users' own emitters: every composition of the base class with the provided
mixins and a cooperative mixin of the user's own, in every order of bases that
Python allows, is taken through every history of up to three (thorough: four)
requests, resets, seeds and child replacements in lockstep with a model of
independent generators; and every slot of the built-in emitters and fields is
filled with users' emitters of every kind."""
import itertools
import random

from fauxdoc.emitter import Emitter
from fauxdoc.emitters import (BasedOnFields, CopyFields, Sequential, Static,
                              Text, WrapMany, WrapOne, Word)
from fauxdoc.group import ObjectMap
from fauxdoc.mixins import (ChildrenMixin, ItemsMixin, RandomMixin,
                            RandomWithChildrenMixin)
from fauxdoc.profile import Field, Schema

from ..common import outcome
from ..explore import Scenario, every_size, periodic


class Tag:
    """A user's cooperative mixin: takes 'tag', passes everything else on."""

    def __init__(self, *args, **kwargs):
        self.tag = kwargs.pop('tag', 'no tag')
        self.tag_resets = 0
        self.tag_seeds = []
        super().__init__(*args, **kwargs)

    def reset(self):
        self.tag_resets += 1
        s = super()
        if hasattr(s, 'reset'):
            s.reset()

    def seed(self, rng_seed):
        self.tag_seeds.append(rng_seed)
        s = super()
        if hasattr(s, 'seed'):
            s.seed(rng_seed)


class _Own:
    """What a user's class does itself: emits from all the parts it has."""

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.reset()

    def reset(self):
        self.n = 0
        super().reset()

    def emit(self):
        out = [self.n]
        if hasattr(self, 'rng'):
            out.append(self.rng.random())
        if hasattr(self, 'items') and self.items:
            out.append(self.items[self.n % len(self.items)])
        if hasattr(self, 'emitters'):
            out.append([e() for e in self.emitters.values()])
        self.n += 1
        return out

    def emit_many(self, number):
        return [self.emit() for _ in range(number)]


def _compositions():
    out = []
    for r in (None, RandomMixin, RandomWithChildrenMixin):
        for i in (None, ItemsMixin):
            for c in (None, ChildrenMixin):
                for t in (None, Tag):
                    parts = [p for p in (r, i, c, t) if p is not None]
                    for order in itertools.permutations(parts):
                        try:
                            cls = type('Users', (_Own,) + order + (Emitter,),
                                       {})
                        except TypeError:
                            continue
                        out.append(cls)
    return out


CLASSES = _compositions()
NESTED = [c for c in CLASSES if issubclass(c, RandomWithChildrenMixin)
          and Tag in c.__mro__ and not issubclass(c, ItemsMixin)][:3]


class Slots:
    """The least the documented emitter protocol asks for."""
    __slots__ = ('n',)
    num_unique_values = None
    emits_unique_values = False

    def __init__(self):
        self.n = 0

    def __call__(self, number=None):
        if number is None:
            self.n += 1
            return self.n - 1
        return [self() for _ in range(number)]

    def reset(self):
        self.n = 0


class Dice(RandomMixin, Emitter):
    def emit(self):
        return self.rng.random()

    def emit_many(self, number):
        return [self.rng.random() for _ in range(number)]


# -- the model ---------------------------------------------------------------

class MDice:
    has_seed = has_attr = True

    def __init__(self, seed):
        self.s = seed
        self.reset()

    def reset(self):
        self.r = random.Random(self.s)

    def seed(self, s):
        self.s = s
        self.r = random.Random(s)

    def emit(self):
        return self.r.random()


class MSeq:
    has_seed = has_attr = False

    def __init__(self, values):
        self.v = values
        self.n = 0

    def reset(self):
        self.n = 0

    def emit(self):
        self.n += 1
        return self.v[(self.n - 1) % len(self.v)] if self.v else self.n - 1


class MUsers:
    def __init__(self, cls, seed, items, kids):
        self.rand = issubclass(cls, RandomMixin)
        self.reach = issubclass(cls, RandomWithChildrenMixin)
        self.kids = kids if issubclass(cls, ChildrenMixin) else None
        self.items = items if issubclass(cls, ItemsMixin) else None
        self.has_attr = self.rand
        self.has_seed = self.rand or issubclass(cls, Tag)
        self.s = seed
        self.reset()

    def reset(self):
        self.n = 0
        if self.rand:
            self.r = random.Random(self.s)
        for k in (self.kids or {}).values():
            if self.reach and k.has_attr:
                k.s = self.s
            k.reset()

    def seed(self, s):
        if not self.rand:
            return
        self.s = s
        self.r = random.Random(s)
        if self.reach:
            for k in self.kids.values():
                if k.has_seed:
                    k.seed(s)

    def emit(self):
        out = [self.n]
        if self.rand:
            out.append(self.r.random())
        if self.items:
            out.append(self.items[self.n % len(self.items)])
        if self.kids is not None:
            out.append([k.emit() for k in self.kids.values()])
        self.n += 1
        return out


def _kids(which, nested):
    """(children, models of children), alike."""
    if which == 0:
        return {}, {}
    if which == 1:
        return ({'a': Dice(rng_seed=1), 'b': Sequential('xyz')},
                {'a': MDice(1), 'b': MSeq('xyz')})
    if which == 2:
        d, m = Dice(rng_seed=1), MDice(1)
        return ({'_a': d, 'again ': d, '': Slots()},
                {'_a': m, 'again ': m, '': MSeq('')})
    kids, models = _kids(1, nested)
    kids['s'], models['s'] = Slots(), MSeq('')
    kw = {'children': kids, 'rng_seed': 2}
    return ({'_deep': nested(**kw), 'b': Sequential([None, 0])},
            {'_deep': MUsers(nested, 2, None, models),
             'b': MSeq([None, 0])})


OPS = ['call', 'call2', 'reset', 'seed', 'attr', 'replace', 'kid', 'twin']


def _legal(cls, depth_kids):
    ops = ['call', 'call2', 'reset', 'twin']
    if issubclass(cls, (RandomMixin, Tag)):
        ops.append('seed')
    if issubclass(cls, RandomMixin):
        ops.append('attr')
    if issubclass(cls, ChildrenMixin):
        ops.append('replace')
        if depth_kids:
            ops.append('kid')
    return ops


def composed(ctx):
    cls = ctx.some(CLASSES, 12)
    which = ctx.some(range(4)) if issubclass(cls, ChildrenMixin) else 0
    nested = NESTED[CLASSES.index(cls) % len(NESTED)]
    seed = ctx.pick([7, 0, 'x'] if issubclass(cls, RandomMixin) and
                    not ctx.quick else [0])
    kids, models = _kids(which, nested)
    items = ['i', None, 'i', 0]
    kw = {}
    if issubclass(cls, RandomMixin):
        kw['rng_seed'] = seed
    if issubclass(cls, ItemsMixin):
        kw['items'] = items
    if issubclass(cls, ChildrenMixin):
        kw['children'] = kids
    if issubclass(cls, Tag):
        kw['tag'] = 'T'
    given = dict(kids)
    em = cls(**kw)
    m = MUsers(cls, seed, items, models)
    bases = [b.__name__ for b in cls.__mro__[2:-1]]
    ctx.step('class of %r, children %r', bases, list(kids))
    ctx.check(list(kids) == list(given), 'the mapping of children passed in '
              'was changed')
    if issubclass(cls, Tag):
        ctx.check(em.tag == 'T', 'the user\'s mixin got %r', em.tag)
    if issubclass(cls, ItemsMixin):
        ctx.check(em.items is items, 'items is %r', em.items)
        ctx.check(em.num_unique_values == 3 if cls.__mro__.index(
            ItemsMixin) < cls.__mro__.index(Emitter) else True,
            'num_unique_values is %r', em.num_unique_values)
    else:
        ctx.check(em.num_unique_values is None, 'num_unique_values is %r',
                  em.num_unique_values)
    ctx.check(em.emits_unique_values is False, 'emits_unique_values is %r',
              em.emits_unique_values)
    ops = _legal(cls, which)
    for op in ctx.history(3 if ctx.quick else 4, ops):
        ctx.step(op)
        if op in ('call', 'call2'):
            got = em() if op == 'call' else em(2)
            want = m.emit() if op == 'call' else [m.emit(), m.emit()]
            ctx.check(repr(got) == repr(want), 'emitted %r instead of %r',
                      got, want)
        elif op == 'reset':
            before = getattr(em, 'tag_resets', 0)
            em.reset()
            m.reset()
            if issubclass(cls, Tag):
                ctx.check(em.tag_resets > before, 'reset did not reach the '
                          'user\'s mixin')
        elif op == 'seed':
            em.seed(3)
            m.seed(3)
            if issubclass(cls, Tag):
                ctx.check(em.tag_seeds[-1:] == [3], 'seed did not reach the '
                          'user\'s mixin: %r', em.tag_seeds)
            if issubclass(cls, RandomMixin):
                ctx.check(em.rng_seed == 3, 'rng_seed is %r', em.rng_seed)
        elif op == 'attr':
            em.rng_seed = 'later'
            m.s = 'later'
        elif op == 'replace':
            em.emitters['b'] = Dice(rng_seed=9)
            m.kids['b'] = MDice(9)
        elif op == 'kid':
            k = list(em.emitters)[0]
            got, want = em.emitters[k](), m.kids[k].emit()
            ctx.check(repr(got) == repr(want), 'child emitted %r instead of '
                      '%r', got, want)
        elif op == 'twin':
            # A second instance, with defaults for all: shares nothing.
            twin = cls()
            if issubclass(cls, ChildrenMixin):
                ctx.check(isinstance(twin.emitters, ObjectMap) and
                          not twin.emitters, 'a new instance has the '
                          'children %r', twin.emitters)
                twin.emitters['mine'] = Dice(rng_seed=4)
            if issubclass(cls, ItemsMixin):
                ctx.check(list(twin.items) == [], 'a new instance has the '
                          'items %r', twin.items)
                if isinstance(twin.items, list):
                    twin.items.append('mine')
            if issubclass(cls, RandomMixin):
                ctx.check(twin.rng_seed is None, 'a new instance has the '
                          'seed %r', twin.rng_seed)
            if issubclass(cls, Tag):
                ctx.check(twin.tag == 'no tag', 'tag of a new instance')
            twin()
            getattr(twin, 'seed', lambda s: None)(5)
            twin.reset()
    # However it got here, it goes on as it should, and resets to its start.
    got, want = em(2), [m.emit(), m.emit()]
    ctx.check(repr(got) == repr(want), 'emitted %r instead of %r', got, want)
    em.reset()
    m.reset()
    got, want = em(2), [m.emit(), m.emit()]
    ctx.check(repr(got) == repr(want), 'emitted %r instead of %r after a '
              'reset', got, want)
    if hasattr(em, 'seed'):
        em.seed(8)
        m.seed(8)
        got, want = em(1), [m.emit()]
        ctx.check(repr(got) == repr(want), 'emitted %r instead of %r after '
                  'it was seeded', got, want)
    ctx.state((CLASSES.index(cls), which, repr(got)))
    ctx.outcome((CLASSES.index(cls), which, repr(want)))


def unknown(ctx):
    """Nobody takes an argument that isn't theirs."""
    cls = ctx.pick(CLASSES)
    kw = {}
    for name, owner, value in (('rng_seed', RandomMixin, 1),
                               ('items', ItemsMixin, [1]),
                               ('children', ChildrenMixin, {'d': Dice()}),
                               ('tag', Tag, 't')):
        own = issubclass(cls, owner)
        if ctx.choose(2):
            kw[name] = (own, value)
    odd = ctx.choose(2)
    args = {k: v for k, (_, v) in kw.items()}
    if odd:
        args['colour'] = 'red'
    ok = not odd and all(o for o, _ in kw.values())
    out = outcome(cls, **args)
    ctx.step('%r(**%r) -> %r', [b.__name__ for b in cls.__mro__[2:-1]],
             sorted(args), out[:2] if out[0] == 'err' else 'ok')
    if ok:
        ctx.check(out[0] == 'ok', 'refused its own arguments: %r', out)
    else:
        ctx.check(out[0] == 'err' and out[1] == 'TypeError', 'arguments '
                  'nobody takes gave %r', out[:2])
    ctx.state((CLASSES.index(cls), sorted(args)))
    ctx.outcome((ok, out[:2] if out[0] == 'err' else 'ok'))


class Failing(Tag):
    """The user's own part of reset or seed fails."""

    def reset(self):
        super().reset()
        if getattr(self, 'armed', None) == 'reset':
            raise self.error('users')

    def seed(self, rng_seed):
        super().seed(rng_seed)
        if getattr(self, 'armed', None) == 'seed':
            raise self.error('users')


def failing(ctx):
    """An error in the user's part of reset or seed reaches the caller."""
    base = ctx.pick([(RandomMixin,), (RandomWithChildrenMixin,),
                     (ChildrenMixin,), (RandomMixin, ItemsMixin)])
    first = ctx.choose(2)
    order = (Failing,) + base if first else base + (Failing,)
    em = type('Users', (_Own,) + order + (Emitter,), {})()
    em.error = ctx.pick([AttributeError, ValueError, KeyError, TypeError])
    nest = ctx.choose(2)
    op = ctx.pick(['reset', 'seed'])
    target = em
    if nest:
        target = type('Parent', (_Own, RandomWithChildrenMixin, Emitter),
                      {})(children={'em': em}, rng_seed=1)
    em.armed = op
    out = outcome(target.reset) if op == 'reset' else outcome(target.seed, 1)
    ctx.step('%s of a composition with %r -> %r', op,
             [b.__name__ for b in order], out)
    ctx.check(out == ('err', em.error.__name__, str(em.error('users'))),
              'the error of the user\'s %s became %r', op, out)
    ctx.state((order, em.error, nest, op))
    ctx.outcome((em.error, op))


def base(ctx):
    """The abstract base class itself."""
    have = ctx.choose(4)
    body = {}
    if have & 1:
        body['emit'] = lambda self: 'v'
    if have & 2:
        body['emit_many'] = lambda self, number: ['v'] * number
    cls = type('Users', (Emitter,), body)
    out = outcome(cls)
    ctx.step('subclass that defines %r -> %r', sorted(body), out[:2])
    if have == 3:
        ctx.check(out[0] == 'ok', 'refused: %r', out)
        em = out[1]
        ctx.check(em.num_unique_values is None and
                  em.emits_unique_values is False and em.reset() is None,
                  'the defaults are wrong')
        ctx.check(em() == 'v' and em(None) == 'v' and em(0) == [] and
                  em(1) == ['v'] and em(number=3) == ['v'] * 3 and
                  em(number=None) == 'v', 'calls are passed on wrongly')
        for n in range(0, 5):
            out = outcome(em.raise_uniqueness_violation, n)
            ctx.check(out[0] == 'err' and out[1] == 'ValueError' and
                      str(n) in out[2], 'raise_uniqueness_violation(%d) '
                      'gave %r', n, out)
    else:
        ctx.check(out[0] == 'err' and out[1] == 'TypeError', 'an incomplete '
                  'subclass gave %r', out)
    ctx.state(have)
    ctx.outcome(have)


# -- users' emitters in every slot -------------------------------------------

class _Values:
    def __init__(self, values):
        self.values = list(values)
        self.n = 0

    def take(self):
        self.n += 1
        return self.values[(self.n - 1) % len(self.values)]


class Minimal(_Values):
    num_unique_values = None
    emits_unique_values = False

    def __call__(self, number=None):
        return self.take() if number is None else [
            self.take() for _ in range(number)]

    def reset(self):
        self.n = 0


class Falsy(Minimal):
    """Reports how many values it has drawn as its length."""

    def __len__(self):
        return self.n


class False_(Minimal):
    def __bool__(self):
        return False


class Derived(_Values, Emitter):
    def reset(self):
        self.n = 0

    def emit(self):
        return self.take()

    def emit_many(self, number):
        return [self.take() for _ in range(number)]


class DerivedRandom(RandomMixin, _Values, Emitter):
    def __init__(self, values):
        self.values = list(values)
        super().__init__(self.values)

    def reset(self):
        self.n = 0
        super().reset()

    emit = Derived.emit
    emit_many = Derived.emit_many


class Seeded(Minimal):
    """Has seed and rng_seed, but no generator of the usual kind."""
    rng_seed = None

    def seed(self, rng_seed):
        self.rng_seed = rng_seed


class Frozen(Minimal):
    """Does not let anyone set attributes it does not have."""

    def __setattr__(self, name, value):
        if name not in ('values', 'n'):
            raise AttributeError(name)
        super().__setattr__(name, value)


class Equal(Minimal):
    """All instances are equal, and none is hashable."""

    def __eq__(self, other):
        return isinstance(other, Equal)

    __hash__ = None


KINDS = [Minimal, Falsy, False_, Derived, DerivedRandom, Seeded, Frozen,
         Equal]

LEN, CHARS = [2, 0, 1, 3], 'abcde'
WORDS, SEPS = ['w', 'xx', '', 'yyy', 'z'], ['-', '', '+ ']


class St:
    """A plain stream of values, for the model."""

    def __init__(self, values):
        self.v, self.n = list(values), 0

    def __call__(self):
        self.n += 1
        return self.v[(self.n - 1) % len(self.v)]


def _word(l, a):
    return ''.join([a() for _ in range(l())])


def _text(n, w, s):
    k = n()
    out = ''
    for i in range(k):
        out += (s() if i else '') + w()
    return out


def _fieldv(e, r, g):
    if not g():
        return None
    k = r()
    return e() if k is None else [e() for _ in range(k)]


MAKERS = {
    'word': (lambda a, b: Word(a, b), (LEN, CHARS), _word),
    'text': (lambda a, b, c: Text(a, b, c), (LEN, WORDS, SEPS), _text),
    'wrapone': (lambda a: WrapOne(a, lambda v: (v,)), (WORDS,),
                lambda a: (a(),)),
    'wrapmany': (lambda a, b: WrapMany({'x': a, 'y': b},
                                       lambda x, y: (x, y)),
                 (LEN, WORDS), lambda a, b: (a(), b())),
}
FIELDS = {
    'field': (lambda a, b, c: Field('f', a, b, c),
              (WORDS, [2, None, 0, 1], [True, 1, '', True, 'no']), _fieldv),
}


def slots(ctx):
    name = ctx.pick(sorted(MAKERS) + sorted(FIELDS))
    make, values, model = MAKERS.get(name) or FIELDS[name]
    kinds = [ctx.some(KINDS) for _ in values]
    kids = [k(v) for k, v in zip(kinds, values)]
    ref = [St(v) for v in values]
    em = make(*kids)
    ctx.step('%s of %r', name, [k.__name__ for k in kinds])
    for r in ref:
        r.n = 0
    for _ in range(2):
        for n in (None, 2, None, 0, 3, 1) + (ctx.dense or 1,):
            if name in FIELDS:
                got = em()
                want = model(*ref)
            elif n is None:
                got, want = em(), model(*ref)
            else:
                got, want = em(n), [model(*ref) for _ in range(n)]
            ctx.check(repr(got) == repr(want), '%s with emitters of the '
                      'kinds %r: call(%r) gave %r instead of %r', name,
                      [k.__name__ for k in kinds], n, got, want)
        em.seed(5)
        em.reset()
        for r in ref:
            r.n = 0
    ctx.state((name, [k.__name__ for k in kinds]))
    ctx.outcome((name, repr(got)))


ANY_SEED = [None, 0, '', False, b'', 0.0, 1.5, -3, 'x', 2 ** 70]


def any_seed(ctx):
    """Seeds of any value reach the user's mixin, the generator and the
    children, given at creation, set, or by seeding."""
    cls = ctx.pick([c for c in CLASSES if issubclass(c, RandomMixin)])
    seed = ctx.pick(ANY_SEED)
    how = ctx.pick(['seed', 'create', 'set'])
    kw = {'rng_seed': seed} if how == 'create' else {'rng_seed': 77}
    kid = Dice(rng_seed=5)
    if issubclass(cls, ChildrenMixin):
        kw['children'] = {'kid': kid}
    em = cls(**kw)
    ctx.step('%r, %s %r', [b.__name__ for b in cls.__mro__[2:-1]], how, seed)
    em()
    if how == 'seed':
        em.seed(seed)
        if issubclass(cls, Tag):
            ctx.check(len(em.tag_seeds) == 1 and em.tag_seeds[0] is seed,
                      'the user\'s mixin was seeded with %r', em.tag_seeds)
    elif how == 'set':
        em.rng_seed = seed
    ctx.check(em.rng_seed is seed, 'rng_seed is %r', em.rng_seed)
    if how != 'seed':
        em.reset()
    if issubclass(cls, RandomWithChildrenMixin):
        ctx.check(kid.rng_seed is seed, 'a child has the seed %r',
                  kid.rng_seed)
    if seed is not None:
        want = random.Random(seed).random()
        ctx.check(em.rng.random() == want, 'seeded with %r, the generator '
                  'goes on otherwise', seed)
        if issubclass(cls, RandomWithChildrenMixin):
            ctx.check(kid() == want, 'seeded with %r, a child goes on '
                      'otherwise', seed)
    em.reset()
    ctx.check(em.rng_seed is seed, 'rng_seed is %r after a reset',
              em.rng_seed)
    ctx.state((CLASSES.index(cls), repr(seed), how))
    ctx.outcome((repr(seed), how))


def pipelines(ctx):
    """Users' emitters all the way down a schema."""
    ka, kb, kc = ctx.pick(KINDS), ctx.pick(KINDS), ctx.pick(KINDS)
    a = Field('a', ka(WORDS), repeat=kb([2, 0, 1]), gate=kc([1, 0, True]))
    b = Field('b', CopyFields(a))
    c = Field('c', BasedOnFields(a, lambda v: v and len(v)))
    s = Schema(a, b, c)
    w, g, r = St(WORDS), St([1, 0, True]), St([2, 0, 1])
    for i in range(8):
        if i == 5:
            s.reset_fields()
            w.n = g.n = r.n = 0
        got = s()
        want = _fieldv(w, r, g)
        ctx.check(repr(got['a']) == repr(want), 'field: %r instead of %r',
                  got['a'], want)
        ctx.check(repr(got['c']) == repr(want and len(want)),
                  'based on %r: %r', want, got['c'])
        ctx.check(got['b'] == (want or None), 'copy of %r: %r', want,
                  got['b'])
        ctx.step('document %r', got)
    ctx.state((ka.__name__, kb.__name__, kc.__name__))
    ctx.outcome((ka.__name__, repr(got)))


def scenarios(tier, seed):
    return [Scenario('composed', composed),
            Scenario('long use', periodic(composed), split=3), Scenario('unknown', unknown),
            Scenario('failing', failing), Scenario('base', base),
            Scenario('slots', slots), Scenario('any seed', any_seed),
            Scenario('every number', every_size(slots), split=2),
            Scenario('pipelines', pipelines)]
