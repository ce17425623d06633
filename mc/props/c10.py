"""Wrapping emitters: for all small source streams with different periods,
all kinds of functions and every history of up to three (thorough: four)
operations, outputs and the recorded function calls (arguments, order, number,
generator identity) are compared with a stream model; all unsuitable
signatures of a grid are refused; nested and random sources under an
uninterpreted RNG."""
import functools
import itertools

from fauxdoc.emitters import (Choice, Iterative, Sequential, Static, WrapMany,
                              WrapOne)
from fauxdoc.emitters.wrappers import BoundWrapper

from .. import hrng
from ..common import StreamEmitter, is_err, outcome
from ..explore import Scenario, every_size, periodic
from .c09 import Spy

REQ = [None, 0, 1, 2, 3, 5]


class Rec:
    """Makes functions of many shapes that record how they were called."""

    def __init__(self):
        self.calls = []

    def hit(self, tag, args, rng):
        self.calls.append((tag, args, rng))
        return (tag, args)

    def one(self, shape, tag):
        h = self.hit
        if shape == 'plain':
            return (lambda v: h(tag, v, None)), False
        if shape == 'rng':
            return (lambda v, rng: h(tag, v, rng)), True
        if shape == 'kwrng':
            def f(value, *, rng=None):
                return h(tag, value, rng)
            return f, True
        if shape == 'varargs':
            return (lambda *a, **kw: h(tag, a[0] if len(a) == 1 and not kw
                                       else (a, kw), None)), False
        if shape == 'default':
            return (lambda v, extra=5: h(tag, v if extra == 5 else extra,
                                         None)), False
        if shape == 'partial':
            return functools.partial(lambda x, v: h(tag, v, None), 1), False
        if shape == 'partialrng':
            return functools.partial(lambda x, v, rng: h(tag, v, rng), 1), True
        if shape == 'object':
            class C:
                def __call__(self, v, rng):
                    return h(tag, v, rng)
            return C(), True
        if shape == 'local':
            # (Its variable has nothing to do with the emitter's generator.)
            def g(v):
                rng = 'local'
                return h(tag, v, None if rng else rng)
            return g, False
        if shape == 'localobject':
            class D:
                rng = 4

                def __call__(self, v):
                    rng = self.rng
                    return h(tag, v, None if rng else rng)
            return D(), False
        if shape == 'wrapped':
            def inner(v, rng):
                return h(tag, v, rng)

            @functools.wraps(inner)
            def outer(*args, **kwargs):
                return inner(*args, **kwargs)
            return outer, True
        if shape == 'rngdefault':
            return (lambda v, rng=None, more=1: h(tag, v, rng)), True
        if shape == 'class':
            class K(tuple):
                def __new__(cls, v, rng):
                    return h(tag, v, rng)
            return K, True
        if shape == 'decorated':
            # (Its attributes are named like those of a BoundWrapper.)
            class N:
                def __init__(self, function):
                    self.function = function
                    self.bound_to = self.rng = self.wants_rng = None
                    self.signature = None

                def __call__(self, v, rng):
                    return h(tag, self.function(v), rng)
            return N(lambda v: v), True
        if shape == 'classmethod':
            class L:
                @classmethod
                def go(cls, v, *, rng):
                    return h(tag, v, rng)
            return L.go, True
        assert shape == 'method'

        class M:
            def go(self, v):
                return h(tag, v, None)
        return M().go, False

    def many(self, shape, tag, labels):
        h = self.hit
        pre = {'plain': '', 'rng': 'rng, ', 'kwrng': '*, rng'}
        if shape in pre:
            # A function with exactly these parameters.
            src = 'lambda %s: h(tag, dict(%s), %s)'
            names = ', '.join(labels)
            if shape == 'kwrng':
                params = ', '.join([*labels, '*', 'rng=None'])
            else:
                params = (pre[shape] + names).rstrip(', ')
            return eval(src % (params, ', '.join('%s=%s' % (x, x) for x in
                                                 labels),
                               'None' if shape == 'plain' else 'rng'),
                        {'h': h, 'tag': tag, 'dict': dict}), shape != 'plain'
        if shape == 'kwargs':
            return (lambda **kw: h(tag, kw, None)), False
        if shape == 'kwargsrng':
            return (lambda rng, **kw: h(tag, kw, rng)), True
        if shape == 'local':
            def f(**kw):
                rng = 1
                return h(tag, kw, None if rng else rng)
            return f, False
        if shape == 'decorated':
            class N:
                function = 'its name'
                wants_rng = True

                def __call__(self, **kw):
                    return h(tag, kw, None)
            return N(), False
        if shape == 'kwobject':
            class C:
                def __call__(self, *, rng, **kw):
                    return h(tag, kw, rng)
            return C(), True
        assert shape == 'partial'
        return functools.partial(lambda _x, /, **kw: h(tag, kw, None),
                                 1), False


ONE = ['plain', 'rng', 'kwrng', 'varargs', 'default', 'partial',
       'partialrng', 'object', 'method', 'local', 'localobject', 'wrapped',
       'rngdefault', 'class', 'classmethod', 'decorated']
MANY = ['plain', 'rng', 'kwrng', 'kwargs', 'kwargsrng', 'partial', 'local',
        'kwobject', 'decorated']


def _source(kind, values):
    if kind == 0:
        return StreamEmitter(values)
    if kind == 1:
        return Sequential(list(values))
    return Iterative(lambda: (v for v in values))


def _request(ctx, em, rec, req, tag, wants, take, rng_of, how=None):
    del rec.calls[:]
    if how:
        out = outcome(em.emit) if req is None else outcome(em.emit_many, req)
    else:
        out = outcome(em) if req is None else outcome(em, req)
    ctx.step('call(%r) -> %r', req, out)
    ctx.check(out[0] == 'ok', 'call(%r) failed: %r', req, out)
    vals = [out[1]] if req is None else out[1]
    want = [(tag, take()) for _ in range(1 if req is None else req)]
    ctx.check(type(vals) is list and vals == want, 'call(%r) returned %r '
              'instead of %r', req, vals, want)
    ctx.check([c[:2] for c in rec.calls] == want, 'call(%r): function calls '
              'were %r instead of %r', req, [c[:2] for c in rec.calls], want)
    rng = rng_of().rng if wants else None
    for c in rec.calls:
        ctx.check(c[2] is rng, 'the function got %r as rng instead of the '
                  'emitter\'s %r', c[2], rng)


class Counter:
    def __init__(self, seq):
        self.seq, self.i = seq, 0

    def __call__(self):
        v = self.seq[self.i % len(self.seq)]
        self.i += 1
        return v


OPS = [('call', r) for r in REQ] + [
    ('emit', None), ('emit', 2), ('reset',), ('seed',), ('set', 0),
    ('set', 1), ('bound',), ('rebind',), ('swapfunction',), ('bad',)]


def _history(ctx, em, rec, shape, make, model_take, model_reset, other, bad,
             depth):
    fn_tag = [0]
    f, wants = make(shape, 0)
    tag, rng_of = 0, (lambda: em)
    for op in ctx.history(depth, OPS):
        kind = op[0]
        if kind in ('call', 'emit'):
            _request(ctx, em, rec, op[1], tag, wants, model_take, rng_of,
                     kind == 'emit')
            continue
        ctx.step('%r', op)
        if kind == 'reset':
            em.reset()
            model_reset()
        elif kind == 'seed':
            em.seed(3)
        elif kind in ('set', 'bound'):
            fn_tag[0] += 1
            tag = fn_tag[0]
            f, wants = make(['plain', 'rng'][op[1] if kind == 'set' else 1],
                            tag)
            if kind == 'set':
                em.set_wrapper_function(f)
            else:
                em.wrapper = BoundWrapper(f, em)
            rng_of = (lambda: em)
            model_reset()
            ctx.check(not rec.calls or rec.calls[-1][0] != tag,
                      'installing a function with a signature called it')
        elif kind == 'rebind':
            # A wrapper made from another's wrapper is bound to this one.
            fn_tag[0] += 1
            tag = fn_tag[0]
            f, wants = make('rng', tag)
            w = BoundWrapper(f, other)
            ctx.check(w.bound_to is other and w.wants_rng is True,
                      'BoundWrapper attributes are wrong')
            w2 = BoundWrapper(w, em)
            ctx.check(w2.function is f and w2.bound_to is em, 'rebinding a '
                      'BoundWrapper gave %r bound to %r', w2.function,
                      w2.bound_to)
            em.wrapper = w2
            rng_of = (lambda: em)
            model_reset()
        elif kind == 'swapfunction':
            # The function and binding of the current wrapper can change.
            fn_tag[0] += 1
            tag = fn_tag[0]
            f, wants = make('plain' if wants else 'rng', tag)
            em.wrapper.function = f
            em.wrapper.bound_to = other
            rng_of = (lambda: other)
        else:
            out = outcome(em.set_wrapper_function, bad)
            ctx.check(is_err(out, 'TypeError'), 'an unsuitable function gave '
                      '%r', out)
            # The state of the sources is that after a reset; go on with a
            # good function.
            model_reset()
            fn_tag[0] += 1
            tag = fn_tag[0]
            f, wants = make('plain', tag)
            em.wrapper.function = f
            em.wrapper.bound_to = em
            rng_of = (lambda: em)
        ctx.check(em.wrapper.function is f and em.wrapper.wants_rng is wants,
                  'wrapper.function or wants_rng wrong after %r', op)
    _request(ctx, em, rec, 3, tag, wants, model_take, rng_of)
    _request(ctx, em, rec, None, tag, wants, model_take, rng_of)


def wrap_one(ctx):
    seq = ctx.some([(1, 2, 3), ('a',), (None, [1], ())])
    kind = ctx.some(range(3))
    shape = ctx.some(ONE, 3)
    rec = Rec()
    f, _ = rec.one(shape, 0)
    src = _source(kind, seq)
    em = WrapOne(src, f, rng_seed=2)
    ctx.step('WrapOne(%r, %s)', seq, shape)
    ctx.check(not rec.calls, 'creation called the function')
    take = Counter(seq)

    def reset():
        take.i = 0
    fs = {0: f}

    def make(s, tag):
        if tag == 0:
            return f, rec.one(shape, -1)[1]
        return rec.one(s, tag)
    _history(ctx, em, rec, shape, make, take, reset,
             WrapOne(Static(1), str, rng_seed=9), lambda a, b: 0,
             3 if ctx.quick else 4)
    if kind == 0:
        ctx.check(src.pos == take.i, 'source is at %d instead of %d',
                  src.pos, take.i)
    ctx.state((seq, kind, shape, take.i))
    ctx.outcome((repr(seq), shape))


LABELS = [('a',), ('x', 'y'), ('b', 'a'), ('n', 'm', 'o'), ()]


def wrap_many(ctx):
    labels = ctx.some(LABELS)
    periods = ctx.some([(2, 3, 5), (1, 2, 3), (3, 2, 1), (4, 4, 4)])
    kind = ctx.some(range(3))
    shape = ctx.some(MANY)
    rec = Rec()
    seqs = {k: ['%s%d' % (k, i) for i in range(p)]
            for k, p in zip(labels, periods)}
    srcs = {k: _source((kind + i) % 3, s)
            for i, (k, s) in enumerate(seqs.items())}
    f, _ = rec.many(shape, 0, labels)
    em = WrapMany(srcs, f, rng_seed=2)
    ctx.step('WrapMany(%r, periods %r, %s)', labels, periods, shape)
    ctx.check(not rec.calls, 'creation called the function')
    counters = {k: Counter(s) for k, s in seqs.items()}

    def take():
        return {k: c() for k, c in counters.items()}

    def reset():
        for c in counters.values():
            c.i = 0

    def make(s, tag):
        if tag == 0:
            return f, rec.many(shape, -1, labels)[1]
        return rec.many(s, tag, labels)
    _history(ctx, em, rec, shape, make, take, reset,
             WrapOne(Static(1), str, rng_seed=9),
             (lambda: 0) if labels else (lambda a: 0),
             2 if ctx.quick else 3)
    for k, s in srcs.items():
        if isinstance(s, StreamEmitter):
            ctx.check(s.pos == counters[k].i, 'source %s is at %d instead of '
                      '%d', k, s.pos, counters[k].i)
    ctx.state((labels, periods, kind, shape))
    ctx.outcome((labels, shape))


WORDS = ['self', 'args', 'kwargs', 'value', 'source', 'number', 'function',
         'emitter', 'emitters', 'wrapper', 'key', 'cls', 'data', 'func',
         'f', 'k', 'v', 'i', 'name', 'items', 'bound_to', 'rng_seed',
         'signature', 'wants_rng', 'children', 'args_', '_', '__x', 'RNG']
ODD = ['', 'a b', 'class', 'a.b', '0', 'é', '-', '*', '__init__', '\n',
       'None', '=']


def names(ctx):
    """A source can have any label."""
    odd = ctx.choose(2)
    a = ctx.pick(ODD if odd else WORDS)
    labels = ctx.pick([(a,), (a, 'b'), ('b', a), ('p', a, 'q')])
    shape = ctx.pick(['kwargs', 'kwargsrng'] if odd else
                     ['kwargs', 'kwargsrng', 'plain', 'rng', 'kwrng'])
    rec = Rec()
    f, wants = rec.many(shape, 0, labels)
    seqs = {k: ['%s%d' % (k, i) for i in range(2 + j)]
            for j, k in enumerate(labels)}
    em = WrapMany({k: Sequential(s) for k, s in seqs.items()}, f, rng_seed=2)
    counters = {k: Counter(s) for k, s in seqs.items()}
    ctx.step('WrapMany(%r, %s)', labels, shape)
    for i, req in enumerate((2, None, 0, 3, None)):
        if i == 3 and ctx.choose(2):
            em.set_wrapper_function(f)
            for c in counters.values():
                c.i = 0
        _request(ctx, em, rec, req, 0, wants,
                 lambda: {k: c() for k, c in counters.items()}, lambda: em)
    ctx.check(list(em.emitters) == list(labels), 'emitters are %r',
              em.emitters)
    ctx.state((labels, shape))
    ctx.outcome((labels, shape))


class NeedsTwo:
    def __init__(self, a, b):
        pass


BAD_ONE = [lambda: 0, lambda a, b: 0, lambda *, v: 0, lambda a, b, c=1: 0,
           lambda rng: 0, lambda v, other, rng: 0, lambda **kw: 0, NeedsTwo,
           functools.partial(lambda a: 0, 1), lambda v, rng, *, must: 0]
GOOD_ONE = [lambda v: 1, lambda *a: 1, lambda v, rng: 1, lambda v, w=2: 1,
            lambda v, *, rng: 1, str, repr, type, id, bool]
BAD_MANY = [lambda: 0, lambda a: 0, lambda b: 0, lambda a, b, c: 0,
            lambda *v: 0, lambda x, y: 0, lambda a, rng: 0, NeedsTwo.mro,
            lambda a, b, c, rng: 0, lambda a, b, /: 0]
GOOD_MANY = [lambda a, b: 1, lambda b, a: 1, lambda **k: 1,
             lambda a, **k: 1, lambda a, b, c=3: 1, NeedsTwo, dict,
             lambda *, b, a, rng: 1]


def signatures(ctx):
    many, good = ctx.choose(2), ctx.choose(2)
    fs = [[BAD_ONE, GOOD_ONE], [BAD_MANY, GOOD_MANY]][many][good]
    i = ctx.choose(len(fs))
    f = fs[i]
    when = ctx.choose(3)
    s1, s2 = StreamEmitter([1, 2, 3]), StreamEmitter('xy')

    def new(fn):
        return WrapMany({'a': s1, 'b': s2}, fn) if many else WrapOne(s1, fn)
    if when == 0:
        out = outcome(new, f)
    else:
        em = new(dict if many else str)
        em(2)
        out = outcome(em.set_wrapper_function, f) if when == 1 else outcome(
            setattr, em, 'wrapper', BoundWrapper(f, em))
    ctx.step('%s signature %d, when=%d -> %r', ['bad', 'good'][good], i, when,
             out)
    if good:
        ctx.check(out[0] == 'ok', 'suitable function %d was refused: %r', i,
                  out)
    else:
        ctx.check(is_err(out, 'TypeError'), 'unsuitable function %d gave %r',
                  i, out)
    ctx.check(s1.pos == 0 and s2.pos == 0, 'sources are not reset after '
              'installing: at %d, %d', s1.pos, s2.pos)
    ctx.state((many, good, i, when))
    ctx.outcome((many, good, i))


def random_sources(ctx):
    """Random and nested sources, watched by spies; larger sizes."""
    kind = ctx.choose(5)
    reqs = ctx.pick([(None, 3), (1, 0, 2), (5, None), (40, 2), (300,)])
    mk = [lambda: Choice(range(9)), lambda: Choice('abc', [1, 2, 3]),
          lambda: Choice(range(400), replace=False),
          lambda: Choice(range(400), replace_only_after_call=True),
          lambda: WrapMany({'p': Choice('xyz'), 'q': Sequential([1, 2])},
                           lambda p, q, rng: (p, q, rng.randrange(5)))][kind]
    second = ctx.choose(3)
    with hrng.control(hrng.Oracle(ctx, grid=(0.1, 0.5, 0.9), cap=3,
                                  first=8 if ctx.quick else 25)):
        s1 = Spy(mk())
        s2 = Spy([Sequential('abcde'), mk(), Static(None)][second])
        got = []

        def f(a, b, rng):
            got.append((a, b))
            return (a, b, rng.randrange(3))
        inner = Spy(WrapMany({'a': s1, 'b': s2}, f, rng_seed=3))
        em = WrapOne(inner, lambda v: v[:2], rng_seed=4)
        for req in reqs:
            s1.drain(), s2.drain(), inner.drain()
            del got[:]
            out = outcome(em) if req is None else outcome(em, req)
            ctx.step('call(%r) -> %r', req, out)
            if out[0] == 'err' and out[1] == 'ValueError' and kind == 2:
                return
            ctx.check(out[0] == 'ok', 'call(%r) failed: %r', req, out)
            vals = [out[1]] if req is None else out[1]
            k = 1 if req is None else req
            x, y, z = s1.drain(), s2.drain(), inner.drain()
            want = list(zip(x, y))
            ctx.check(len(x) == len(y) == len(z) == len(got) == k,
                      'call(%r) took %d and %d source values and made %d '
                      'function calls', req, len(x), len(y), len(got))
            ctx.check(got == want and vals == want, 'call(%r) returned %r '
                      'from source values %r', req, vals[:9], want[:9])
    ctx.state((kind, second, reqs))
    ctx.outcome((kind, second, reqs))


def large(ctx):
    """Many values: alignment over long streams of different periods."""
    n = ctx.size([10, 63, 64, 65, 100, 128, 255, 256, 257, 1000, 5000])
    parts = ctx.some([1, 2, 5])
    nsrc = ctx.pick([1, 2, 3, 8]) if n != 40 else ctx.pick([*range(1, 131), 151, 257])
    seqs = {'s%d' % i: list(range(3 + 2 * i)) for i in range(nsrc)}
    calls = []
    many = WrapMany({k: StreamEmitter(v) for k, v in seqs.items()},
                    lambda **kw: calls.append(1) or tuple(
                        sorted(kw.items())))
    one = WrapOne(StreamEmitter(range(7)), lambda v: calls.append(1) or -v)
    at = 0
    for _ in range(parts):
        del calls[:]
        got = many(n)
        want = [tuple(sorted((k, s[(at + i) % len(s)]) for k, s in
                             seqs.items()))
                for i in range(n)]
        ctx.check(got == want and len(calls) == n, '%d values from position '
                  '%d are wrong', n, at)
        got = one(n)
        ctx.check(got == [-((at + i) % 7) for i in range(n)] and
                  len(calls) == 2 * n, '%d values are wrong', n)
        at += n
        ctx.step('%d values of %d sources', n, nsrc)
    ctx.state((n, parts, nsrc))
    ctx.outcome((n, parts, nsrc))


def scenarios(tier, seed):
    return [Scenario('wrap_one', wrap_one), Scenario('wrap_many', wrap_many),
            Scenario('signatures', signatures),
            Scenario('long one', periodic(wrap_one), split=3),
            Scenario('long many', periodic(wrap_many), split=3),
            Scenario('random_sources', random_sources, dev_bound=1),
            Scenario('names', names), Scenario('large', large),
            Scenario('every size', every_size(large), split=2)]
