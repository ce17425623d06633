"""Fault injection into user code: iterators and factories, wrapper functions,
actions, custom children, group members, resets.  For every position of the
first failure, every number of failures in a row, every error type and every
short history of requests around them, the very same error object must come
out of exactly the operation it happened in, and every later operation must
return what its (position-recording) sources then have to give."""
from fauxdoc.emitter import Emitter
from fauxdoc.emitters.choice import Choice
from fauxdoc.emitters.fixed import Iterative, Sequential, Static
from fauxdoc.emitters.fromfields import BasedOnFields, CopyFields
from fauxdoc.emitters.text import Text, Word
from fauxdoc.emitters.wrappers import WrapMany, WrapOne
from fauxdoc.group import ObjectGroup, ObjectMap
from fauxdoc.profile import Field, Schema

from ..explore import Hang, Scenario, Violation


class Custom(Exception):
    pass


class CustomBase(BaseException):
    pass


ERRORS = [ValueError, TypeError, AttributeError, KeyError, IndexError,
          RuntimeError, Custom, CustomBase, StopIteration, LookupError,
          NotImplementedError, RecursionError, KeyboardInterrupt, OSError,
          AssertionError, ArithmeticError, GeneratorExit, StopAsyncIteration,
          UnicodeError, MemoryError]
MORE = [EOFError, ZeroDivisionError, OverflowError, NameError, SystemExit,
        BufferError, UserWarning, DeprecationWarning, Exception,
        BaseException, TimeoutError, ImportError, ReferenceError,
        FloatingPointError]
FEW = [ValueError, TypeError, AttributeError, StopIteration, Custom,
       CustomBase]
FEW_GEN = [ValueError, TypeError, AttributeError, KeyError, IndexError,
           Custom, CustomBase]


class Plan:
    """Makes the m-th call (and the next times - 1) of user code fail."""

    def __init__(self, first, times, error):
        self.n = 0
        self.first, self.times, self.error = first, times, error
        self.last = None          # the error object raised last
        self.armed = True

    def tick(self):
        i = self.n
        self.n += 1
        if self.armed and self.first <= i < self.first + self.times:
            self.last = self.error('fault %d' % i)
            raise self.last


def run(ctx, plan, what, fn, *args):
    """('ok', value), or ('fault',) if a planned error came out of it."""
    plan.last = None
    try:
        out = ('ok', fn(*args))
    except (Violation, Hang):
        raise
    except BaseException as e:
        ctx.step('%s -> %s', what, type(e).__name__)
        if plan.last is None:
            raise Violation('%s raised %s: %s although no user code failed '
                            'in it' % (what, type(e).__name__, e))
        ctx.check(e is plan.last, '%s raised %s(%s) instead of the very '
                  'error the user code raised, %r', what, type(e).__name__,
                  e, plan.last)
        return ('fault',)
    ctx.step('%s -> %r', what, out[1])
    ctx.check(plan.last is None, '%s returned %r although the user code '
              'raised %r', what, out[1], plan.last)
    return out


def request(ctx, plan, em, k, how=0):
    if k is None:
        return run(ctx, plan, 'emit()' if how else 'call()',
                   em.emit if how else em)
    if how:
        return run(ctx, plan, 'emit_many(%d)' % k, em.emit_many, k)
    return run(ctx, plan, 'call(%d)' % k, em, k)


class Stub:
    """A custom child emitter whose draws (and resets) can fail."""

    def __init__(self, values, plan=None, eager=False, reset_plan=None):
        self.values = list(values)
        self.plan = plan
        self.eager = eager      # move on before failing
        self.reset_plan = reset_plan
        self.pos = 0
        self.num_unique_values = None
        self.emits_unique_values = False

    def at(self, i):
        return self.values[i % len(self.values)]

    def _next(self):
        i = self.pos
        if self.eager:
            self.pos += 1
        if self.plan is not None:
            self.plan.tick()
        if not self.eager:
            self.pos += 1
        return self.at(i)

    def __call__(self, number=None):
        if number is None:
            return self._next()
        return [self._next() for _ in range(number)]

    def emit(self):
        return self._next()

    def emit_many(self, number):
        return self(number)

    def reset(self):
        if self.reset_plan is not None:
            self.reset_plan.tick()
        self.pos = 0


class Proper(Emitter):
    """The same, as a subclass of Emitter with only what it has to have."""

    def __init__(self, stub):
        self.stub = stub

    def reset(self):
        self.stub.reset()

    def emit(self):
        return self.stub()

    def emit_many(self, number):
        return self.stub(number)


SIZES = [None, 0, 1, 2, 3]


# -- iterators ----------------------------------------------------------------

def _generator_factory(plan, items):
    def factory():
        for x in items:
            plan.tick()
            yield x
    return factory


def _byhand_factory(plan, items):
    class It:
        def __init__(self):
            self.i = 0

        def __iter__(self):
            return self

        def __next__(self):
            if self.i >= len(items):
                raise StopIteration
            plan.tick()
            self.i += 1
            return items[self.i - 1]
    return It


def _calling_factory(plan, items):
    def factory():
        plan.tick()
        return iter(items)
    return factory


def segment(values, items):
    """Where in the cyclic stream these values could start."""
    n = len(items)
    return [s for s in range(n) if all(
        v is items[(s + i) % n] or v == items[(s + i) % n]
        for i, v in enumerate(values))]


def iterators(ctx):
    kind = ctx.pick(['generator', 'by hand', 'factory'])
    cls = ctx.pick(['iterative', 'rac'] + (
        ['sequential', 'sequential rac'] if kind == 'factory' else []))
    error = ctx.pick(FEW_GEN if ctx.quick else [
        e for e in ERRORS if e not in (StopIteration, GeneratorExit)])
    items = ['i0', 'i1', 'i2']
    first = ctx.choose(9 if kind != 'factory' else 5)
    times = ctx.pick([1, 2] if ctx.quick else [1, 2, 3])
    plan = Plan(first, times, error)
    factory = {'generator': _generator_factory, 'by hand': _byhand_factory,
               'factory': _calling_factory}[kind](plan, items)
    ctx.note('%s %s, failure %d x%d of %s', cls, kind, first, times,
             error.__name__)
    em = None
    if cls.startswith('seq'):
        # The factory of an existing emitter is replaced.
        em = Sequential(['o1', 'o2'], cls.endswith('rac'))
        got = em()
        for _ in range(4):
            out = run(ctx, plan, 'iterator_factory =', setattr, em,
                      'iterator_factory', factory)
            if out[0] == 'ok':
                break
            # As before it was attempted.
            ctx.check(list(em.items) == ['o1', 'o2'], 'items are %r after a '
                      'failed iterator_factory assignment', em.items)
            nxt = em()
            want = 'o1' if em.reset_after_call or got == 'o2' else 'o2'
            ctx.check(nxt == want, 'emitted %r instead of %r after a failed '
                      'iterator_factory assignment', nxt, want)
            got = nxt
        ctx.check(out[0] == 'ok', 'iterator_factory could not be set')
        ctx.check(list(em.items) == items, 'items are %r', em.items)
    else:
        for _ in range(4):
            out = run(ctx, plan, 'Iterative(...)', Iterative, factory,
                      cls == 'rac')
            if out[0] == 'ok':
                em = out[1]
                break
        ctx.check(em is not None, 'could not be constructed after %d '
                  'failures', times)
    last = 'reset'
    pos = 0
    hist = []
    for _ in range(3 if ctx.quick else 4):
        k = ctx.pick([None, 1, 2, 4, 'reset'])
        how = 0 if ctx.quick else ctx.choose(2)
        hist.append((k, how))
        if k == 'reset':
            out = run(ctx, plan, 'reset()', em.reset)
            pos = 0 if out[0] == 'ok' else None
            continue
        out = request(ctx, plan, em, k, how)
        if out[0] == 'fault':
            pos = None
            continue
        got = [out[1]] if k is None else out[1]
        ctx.check(type(got) is list and len(got) == (k or 1), 'request for '
                  '%r values returned %r', k, out[1])
        starts = segment(got, items)
        ctx.check(starts, 'emitted %r, which is not a run of the sequence '
                  '%r', got, items)
        if pos is not None:
            ctx.check(pos in starts, 'emitted %r instead of continuing '
                      'at item %d of %r', got, pos, items)
        elif len(got) < len(items) and len(starts) > 1:
            continue
        pos = 0 if cls.endswith('rac') else (
            (starts[0] if pos is None else pos) + len(got)) % len(items)
    # Whatever happened: a reset restores the initial behaviour.
    plan.armed = False
    em.reset()
    got = em(7)
    ctx.check(got == [items[i % 3] for i in range(7)], 'emitted %r after a '
              'reset', got)
    ctx.state((kind, cls, error.__name__, first, times, tuple(hist)))
    ctx.outcome((kind, cls, plan.n))


def new_factory(ctx):
    """A factory that fails when assigned leaves the old one at work."""
    error = ctx.pick([e for e in ERRORS if e is not StopIteration])
    kind = ctx.choose(3)
    before = ctx.choose(4)
    rac = bool(ctx.choose(2))
    fails = 1 + ctx.choose(2)
    em = Iterative(lambda: iter('abc'), rac)
    pos = 0
    for _ in range(before):
        em()
        pos = 0 if rac else pos + 1
    plan = Plan(0, fails, error)
    factory = [_calling_factory, _generator_factory, _byhand_factory][kind](
        plan, ['n'])
    for _ in range(fails):
        out = run(ctx, plan, 'iterator_factory =', setattr, em,
                  'iterator_factory', factory)
        ctx.check(out[0] == 'fault', 'no error')
    got = em(4)
    ctx.check(got == [('abc' * 4)[pos + i] for i in range(4)], 'emitted %r '
              'after a failed assignment at position %d', got, pos)
    em.iterator_factory = factory
    ctx.equal(em(2), ['n', 'n'], 'after the assignment succeeded')
    ctx.state((error.__name__, kind, before, rac, fails))
    ctx.outcome((error.__name__, kind))


# -- wrapper functions ------------------------------------------------------

def _wrapped(ctx, plan, child_plan, kind, eager):
    """An emitter, its stubs, and what its values are made of."""
    a = Stub(['a%d' % i for i in range(7)], child_plan, eager)
    b = Stub(['b%d' % i for i in range(5)], None, eager)

    def f(v):
        plan.tick()
        return ('f', v)

    def g(v, rng):
        plan.tick()
        rng.random()
        return ('g', v)

    def h(p, q):
        plan.tick()
        return (p, q)

    def hr(rng, **kw):
        plan.tick()
        rng.random()
        return (kw['p'], kw['q'])
    if kind == 'one':
        return WrapOne(a, f, rng_seed=1), [a], lambda v: ('f', v)
    if kind == 'one rng':
        return WrapOne(Proper(a), g, rng_seed=1), [a], lambda v: ('g', v)
    if kind == 'nested':
        return (WrapOne(WrapOne(a, f), lambda v: [v]), [a],
                lambda v: [('f', v)])
    if kind == 'nested in many':
        return (WrapMany({'x': WrapOne(a, f)}, lambda x: x), [a],
                lambda v: ('f', v))
    if kind == 'many':
        return WrapMany({'p': a, 'q': b}, h), [a, b], lambda p, q: (p, q)
    if kind == 'many swapped':
        return (WrapMany({'q': Proper(b), 'p': Proper(a)}, h), [a, b],
                lambda p, q: (p, q))
    return WrapMany({'p': a, 'q': b}, hr), [a, b], lambda p, q: (p, q)


WRAPS = ['one', 'one rng', 'nested', 'nested in many', 'many', 'many swapped',
         'many rng']


def functions(ctx):
    kind = ctx.pick(WRAPS)
    where = ctx.pick(['function', 'child'])
    error = ctx.pick(FEW if ctx.quick else ERRORS)
    first = ctx.choose(6 if ctx.quick else 9)
    times = ctx.pick([1, 2] if ctx.quick else [1, 2, 3])
    eager = bool(ctx.choose(2)) if where == 'child' else False
    plan = Plan(first, times, error)
    quiet = Plan(0, 0, error)
    ctx.note('%s, failure %d x%d of %s in the %s', kind, first, times,
             error.__name__, where)
    made = None
    for _ in range(5):
        pair = (plan, quiet) if where == 'function' else (quiet, plan)
        out = run(ctx, plan, 'construction', lambda: _wrapped(
            ctx, pair[0], pair[1], kind, eager))
        if out[0] == 'ok':
            made = out[1]
            break
    ctx.check(made is not None, 'could not be constructed')
    em, stubs, apply_ = made
    hist = []
    aligned = True
    for _ in range(3 if ctx.quick else 4):
        k = ctx.pick(SIZES if where == 'function' or not ctx.quick
                     else SIZES[:4])
        how = len(hist) % 2
        hist.append(k)
        start = [s.pos for s in stubs]
        out = request(ctx, plan, em, k, how)
        n = 1 if k is None else k
        if out[0] == 'fault':
            for s, p in zip(stubs, start):
                ctx.check(p <= s.pos <= p + n, 'a failed request for %r '
                          'values moved a source from %d to %d', k, p, s.pos)
            if where == 'function':
                ctx.check(stubs[0].pos > start[0], 'the source did not move')
                ctx.check(len({s.pos - p for s, p in zip(stubs, start)}) ==
                          1, 'sources no longer aligned after the function '
                          'failed: moved by %r',
                          [s.pos - p for s, p in zip(stubs, start)])
            continue
        got = [out[1]] if k is None else out[1]
        want = [apply_(*(s.at(p + i) for s, p in zip(stubs, start)))
                for i in range(n)]
        ctx.check(type(got) is list and got == want, 'request for %r values '
                  'returned %r instead of %r', k, out[1],
                  want if k is not None else want[0])
        ctx.check([s.pos for s in stubs] == [p + n for p in start],
                  'sources at %r instead of %r', [s.pos for s in stubs],
                  [p + n for p in start])
    plan.armed = False
    em.reset()
    got = em(3)
    want = [apply_(*(s.at(i) for s in stubs)) for i in range(3)]
    ctx.check(got == want, 'emitted %r instead of %r after a reset', got,
              want)
    ctx.state((kind, where, error.__name__, first, times, eager,
               tuple(hist)))
    ctx.outcome((kind, where, tuple(s.pos for s in stubs), plan.n))


# -- words and texts ----------------------------------------------------------

def _text_model(lens, words, seps, start, n):
    out = []
    p, q = start[1], start[2]
    for i in range(n):
        m = lens.at(start[0] + i)
        s = ''
        for j in range(m):
            if j:
                s += seps.at(q)
                q += 1
            s += words.at(p)
            p += 1
        out.append(s)
    return out


def strings(ctx):
    cls = ctx.pick(['word', 'text', 'text of words'])
    place = ctx.choose(3 if cls == 'text' else 2)
    error = ctx.pick([ValueError, AttributeError, StopIteration, Custom]
                     if ctx.quick else ERRORS)
    first = ctx.choose(6 if ctx.quick else 8)
    times = ctx.pick([1, 2])
    eager = bool(ctx.choose(2))
    plan = Plan(first, times, error)
    p = [plan if i == place else None for i in range(3)]
    lens = Stub([2, 0, 1, 3] if cls == 'word' else [2, 0, 3], p[0], eager)
    seps = Stub(['-', '+'], p[2], eager)
    ctx.note('%s, failure %d x%d of %s in child %d', cls, first, times,
             error.__name__, place)
    if cls == 'word':
        chars = Stub('abcdefg', p[1], eager)
        em = Word(Proper(lens), chars)
        stubs = [lens, chars]
    elif cls == 'text':
        chars = Stub(['w%d' % i for i in range(6)], p[1], eager)
        em = Text(lens, Proper(chars), seps)
        stubs = [lens, chars, seps]
    else:
        chars = Stub('abcdefg', p[1], eager)
        em = Text(lens, Word(Static(2), chars))
        stubs = [lens, chars]
    hist = []
    for _ in range(2 if ctx.quick else 3):
        k = ctx.pick(SIZES)
        how = len(hist) % 2
        hist.append(k)
        start = [s.pos for s in stubs] + [0]
        out = request(ctx, plan, em, k, how)
        if out[0] == 'fault':
            continue
        n = 1 if k is None else k
        if cls == 'word':
            want, c = [], start[1]
            for i in range(n):
                m = lens.at(start[0] + i)
                want.append(''.join(chars.at(c + j) for j in range(m)))
                c += m
        elif cls == 'text':
            want = _text_model(lens, chars, seps, start, n)
        else:
            want, c = [], start[1]
            for i in range(n):
                ws = []
                for _ in range(lens.at(start[0] + i)):
                    ws.append(chars.at(c) + chars.at(c + 1))
                    c += 2
                want.append(' '.join(ws))
        got = [out[1]] if k is None else out[1]
        ctx.check(type(got) is list and got == want, 'request for %r values '
                  'returned %r instead of %r', k, got, want)
    plan.armed = False
    em.reset()
    ctx.check([s.pos for s in stubs] == [0] * len(stubs), 'reset did not '
              'reach all children')
    got = em(3)
    ctx.check(len(got) == 3 and got[1] == '' and len(got[0]) > 1,
              'emitted %r after a reset', got)
    ctx.state((cls, place, error.__name__, first, times, eager, tuple(hist)))
    ctx.outcome((cls, place, plan.n, tuple(s.pos for s in stubs)))


def refilled(ctx):
    """A text whose word source replaces words after each call only."""
    error = ctx.pick([ValueError, KeyError, TypeError, Custom, CustomBase])
    place = ctx.pick(['draw', 'reset', 'count'])
    first = ctx.choose(8)
    plan = Plan(first, 1, error)
    quiet = Plan(0, 0, error)
    draws, resets, counts = [plan if place == x else quiet
                             for x in ('draw', 'reset', 'count')]

    class Words(Choice):
        def emit(self):
            draws.tick()
            return super().emit()

        def emit_many(self, number):
            draws.tick()
            return super().emit_many(number)

        def reset(self):
            resets.tick()
            super().reset()

        @property
        def num_unique_values(self):
            counts.tick()
            return super().num_unique_values
    out = None
    for _ in range(3):
        out = run(ctx, plan, 'construction', lambda: Text(
            Sequential([2, 3]), Words('abc', replace_only_after_call=True),
            Static('-'), rng_seed=4))
        if out[0] == 'ok':
            break
    em = out[1]
    for k in (ctx.pick([None, 1, 2, 4]), ctx.pick([None, 2, 3]), 4):
        out = request(ctx, plan, em, k)
        if out[0] == 'ok':
            got = [out[1]] if k is None else out[1]
            ctx.check(len(got) == (k or 1) and all(
                len(s.split('-')) in (2, 3) and set(s) <= set('abc-')
                for s in got), 'request for %r gave %r', k, got)
    plan.armed = False
    em.reset()
    got = em(3)
    ctx.check([len(s) for s in got] == [3, 5, 3], 'emitted %r after a reset',
              got)
    ctx.state((error.__name__, place, first, plan.n))
    ctx.outcome((place, plan.n))


# -- fields and schemas -------------------------------------------------------

def fields(ctx):
    place = ctx.pick(['gate', 'repeat', 'emitter'])
    error = ctx.pick(FEW if ctx.quick else ERRORS)
    first = ctx.choose(6)
    times = ctx.pick([1, 2, 3])
    eager = bool(ctx.choose(2))
    plan = Plan(first, times, error)
    p = {place: plan}
    gate = Stub([True, True, False], p.get('gate'), eager)
    rep = Stub([None, 2, 0, 1], p.get('repeat'), eager)
    data = Stub(['d%d' % i for i in range(9)], p.get('emitter'), eager)
    f = Field('f', data, repeat=rep, gate=gate)
    ctx.note('failure %d x%d of %s in the %s', first, times, error.__name__,
             place)
    previous = None
    faults = 0
    hist = []
    for _ in range(6 if ctx.quick else 7):
        if ctx.choose(6 if len(hist) in (2, 4) else 1) == 5:
            hist.append('reset')
            f.reset()
            previous = None
            ctx.check(f.previous is None, 'previous is %r after a reset',
                      f.previous)
        start = (gate.pos, rep.pos, data.pos)
        out = run(ctx, plan, 'field()', f)
        hist.append(out[0])
        if out[0] == 'fault':
            faults += 1
        else:
            if not gate.at(start[0]):
                want = None
            else:
                r = rep.at(start[1])
                want = data.at(start[2]) if r is None else [
                    data.at(start[2] + i) for i in range(r)]
            ctx.check(out[1] == want and type(out[1]) is type(want),
                      'field() returned %r instead of %r', out[1], want)
            previous = want
        ctx.check(f.previous == previous and
                  type(f.previous) is type(previous),
                  'previous is %r instead of %r, the last completed value',
                  f.previous, previous)
    plan.armed = False
    f.reset()
    ctx.check(f.previous is None, 'previous is %r after a reset', f.previous)
    got = [f() for _ in range(4)]
    ctx.equal(got, ['d0', ['d1', 'd2'], None, []], 'after a reset')
    ctx.state((place, error.__name__, first, times, eager, tuple(hist)))
    ctx.outcome((place, tuple(hist)))


def schemas(ctx):
    place = ctx.pick(['first', 'hidden', 'action', 'last', 'gate'])
    error = ctx.pick(FEW if ctx.quick else ERRORS)
    first = ctx.choose(5)
    times = ctx.pick([1, 2] if ctx.quick else [1, 2, 3])
    plan = Plan(first, times, error)
    p = {place: plan}
    quiet = Plan(0, 0, error)
    a = Stub(['a%d' % i for i in range(5)], p.get('first'))
    b = Stub(['b%d' % i for i in range(7)], p.get('hidden'))
    z = Stub(['z%d' % i for i in range(3)], p.get('last'))
    g = Stub([True, True, False], p.get('gate'))

    def action(a, b):
        p.get('action', quiet).tick()
        return a + '+' + b

    def build():
        fa = Field('a', a)
        fb = Field('b', b, hide=True)
        return Schema(fa, fb, Field('c', BasedOnFields([fa, fb], action)),
                      Field('d', CopyFields([fa, fb])),
                      Field('z', Proper(z), gate=g))
    out = run(ctx, plan, 'construction', build)
    ctx.check(out[0] == 'ok', 'construction failed')
    s = out[1]
    ctx.note('failure %d x%d of %s in %s', first, times, error.__name__,
             place)
    hist = []
    for _ in range(5):
        st = (a.pos, b.pos, z.pos, g.pos)
        prev = {n: f.previous for n, f in s.fields.items()}
        out = run(ctx, plan, 'schema()', s)
        hist.append(out[0])
        if out[0] == 'ok':
            va, vb = a.at(st[0]), b.at(st[1])
            want = {'a': va, 'c': va + '+' + vb, 'd': [va, vb],
                    'z': z.at(st[2]) if g.at(st[3]) else None}
            ctx.check(out[1] == want and list(out[1]) == list(want),
                      'document %r instead of %r', out[1], want)
        else:
            # The failing field and those not reached remember their last
            # completed value.
            name = {'first': 'a', 'hidden': 'b', 'action': 'c', 'last': 'z',
                    'gate': 'z'}[place]
            ctx.check(s.fields[name].previous == prev[name],
                      'the failing field remembers %r instead of %r',
                      s.fields[name].previous, prev[name])
        if ctx.choose(3 if len(hist) in (2, 3) else 1) == 2:
            hist.append('reset')
            s.reset_fields()
            ctx.check(all(f.previous is None for f in s.fields.values()),
                      'previous values left after a reset')
            ctx.check((a.pos, b.pos, z.pos, g.pos) == (0, 0, 0, 0),
                      'reset did not reach all fields')
    plan.armed = False
    s.reset_fields()
    ctx.equal(s(), {'a': 'a0', 'c': 'a0+b0', 'd': ['a0', 'b0'], 'z': 'z0'},
              'the first document after a reset')
    ctx.state((place, error.__name__, first, times, tuple(hist)))
    ctx.outcome((place, tuple(hist)))


def actions(ctx):
    """Actions and values that fail, called directly."""
    kind = ctx.pick(['one', 'many', 'rng', 'str', 'lazy'])
    # (What __str__ raises isn't the emitter's business, apart from an error
    # being an error: StopIteration could be taken for the end of something.)
    error = ctx.pick([e for e in ERRORS if kind != 'str' or
                      e is not StopIteration])
    first = ctx.choose(5)
    times = ctx.pick([1, 2])
    plan = Plan(first, times, error)
    src = Stub([1, 2, 3, 4, 5])
    f = Field('f', src)
    f2 = Field('f2', Static('s'))

    class Val:
        def __str__(self):
            plan.tick()
            return 'val'
    if kind == 'one':
        em = BasedOnFields(f, lambda v: (plan.tick(), v)[1])
    elif kind == 'many':
        em = BasedOnFields([f, f2], lambda **kw: (plan.tick(), kw['f'])[1])
    elif kind == 'rng':
        em = BasedOnFields(f, lambda v, rng: (plan.tick(), v)[1], rng_seed=2)
    elif kind == 'str':
        fv = Field('v', Static(Val()), repeat=Static(2))
        em = CopyFields([f, fv], separator='/')
    else:
        plan.armed = False
        em = WrapOne(BasedOnFields(f, lambda v: (plan.tick(), v)[1]),
                     lambda v: v)
        plan.armed, plan.n = True, 0
    want_last = None
    hist = []
    for _ in range(3):
        f()
        f2()
        if kind == 'str':
            fv()
        prev = f.previous
        k = ctx.pick([None, 1, 3])
        out = request(ctx, plan, em, k)
        ctx.check(f.previous == prev and src.pos == src.pos, 'disturbed')
        hist.append((k, out[0]))
        if out[0] == 'ok':
            v = '%d/val/val' % prev if kind == 'str' else prev
            want = v if k is None else [v] * k
            ctx.check(out[1] == want, 'request for %r gave %r instead of %r',
                      k, out[1], want)
    ctx.state((kind, error.__name__, first, times, tuple(hist)))
    ctx.outcome((kind, tuple(hist)))


# -- groups --------------------------------------------------------------------

class Member:
    def __init__(self, name, plan, log):
        self.__dict__.update(name=name, plan=plan, log=log, attr=0)

    def act(self, *args, **kwargs):
        self.plan.tick()
        self.log.append((self.name, args, tuple(kwargs.items())))

    def inner(self):
        self.plan.tick()
        self.log.append(self.name)
        if self.plan.error is AttributeError and self.plan.last:
            return self.missing

    def __setattr__(self, name, value):
        self.plan.tick()
        self.log.append((self.name, name, value))
        self.__dict__[name] = value


def groups(ctx):
    kind = ctx.pick(['group', 'map', 'slice', 'concat'])
    op = ctx.pick(['method', 'method args', 'setattr', 'inner'])
    error = ctx.pick(ERRORS)
    first = ctx.choose(7)
    times = ctx.pick([1, 2])
    plan = Plan(first, times, error)
    log = []
    ms = [Member('m%d' % i, plan, log) for i in range(3)]
    members = [ms[0], None, ms[1], 'string', ms[2]]
    if kind == 'group':
        g = ObjectGroup(*members)
    elif kind == 'map':
        g = ObjectMap({'k%d' % i: m for i, m in enumerate(members)})
    elif kind == 'slice':
        g = ObjectGroup('x', *members)[1:]
    else:
        g = ObjectGroup(*members[:2]) + members[2:]

    def broadcast():
        if op == 'method':
            g.do_method('act')
        elif op == 'method args':
            g.do_method('act', 1, key='v')
        elif op == 'inner':
            g.do_method('inner')
        else:
            g.setattr('attr', 7)
    entry = {'method': lambda n: (n, (), ()),
             'method args': lambda n: (n, (1,), (('key', 'v'),)),
             'inner': lambda n: n, 'setattr': lambda n: (n, 'attr', 7)}[op]
    hist = []
    for _ in range(4):
        del log[:]
        at = plan.n
        out = run(ctx, plan, 'broadcast', broadcast)
        hist.append(out[0])
        done = plan.n - at
        if out[0] == 'ok':
            ctx.check(log == [entry(m.name) for m in ms], 'broadcast reached '
                      '%r', log)
        else:
            ctx.check(log[:done - 1] == [entry(m.name) for m in
                                         ms[:done - 1]],
                      'before the failing member, broadcast reached %r', log)
    ctx.state((kind, op, error.__name__, first, times))
    ctx.outcome((kind, op, tuple(hist)))


# -- resets ----------------------------------------------------------------------

def resets(ctx):
    """A child's reset or seed method fails: it comes through, and a later
    reset or seed that succeeds restores the initial behaviour."""
    cls = ctx.pick(['word', 'text', 'one', 'many', 'field', 'schema'])
    error = ctx.pick(ERRORS)
    first = ctx.choose(3)
    before = ctx.choose(3)
    op = ctx.pick(['reset', 'seed'])
    # (It also runs during construction.)
    plan = Plan(10 ** 6, 1, error)

    class Child(Stub):
        def seed(self, rng_seed):
            plan.tick()

    def build(plan):
        n = Child([2, 1, 3], None, False, plan)
        w = Choice('abcde')
        if cls == 'word':
            return Word(n, w, rng_seed=3)
        if cls == 'text':
            return Text(n, w, Choice('-+'), rng_seed=3)
        if cls == 'one':
            return WrapOne(n, lambda v, rng: (v, rng.random()), rng_seed=3)
        if cls == 'many':
            return WrapMany({'n': n, 'w': w}, lambda n, w, rng: (
                n, w, rng.random()), rng_seed=3)
        f = Field('f', w, repeat=n, rng_seed=3)
        if cls == 'field':
            return f
        return Schema(Field('e', Choice(range(99)), rng_seed=3), f,
                      Field('g', Sequential('xyz')))
    em, twin = build(plan), build(None)
    do_reset = em.reset_fields if cls == 'schema' else em.reset
    do_seed = em.seed_fields if cls == 'schema' else em.seed
    for _ in range(before):
        em()
    plan.n, plan.first = 0, first
    faults = 0
    for _ in range(4):
        out = run(ctx, plan, op, *((do_reset,) if op == 'reset' else
                                   (do_seed, 9)))
        faults += out[0] == 'fault'
        # It still emits values.
        out = run(ctx, plan, 'call', em)
        ctx.check(out[0] == 'ok', 'no value')
    ctx.check(faults == 1, '%d failures came through instead of 1', faults)
    plan.armed = False
    if op == 'seed':
        do_seed(9)
        if cls == 'schema':
            twin.seed_fields(9)
        else:
            twin.seed(9)
    do_reset()
    (twin.reset_fields if cls == 'schema' else twin.reset)()
    got, want = [em() for _ in range(5)], [twin() for _ in range(5)]
    ctx.check(got == want, 'emitted %r instead of %r after a completed %s',
              got, want, op)
    ctx.state((cls, error.__name__, first, before, op))
    ctx.outcome((cls, first, op))


# -- lazily computed items -----------------------------------------------------

class Lazy(list):
    """A sequence whose items are computed on access, which can fail."""

    plan = None

    def __getitem__(self, i):
        self.plan.tick()
        return super().__getitem__(i)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]


def lazy_items(ctx):
    mode = ctx.pick(['rep', 'roac', 'norep', 'weights', 'sequential',
                     'roac weights'])
    error = ctx.pick([ValueError, KeyError, TypeError, Custom, CustomBase])
    first = ctx.choose(8)
    times = ctx.pick([1, 2])
    plan = Plan(first, times, error)
    items = Lazy(range(6))
    items.plan = plan

    def build():
        if mode == 'sequential':
            return Sequential(items)
        kw = {'rep': {}, 'weights': {'weights': range(1, 7)},
              'roac': {'replace_only_after_call': True},
              'roac weights': {'replace_only_after_call': True,
                               'weights': range(1, 7)},
              'norep': {'replace': False}}[mode]
        return Choice(items, rng_seed=3, **kw)
    em = None
    for _ in range(4):
        out = run(ctx, plan, 'construction', build)
        if out[0] == 'ok':
            em = out[1]
            break
    ctx.check(em is not None, 'could not be constructed')
    left = 6
    for _ in range(3):
        k = ctx.pick([None, 1, 2, 4])
        n = k or 1
        if mode == 'norep' and n > left:
            while run(ctx, plan, 'reset()', em.reset)[0] == 'fault':
                pass
            left = 6
        out = request(ctx, plan, em, k)
        if out[0] == 'ok':
            got = [out[1]] if k is None else out[1]
            ctx.check(len(got) == n and all(v in range(6) for v in got),
                      'request for %r gave %r', k, got)
            if mode in ('norep', 'roac', 'roac weights'):
                ctx.check(len(set(got)) == n, 'repeated items: %r', got)
            left -= n
            if mode == 'norep':
                ctx.equal(em.num_unique_items, left, 'num_unique_items')
        elif mode == 'norep':
            ctx.equal(em.num_unique_items, left, 'num_unique_items after a '
                      'failure')
    ctx.state((mode, error.__name__, first, times))
    ctx.outcome((mode, plan.n))


# -- functions without a signature ---------------------------------------------

class Touchy:
    """A value whose conversions can fail."""

    plan = None

    def __init__(self, n):
        self.n = n

    def _hit(self):
        self.plan.tick()
        return self.n

    def __int__(self):
        return self._hit()

    def __iter__(self):
        return iter([self._hit()])

    def __str__(self):
        return str(self._hit())

    def __bytes__(self):
        return b'%d' % self._hit()

    def __bool__(self):
        return bool(self._hit())


BUILTINS = [(int, lambda n: n), (max, lambda n: n), (str, str),
            (frozenset, lambda n: frozenset([n])), (bytes, lambda n: b'%d' % n),
            (bool, bool)]


def builtins(ctx):
    """Built-in functions are tried out on a source value when they are
    installed; an error from that is the user's, too (but for a TypeError,
    which cannot be told from an unsuitable signature)."""
    cls = ctx.pick(['one', 'field'])
    i = ctx.choose(len(BUILTINS))
    f, want = BUILTINS[i]
    error = ctx.pick([e for e in ERRORS if e is not TypeError])
    first = ctx.choose(4)
    times = ctx.pick([1, 2])
    when = ctx.choose(2)
    values = [Touchy(n) for n in (3, 0, 5)]
    plan = Plan(first, times, error)
    for v in values:
        v.plan = plan
    if when:
        # It replaces a function that works.
        plan.armed = False
    src = Stub(values)
    field = Field('f', src)
    ctx.note('%s of %s, failure %d x%d of %s, %s', cls, f.__name__, first,
             times, error.__name__, ['made', 'installed'][when])

    def make(fn):
        if cls == 'one':
            return WrapOne(src, fn)
        return BasedOnFields(field, fn)
    em = make(lambda v: 0) if when else None
    plan.armed = True
    for _ in range(4):
        out = run(ctx, plan, 'installation', *(
            (make, f) if em is None else
            (em.set_wrapper_function, f) if cls == 'one' else
            (em.set_action_function, f)))
        if out[0] == 'ok':
            break
    ctx.check(out[0] == 'ok', 'could not be installed')
    em = em or out[1]
    for _ in range(3):
        if cls == 'field':
            field()
        out = request(ctx, plan, em, None if cls == 'field' else
                      ctx.pick([None, 1, 2]))
    plan.armed = False
    em.reset()
    if cls == 'field':
        field.reset()
    for n in (3, 0, 5, 3):
        if cls == 'field':
            field()
        got = em()
        ctx.check(type(got) is type(want(n)) and got == want(n), 'emitted %r '
                  'instead of %r after a reset', got, want(n))
    ctx.state((cls, i, error.__name__, first, times, when))
    ctx.outcome((cls, i, error.__name__))


# -- every type of error at every kind of place --------------------------------

def _site(plan, site):
    a = Stub(['a%d' % i for i in range(7)])
    bad = Stub(['b%d' % i for i in range(5)], plan)
    num = Stub([2, 1, 3], plan if site.endswith(' count') else None)

    def tick(v):
        plan.tick()
        return v
    if site == 'wrap one':
        return WrapOne(a, tick)
    if site == 'wrap one rng':
        return WrapOne(a, lambda v, rng: tick(v))
    if site == 'wrap many':
        return WrapMany({'p': a, 'q': Static(1)}, lambda p, q: tick(p))
    if site == 'wrap many kw':
        return WrapMany({'p': a, 'q': Static(1)}, lambda rng, **kw: tick(1))
    if site == 'wrap nested':
        return WrapOne(WrapMany({'p': WrapOne(a, tick)}, lambda p: p), str)
    if site == 'source of one':
        return WrapOne(bad, str)
    if site == 'source of many':
        return WrapMany({'p': a, 'q': bad}, lambda p, q: q)
    if site == 'word count':
        return Word(num, a)
    if site == 'word characters':
        return Word(num, bad)
    if site == 'text count':
        return Text(num, a)
    if site == 'text words':
        return Text(num, bad)
    if site == 'text separators':
        return Text(num, a, bad)
    if site == 'text of words':
        return Text(Static(2), Word(Static(2), bad))
    if site == 'generator':
        return Iterative(_generator_factory(plan, 'xyz'))
    if site == 'iterator':
        return Iterative(_byhand_factory(plan, 'xyz'))
    if site == 'factory':
        return Iterative(_calling_factory(plan, 'x'))
    f, g = Field('f', a), Field('g', Static(1))
    if site == 'action':
        return BasedOnFields(f, tick)
    if site == 'action many':
        return BasedOnFields([f, g], lambda f, g: tick(g))
    if site == 'action rng':
        return BasedOnFields([f, g], lambda rng, **kw: tick(1))
    if site == 'gate':
        return Field('x', a, gate=Stub([True], plan))
    if site == 'repeat':
        return Field('x', a, repeat=Stub([2, 1], plan))
    if site == 'emitter':
        return Field('x', bad, repeat=num)
    if site == 'schema':
        return Schema(f, Field('y', WrapOne(bad, str), hide=True), g)
    log = []
    ms = [Member('m%d' % i, plan, log) for i in range(3)]
    grp = ObjectGroup(*ms) if 'group' in site else ObjectMap(
        dict(zip('abc', ms)))
    if site.endswith('setattr'):
        return lambda: grp.setattr('attr', 1)
    return lambda: grp.do_method('act', 2)


SITES = ['wrap one', 'wrap one rng', 'wrap many', 'wrap many kw',
         'wrap nested', 'source of one', 'source of many', 'word count',
         'word characters', 'text count', 'text words', 'text separators',
         'text of words', 'generator', 'iterator', 'factory', 'action',
         'action many', 'action rng', 'gate', 'repeat', 'emitter', 'schema',
         'group method', 'map method', 'group setattr', 'map setattr']
NONUMBER = ('gate', 'repeat', 'emitter', 'schema', 'group method',
            'map method', 'group setattr', 'map setattr')


def kinds(ctx):
    site = SITES[ctx.choose(len(SITES))]
    errors = ERRORS + MORE
    if site in ('generator', 'iterator', 'factory'):
        errors = [e for e in errors if e not in (StopIteration,
                                                 GeneratorExit)]
    error = ctx.pick(errors)
    first = ctx.pick(list(range(4 if ctx.quick else 9)) +
                     list(range(9, 131)) * (error is ValueError) +
                     [40, 130] * (error is TypeError))
    k = None if site in NONUMBER else ctx.pick([None, 1, 2, 5] + [
        20, 130] * (error is TypeError))
    how = ctx.choose(2) if site not in NONUMBER else 0
    plan = Plan(0, 1, error)
    plan.armed = False
    em = _site(plan, site)
    plan.n, plan.first, plan.armed = 0, first, True
    faults = 0
    for _ in range(first + 2):
        out = request(ctx, plan, em, k, how)
        faults += out[0] == 'fault'
        ctx.check(out[0] == 'fault' or k is None or len(out[1]) == k,
                  'request for %r values returned %r', k, out[1:])
    ctx.check(faults == 1, '%d errors came out instead of 1', faults)
    ctx.state((site, error.__name__, first, k, how))
    ctx.outcome((site, error.__name__))


def scenarios(tier, seed):
    return [Scenario('kinds', kinds), Scenario('iterators', iterators, split=3),
            Scenario('new factory', new_factory),
            Scenario('functions', functions, split=3),
            Scenario('strings', strings, split=3),
            Scenario('refilled', refilled),
            Scenario('fields', fields, split=2),
            Scenario('schemas', schemas, split=2),
            Scenario('actions', actions), Scenario('groups', groups),
            Scenario('resets', resets),
            Scenario('lazy items', lazy_items),
            Scenario('builtins', builtins)]
