"""Field: for all small gate, repeat and value streams (stubs that log every
request, and real emitters) and every history of up to four (thorough: five)
calls, resets, seeds and replacements of its three emitters, the result, the
remembered value, and what was asked of each emitter are compared with a
stream model."""
import itertools

from fauxdoc.emitters import (BasedOnFields, Choice, Iterative, Sequential, Static, WrapOne,
                              Word, chance)
from fauxdoc.profile import Field

from .. import hrng
from ..common import StreamEmitter, outcome
from ..explore import Scenario, periodic
from .c09 import Spy

GATES = [None, (True,), (False,), (True, False), (False, True, True),
         (1, 0, 'x', '', None)]
REPEATS = [None, (None,), (0,), (1,), (2, 1), (3, 0, 1), (5,)]
VALUES = [('a', 'b', 'c'), (None, 7), ([1], [], [2])]
OPS = ['call', 'call', 'reset', 'gate', 'repeat', 'emitter', 'seed', 'hide',
       'defaults']


class Child:
    """Model of one child: a stream, its position."""

    def __init__(self, values):
        self.values, self.pos = values, 0
        self.stub = StreamEmitter(values) if values is not None else None

    def take(self):
        v = self.values[self.pos % len(self.values)]
        self.pos += 1
        return v


def streams(ctx):
    first = ctx.some(range(len(GATES) * len(REPEATS)), 5)
    gate = Child(GATES[first % len(GATES)])
    rep = Child(REPEATS[first // len(GATES)])
    val = Child(ctx.some(VALUES))
    kw = {}
    if gate.stub:
        kw['gate'] = gate.stub
    if rep.stub:
        kw['repeat'] = rep.stub
    f = Field('name', val.stub, **kw)
    ctx.step('Field(values %r, repeat %r, gate %r)', val.values, rep.values,
             gate.values)
    ctx.check(f.name == 'name' and f.hide is False, 'attributes are wrong')
    prev = None
    ctx.check(f.previous is None, 'previous is %r at first', f.previous)
    kids = [gate, rep, val]
    for op in itertools.chain(['call'], ctx.history(
            4 if ctx.quick else 5, OPS[1:])):
        if op == 'call':
            del val.stub.log[:]
            for k in (gate, rep):
                if k.stub:
                    del k.stub.log[:]
            out = outcome(f)
            ctx.step('call -> %r', out)
            ctx.check(out[0] == 'ok', 'call failed: %r', out)
            yes = gate.take() if gate.values else True
            if yes:
                n = rep.take() if rep.values else None
                prev = val.take() if n is None else [
                    val.take() for _ in range(n)]
            else:
                prev = None
            ctx.check(type(out[1]) is type(prev) and out[1] == prev,
                      'call returned %r instead of %r', out[1], prev)
            ctx.check(f.previous is out[1], 'previous is %r after a call '
                      'that returned %r', f.previous, out[1])
            if gate.stub:
                ctx.check(len(gate.stub.log) == 1, 'gate was asked %d times',
                          len(gate.stub.log))
            if rep.stub:
                ctx.check(len(rep.stub.log) == (1 if yes else 0), 'repeat '
                          'was asked %d times', len(rep.stub.log))
            if not yes:
                ctx.check(not val.stub.log, 'the data emitter was used '
                          'although the gate said no')
        else:
            ctx.step(op)
            if op == 'reset':
                f.reset()
                prev = None
                for k in kids:
                    k.pos = 0
            elif op == 'gate':
                gate = kids[0] = Child((False, True))
                f.gate_emitter = gate.stub
            elif op == 'repeat':
                rep = kids[1] = Child((2, None, 0))
                f.repeat_emitter = rep.stub
            elif op == 'emitter':
                val = kids[2] = Child(('n1', 'n2'))
                f.emitter = val.stub
            elif op == 'defaults':
                gate = kids[0] = Child(None)
                rep = kids[1] = Child(None)
                f.gate_emitter = Static(True)
                f.repeat_emitter = Static(None)
            elif op == 'seed':
                f.seed(5)
            elif op == 'hide':
                f.hide = not f.hide
        ctx.check(type(f.previous) is type(prev) and f.previous == prev,
                  'previous is %r instead of %r after %s', f.previous, prev,
                  op)
        for k, got in zip(kids, (f.gate_emitter, f.repeat_emitter,
                                 f.emitter)):
            if k.stub:
                ctx.check(got is k.stub, 'emitter attribute is wrong')
                ctx.check(k.stub.pos == k.pos, 'an emitter is at %d instead '
                          'of %d after %s', k.stub.pos, k.pos, op)
    ctx.state((gate.values, rep.values, repr(val.values), gate.pos, rep.pos,
               val.pos))
    ctx.outcome((gate.values, rep.values, repr(prev)))


MV = [
    (lambda: None, False), (lambda: Static(None), False),
    (lambda: Static(0), True), (lambda: Static(1), True),
    (lambda: Static(3), True), (lambda: Choice([1, 2, 3]), True),
    (lambda: Choice([None]), False), (lambda: Choice([None, None]), False),
    (lambda: Choice([None, 1]), True), (lambda: Choice([1, None]), True),
    (lambda: Choice([0]), True), (lambda: Choice([None, None, None, 2]),
                                  True),
    (lambda: Sequential([None]), False), (lambda: Sequential((None, None)),
                                          False),
    (lambda: Sequential([None, 0]), True), (lambda: Sequential([0, None]),
                                            True),
    (lambda: Sequential(range(1, 3)), True),
    (lambda: Iterative(lambda: iter([1, 2])), True),
    (lambda: WrapOne(Choice([1, 2]), lambda v: v), True),
    (lambda: StreamEmitter([2]), True),
    (lambda: Choice(range(1, 9), replace=False), True),
    (lambda: Choice([None, 1], [1, 3]), True),
    (lambda: chance(1), True),
]


def known_items(ctx):
    """Repeat emitters with known items: single-valued exactly if all of
    them are None, wherever the others are and whatever their type."""
    n = ctx.pick([1, 2, 3, 5, 16, 17, 33, 64, 65, 257])
    at = ctx.choose(n + 1) if n < 40 else ctx.pick(
        [0, 1, 31, 32, n // 2, n - 2, n - 1, n])
    other = ctx.pick([0, 1, 2, True, False])
    kind = ctx.pick(['choice', 'weighted', 'norep', 'seq', 'later', 'all but'])
    items = [None] * n
    if kind == 'all but':
        items = [other] * n
        if at < n:
            items[at] = None
        want = any(i is not None for i in items)
    else:
        if at < n:
            items[at] = other
        want = at < n
    rep = {'choice': lambda: Choice(items),
           'weighted': lambda: Choice(items, [1] * n),
           'norep': lambda: Choice(items, replace=False),
           'seq': lambda: Sequential(items),
           'later': lambda: Sequential([None]),
           'all but': lambda: Choice(items)}[kind]()
    f = Field('f', Static('v'), repeat=rep)
    if kind == 'later':
        ctx.check(f.multi_valued is False, 'multi_valued for [None]')
        f.repeat_emitter = Sequential(items)
    ctx.step('%s of %d items, %r at %d', kind, n, other, at)
    for _ in range(2):
        ctx.check(f.multi_valued is want, 'multi_valued is %r for %d items '
                  'with %r at %d', f.multi_valued, n, other, at)
    ctx.state((n, at, repr(other), kind))
    ctx.outcome((n, at, repr(other), kind))


def multi_valued(ctx):
    make, want = ctx.pick(MV)
    how = ctx.choose(3)
    gated = ctx.choose(2)
    rep = make()
    gate = [None, Static(False)][gated]
    if how == 0:
        f = Field('f', Sequential('abcdef'), repeat=rep, gate=gate)
    else:
        f = Field('f', Sequential('abcdef'), Static([None, 4][how - 1]),
                  gate)
        ctx.check(f.multi_valued is (how == 2), 'multi_valued is %r for '
                  'Static', f.multi_valued)
        if rep is None:
            rep = Static(None)
        f.repeat_emitter = rep
    ctx.step('repeat emitter %r', rep)
    for _ in range(3):
        ctx.check(f.multi_valued is want, 'multi_valued is %r instead of %r',
                  f.multi_valued, want)
        v = f()
        if gated:
            ctx.check(v is None, 'a closed gate gave %r', v)
        elif not want:
            ctx.check(type(v) is str, 'a single-valued field gave %r', v)
    if isinstance(f.repeat_emitter, Static):
        for val, mv in ((2, True), (None, False), (0, True)):
            f.repeat_emitter.value = val
            ctx.check(f.multi_valued is mv, 'multi_valued is %r after the '
                      'repeat emitter was changed to %r', f.multi_valued, val)
    out = outcome(setattr, f, 'multi_valued', True)
    ctx.check(out[0] == 'err', 'multi_valued can be set')
    ctx.state((MV.index((make, want)), how, gated))
    ctx.outcome((MV.index((make, want)), how))


def real(ctx):
    """Real random emitters behind spies, under an uninterpreted RNG."""
    gk, rk, ek = ctx.choose(3), ctx.choose(4), ctx.choose(4)
    with hrng.control(hrng.Oracle(ctx, grid=(0.05, 0.5, 0.95), cap=3,
                                  first=8 if ctx.quick else 25)):
        g = Spy([lambda: chance(0.6), lambda: Choice([True, False]),
                 lambda: Sequential([True, True, False])][gk]())
        r = Spy([lambda: Choice([0, 1, 2, 5]), lambda: Choice([None]),
                 lambda: Choice([1, 2, 3], [5, 3, 1], False),
                 lambda: Sequential([40, 1])][rk]())
        e = Spy([lambda: Choice('abcdef'), lambda: Word(
            Choice([1, 2]), Choice('xyz')), lambda: Choice(
                range(50), replace_only_after_call=True),
            lambda: WrapOne(Choice([1, 2]), lambda v, rng: (
                v, rng.random()))][ek]())
        f = Field('f', e, r, g, rng_seed=7)
        for i in range(6):
            if i == 4:
                f.reset()
                ctx.check(f.previous is None, 'previous after reset: %r',
                          f.previous)
            for s in (g, r, e):
                s.drain()
            out = outcome(f)
            ctx.step('call -> %r', out)
            gv, rv, ev = g.drain(), r.drain(), e.drain()
            if out[0] == 'err' and rk == 2 and out[1] == 'ValueError':
                return
            ctx.check(out[0] == 'ok', 'call failed: %r', out)
            ctx.check(len(gv) == 1, 'gate emitted %r', gv)
            if not gv[0]:
                want = None
                ctx.check(not rv and not ev, 'emitters were used although '
                          'the gate said no')
            else:
                ctx.check(len(rv) == 1, 'repeat emitted %r', rv)
                ctx.check(len(ev) == (1 if rv[0] is None else rv[0]),
                          'for repeat %r, %d values were emitted', rv, len(ev))
                want = ev[0] if rv[0] is None else ev
            ctx.check(type(out[1]) is type(want) and out[1] == want,
                      'call returned %r; emitters gave %r, %r, %r', out[1],
                      gv, rv, ev)
            ctx.check(f.previous is out[1], 'previous is %r', f.previous)
    ctx.state((gk, rk, ek))
    ctx.outcome((gk, rk, ek, repr(out)))


class Watch(StreamEmitter):
    """Notes what the field remembers whenever one of its emitters is used."""

    field = None

    def _look(self):
        if self.field is not None:
            self.seen.append(self.field.previous)

    def emit(self):
        self._look()
        return super().emit()

    def emit_many(self, number):
        self._look()
        return super().emit_many(number)


def observed(ctx):
    """What is remembered while a call is going on is still the result of
    the latest completed call: seen by the field's own emitters, and used by
    an emitter that derives the next value from the last one."""
    gate = ctx.pick([(True,), (True, False), (False, True, True)])
    rep = ctx.pick([(None,), (2,), (1, 0)])
    kids = [Watch(gate), Watch(rep), Watch(('a', 'b', 'c'))]
    seen = []
    f = Field('f', kids[2], kids[1], kids[0])
    for k in kids:
        k.seen, k.field = seen, f
    prev = None
    for _ in range(4):
        if ctx.choose(4) == 3:
            f.reset()
            prev = None
        del seen[:]
        out = f()
        ctx.step('call -> %r', out)
        ctx.check(all(s is prev for s in seen), 'during the call that '
                  'returned %r, previous was %r instead of %r', out, seen,
                  prev)
        prev = out
        ctx.check(f.previous is out, 'previous is %r', f.previous)
    # A running total.
    g = Field('g', Static(None), gate=Sequential([True, True, True, False]))
    g.emitter = BasedOnFields(g, lambda v: (v or 0) + 1)
    g.reset()
    got = [g() for _ in range(9)]
    ctx.check(got == [1, 2, 3, None, 1, 2, 3, None, 1], 'a field based on '
              'its own previous value gave %r', got)
    ctx.state((gate, rep, repr(prev)))
    ctx.outcome((gate, rep))


def counts(ctx):
    """Every number of values up to 131, and some large ones."""
    n = ctx.pick(list(range(132)) + [150, 255, 256, 257, 1000, 5000])
    real_em = ctx.choose(3)
    em = [StreamEmitter(range(7)), Sequential(range(7)),
          Iterative(lambda: iter(range(7)))][real_em]
    f = Field('f', em, repeat=Static(n))
    at = 0
    for _ in range(3):
        got = f()
        ctx.step('call with repeat %d', n)
        ctx.check(got == [(at + i) % 7 for i in range(n)],
                  'repeat %d gave %d values: %r', n, len(got), got[:20])
        ctx.check(f.previous is got, 'previous is something else')
        at += n
    ctx.state((n, real_em))
    ctx.outcome(n)


def scenarios(tier, seed):
    return [Scenario('streams', streams),
            Scenario('long use', periodic(streams), split=3),
            Scenario('multi_valued', multi_valued), Scenario('known_items', known_items),
            Scenario('real', real, dev_bound=1 if tier == 'quick' else 2),
            Scenario('observed', observed), Scenario('counts', counts)]
