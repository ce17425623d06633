"""Derived fields: every history of up to three (thorough: four) operations -
documents, requests to derived emitters, resets and seeds of derived fields
and of sources, new derived fields, changed sources - over all selections of
up to three sources of eight kinds and all kinds of derivation.  Outputs are
compared with a flattening oracle over the values that separate twin sources
(in a world with no derived field) produce; source values must stay those of
the twins."""
import collections
import itertools

from fauxdoc.emitters import (BasedOnFields, Choice, CopyFields, Sequential,
                              Static, chance)
from fauxdoc.profile import Field, Schema

from ..common import outcome
from ..explore import Scenario, every_size, periodic, Violation

SINGLES = ['v1', 0, None, 'v2', False, [2, None, 3], '', (4, 5), 7.5]
KINDS = {
    's': lambda n: Field(n, Sequential(SINGLES)),
    'c': lambda n: Field(n, Choice(range(1000)), rng_seed=n),
    'n': lambda n: Field(n, Static(None)),
    'm': lambda n: Field(n, Sequential(['a', 0, 'b', 'c', '']),
                         repeat=Sequential([2, 0, 1, 3])),
    'g': lambda n: Field(n, Choice('wxyz', [1, 2, 3, 4], False),
                         repeat=Sequential([1, 2, 0]),
                         gate=Sequential([True, False, True, True, False,
                                          False]), rng_seed=5),
    'r': lambda n: Field(n, Choice(range(50)), repeat=Choice([0, 1, 2]),
                         gate=chance(0.6), rng_seed=n * 2),
    'o': lambda n: Field(n, Choice(range(9), replace_only_after_call=True),
                         repeat=Static(4), rng_seed=1),
    'h': lambda n: Field(n, Sequential(['a', None, 0, None, None, 'b']),
                         repeat=Sequential([2, 3, 1, 4])),
    '1': lambda n: Field(n, Choice(['only', 'two']), repeat=Static(1),
                         rng_seed=3),
}
COMBOS = ['s', 'c', 'm', 'g', 'r', 'n', '1', 'ss', 'sm', 'ms', 'gn', 'nn',
          'rs', 'or', 'sms', 'nsg', 'rrr', 'moc', '1s1', 'h', 'hs',
          'ghm']

DEEP = ['s', 'g', 'r', 'sm']


def single(fields, aslist):
    return len(fields) == 1 and not aslist and not fields[0].multi_valued


def flat(fields, aslist, sep):
    """What a copying emitter should yield, from its fields' values."""
    if single(fields, aslist):
        return fields[0].previous
    out = []
    for f in fields:
        v = f.previous
        if isinstance(v, (list, tuple)):
            for x in v:
                out.append(x)
        elif v is not None:
            out.append(v)
    if sep is not None:
        return sep.join(map(str, out))
    return out if out else None


def act_one(v):
    return ('one', repr(v))


def act_one_rng(v, rng):
    return ('oner', repr(v), rng.randrange(1000))


def act_many(**kw):
    return ('many', repr(list(kw.items())))


def act_many_rng(rng=None, **kw):
    return ('manyr', repr(list(kw.items())), rng.randrange(1000))


class World:
    """Sources with derived fields, and their twins without."""

    def __init__(self, ctx, combo):
        self.ctx = ctx
        self.names = ['f%d' % i for i in range(len(combo))]
        self.src = [KINDS[k](n) for k, n in zip(combo, self.names)]
        self.twin = [KINDS[k](n) for k, n in zip(combo, self.names)]
        self.derived = []       # (emitter, oracle)
        self.rngs = []

    def same(self, after):
        for a, b in zip(self.src, self.twin):
            self.ctx.check(
                repr(a.previous) == repr(b.previous), 'after %s the source '
                'field %s remembers %r instead of %r', after, a.name,
                a.previous, b.previous)

    def emit_sources(self):
        for a, b in zip(self.src, self.twin):
            va, vb = outcome(a), outcome(b)
            self.ctx.check(va == vb, 'source field %s yields %r instead of '
                           '%r', a.name, va, vb)
        self.same('emitting')

    def which(self, sel):
        return [(self.src[i], self.twin[i]) for i in sel]


DERIVE = ['copy', 'copylist', 'sep', 'sep0', 'based', 'basedlist',
          'basedrng']


class Derived:
    """One derived emitter and the oracle for it."""

    def __init__(self, world, kind, sel, seed=9):
        self.w, self.kind, self.seed = world, kind, seed
        self.sel = sel
        self.aslist = kind in ('copylist', 'basedlist') or len(sel) > 1
        fs = [world.src[i] for i in sel]
        arg = list(fs) if self.aslist else fs[0]
        self.sep = {'sep': ' / ', 'sep0': ''}.get(kind)
        self.rng = None
        if kind in ('copy', 'copylist'):
            self.em = CopyFields(arg)
        elif kind in ('sep', 'sep0'):
            self.em = CopyFields(arg, separator=self.sep)
        else:
            one = len(sel) == 1
            self.wants = kind == 'basedrng'
            self.fn = {(True, True): act_one_rng, (True, False): act_one,
                       (False, True): act_many_rng,
                       (False, False): act_many}[one, self.wants]
            self.em = BasedOnFields(arg, self.fn, rng_seed=seed)
            self.renew()

    def renew(self):
        if self.kind.startswith('based'):
            import random
            self.rng = random.Random(self.seed)

    def want(self):
        fs = [self.w.twin[i] for i in self.sel]
        if not self.kind.startswith('based'):
            return flat(fs, self.aslist, self.sep)
        kw = {'rng': self.rng} if self.wants else {}
        if len(fs) == 1:
            return self.fn(fs[0].previous, **kw)
        for f in fs:
            kw[f.name] = f.previous
        return self.fn(**kw)

    def ask(self, number=None):
        ctx = self.w.ctx
        out = outcome(self.em) if number is None else \
            outcome(self.em, number)
        ctx.step('%s emitter of %r: call(%r) -> %r', self.kind, self.sel,
                 number, out)
        ctx.check(out[0] == 'ok', 'derived emitter failed: %r', out)
        if number is None:
            want = self.want()
            ctx.check(type(out[1]) is type(want) and out[1] == want,
                      'derived emitter (%s of %r) yields %r instead of %r',
                      self.kind, [f.previous for f in self.w.src], out[1],
                      want)
            return out[1]
        # (For several values at once the rng may be drawn from once or
        # more often; only pure functions are pinned down.)
        ctx.check(type(out[1]) is list and len(out[1]) == number,
                  'call(%r) of a derived emitter returned %r', number, out[1])
        if not (self.kind == 'basedrng'):
            want = [self.want() for _ in range(number)]
            ctx.check(out[1] == want, 'call(%r) of a derived emitter '
                      'returned %r instead of %r', number, out[1], want)
        else:
            self.em.reset()
            self.renew()
        return out[1]


def selections(n):
    out = [tuple(range(n))]
    if n > 1:
        out += [(n - 1,), tuple(reversed(range(n)))]
    return out


OPS = ['doc', 'ask', 'ask3', 'reset', 'seed', 'newsource', 'create',
       'reset_source', 'seed_source', 'mangle', 'setaction']


def histories(ctx):
    combo = ctx.some(COMBOS, 5)
    w = World(ctx, combo)
    kind = ctx.pick(DERIVE)
    sel = ctx.pick(selections(len(combo)))
    early = ctx.choose(2)
    if early:
        ctx.step('documents before')
        w.emit_sources()
    d = Derived(w, kind, sel)
    depth = 3 if combo in DEEP else 2
    ctx.step('%s of %r (sources %s)', kind, sel, combo)
    w.same('creating a derived emitter')
    d.ask()
    for op in ctx.history(depth if ctx.quick else depth + 1, OPS):
        if op == 'doc':
            w.emit_sources()
            d.ask()
        elif op == 'ask':
            d.ask()
            d.ask()
        elif op == 'ask3':
            d.ask(0)
            d.ask(3)
            d.ask(1)
        elif op == 'reset':
            d.em.reset()
            d.renew()
            ctx.step('derived.reset()')
        elif op == 'seed':
            if hasattr(d.em, 'seed'):
                d.em.seed(31)
                d.seed = 31
                d.renew()
            ctx.step('derived.seed(31)')
        elif op == 'newsource':
            sels = selections(len(combo))
            new = sels[(sels.index(d.sel) + 1) % len(sels)]
            if (len(new) == 1) != (len(d.sel) == 1) and \
                    d.kind.startswith('based'):
                new = d.sel
            fs = [w.src[i] for i in new]
            d.sel = new
            d.aslist = d.aslist or len(new) > 1
            d.em.set_source_fields(fs if d.aslist else fs[0])
            ctx.step('set_source_fields(%r)', new)
        elif op == 'create':
            k = DERIVE[(DERIVE.index(d.kind) + 3) % len(DERIVE)]
            d = Derived(w, k, d.sel)
            ctx.step('new derived emitter')
        elif op == 'reset_source':
            d.em.reset_source()
            for i in d.sel:
                w.twin[i].reset()
            ctx.step('reset_source()')
        elif op == 'seed_source':
            if hasattr(d.em, 'seed_source'):
                d.em.seed_source('s')
                for i in d.sel:
                    w.twin[i].seed('s')
            ctx.step('seed_source()')
        elif op == 'mangle':
            v = d.ask()
            if isinstance(v, list) and not single(
                    [w.src[i] for i in d.sel], d.aslist):
                v.append('junk')
                v[:1] = []
        elif op == 'setaction':
            if d.kind.startswith('based'):
                d.em.set_action_function(d.fn)
                d.renew()
            ctx.step('set_action_function()')
        w.same(op)
    d.ask()
    w.emit_sources()
    v = d.ask()
    w.emit_sources()
    v = d.ask()
    ctx.state((combo, d.kind, d.sel, repr([f.previous for f in w.twin])))
    ctx.outcome(repr(v))


CHAIN = ['copy of copy', 'join of copy', 'based of copy', 'copy of based',
         'mixed', 'repeated copy', 'gated copy', 'hidden sources',
         'two of one', 'derived first']


def schemas(ctx):
    """Whole schemas: derived fields of derived fields, document by
    document, against the same schema without them."""
    combo = ctx.pick([c for c in COMBOS if len(c) > 1])
    chain = ctx.pick(CHAIN)
    w = World(ctx, combo)
    a, b = w.src[0], w.src[-1]
    over = {}
    if chain == 'copy of copy':
        x = Field('x', CopyFields(w.src))
        y = Field('y', CopyFields(x))
        over = {'x': lambda s, d: flat(s, True, None),
                'y': lambda s, d: _again([d['x']])}
        ds = [x, y]
    elif chain == 'join of copy':
        x = Field('x', CopyFields(w.src))
        y = Field('y', CopyFields([x, a], separator=';'))
        over = {'x': lambda s, d: flat(s, True, None),
                'y': lambda s, d: ';'.join(map(str, _again(
                    [d['x'], s[0].previous]) or []))}
        ds = [x, y]
    elif chain == 'based of copy':
        x = Field('x', CopyFields(w.src, separator='+'))
        y = Field('y', BasedOnFields(x, lambda v: (v, len(v))))
        z = Field('z', BasedOnFields([y, x], act_many))
        over = {'x': lambda s, d: flat(s, True, '+'),
                'y': lambda s, d: (d['x'], len(d['x'])),
                'z': lambda s, d: act_many(y=d['y'], x=d['x'])}
        ds = [x, y, z]
    elif chain == 'copy of based':
        x = Field('x', BasedOnFields(w.src, act_many))
        y = Field('y', CopyFields(x))
        over = {'x': lambda s, d: act_many(**{f.name: f.previous
                                              for f in s}),
                'y': lambda s, d: d['x']}
        ds = [x, y]
    elif chain == 'mixed':
        x = Field('x', BasedOnFields([b], act_one))
        y = Field('y', CopyFields([a, x]))
        z = Field('z', BasedOnFields([y, a], act_many), hide=True)
        over = {'x': lambda s, d: act_one(s[-1].previous),
                'y': lambda s, d: _again([s[0].previous, d['x']])}
        ds = [x, y, z]
    elif chain == 'repeated copy':
        x = Field('x', CopyFields([a, b]), repeat=Static(2))
        over = {'x': lambda s, d: [flat([s[0], s[-1]], True, None)] * 2}
        ds = [x]
    elif chain == 'gated copy':
        x = Field('x', CopyFields([a, b]), gate=Sequential([True, False]))
        n = [0]

        def gated(s, d):
            n[0] += 1
            return flat([s[0], s[-1]], True, None) if n[0] % 2 else None
        over = {'x': gated}
        ds = [x]
    elif chain == 'hidden sources':
        x = Field('x', CopyFields(w.src))
        for f in w.src:
            f.hide = True
        over = {'x': lambda s, d: flat(s, True, None)}
        ds = [x]
    elif chain == 'two of one':
        x = Field('x', CopyFields([a, a, b]))
        y = Field('y', BasedOnFields(a, act_one))
        over = {'x': lambda s, d: flat([s[0], s[0], s[-1]], True, None),
                'y': lambda s, d: act_one(s[0].previous)}
        ds = [x, y]
    else:
        # A derived field before its source sees the previous document.
        x = Field('x', CopyFields(b))
        last = [None]

        def prev(s, d):
            v, last[0] = last[0], flat([s[-1]], False, None)
            return v
        over = {'x': prev}
        ds = [x]
    if chain == 'derived first':
        schema = Schema(*(ds + w.src))
    else:
        schema = Schema(*(w.src + ds))
    between = ctx.pick(['nothing', 'reset derived', 'seed derived',
                        'emit derived emitters', 'reset all',
                        'seed all and reset'])
    docs = ctx.pick([4, 6])
    for i in range(docs):
        doc = schema()
        for t in w.twin:
            t()
        ctx.step('document %r', doc)
        want = {}
        for k in over:
            want[k] = over[k](w.twin, want)
        for k in want:
            ctx.check(type(doc[k]) is type(want[k]) and doc[k] == want[k],
                      'document %d: derived field %s (%s) is %r instead of '
                      '%r (sources: %r)', i, k, chain, doc[k], want[k],
                      [t.previous for t in w.twin])
        for f, t in zip(w.src, w.twin):
            if not f.hide:
                ctx.check(doc[f.name] == t.previous, 'document %d: source '
                          '%s is %r instead of %r', i, f.name, doc[f.name],
                          t.previous)
        w.same('document %d' % i)
        gated_op = chain == 'gated copy'
        if between == 'reset derived' and not gated_op:
            for f in ds:
                f.reset()
        elif between == 'seed derived':
            for f in ds:
                f.seed(4)
        elif between == 'emit derived emitters' and \
                chain != 'derived first':
            for f in ds:
                f.emitter()
                f.emitter(2)
        elif between == 'reset all' and i == 1:
            schema.reset_fields()
            for t in w.twin:
                t.reset()
            if gated_op:
                n[0] = 0
            if chain == 'derived first':
                last[0] = None
        elif between == 'seed all and reset' and i == 1:
            schema.seed_fields(77)
            schema.reset_fields()
            for t in w.twin:
                t.seed(77)
                t.reset()
            if gated_op:
                n[0] = 0
            if chain == 'derived first':
                last[0] = None
        w.same(between)
    ctx.state((combo, chain, between, docs))
    ctx.outcome(repr(doc))


def _again(values):
    class V:
        multi_valued = True

        def __init__(self, v):
            self.previous = v
    return flat([V(v) for v in values], True, None)


ACTIONS = {
    'len': (len, '`len`'), 'sorted': (sorted, ''), 'repr': (repr, ''),
    'bool': (bool, ''), 'class': (type('K', (), {
        '__init__': lambda self, v=None: None}), ''),
    'default': (lambda v=None: v, ''), 'varargs': (lambda *a, **k: a, ''),
    'raises': (lambda v: 1 / 0, ''), 'method': ('{}'.format, ''),
    'str': (str, ''), 'int': (lambda v: v and int(v), ''),
    'realint': (int, ''), 'dict': (dict, ''), 'max': (max, ''),
    'type': (type, ''), 'print': (print, ''), 'list': (list, ''),
    'float': (float, ''), 'tuple': (tuple, ''), 'set': (set, '')}


def creation(ctx):
    """Creating a derived emitter, or giving it another function, leaves the
    sources alone, whatever the function."""
    name = ctx.pick(sorted(ACTIONS))
    when = ctx.pick(['before the first document', 'after documents',
                     'set_action_function'])
    kind = ctx.pick('nscgo')
    aslist = ctx.choose(2)
    w = World(ctx, kind)
    fn = ACTIONS[name][0]
    if when == 'after documents':
        w.emit_sources()
        w.emit_sources()
    arg = w.src if aslist else w.src[0]
    if when == 'set_action_function':
        em = BasedOnFields(arg, act_one)
        w.emit_sources()
        out = outcome(em.set_action_function, fn)
    else:
        out = outcome(BasedOnFields, arg, fn)
    ctx.step('BasedOnFields(%s) with %s, %s: %r', kind, name, when, out[:2])
    import inspect
    try:
        inspect.signature(fn)
        key = None
        accepted = True
    except ValueError:
        # The documented exception: such functions are tried out.
        key = 'based-on-fields-action-without-signature'
        accepted = None
    if accepted:
        ctx.check(out[0] == 'ok', 'a suitable function was refused: %r', out)
    if key and any(repr(a.previous) != repr(b.previous)
                   for a, b in zip(w.src, w.twin)):
        # The known finding is that one value of each source is used up,
        # and nothing more.
        for t in w.twin:
            t()
        known = Violation('creating a derived emitter with the built-in '
                          'function %s used up a value of its sources' % name,
                          key)
    else:
        known = None
    w.same('creating it')
    for _ in range(3):
        w.emit_sources()
    if known:
        raise known
    ctx.state((name, when, kind, aslist))
    ctx.outcome((name, when, kind, out[0]))


class Plain:
    """The least that is field-like."""

    def __init__(self, name, multi, values):
        self.name, self.multi_valued, self.values = name, multi, values
        self.i = -1
        self.calls = self.resets = 0
        self.seeds = []
        self.previous = None
        self.hide = False

    def __call__(self):
        self.calls += 1
        self.i += 1
        self.previous = self.values[self.i % len(self.values)]
        return self.previous

    def reset(self):
        self.resets += 1

    def seed(self, s):
        self.seeds.append(s)


POOL = [None, 0, 'x', [], [1], ['p', 'q', 'r'], (), ('t', 'u'), '', [None],
        [0, None, 2], [[1, 2], [3]], {'k': 1}, b'', [()], 'a/b', {1, 2},
        frozenset([3, 4]), range(3), collections.deque([1]), b'xy',
        collections.OrderedDict(a=1), {}, set(), False]


def values(ctx):
    """All combinations of up to three remembered values of any form."""
    n = ctx.pick([1, 2, 3])
    pool = POOL if n < 3 else POOL[:10]
    vals = [ctx.pick(pool) for _ in range(n)]
    aslist = ctx.choose(3) if n == 1 else ctx.choose(2) + 1
    multi = [isinstance(v, (list, tuple)) for v in vals]
    if n == 1 and isinstance(vals[0], (list, tuple)) and ctx.choose(2):
        multi = [False]
    fs = [Plain('n%d' % i, m, [v])
          for i, (v, m) in enumerate(zip(vals, multi))]
    copies = [_copy(v) for v in vals]
    for f in fs:
        f()
    arg = fs[0] if not aslist else (fs if aslist == 1 else tuple(fs))
    for sep in (None, '', ', ', '-'):
        em = CopyFields(arg, sep)
        ctx.step('CopyFields of %r, separator %r', vals, sep)
        want = flat(fs, bool(aslist), sep)
        for how in (em, em.emit, lambda: em(1)[0]):
            got = how()
            ctx.check(type(got) is type(want) and got == want,
                      'CopyFields of %r (separator %r) yields %r instead of '
                      '%r', vals, sep, got, want)
        if single(fs, aslist):
            ctx.check(em() is fs[0].previous, 'a single value was not '
                      'passed on as it is')
        elif isinstance(em(), list):
            em().append('junk')
        ctx.check(em.single_valued is single(fs, aslist),
                  'single_valued is %r', em.single_valued)
    got = []
    if n == 1:
        em = BasedOnFields(arg, lambda v: got.append(v) or 'done')
        em()
        ctx.check(len(got) == 1 and got[0] is fs[0].previous, 'the function '
                  'got %r instead of %r', got, vals)
    else:
        em = BasedOnFields(arg, lambda **kw: got.append(kw) or 'done')
        em()
        ctx.check(len(got) == 1 and sorted(got[0]) == [f.name for f in fs]
                  and all(got[0][f.name] is f.previous for f in fs),
                  'the function got %r instead of %r', got, vals)
    # The function is run for each emission, even if nothing has changed.
    em.set_action_function((lambda v: [v]) if n == 1 else lambda **kw: [kw])
    one, two = em(), em.emit()
    one.append('junk')
    ctx.check(len(two) == 1 and len(em()) == 1, 'what the function returned '
              'for one emission is emitted again: %r', em())
    ctx.check([f.previous for f in fs] == copies, 'sources\' values were '
              'changed: %r', [f.previous for f in fs])
    ctx.check(all(f.calls == 1 and not f.resets and not f.seeds
                  for f in fs), 'sources were called, reset or seeded')
    em.reset()
    em.seed(1)
    ctx.check(all(f.calls == 1 and not f.resets and not f.seeds
                  for f in fs), 'resetting or seeding reached the sources')
    em.reset_source()
    em.seed_source(8)
    ctx.check(all(f.calls == 1 and f.resets == 1 and f.seeds == [8]
                  for f in fs), 'reset_source and seed_source did: %r',
              [(f.calls, f.resets, f.seeds) for f in fs])
    ctx.state((repr(vals), aslist, tuple(multi)))
    ctx.outcome(repr((vals, want)))


def _copy(v):
    import copy
    return copy.deepcopy(v)


def wide(ctx):
    """Many sources."""
    n = ctx.size([4, 9, 32, 100, 300])
    mode = ctx.choose(3)
    fs = [Plain('w%d' % i, i % 3 == 2, [
        [None, i, [i, -i], [], 's%d' % i][(i * 7 + j) % 5]
        if i % 3 == 2 else [None, i, 's%d' % i, 0][(i + j) % 4]
        for j in range(4)]) for i in range(n)]
    em = CopyFields(fs, None if mode == 0 else ',')
    got = []
    based = BasedOnFields(fs, lambda **kw: got.append(kw) or len(kw))
    for r in range(3):
        for f in fs:
            f()
        want = flat(fs, True, em.separator)
        out = em()
        ctx.step('copy of %d fields', n)
        ctx.check(out == want, 'copy of %d fields differs', n)
        del got[:]
        ctx.check(based() == n and got[0] == {f.name: f.previous
                                              for f in fs},
                  'based on %d fields differs', n)
        if mode == 2:
            based.reset()
    ctx.state((n, mode))
    ctx.outcome((n, mode))


def longer(ctx):
    """Sources with any number of values."""
    n = ctx.number()
    sep = ctx.pick([None, '', ' ', ', '])
    shape = ctx.choose(3)
    many = Field('m', Sequential(['a', None, 'b', 0, '', 'ccc']),
                 repeat=Sequential([n, 1]))
    one = Field('o', Sequential(['x', None]))
    src = [[many], [one, many], [many, one, many]][shape]
    copied = CopyFields(src if shape else many, sep)
    seen = []
    based = BasedOnFields(src[:2], (lambda v: seen.append([v])) if not shape
                          else (lambda m, o: seen.append([m, o])))
    for _ in range(4):
        many()
        one()
        want = flat(src, shape > 0, sep)
        got = copied()
        ctx.step('%d values, joined by %r', n, sep)
        ctx.check(got == want, 'a copy of %d values is %r instead of %r', n,
                  got, want)
        del seen[:]
        based()
        ctx.check(seen == [[many.previous] + [one.previous] * (shape > 0)],
                  'the action was given %r', seen)
        ks = copied(n)
        ctx.check(ks == [want] * n, 'a request for %d copies gave %r', n, ks)
    ctx.state((n, sep, shape))
    ctx.outcome((n, sep, shape))


NAMES = ['self', 'source', 'args', 'kwargs', 'action', 'field', 'fields',
         'vals', 'value', 'name', 'separator', 'cls', 'number', 'previous',
         'emitter', '', 'a b', 'class', '0', 'é', '_', '__dict__', 'None']


def names(ctx):
    """Source fields may have any name."""
    name = ctx.pick(NAMES)
    at = ctx.choose(3)
    rng = ctx.choose(2)
    fs = [Field(n, Sequential([n + '1', n + '2'])) for n in ('p', 'q')]
    fs.insert(at, Field(name, Sequential([1, None, 3])))
    copied, joined = CopyFields(fs), CopyFields(fs, '-')
    got = []
    based = BasedOnFields(fs, (lambda rng, **kw: got.append(kw)) if rng else
                          (lambda **kw: got.append(kw)))
    out = Field('out', based)
    schema = Schema(*fs, out)
    for _ in range(4):
        del got[:]
        doc = schema()
        ctx.step('document %r', doc)
        want = {f.name: f.previous for f in fs}
        ctx.check(got == [want] and list(doc) == list(want) + ['out'] and
                  doc == dict(want, out=None), 'the action got %r for the '
                  'document %r of fields %r', got, doc, list(want))
        del got[:]
        based(2)
        ctx.check(got and all(g == want for g in got), 'the action got '
                  '%r instead of %r', got, want)
        ctx.check(copied() == flat(fs, True, None) and
                  joined() == flat(fs, True, '-'), 'copies are %r, %r',
                  copied(), joined())
    ctx.state((name, at, rng))
    ctx.outcome((name, at, rng))


def scenarios(tier, seed):
    return [Scenario('histories', histories, split=2),
            Scenario('long use', periodic(histories), split=3),
            Scenario('schemas', schemas),
            Scenario('creation', creation), Scenario('values', values),
            Scenario('wide', wide), Scenario('longer', longer, split=2),
            Scenario('every size', every_size(wide, range(2, 131))), Scenario('names', names)]
