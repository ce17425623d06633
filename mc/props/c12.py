"""Schema: every sequence of up to four (thorough: five) operations - calls,
adding, replacing, setting and removing fields, hiding, resets, seeds, changes
to documents and views - against an ordered-dict model with a log of field
evaluations; plus schemas of up to hundreds of fields."""
import collections

from fauxdoc.emitters import Choice, Sequential, Static, chance
from fauxdoc.group import ObjectMap
from fauxdoc.profile import Field, Schema

from ..common import StreamEmitter, outcome
from ..explore import Scenario, every_size, periodic


class StubField:
    """A field-like object that records what is done with it."""
    multi_valued = False

    def __init__(self, name, tag, log, hide=False, values=None):
        self.name, self.tag, self.log, self.hide = name, tag, log, hide
        self.n = 0
        self.seeds = []
        self.resets = 0
        self.previous = None
        self.values = values

    def __call__(self):
        self.n += 1
        self.log.append(self.tag)
        self.previous = (self.tag, self.n) if self.values is None else \
            self.values[(self.n - 1) % len(self.values)]
        return self.previous

    def reset(self):
        self.resets += 1
        self.n = 0

    def seed(self, s):
        self.seeds.append(s)


class Pool:
    def __init__(self, log):
        mk = StubField
        self.f = {
            'a1': mk('a', 'a1', log), 'b1': mk('b', 'b1', log),
            'c1': mk('c', 'c1', log, True),
            'a2': mk('a', 'a2', log, True), 'b2': mk('b', 'b2', log),
            'n1': mk('n', 'n1', log, False, [None, 0, [], [None]]),
        }


def _call(ctx, s, model, log):
    del log[:]
    fs = list(model.values())
    before = [(f.n, f.resets, len(f.seeds)) for f in fs]
    out = outcome(s)
    ctx.check([(f.n - 1, f.resets, len(f.seeds)) for f in fs] == before,
              'a call has reset or seeded fields, or evaluated some other '
              'than once')
    ctx.step('call -> %r', out)
    ctx.check(out[0] == 'ok', 'call failed: %r', out)
    doc = out[1]
    ctx.check(log == [f.tag for f in model.values()], 'fields evaluated: %r '
              'instead of %r', log, [f.tag for f in model.values()])
    want = [(k, f.previous) for k, f in model.items() if not f.hide]
    ctx.check(type(doc) is dict, 'call returned %r', doc)
    ctx.check(list(doc.items()) == want, 'document is %r instead of %r', doc,
              want)
    ctx.check(all(a is b for (_, a), (_, b) in zip(doc.items(), want)),
              'document holds copies of the values')
    return doc


def _views(ctx, s, model):
    ctx.check(list(s.fields.items()) == list(model.items()), 'fields are %r '
              'instead of %r', list(s.fields), list(model))
    for name, hid in (('hidden_fields', True), ('public_fields', False)):
        v = getattr(s, name)
        want = [(k, f) for k, f in model.items() if bool(f.hide) is hid]
        ctx.check(isinstance(v, ObjectMap), '%s is a %s', name, type(v))
        ctx.check(list(v.items()) == want, '%s has %r instead of %r', name,
                  list(v), [k for k, _ in want])
    return s.hidden_fields, s.public_fields


INIT = [(), ('a1',), ('a1', 'b1', 'c1'), ('c1', 'n1', 'a1', 'b1'),
        ('a2',), ('b1', 'a1', 'b2')]
OPS = [('call',), ('add', 'a2'), ('add', 'c1'), ('add', 'b2', 'n1', 'a1'),
       ('add',), ('set', 'b1', 'a1'), ('set',), ('hide', 0), ('hide', -1),
       ('reset',), ('seed', 7), ('del',), ('item', 'a1'), ('assign',),
       ('changeviews',), ('changedoc',), ('popviews',)]


def histories(ctx):
    init = ctx.some(INIT)
    log = []
    pool = Pool(log)
    fs = pool.f
    s = Schema(*[fs[t] for t in init])
    ctx.step('Schema(%s)', ', '.join(init))
    model = collections.OrderedDict()
    for t in init:
        model[fs[t].name] = fs[t]
    _views(ctx, s, model)
    docs = []
    hides = {t: f.hide for t, f in fs.items()}
    for op in ctx.history(4 if ctx.quick else 5, OPS):
        kind = op[0]
        del log[:]
        touched = [(f.resets, len(f.seeds)) for f in fs.values()]
        if kind == 'call':
            doc = _call(ctx, s, model, log)
            docs = docs[-9:] + [(doc, dict(doc))]
        else:
            ctx.step('%r', op)
        if kind == 'add':
            s.add_fields(*[fs[t] for t in op[1:]])
            for t in op[1:]:
                model[fs[t].name] = fs[t]
        elif kind == 'set':
            s.set_fields(*[fs[t] for t in op[1:]])
            model = collections.OrderedDict(
                (fs[t].name, fs[t]) for t in op[1:])
        elif kind == 'hide' and model:
            f = list(model.values())[op[1]]
            f.hide = not f.hide
            hides[f.tag] = f.hide
        elif kind in ('reset', 'seed'):
            before = {t: (f.resets, len(f.seeds)) for t, f in fs.items()}
            s.reset_fields() if kind == 'reset' else s.seed_fields(op[1])
            for t, f in fs.items():
                d = (f.resets - before[t][0], len(f.seeds) - before[t][1])
                want = 1 if f in model.values() else 0
                w = (want, 0) if kind == 'reset' else (0, want)
                ctx.check(d == w, '%s: field %s was reset, seeded %r times',
                          kind, t, d)
                ctx.check(kind != 'seed' or not want or f.seeds[-1] == op[1],
                          'field %s was seeded with %r', t, f.seeds)
        elif kind == 'del' and model:
            k = next(iter(model))
            del s.fields[k], model[k]
        elif kind == 'item':
            s.fields['a'] = fs['a1']
            model['a'] = fs['a1']
        elif kind == 'assign':
            s.fields = ObjectMap({'b': fs['b1'], 'c': fs['c1']})
            model = collections.OrderedDict(b=fs['b1'], c=fs['c1'])
        elif kind == 'changeviews':
            for v in _views(ctx, s, model):
                v['zz'] = fs['a1']
                v.update({'yy': fs['b1']})
        elif kind == 'popviews':
            for v in _views(ctx, s, model):
                v.clear()
        elif kind == 'changedoc' and docs:
            d = docs.pop()[0]
            d.clear()
            d['junk'] = 1
        if kind != 'call':
            ctx.check(not log, '%r evaluated fields: %r', op, log)
        if kind not in ('reset', 'seed'):
            ctx.check([(f.resets, len(f.seeds)) for f in fs.values()] ==
                      touched, '%r has reset or seeded fields', op)
        for t, f in fs.items():
            ctx.check(f.hide is hides[t] and f.name == t[0], '%r changed the '
                      'name or hide flag of field %s to %r, %r', op, t,
                      f.name, f.hide)
        _views(ctx, s, model)
        for d, want in docs:
            ctx.check(d == want, 'a document returned before has changed: '
                      '%r instead of %r', d, want)
    d1 = _call(ctx, s, model, log)
    d2 = _call(ctx, s, model, log)
    ctx.check(d1 is not d2, 'the same document was returned twice')
    ctx.state([(k, f.tag, f.hide) for k, f in model.items()])
    ctx.outcome(repr(d2))


NAMES = ['', 'a b', '_', '__len__', '0', 'items', 'name', 'Straße', 'self',
         'a.b', 'A', ' ', 'rng', 'None', 'fields', '\n']


def real(ctx):
    """Real fields: gated, repeated, hidden, several schemas' worth."""
    n = ctx.size([1, 2, 3, 7, 16, 33, 100, 257])
    hidden = ctx.pick(['none', 'all', 'odd', 'last', 'first'])
    calls = ctx.some([1, 2, 5], 1) * (1 if ctx.dense is None else 2)
    toggle = ctx.choose(2)
    odd = ctx.choose(2)
    hide = {'none': lambda i: False, 'all': lambda i: True,
            'odd': lambda i: i % 2 == 1, 'last': lambda i: i == n - 1,
            'first': lambda i: i == 0}[hidden]
    fields, stubs = [], []
    for i in range(n):
        st = StreamEmitter(['%d.%d' % (i, j) for j in range(5)])
        gate = [None, Sequential([True, False]), Static(False)][
            0 if i % 4 else i // 4 % 3]
        rep = Static(2) if i % 3 == 2 else None
        # (Names of any kind: empty, numeric, with spaces, ...)
        name = NAMES[i] if odd and i < len(NAMES) else 'f%d' % (n - i)
        fields.append(Field(name, st, rep, gate, hide(i)))
        stubs.append(st)
    s = Schema(*fields)
    ctx.step('%d fields, hidden: %s', n, hidden)
    for c in range(calls):
        if toggle and c == 1:
            for f in fields:
                f.hide = not f.hide
        before = [st.drawn for st in stubs]
        doc = s()
        ctx.check(list(doc) == [f.name for f in fields if not f.hide],
                  'keys are %r', list(doc))
        for i, f in enumerate(fields):
            want = 0 if f.previous is None else (2 if i % 3 == 2 else 1)
            ctx.check(stubs[i].drawn - before[i] == want, 'field %d emitted '
                      '%d values for %r', i, stubs[i].drawn - before[i],
                      f.previous)
            if not f.hide:
                ctx.check(doc[f.name] is f.previous, 'document has %r for '
                          'a field that produced %r', doc[f.name], f.previous)
    s.reset_fields()
    ctx.check(all(f.previous is None and st.pos == 0
                  for f, st in zip(fields, stubs)), 'reset_fields missed '
              'fields')
    s.seed_fields('q')
    ctx.check(all(f.rng_seed == 'q' for f in fields), 'seed_fields missed '
              'fields')
    ctx.check(len(s.public_fields) + len(s.hidden_fields) == n and
              not set(s.public_fields) & set(s.hidden_fields),
              'views do not partition the fields')
    ctx.state((n, hidden, calls, toggle, odd))
    ctx.outcome((n, hidden, calls, toggle))


def seeded(ctx):
    """Resetting and seeding reach every emitter of every field."""
    order = ctx.choose(6)
    hid = ctx.choose(8)
    seed = ctx.pick([0, 'x', 12345])
    import itertools
    mk = [
        lambda: Field('p', Choice(range(100)), gate=chance(0.5)),
        lambda: Field('q', Choice(range(50), replace=False),
                      repeat=Choice([1, 2])),
        lambda: Field('r', Sequential('abc'))]
    perm = list(itertools.permutations(range(3)))[order]

    def new():
        fs = [mk[i]() for i in perm]
        for i, f in enumerate(fs):
            f.hide = bool(hid >> i & 1)
        return Schema(*fs)
    s, t = new(), new()
    for x in range(4):
        s()
    for x in (s, t):
        x.seed_fields(seed)
        x.reset_fields()
    for i in range(6):
        a, b = s(), t()
        ctx.step('%r', a)
        ctx.check(a == b, 'seeded and reset schemas differ: %r, %r', a, b)
        ctx.check([f.previous for f in s.fields.values()] ==
                  [f.previous for f in t.fields.values()], 'hidden fields '
                  'of seeded and reset schemas differ')
    ctx.state((order, hid, seed))
    ctx.outcome((order, hid, repr(a)))


FLAGS = [False, True, None, 0, 1, '', 'x', [], 0.0, (0,)]


def late(ctx):
    """Schemas called, changed and looked at many times."""
    log = []
    fs = Pool(log).f
    init = ctx.pick(INIT[1:])
    between = ctx.pick(['nothing', 'views', 'hide', 'add', 'set', 'reset',
                        'seed', 'dup'])
    s = Schema(*[fs[t] for t in init])
    model = collections.OrderedDict((fs[t].name, fs[t]) for t in init)
    real = [fs[t] for t in init]
    for i in range(150 if ctx.quick else 1100):
        _call(ctx, s, model, log)
        touched = [(f.resets, len(f.seeds)) for f in fs.values()]
        if between == 'views':
            _views(ctx, s, model)
        elif between == 'hide':
            f = real[i % len(real)]
            f.hide = not f.hide
        elif between == 'add':
            f = list(fs.values())[i % len(fs)]
            s.add_fields(f)
            model[f.name] = f
        elif between == 'dup':
            s.add_fields(*real)
            model.update((f.name, f) for f in real)
        elif between == 'set':
            f = list(fs.values())[i % len(fs)]
            s.set_fields(real[0], f)
            model = collections.OrderedDict(
                [(real[0].name, real[0]), (f.name, f)])
        elif between == 'reset':
            s.reset_fields()
        elif between == 'seed':
            s.seed_fields(i)
        want = [(r + (between == 'reset' and f in model.values()),
                 n + (between == 'seed' and f in model.values()))
                for f, (r, n) in zip(fs.values(), touched)]
        ctx.check([(f.resets, len(f.seeds)) for f in fs.values()] == want,
                  'round %d: fields reset, seeded: %r', i,
                  [(f.resets, len(f.seeds)) for f in fs.values()])
        ctx.check(between != 'seed' or all(f.seeds[-1] == i for f in
                                           model.values()), 'other seeds')
    _views(ctx, s, model)
    ctx.state((init, between))
    ctx.outcome((init, between))


def flags(ctx):
    """Hide flags of any kind: document and views agree on what is public,
    and the views partition the fields."""
    log = []
    fs = [StubField(n, n, log) for n in 'abc']
    for f in fs:
        f.hide = ctx.pick(FLAGS if f is not fs[2] else FLAGS[:4])
    real = ctx.choose(2)
    if real:
        fs = [Field(f.name, Static(f.name), hide=f.hide) for f in fs]
    s = Schema(*fs)
    ctx.step('hide: %r', [f.hide for f in fs])
    for i in range(3):
        doc = s()
        pub = [f.name for f in fs if not f.hide]
        hid = [f.name for f in fs if f.hide]
        ctx.check(list(doc) == pub, 'document shows %r', list(doc))
        ctx.check(list(s.public_fields) == pub, 'public view has %r, the '
                  'document %r', list(s.public_fields), pub)
        ctx.check(list(s.hidden_fields) == hid, 'hidden view has %r instead '
                  'of %r', list(s.hidden_fields), hid)
        fs[i].hide = FLAGS[(FLAGS.index(fs[i].hide) + 3) % len(FLAGS)]
    ctx.state((repr([f.hide for f in fs]), real))
    ctx.outcome((repr([f.hide for f in fs]), real))


def maps(ctx):
    """A map taken from, or shared with, a schema is not changed when the
    fields of the schema are set anew."""
    log = []
    fs = Pool(log).f
    init = ctx.pick(INIT)
    how = ctx.pick(['own map', 'assigned map', 'map of another schema',
                    'given to another schema', 'after add'])
    new = ctx.pick([(), ('a1',), ('a2', 'c1'), ('n1', 'b2', 'a1', 'c1')])
    times = ctx.pick([1, 2])
    s, other = Schema(*[fs[t] for t in init]), None
    if how == 'assigned map':
        s.fields = ObjectMap({fs[t].name: fs[t] for t in init})
    elif how == 'map of another schema':
        other = Schema(*[fs[t] for t in init])
        s.fields = other.fields
    elif how == 'given to another schema':
        other = Schema()
        other.fields = s.fields
    elif how == 'after add':
        s.add_fields(fs['n1'], fs['a2'])
    held = s.fields
    before = list(held.items())
    ctx.step('%r, %s, set_fields(%r)', init, how, new)
    for _ in range(times):
        s.set_fields(*[fs[t] for t in new])
        want = collections.OrderedDict((fs[t].name, fs[t]) for t in new)
        ctx.check(list(held.items()) == before, 'the map held before now '
                  'has %r', list(held))
        ctx.check(list(s.fields.items()) == list(want.items()), 'fields are '
                  '%r', list(s.fields))
        if other is not None:
            ctx.check(list(other.fields.items()) == before, 'the fields of '
                      'another schema have changed: %r', list(other.fields))
            ctx.check(list(other()) == [k for k, f in before if not f.hide],
                      'another schema shows other fields')
        _call(ctx, s, want, log)
    ctx.state((init, how, new, times))
    ctx.outcome((init, how, new))


def scenarios(tier, seed):
    return [Scenario('flags', flags), Scenario('maps', maps),
            Scenario('histories', histories),
            Scenario('long use', periodic(histories), split=3), Scenario('real', real),
            Scenario('every size', every_size(real), split=2),
            Scenario('late', late), Scenario('seeded', seeded)]
