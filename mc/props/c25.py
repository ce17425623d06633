"""Deprecated names: every history of up to three (thorough: four) accesses,
by every way Python has to get at a module's attribute, to every deprecated,
current and unknown name is checked for what it returns and what it warns of;
subclasses of Wrap and re-pointed Sequential emitters are run through request
histories against stream models; and every pair of modules is imported first
in a new process with warnings as errors."""
import importlib
import itertools
import os
import subprocess
import sys
import types
import typing
import warnings

import fauxdoc
import fauxdoc.emitters
import fauxdoc.emitters.wrappers
import fauxdoc.typing
import fauxdoc.warn
from fauxdoc.emitters import Choice, Sequential, WrapMany, WrapOne
from fauxdoc.typing import EmitterLike, T
from fauxdoc.warn import get_deprecated_attr

from .. import main
from ..common import StreamEmitter, outcome
from ..explore import Scenario, periodic

# From the changelog: module, name, what to use instead, what it is.
WRAP = ('WrapOne', 'WrapMany')
NAMES = [
    ('fauxdoc.emitters', 'Wrap', WRAP, None),
    ('fauxdoc.emitters.wrappers', 'Wrap', WRAP, None),
    ('fauxdoc.typing', 'Number', ('float',), float),
    ('fauxdoc.typing', 'EmitterLikeCallable', ('EmitterLike',), typing.Union[
        typing.Callable[[int], typing.Sequence[T]], EmitterLike[T]]),
    ('fauxdoc.typing', 'StrEmitterLike', ('EmitterLike[str]',),
     EmitterLike[str]),
    ('fauxdoc.typing', 'IntEmitterLike', ('EmitterLike[int]',),
     EmitterLike[int]),
    ('fauxdoc.typing', 'BoolEmitterLike', ('EmitterLike[bool]',),
     EmitterLike[bool]),
]
CURRENT = [('fauxdoc.emitters', 'WrapOne', WrapOne),
           ('fauxdoc.emitters', 'Choice', Choice),
           ('fauxdoc.emitters.wrappers', 'WrapMany', WrapMany),
           ('fauxdoc.typing', 'EmitterLike', EmitterLike)]
UNKNOWN = [('fauxdoc.emitters', 'Wrapper'), ('fauxdoc.typing', 'number'),
           ('fauxdoc.emitters.wrappers', 'wrap'), ('fauxdoc.typing', ''),
           ('fauxdoc.emitters', 'Number'),
           ('fauxdoc.typing', 'Wrap')]
HOWS = ['attribute', 'getattr', 'from', 'default', 'hasattr', 'star', 'dir',
        'exec']


def _access(how, module, name):
    """('value', x), ('has', bool), ('listed', bool) or ('missing', type)."""
    m = sys.modules[module]
    missing = object()
    try:
        if how == 'attribute':
            return 'value', eval('m.' + name, {'m': m}) if name else \
                getattr(m, name)
        if how == 'getattr':
            return 'value', getattr(m, name)
        if how == 'default':
            x = getattr(m, name, missing)
            return ('missing', 'AttributeError') if x is missing else (
                'value', x)
        if how == 'hasattr':
            return 'has', hasattr(m, name)
        if how == 'from':
            ns = {}
            exec('from %s import %s as x' % (module, name or '_'), ns)
            return 'value', ns['x']
        if how == 'star':
            ns = {}
            exec('from %s import *' % module, ns)
            return 'listed', name in ns
        if how == 'dir':
            return 'listed', name in dir(m)
        ns = {}
        exec('import %s\nx = %s.%s' % (module, module, name or '_'), ns)
        return 'value', ns['x']
    except (AttributeError, ImportError) as e:
        return 'missing', type(e).__name__


def _kinds():
    out = []
    for i in range(len(NAMES)):
        out.append(('deprecated', i))
    for i in range(len(CURRENT)):
        out.append(('current', i))
    for i in range(len(UNKNOWN)):
        out.append(('unknown', i))
    return out


KINDS = _kinds()


FRESH = '''
import sys, warnings
sys.path.insert(0, %r)
import fauxdoc, %s as m
for i in range(140):
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        if %r:
            getattr(m, %r)
        else:
            from %s import %s
    if not any(w.category is DeprecationWarning and %r in str(w.message)
               for w in caught):
        sys.exit("no warning the " + str(i + 1) + ". time")
'''


def fresh(ctx):
    """In a new process, every access gives a warning."""
    module, name = ctx.pick(NAMES)[:2]
    how = ctx.choose(2)
    r = subprocess.run([sys.executable, '-c', FRESH % (
        os.path.join(main.REPO, 'src'), module, how, name, module, name,
        name)], capture_output=True, text=True, timeout=60)
    ctx.step('%s.%s 140 times', module, name)
    ctx.check(r.returncode == 0, '%s.%s: %s', module, name, r.stderr[-300:])
    ctx.stats.transitions += 139
    ctx.state((module, name, how))
    ctx.outcome((module, name, how))


def accesses(ctx):
    got = {}
    hist = []
    for i in range(2 if ctx.quick else 3):
        kind, n = ctx.pick(KINDS)
        how = ctx.pick(HOWS)
        module, name = (NAMES, CURRENT, UNKNOWN)[
            ('deprecated', 'current', 'unknown').index(kind)][n][:2]
        hist.append((kind, n, how))
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            res = _access(how, module, name)
        texts = [str(w.message) for w in caught
                 if w.category is DeprecationWarning]
        ctx.step('%s of %s.%s -> %r, %d warnings', how, module, name, res,
                 len(texts))
        ctx.check(len(texts) == len(caught), 'warned of something else: %r',
                  [str(w.message) for w in caught])
        if how == 'star':
            # What a star import takes is listed in __all__.
            if kind == 'current':
                ctx.check(res == ('listed', True), '%s not in a star import '
                          'of %s', name, module)
            if module == 'fauxdoc.emitters' and name == 'Wrap':
                ctx.check(res == ('listed', True), 'Wrap is not in a star '
                          'import')
                ctx.check(texts, 'no warning from a star import')
            if kind == 'unknown' and (module, name) not in [
                    x[:2] for x in NAMES]:
                ctx.check(res == ('listed', False), '%r is in a star import',
                          name)
            continue
        if how == 'dir':
            ctx.check(res == ('listed', kind != 'unknown'), '%r in dir(%s): '
                      '%r', name, module, res)
            ctx.check(not texts, 'dir() warned: %r', texts)
            continue
        if kind == 'unknown':
            ctx.check(not texts, 'a name that does not exist gave warnings: '
                      '%r', texts)
            want = ('has', False) if how == 'hasattr' else (
                'missing', 'ImportError' if how == 'from' else
                'AttributeError')
            ctx.check(res == want, '%s.%s by %s gave %r', module, name, how,
                      res)
            continue
        if how == 'hasattr':
            ctx.check(res == ('has', True), 'hasattr(%s, %r) is False',
                      module, name)
        else:
            ctx.check(res[0] == 'value', '%s.%s by %s gave %r', module, name,
                      how, res)
            if kind == 'current':
                ctx.check(res[1] is CURRENT[n][2], '%s.%s is %r', module,
                          name, res[1])
            else:
                if NAMES[n][3] is not None:
                    ctx.check(res[1] == NAMES[n][3], '%s.%s is %r', module,
                              name, res[1])
                first = got.setdefault(name, res[1])
                ctx.check(res[1] is first, '%s is not always the same object',
                          name)
        if kind == 'current':
            ctx.check(not texts, 'a current name gave warnings: %r', texts)
        else:
            ctx.check(texts, '%s.%s by %s gave no warning', module, name, how)
            for t in texts:
                ctx.check(name in t and 'deprecated' in t and all(
                    x in t for x in NAMES[n][2]), 'the warning does not say '
                    'what to do: %r', t)
    ctx.state(hist)
    ctx.outcome(hist[-1])


def helper(ctx):
    """get_deprecated_attr, with every small table of deprecated names."""
    table = {}
    for k in ('Old', 'Older', ''):
        v = ctx.choose(4)
        if v:
            table[k] = [('New1 or New2', object()), (None, None), ('', 0)][
                v - 1]
    name = ctx.pick(['Old', 'Older', '', 'None', 'old'])
    where = ctx.pick([('pkg.mod', 'module'), ('Thing', 'object')])
    for _ in range(2):
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            out = outcome(get_deprecated_attr, name, where[0], where[1],
                          types.MappingProxyType(table))
        texts = [str(w.message) for w in caught]
        ctx.step('get_deprecated_attr(%r) with %r -> %r', name, table, out)
        if name in table:
            new, value = table[name]
            ctx.check(out[0] == 'ok' and out[1] is value, 'returned %r', out)
            ctx.check(len(caught) == 1 and caught[0].category is
                      DeprecationWarning, 'warnings: %r', texts)
            ctx.check('%s.%s' % (where[0], name) in texts[0] and
                      'deprecated' in texts[0], 'warning: %r', texts[0])
            ctx.check((new in texts[0] and 'instead' in texts[0]) if new else
                      'instead' not in texts[0], 'warning: %r', texts[0])
        else:
            ctx.check(out[0] == 'err' and out[1] == 'AttributeError' and
                      repr(name) in out[2] and where[0] in out[2] and
                      where[1] in out[2], 'returned %r', out)
            ctx.check(not caught, 'warnings: %r', texts)
    ctx.state((sorted(table.items(), key=repr), name, where))
    ctx.outcome((name in table, len(caught)))


def wrap(ctx):
    """Subclasses of Wrap, next to a WrapMany of the same sources."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        base = [fauxdoc.emitters.Wrap, fauxdoc.emitters.wrappers.Wrap][
            ctx.choose(2)]

    class Mine(base):
        def emit(self):
            return self.wrapper(**{k: e() for k, e in self.emitters.items()})

        def emit_many(self, number):
            return [self.emit() for _ in range(number)]

    rand = ctx.choose(2)

    def plain(a, b):
        return a, b

    def random_(a, b, rng):
        return a, b, rng.random()

    fn = [plain, random_][rand]

    def sources():
        return {'a': Sequential('xyz'), 'b': Choice(range(50), rng_seed=3)}
    given = sources()
    em, twin = Mine(given, fn, 7), WrapMany(sources(), fn, 7)
    ctx.check(list(em.emitters) == ['a', 'b'] and em.emitters['a'] is
              given['a'], 'emitters: %r', em.emitters)
    ctx.check(em.num_unique_values is None and em.emits_unique_values is
              False, 'metadata is wrong')
    ctx.check(em.wrapper.function is fn and em.wrapper.bound_to is em and
              em.wrapper.wants_rng is bool(rand) and em.rng_seed == 7,
              'the wrapper attribute is wrong')
    twin.reset()
    em.reset()
    hist = []
    for op in ctx.history(3 if ctx.quick else 5, [
            'one', 'two', 'none', 'reset', 'seed', 'attr']):
        hist.append(op)
        if op in ('one', 'two', 'none'):
            # One at a time: several values at once are drawn differently.
            k = ('none', 'one', 'two').index(op)
            got = em(k) if op != 'one' else [em()]
            want = [twin() for _ in range(k)]
            ctx.step('%s -> %r', op, got)
            ctx.check(got == want, 'emitted %r instead of %r', got, want)
        else:
            ctx.step(op)
            for e in (em, twin):
                if op == 'reset':
                    e.reset()
                elif op == 'seed':
                    e.seed(9)
                else:
                    e.rng_seed = 11
    got, want = [em() for _ in range(3)], [twin() for _ in range(3)]
    ctx.check(got == want, 'emitted %r instead of %r', got, want)
    ctx.check(isinstance(em, base) and not isinstance(twin, base),
              'WrapMany is a kind of Wrap')
    ctx.state((rand, hist))
    ctx.outcome(repr(got))


def wrap_abstract(ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        base = fauxdoc.emitters.Wrap
    body = {}
    if ctx.choose(2):
        body['emit'] = lambda self: 1
    if ctx.choose(2):
        body['emit_many'] = lambda self, n: [1] * n
    cls = type('Mine', (base,), body)
    out = outcome(cls, {'a': StreamEmitter([1])}, lambda a: a)
    ctx.check(out[0] == ('ok' if len(body) == 2 else 'err'), 'a subclass '
              'with %r gave %r', sorted(body), out)
    ctx.step('subclass with %r', sorted(body))
    ctx.state(sorted(body))
    ctx.outcome(out[0])



FACTORIES = [
    (lambda: iter([4, 5, 6]), (4, 5, 6)), (lambda: iter('ab'), ('a', 'b')),
    (lambda: iter(range(2)), (0, 1)), (lambda: iter((None,)), (None,)),
    (lambda: reversed([1, 2]), (2, 1)),
]
BAD = [lambda: iter([]), lambda: iter(()), lambda: (x for x in [1, 2]),
       lambda: itertools.count(), lambda: map(str, [1, 2])]


def factories(ctx):
    """Setting Sequential.iterator_factory: still works, and warns."""
    rac = ctx.choose(2)
    em = Sequential([1, 2, 3], reset_after_call=bool(rac))
    items, pos = (1, 2, 3), 0
    hist = []
    for _ in range(3 if ctx.quick else 4):
        op = ctx.choose(4 + len(FACTORIES) + len(BAD))
        hist.append(op)
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            if op == 0:
                got, n = [em()], 1
            elif op == 1:
                got, n = em(2), 2
            elif op == 2:
                got, n = em(0), 0
            elif op == 3:
                em.reset()
                got, n, pos = [], 0, 0
            elif op - 4 < len(FACTORIES):
                f, new = FACTORIES[op - 4]
                em.iterator_factory = f
                ctx.check(em.iterator_factory is f, 'iterator_factory was '
                          'not set')
                got, n, items, pos = [], 0, new, 0
            else:
                out = outcome(setattr, em, 'iterator_factory',
                              BAD[op - 4 - len(FACTORIES)])
                ctx.check(out[0] == 'err' and out[1] == 'ValueError',
                          'an unsuitable factory gave %r', out)
                got, n = [], 0
        ctx.step('operation %d -> %r', op, got)
        good = 4 <= op < 4 + len(FACTORIES)
        ctx.check(not good or any(
            w.category is DeprecationWarning and 'iterator_factory' in
            str(w.message) for w in caught), 'no warning when '
            'iterator_factory was set')
        ctx.check(op >= 4 or not caught, 'a warning from ordinary use')
        want = [items[(pos + i) % len(items)] for i in range(n)]
        ctx.check(got == want, 'emitted %r instead of %r', got, want)
        pos = 0 if rac and op < 3 else pos + n
        ctx.check(tuple(em.items) == items and em.num_unique_values ==
                  len(items), 'items is %r instead of %r', em.items, items)
    got = em(4)
    want = [items[(pos + i) % len(items)] for i in range(4)]
    ctx.check(got == want, 'emitted %r instead of %r', got, want)
    ctx.state((rac, hist))
    ctx.outcome((rac, repr(got)))


MODULES = ['fauxdoc', 'fauxdoc.dtrange', 'fauxdoc.emitter',
           'fauxdoc.emitters', 'fauxdoc.emitters.choice',
           'fauxdoc.emitters.fixed', 'fauxdoc.emitters.fromfields',
           'fauxdoc.emitters.text', 'fauxdoc.emitters.wrappers',
           'fauxdoc.group', 'fauxdoc.mathtools', 'fauxdoc.mixins',
           'fauxdoc.profile', 'fauxdoc.typing', 'fauxdoc.warn']

USE = '''
import fauxdoc
from fauxdoc import dtrange, emitters, profile
from fauxdoc.emitters import *
s = profile.Schema(
    profile.Field('a', emitters.Choice('abc', [1, 2, 3])),
    profile.Field('b', emitters.Word(emitters.Static(3),
                                     emitters.Choice('xyz')),
                  repeat=emitters.poisson_choice(range(1, 4)),
                  gate=emitters.chance(0.5)),
    profile.Field('c', emitters.WrapOne(emitters.gaussian_choice(
        dtrange.dtrange('2020-01-01', '2020-02-01')), str)))
s.add_fields(profile.Field('d', emitters.CopyFields(s.fields['a'])),
             profile.Field('e', emitters.BasedOnFields(s.fields['b'], bool)))
s.seed_fields(3)
for _ in range(20):
    s()
s.reset_fields()
'''


def imports(ctx):
    """Every module can be imported first, and second; ordinary use of the
    package gives no warnings."""
    a = ctx.pick(MODULES)
    b = ctx.pick([m for m in MODULES if m != a] if not ctx.quick else
                 [MODULES[(MODULES.index(a) * 7 + 3) % len(MODULES)]])
    star = ctx.choose(2)
    code = 'import sys\nsys.path.insert(0, %r)\n' % os.path.join(
        main.REPO, 'src')
    code += 'import %s\nimport %s\n' % (a, b)
    if star:
        # A star import of emitters takes Wrap, which warns.
        code += 'import warnings\nwarnings.simplefilter("ignore")\n'
        code += 'from %s import *\nfrom %s import *\n' % (a, b)
        code += 'import fauxdoc.emitters\nassert fauxdoc.emitters.Wrap\n'
    else:
        code += USE.replace('from fauxdoc.emitters import *\n', '')
    r = subprocess.run([sys.executable, '-W', 'error::DeprecationWarning',
                        '-c', code], capture_output=True, text=True,
                       timeout=60)
    ctx.step('import %s, %s', a, b)
    ctx.check(r.returncode == 0, 'importing %s, then %s%s failed: %s', a, b,
              ' and all they list' if star else ' and using the package',
              r.stderr[-300:])
    ctx.state((a, b, star))
    ctx.outcome(r.returncode)


def scenarios(tier, seed):
    return [Scenario('accesses', accesses),
            Scenario('fresh', fresh, exec_limit=90), Scenario('helper', helper),
            Scenario('wrap', wrap),
            Scenario('long wrap', periodic(wrap), split=3), Scenario('wrap_abstract', wrap_abstract),
            Scenario('factories', factories),
            Scenario('imports', imports, exec_limit=90)]
