"""Uniqueness metadata against the set of values that can actually be
emitted: for every choice over small item lists (repeated, unhashable, equal
across types), every point of its life and all settings; for words and texts
over small children, by enumerating all RNG answers; and for every kind of
emitter, that it emits no more distinct values than it reports and none twice
when it says so."""
import itertools

from fauxdoc.emitters import (BasedOnFields, Choice, CopyFields, Iterative,
                              Sequential, Static, Text, Word, WrapMany,
                              WrapOne, chance, gaussian_choice,
                              poisson_choice)
from fauxdoc.emitters.fromfields import CopyFields as CF
from fauxdoc.profile import Field

from .. import hrng, zoo
from ..common import distinct, outcome
from ..explore import Scenario, every_size, periodic
from ..law import branches

GRID = (0.0, 0.26, 0.51, 0.76, hrng.MAXU)
FINE = tuple((i + 0.5) / 24 for i in range(24))

ITEMS = [
    ['a'], ['a', 'b', 'c'], ['a', 'a'], ['a', 'b', 'a'], [1, 1.0, True],
    [[1], [1], [2]], [[], {}, set()], [None, None, 0], ['x', ['x'], 'x'],
    [0, False, ''], [(1, [2]), (1, [2]), (1, 2)], 'abca', range(4), (3, 3, 3),
    [{'k': 1}, {'k': 1}, {'k': 2}, 'k'], ['a', 'b', 'c', 'b', 'd', 'a']]


def claims(ctx, em, what):
    out = outcome(lambda: (em.num_unique_values, em.emits_unique_values))
    ctx.check(out[0] == 'ok', '%s: uniqueness attributes: %r', what, out)
    n, u = out[1]
    ctx.check(n is None or (isinstance(n, int) and not isinstance(n, bool)
                            and n >= 0), '%s: num_unique_values is %r', what,
              n)
    ctx.check(isinstance(u, bool), '%s: emits_unique_values is %r', what, u)
    return n, u


def reachable(ctx, make, requests, grid, limit=40000):
    """All distinct values that any answers of the RNG can give."""
    seen = []
    hashed = set()
    count = 0

    def note(v):
        try:
            if v not in hashed:
                hashed.add(v)
        except TypeError:
            if not any(v == s for s in seen):
                seen.append(v)
    for req in requests:
        for res, _ in branches(ctx, lambda em: outcome(em) if req is None
                               else outcome(em, req), grid, make):
            count += 1
            if res[0] == 'ok':
                for v in ([res[1]] if req is None else res[1]):
                    note(v)
            if count > limit:
                ctx.capped('reachability enumeration')
                return distinct(seen + list(hashed)), False
    return distinct(seen + list(hashed)), True


# -- choices -------------------------------------------------------------------

def replacing(ctx):
    items = ctx.pick(ITEMS)
    n = len(items)
    w = ctx.pick(['none', 'equal', 'rising', 'cum', 'zero first',
                  'only last'])
    roac = ctx.choose(2)
    weights = {'none': None, 'equal': [2] * n, 'rising': list(range(1, n + 1)),
               'cum': None, 'zero first': [0] + [1] * (n - 1),
               'only last': [0] * (n - 1) + [3]}[w]
    if weights and not any(weights):
        weights = [1]
    cum = [3 * (i + 1) for i in range(n)] if w == 'cum' else None

    def make():
        return Choice(items, weights, replace_only_after_call=bool(roac),
                      cum_weights=cum)
    em = make()
    num, uniq = claims(ctx, em, 'Choice(%r)' % (items,))
    ctx.step('Choice(%r, %r, cum %r, roac %r): %r', items, weights, cum, roac,
             num)
    ctx.check(uniq is False, 'it says it emits unique values')
    got, _ = reachable(ctx, make, (None, 1, 2) if n > 1 else (None, 1), FINE
                       if n < 5 or weights or cum else GRID)
    ctx.check(num >= len(got), 'Choice(%r, %r) reports %d values but can '
              'emit %r', items, weights, num, got)
    usable = not weights or all(weights)
    if usable:
        ctx.check(num == len(got) == len(distinct(list(items))),
                  'Choice(%r, %r) reports %d values but can emit exactly %r',
                  items, weights, num, got)
    # Emitting changes nothing about that.
    for req in (None, 1, 0, n if roac else 9):
        em() if req is None else em(req)
        ctx.check(claims(ctx, em, 'later') == (num, False), 'after emitting, '
                  'it reports %r', (em.num_unique_values,
                                    em.emits_unique_values))
    ctx.state((repr(items), w, roac))
    ctx.outcome((num, len(got)))


def exhausting(ctx):
    """Choices without replacement, at every point."""
    items = ctx.pick(ITEMS)
    n = len(items)
    weights = ctx.pick([None, [1 + i % 2 for i in range(n)],
                        [i % 2 for i in range(n - 1)] + [1]])
    pat = ctx.pick(list(hrng.Pattern.NAMES))
    with hrng.control(hrng.Pattern(pat)):
        em = Choice(items, weights, replace=False)
        twin = None
        left = n
        emitted = []
        for turn in range(4 if ctx.quick else 6):
            num, uniq = claims(ctx, em, 'Choice(%r)' % (items,))
            # What it can still emit: all that is left, whatever the RNG.
            rest = list(items)
            for v in emitted:
                for i, x in enumerate(rest):
                    if x is v or x == v and type(x) is type(v):
                        del rest[i]
                        break
            ctx.check(len(rest) == left, 'emitted %r of %r', emitted, items)
            d = len(distinct(rest))
            ctx.check(num == d, 'with %r left, num_unique_values is %d',
                      rest, num)
            ctx.check(uniq is (d == len(rest)), 'with %r left, '
                      'emits_unique_values is %r', rest, uniq)
            op = ctx.pick([1, None, 2, 0, 'reset', 'weights', 'rest'] if
                          turn < (2 if ctx.quick else 3) else ['rest', 'reset'])
            if op == 'reset':
                em.reset()
                left, emitted = n, []
            elif op == 'weights':
                em.weights = [1] * n
                left, emitted = n, []
            else:
                k = left if op == 'rest' else 1 if op is None else op
                if k > left:
                    out = outcome(em, op)
                    ctx.check(out[0] == 'err', 'emitted %r of %d', out, left)
                    continue
                out = em() if op is None else em(k)
                vals = [out] if op is None else out
                emitted += vals
                left -= k
                if uniq and op == 'rest':
                    ctx.check(len(distinct(vals)) == len(vals), 'it said it '
                              'emits unique values, then emitted %r', vals)
            ctx.step('%r: %d left', op, left)
    ctx.state((repr(items), repr(weights), pat))
    ctx.outcome((repr(items), [repr(v) for v in emitted]))


def switching(ctx):
    """Claims after switching between modes; every claim of uniqueness is
    put to the test."""
    items = ctx.some([['a', 'b', 'c'], ['a', 'b', 'a'], [[1], [2]],
                      list(range(12)), [0, 0.0, 1]])
    n = len(items)
    start = ctx.pick([(True, False), (False, False), (True, True)])
    em = Choice(items, None, start[0], start[1])
    with hrng.control(hrng.Pattern(ctx.pick(['golden', 'down', 'saw']))):
        em.reset()
        mode = start
        used = 0
        for op in ctx.history(3 if ctx.quick else 4, [
                'off', 'on', 'roac', 'roac off', 'one', 'two', 'reset',
                'seed', 'weights']):
            if op == 'off':
                if mode[0]:
                    mode, used = (False, False), 0
                em.replace = False
            elif op == 'on':
                mode = (True, mode[1])
                em.replace = True
            elif op == 'roac':
                mode = (True, True)
                em.replace_only_after_call = True
            elif op == 'roac off':
                mode = (mode[0], False)
                em.replace_only_after_call = False
            elif op in ('one', 'two'):
                k = 1 if op == 'one' else 2
                if not mode[0] and used + k > n:
                    continue
                em(k)
                used += k if not mode[0] else 0
            else:
                {'reset': em.reset, 'seed': lambda: em.seed(4),
                 'weights': lambda: setattr(em, 'weights', [1] * n)}[op]()
                if not mode[0]:
                    used = 0
            ctx.step('%s -> %r, %d used', op, mode, used)
            num, uniq = claims(ctx, em, op)
            if mode[0]:
                ctx.check(num == len(distinct(items)) and not uniq, 'with '
                          'replacement it claims %r', (num, uniq))
        num, uniq = claims(ctx, em, 'at last')
        if not mode[0]:
            rest = em(n - used)
            ctx.check(num == len(distinct(rest)) and uniq is (
                len(distinct(rest)) == len(rest)), 'it claimed %r, then '
                'emitted %r', (num, uniq), rest)
            ctx.check(claims(ctx, em, 'exhausted')[0] == 0, 'it is '
                      'exhausted, but reports %r', em.num_unique_values)
    ctx.state((repr(items), mode, used))
    ctx.outcome((num, uniq))


# -- words and texts --------------------------------------------------------------

LENGTHS = [
    ('static 0', lambda: Static(0)), ('static 1', lambda: Static(1)),
    ('static 2', lambda: Static(2)), ('static 3', lambda: Static(3)),
    ('1 2', lambda: Choice([1, 2])), ('0 2', lambda: Choice([0, 2])),
    ('2 2 1', lambda: Choice([2, 2, 1])), ('range', lambda: Choice(range(3))),
    ('weights', lambda: Choice([1, 3], [5, 1])),
    ('poisson', lambda: poisson_choice([1, 2], mu=1)),
    ('seq', lambda: Sequential([1, 2, 1])),
    ('norep', lambda: Choice([1, 2, 2], replace=False)),
    ('iter', lambda: Iterative(lambda: iter([1, 2])))]
LETTERS = [
    ('a', lambda: Static('a'), True), ('ab', lambda: Choice('ab'), True),
    ('aab', lambda: Choice('aab'), True), ('abc', lambda: Choice('abc'), True),
    ('w', lambda: Choice('ab', [3, 1]), True),
    ('one', lambda: Choice(['z']), True),
    ('pairs', lambda: Choice(['a', 'aa']), False),
    ('empty', lambda: Choice(['', 'b']), False),
    ('norep', lambda: Choice('abcdefgh', replace=False), False),
    ('roac', lambda: Choice('abcdefgh', replace_only_after_call=True),
     False),
    ('seq', lambda: Sequential('abcb'), False),
    ('word', lambda: Word(Static(1), Choice('xy')), True),
    ('wrapped', lambda: WrapOne(Choice('ab'), str.upper), None),
    ('iter', lambda: Iterative(lambda: iter('ab')), None)]


def words(ctx):
    lname, ln = ctx.pick(LENGTHS)
    aname, al, exact = ctx.pick(LETTERS)
    seed = ctx.pick([None, 3])

    def make():
        return Word(ln(), al(), rng_seed=seed)
    num, uniq = claims(ctx, make(), 'Word')
    ctx.step('Word(%s, %s): %r', lname, aname, num)
    ctx.check(not uniq, 'a Word says it emits unique values')
    if exact is None or lname == 'iter':
        ctx.check(num is None, 'a Word can\'t know, but reports %r', num)
    ctx.check(exact is not True or lname == 'iter' or num is not None,
              'a Word of %s, %s does not report a number', lname, aname)
    grid = FINE[::4] if lname in ('weights', 'poisson') or aname == 'w' \
        else GRID[1:4]
    got, full = reachable(ctx, make, (None, 2) if lname not in (
        'static 3', 'weights') else (None,), grid, 20000)
    # A longer life, for emitters that go through their values.
    for pat in hrng.Pattern.NAMES:
        with hrng.control(hrng.Pattern(pat)):
            em = make()
            for _ in range(12):
                out = outcome(em)
                if out[0] == 'ok':
                    got = distinct(got + [out[1]])
                claims(ctx, em, 'Word, later')
    if num is not None:
        ctx.check(num >= len(got), 'Word(%s, %s) reports %d values but can '
                  'emit %d: %r', lname, aname, num, len(got), got[:40])
        if exact and full and lname not in ('seq', 'norep'):
            ctx.check(num == len(got), 'Word(%s, %s) reports %d values but '
                      'can emit exactly %d: %r', lname, aname, num,
                      len(got), sorted(got)[:40])
    ctx.state((lname, aname, seed))
    ctx.outcome((lname, aname, num, len(got)))


WORDS = [
    ('static', lambda: Static('w')), ('two', lambda: Choice(['u', 'v'])),
    ('three', lambda: Choice(['u', 'v', 'u', 'xx'])),
    ('word', lambda: Word(Choice([1, 2]), Choice('ab'))),
    ('word0', lambda: Word(Choice([0, 1]), Choice('ab'))),
    ('seq', lambda: Sequential(['p', 'q', 'p'])),
    ('norep', lambda: Choice(['k%d' % i for i in range(9)], replace=False)),
    ('roac', lambda: Choice(['u', 'v', 'x'], replace_only_after_call=True)),
    ('wrapped', lambda: WrapOne(Choice(['u', 'v']), str)),
    ('text', lambda: Text(Static(1), Choice(['u', 'v'])))]
SEPS = [
    ('default', None), ('static', lambda: Static('-')),
    ('two', lambda: Choice([' ', '-'])), ('dup', lambda: Choice('--+')),
    ('seq', lambda: Sequential(' -')), ('iter', lambda: Iterative(
        lambda: iter('-+')))]


def texts(ctx):
    lname, ln = ctx.pick(LENGTHS[:-1])
    wname, wd = ctx.pick(WORDS)
    sname, sp = ctx.pick(SEPS)

    def make():
        return Text(ln(), wd(), sp() if sp else None)
    num, uniq = claims(ctx, make(), 'Text')
    ctx.step('Text(%s, %s, %s): %r', lname, wname, sname, num)
    ctx.check(not uniq, 'a Text says it emits unique values')
    if wname == 'wrapped' or sname == 'iter':
        ctx.check(num is None, 'a Text can\'t know, but reports %r', num)
    got, full = reachable(ctx, make, (None,), FINE[::6]
                          if lname in ('weights', 'poisson') else GRID[1:4],
                          3000)
    for pat in ('golden', 'down', 'saw'):
        with hrng.control(hrng.Pattern(pat)):
            em = make()
            for _ in range(10):
                out = outcome(em, 2)
                if out[0] == 'ok':
                    got = distinct(got + out[1])
    if num is not None:
        ctx.check(num >= len(got), 'Text(%s, %s, %s) reports %d values but '
                  'can emit %d: %r', lname, wname, sname, num, len(got),
                  got[:40])
    ctx.state((lname, wname, sname))
    ctx.outcome((lname, wname, sname, num, len(got)))


# -- the others ----------------------------------------------------------------------

def _f(em, **kw):
    f = Field('f', em, **kw)
    f()
    return f


UNKNOWN = [
    ('iterative', lambda: Iterative(lambda: iter([1, 2]))),
    ('iterative rac', lambda: Iterative(lambda: iter([1]), True)),
    ('wrap one', lambda: WrapOne(Static(1), lambda v: object())),
    ('wrap choice', lambda: WrapOne(Choice('ab', replace=False), ord)),
    ('wrap many', lambda: WrapMany({'a': Choice([1]), 'b': Static(2)},
                                   lambda a, b: a + b)),
    ('copy', lambda: CF(_f(Choice([1, 2])))),
    ('based', lambda: BasedOnFields(_f(Static(1)), lambda v: v))]


def unknown(ctx):
    name, make = ctx.pick(UNKNOWN)
    em = make()
    for i in range(4):
        num, uniq = claims(ctx, em, name)
        ctx.step('%s: %r, %r', name, num, uniq)
        ctx.check(num is None and not uniq, '%s reports %r, %r', name, num,
                  uniq)
        em() if i % 2 else em.reset()
    ctx.state(name)
    ctx.outcome(name)


def fixed(ctx):
    """Static and sequential emitters: exact, at any time."""
    items = ctx.pick(ITEMS + [list(range(200)), [0] * 50 + [1],
                              [[i % 7] for i in range(60)]])
    n = len(items)
    rac = ctx.choose(2)
    em = Sequential(items, bool(rac))
    for req in (None, 0, 1, n, 2 * n + 1, 'reset', 'factory'):
        if req == 'reset':
            em.reset()
        elif req == 'factory':
            items = [*items, 'new', 'new']
            em.iterator_factory = lambda: iter(items)
        else:
            em() if req is None else em(req)
        num, uniq = claims(ctx, em, 'Sequential')
        ctx.step('Sequential(%r) after %r: %r', items, req, num)
        em2 = Sequential(list(items))
        got = distinct(em2(2 * len(items) + 1))
        ctx.check(num == len(got) and not uniq, 'Sequential(%r) reports %r, '
                  '%r after %r', items, num, uniq, req)
    for v in (items, items[0], None, [], 'x'):
        st = Static(v)
        ctx.check(claims(ctx, st, 'Static') == (1, False), 'Static(%r) '
                  'reports %r', v, claims(ctx, st, 'Static'))
        st.value = [v]
        st(3)
        ctx.check(claims(ctx, st, 'Static') == (1, False), 'Static(%r) '
                  'reports %r', v, claims(ctx, st, 'Static'))
    ctx.state((repr(items)[:200], rac))
    ctx.outcome((num, rac))


def everything(ctx):
    """All kinds of emitters, for a long stretch."""
    name, build = ctx.pick(zoo.EMITTERS)
    seed = ctx.pick([1, 'y'])
    chunk = ctx.pick([None, 1, 2, 3])
    em = build(seed)
    if name in ('choice norep', 'choice norep w', 'word roac letters',
                'gauss roac', 'choice roac', 'choice roac w'):
        limit = 60
    else:
        limit = 30
    ctx.step('%s', name)
    for start in (0, 3, 5):
        em.reset()
        for _ in range(start):
            if outcome(em)[0] != 'ok':
                break
        num, uniq = claims(ctx, em, name)
        vals = []
        for _ in range(limit):
            out = outcome(em) if chunk is None else outcome(em, chunk)
            if out[0] != 'ok':
                break
            vals += [out[1]] if chunk is None else out[1]
        d = len(distinct(vals))
        ctx.check(num is None or d <= num, '%s reports %r values but emitted '
                  '%d different ones', name, num, d)
        ctx.check(not uniq or d == len(vals), '%s says it emits unique '
                  'values, but emitted %r', name, vals)
    ctx.state((name, seed, chunk))
    ctx.outcome((name, num, uniq))


def large(ctx):
    n = ctx.size([50, 300, 1000, 5003, 40009])
    dup = ctx.pick([d for d in (0, 1, 7) if 2 * d <= n])
    hashable = ctx.choose(2) if n < 1000 else 1
    mode = ctx.pick(['rep', 'norep', 'norep w', 'roac'])
    items = [i if hashable else [i] for i in range(n)]
    for i in range(dup):
        items[n - 1 - i] = items[i]
    with hrng.control(hrng.Pattern('golden')):
        em = Choice(items, [1 + i % 5 for i in range(n)] if mode == 'norep w'
                    else None, mode in ('rep', 'roac'), mode == 'roac')
        ctx.step('%d items, %d doubled, %s', n, dup, mode)
        ctx.check(claims(ctx, em, 'new') == (
            n - dup, mode.startswith('norep') and not dup), 'it claims %r',
            claims(ctx, em, 'new'))
        if mode.startswith('norep'):
            emitted = []
            for k in (1, 10, n // 2, n - n // 2 - 13, 1, 1):
                emitted += em(max(0, min(k, n - len(emitted))))
                rest = list(items)
                if hashable:
                    import collections
                    c = collections.Counter(items)
                    c.subtract(emitted)
                    rest = list(c.elements())
                    d = len(set(rest))
                else:
                    for v in emitted:
                        rest.remove(v)
                    d = len({v[0] for v in rest})
                ctx.check(claims(ctx, em, 'later') == (d, d == len(rest)),
                          'with %d left, %d different, it claims %r',
                          len(rest), d, claims(ctx, em, 'later'))
    for a, k in ((26, 10), (3, 40), (100, 3)):
        w = Word(Choice(range(k + 1)), Choice([chr(97 + i)
                                               for i in range(a)]))
        ctx.check(w.num_unique_values == sum(a ** i for i in range(k + 1)),
                  'words of up to %d of %d letters: %r', k, a,
                  w.num_unique_values)
    ctx.state((n, dup, hashable, mode))
    ctx.outcome((n, dup, mode))


def scenarios(tier, seed):
    return [Scenario('replacing', replacing, exec_limit=90),
            Scenario('exhausting', exhausting, split=2),
            Scenario('switching', switching),
            Scenario('long use', periodic(switching), split=3), Scenario('words', words, split=2, exec_limit=90),
            Scenario('texts', texts, split=2, exec_limit=90), Scenario('unknown', unknown),
            Scenario('fixed', fixed), Scenario('everything', everything),
            Scenario('every size', every_size(large), split=2),
            Scenario('large', large)]
