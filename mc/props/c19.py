"""Alphabets: every list of up to three ranges over a grid of code points
(thorough: larger grids), every single range with both ends in whole blocks of
code points, every container type, compared with a list built one code point
at a time; the documented default written out on its own."""
import itertools
import sys

from fauxdoc.emitters import Choice, Static, Word
from fauxdoc.emitters.text import make_alphabet

from ..common import outcome
from ..explore import Scenario

DEFAULT = ('!#$%&()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`'
           'abcdefghijklmnopqrstuvwxyz{|}~' +
           ''.join(chr(i) for i in range(0xA1, 0x100) if i != 0xAD))


def expected(ranges):
    out = []
    for lo, hi in ranges:
        code = lo
        while code <= hi:
            out.append(chr(code))
            code += 1
    return out


def _compare(ctx, ranges, want=None):
    before = repr(ranges)
    want = expected(ranges) if want is None else want
    out = outcome(make_alphabet, ranges)
    ctx.step('make_alphabet(%s)', before)
    ctx.check(out[0] == 'ok', 'make_alphabet(%s) failed: %r', before, out)
    got = out[1]
    ctx.check(type(got) is list, 'make_alphabet returned a %s',
              type(got).__name__)
    if got != want:
        ctx.check(False, 'make_alphabet(%s): %d characters instead of %d; '
                  'missing %r, extra %r, or in the wrong order', before,
                  len(got), len(want), sorted(set(want) - set(got))[:5],
                  sorted(set(got) - set(want))[:5])
    ctx.check(repr(ranges) == before, 'make_alphabet changed its argument')
    # A new list each time: changing it changes no later alphabet.
    got.append('changed')
    del got[0]
    again = make_alphabet(ranges)
    ctx.check(again == want, 'changing the returned alphabet changed the '
              'next one')
    return want


GRID = [0, 1, 32, 33, 34, 65, 66, 67, 90, 122, 127, 128, 0xFF, 0x100]
SMALL = [0, 33, 65, 66, 0x7F]


def lists(ctx):
    """All lists of one to three ranges with ends in a grid."""
    n = ctx.pick([1, 2, 3])
    grid = GRID if n == 1 or (n == 2 and not ctx.quick) else (
        GRID[1:8] + [0xFF] if n == 2 else (
            SMALL if ctx.quick else SMALL + [67, 0x100]))
    pairs = [(a, b) for a in grid for b in grid]
    ranges = [ctx.pick(pairs) for _ in range(n)]
    want = _compare(ctx, ranges)
    ctx.state(tuple(ranges))
    ctx.outcome((n, len(want)))


def every_pair(ctx):
    """Every (first, last) in blocks of neighbouring code points."""
    base, width = ctx.pick([(0, 64), (0x20, 100), (0xA0, 100), (0x3F0, 40),
                            (0xD7F0, 32), (0xDFF0, 32), (0xFFF0, 32),
                            (0x10FFE0, 32), (0x1F600, 40)])
    lo = base + ctx.choose(width)
    for hi in range(base - 1 if base else 0, base + width):
        want = expected([(lo, hi)])
        got = make_alphabet([(lo, hi)])
        ctx.check(got == want, 'make_alphabet([(%#x, %#x)]): %d characters '
                  'instead of %d', lo, hi, len(got), len(want))
        ctx.check(all(ord(c) == lo + i for i, c in enumerate(got)),
                  'wrong characters for (%#x, %#x)', lo, hi)
        ctx.outcome((base, hi - lo))
    ctx.step('(%#x, ...): %d alphabets', lo, width)
    ctx.state((base, lo))


class Pairs:
    """A sequence of ranges that is neither list nor tuple."""

    def __init__(self, data):
        self.data = data

    def __len__(self):
        return len(self.data)

    def __getitem__(self, i):
        return self.data[i]


def containers(ctx):
    data = ctx.pick([[(97, 99)], [(97, 122), (65, 90)], [(48, 57), (48, 57)],
                     [(200, 100), (40, 42)], [(50, 50), (49, 51), (52, 60)],
                     [(0, 0)], [(sys.maxunicode, sys.maxunicode)],
                     [(0x10FF00, sys.maxunicode), (0, 5)],
                     [(65, 64)], [(65, 64), (66, 66)],
                     [(i, i) for i in range(90, 60, -1)],
                     [(i * 10, i * 10 + 3) for i in range(100)],
                     [(0, 1000), (500, 3000)], [(0, 0xD7FF)]])
    kind = ctx.choose(5)
    want = expected(data)
    if kind == 0:
        _compare(ctx, data)
    elif kind == 1:
        _compare(ctx, tuple(data), want)
    elif kind == 2:
        _compare(ctx, [list(p) for p in data], want)
    elif kind == 3:
        ctx.check(make_alphabet(Pairs(data)) == want, 'wrong alphabet for '
                  'a custom sequence of %r', data[:5])
        ctx.step('custom sequence')
    else:
        ctx.check(make_alphabet(uchar_ranges=data) == want,
                  'wrong alphabet for keyword argument %r', data[:5])
        # Used as documented: a word emitter emits only those characters.
        if want:
            w = Word(Static(4), Choice(make_alphabet(data)), rng_seed=1)
            for s in w(40):
                ctx.check(len(s) == 4 and all(c in want for c in s),
                          'word %r has characters not in the alphabet', s)
            ctx.equal(w.num_unique_values, len(set(want)) ** 4,
                      'num_unique_values of words from the alphabet')
        ctx.step('keyword and word')
    ctx.state((repr(data[:9]), kind))
    ctx.outcome((len(want), kind))


def numbers(ctx):
    """Every number of ranges, and of characters in a range."""
    k = ctx.number((151, 257, 641))
    what = ctx.choose(5)
    if what == 0:
        data = [(48 + i * 3, 49 + i * 3) for i in range(k)]
    elif what == 1:
        data = [(65, 65)] * k
    elif what == 2:
        data = [(60, 60 + k)]
    elif what == 3:
        data = [(97, 99), (200, 199 + k), (65, 64 + k)]
    else:
        data = [(900 - i, 900 - i + i % 4 - 1) for i in range(k)]
    if not data:
        return
    _compare(ctx, data)
    _compare(ctx, tuple(data))
    ctx.state((k, what))
    ctx.outcome((k, what))


def default(ctx):
    how = ctx.choose(5)
    before = ctx.choose(3)
    if before == 1:
        make_alphabet([(97, 97)])
    elif before == 2:
        make_alphabet().clear()
    out = [lambda: make_alphabet(), lambda: make_alphabet(None),
           lambda: make_alphabet([]), lambda: make_alphabet(()),
           lambda: make_alphabet(uchar_ranges=None)][how]()
    ctx.step('default %d', how)
    ctx.equal(out, list(DEFAULT), 'the default alphabet')
    for c in '\'" \xad\xa0\x7f':
        ctx.check(c not in out, '%r is in the default alphabet', c)
    ctx.state((how, before))
    ctx.outcome((how, before))


def scenarios(tier, seed):
    return [Scenario('lists', lists, split=2), Scenario(
        'every pair', every_pair), Scenario('containers', containers),
        Scenario('numbers', numbers, split=2),
        Scenario('default', default)]
