"""Word and Text: for all small streams of lengths, characters, word counts,
words and separators and every history of up to three requests, the output is
compared with a stream model and with what the child emitters handed out; real
random children are watched by a spy; unique-per-call word sources are checked
for all their small sizes under an uninterpreted RNG."""
import itertools

from fauxdoc.emitters import (Choice, Iterative, Sequential, Static, Text,
                              Word, gaussian_choice, poisson_choice)

from .. import hrng
from ..common import StreamEmitter, outcome
from ..explore import Scenario, periodic

REQ = [None, 0, 1, 2, 3, 5]


class Spy:
    """Passes everything on to an emitter; logs the values handed out."""
    _mc_stub = True

    def __init__(self, em):
        self.__dict__['em'] = em
        self.__dict__['out'] = []

    def __getattr__(self, name):
        return getattr(self.em, name)

    def __setattr__(self, name, value):
        setattr(self.em, name, value)

    def __call__(self, number=None):
        r = self.em() if number is None else self.em(number)
        self.out.extend([r] if number is None else r)
        return r

    def emit(self):
        return self(None)

    def emit_many(self, number):
        r = self.em.emit_many(number)
        self.out.extend(r)
        return r

    def drain(self):
        r, self.__dict__['out'] = self.out, []
        return r


def _ask(ctx, em, req):
    out = outcome(em) if req is None else outcome(em, req)
    ctx.step('call(%r) -> %r', req, out)
    ctx.check(out[0] == 'ok', 'call(%r) failed: %r', req, out)
    vals = [out[1]] if req is None else out[1]
    ctx.check(type(vals) is list, 'call(%r) returned %r', req, vals)
    ctx.check(len(vals) == (1 if req is None else req), 'call(%r) returned '
              '%d strings: %r', req, len(vals), vals)
    ctx.check(all(type(v) is str for v in vals), 'call(%r) returned %r', req,
              vals)
    return vals


def _stream(values, kind):
    if kind == 0:
        return StreamEmitter(values)
    if kind == 1:
        return Sequential(list(values))
    return Iterative(lambda: iter(values))


def words(ctx):
    lens = ctx.some([t for k in (1, 2, 3) for t in itertools.product(
        (0, 1, 2, 4), repeat=k)])
    chars = ctx.some(['ab', 'abc', ('x', 'yy', 'z', ''), 'q'])
    kind = ctx.choose(3)
    em = Word(_stream(lens, kind), _stream(chars, kind), rng_seed=1)
    ctx.step('Word(lengths %r, chars %r)', lens, chars)
    li = ci = 0
    for req in ctx.history(3 if ctx.quick else 4, REQ + ['reset']):
        if req == 'reset':
            em.reset()
            li = ci = 0
            continue
        vals = _ask(ctx, em, req)
        for v in vals:
            n = lens[li % len(lens)]
            want = ''.join(chars[(ci + x) % len(chars)] for x in range(n))
            ctx.check(v == want, 'word is %r instead of %r (lengths %r, '
                      'chars %r)', v, want, lens, chars)
            li += 1
            ci += n
        if kind == 0:
            ctx.check(em.length_emitter.pos == li and
                      em.alphabet_emitter.pos == ci, 'used %d lengths and %d '
                      'characters instead of %d and %d',
                      em.length_emitter.pos, em.alphabet_emitter.pos, li, ci)
    ctx.state((lens, chars, li, ci))
    ctx.outcome((lens, chars))


SEPS = [None, ' ', '-+', ('', ', ', '; ')]


def texts(ctx):
    nums = ctx.some([t for k in (1, 2, 3) for t in itertools.product(
        (0, 1, 2, 4), repeat=k)])
    ws = ctx.some([('w1', 'w2', 'w3'), ('a', ''), ('x', 'yy', 'z', 'y', 'v')])
    sp = ctx.some(SEPS)
    kind = ctx.choose(3)
    children = [_stream(nums, kind), _stream(ws, kind)]
    if sp is not None:
        children.append(Static(sp) if sp == ' ' and kind else
                        _stream(sp, kind))
    em = Text(*children, rng_seed=1)
    ctx.step('Text(counts %r, words %r, separators %r)', nums, ws, sp)
    ni = wi = si = 0
    seps = sp or (' ',)
    for req in ctx.history(2 if ctx.quick else 3, REQ + ['reset']):
        if req == 'reset':
            em.reset()
            ni = wi = si = 0
            continue
        for v in _ask(ctx, em, req):
            n = nums[ni % len(nums)]
            want = ''
            for x in range(n):
                if x:
                    want += seps[si % len(seps)]
                    si += 1
                want += ws[wi % len(ws)]
                wi += 1
            ni += 1
            ctx.check(v == want, 'text is %r instead of %r (counts %r, words '
                      '%r, separators %r)', v, want, nums, ws, sp)
        if kind == 0:
            pos = [e.pos for e in (em.numwords_emitter, em.word_emitter)]
            ctx.check(pos == [ni, wi], 'used %r counts and words instead of '
                      '%r', pos, [ni, wi])
            if sp:
                ctx.check(em.sep_emitter.pos == si, 'used %d separators '
                          'instead of %d', em.sep_emitter.pos, si)
    ctx.state((nums, ws, sp, ni, wi, si))
    ctx.outcome((nums, ws, sp))


def _judge_text(ctx, vals, counts, ws, seps):
    ctx.check(len(counts) == len(vals), '%d texts from %d counts', len(vals),
              len(counts))
    wi = si = 0
    for v, n in zip(vals, counts):
        want = ''
        for x in range(n):
            if x:
                want += seps[si] if si < len(seps) else '<missing>'
                si += 1
            want += ws[wi] if wi < len(ws) else '<missing>'
            wi += 1
        ctx.check(v == want, 'text is %r, but the word and separator emitters '
                  'handed out %r', v, want)
    ctx.check(wi == len(ws), '%d words were taken, %d were used', len(ws), wi)
    ctx.check(si == len(seps), '%d separators were taken, %d were used',
              len(seps), si)


RCHILD = [
    ('choice', lambda items: Choice(items)),
    ('weighted', lambda items: Choice(items, [1 + i % 3 for i in range(
        len(items))])),
    ('poisson', lambda items: poisson_choice(items, mu=2)),
    ('seq', lambda items: Sequential(items)),
]


def spied(ctx):
    """Real, random children; sizes up to hundreds."""
    nk, lk, ck, sk = [ctx.choose(len(RCHILD)) for _ in range(4)]
    lens = ctx.pick([[1], [0, 1, 5], [0], list(range(2, 11)), [0, 0, 1]])
    seq = ctx.pick([(None, 3), (1, None, 40), (0, 2, 300), (17, 5)])
    word = Word(Spy(RCHILD[lk][1](lens)), Spy(RCHILD[ck][1](list('abcdefg'))))
    spy_word = Spy(word)
    em = Text(Spy(RCHILD[nk][1]([0, 1, 2, 3, 7])), spy_word,
              Spy(RCHILD[sk][1]([' ', ', ', ' - '])), rng_seed='s')
    ctx.step('%s %s %s %s, lengths %r', *[RCHILD[i][0] for i in (
        nk, lk, ck, sk)], lens)
    for req in seq:
        for s in (word.length_emitter, word.alphabet_emitter, spy_word,
                  em.numwords_emitter, em.sep_emitter):
            s.drain()
        vals = _ask(ctx, em, req)
        ws = spy_word.drain()
        _judge_text(ctx, vals, em.numwords_emitter.drain(), ws,
                    em.sep_emitter.drain())
        ls, cs = word.length_emitter.drain(), word.alphabet_emitter.drain()
        ctx.check(len(ls) == len(ws) and sum(ls) == len(cs), 'words took %d '
                  'lengths for %d words, %d characters for %d', len(ls),
                  len(ws), len(cs), sum(ls))
        ctx.check([len(w) for w in ws] == ls and ''.join(ws) == ''.join(cs),
                  'words %r from lengths %r and characters %r', ws[:20],
                  ls[:20], cs[:40])
    ctx.state((nk, lk, ck, sk, lens, seq))
    ctx.outcome((nk, lk, ck, sk))


def unique_words(ctx):
    """Word sources that replace only after each call."""
    nw = ctx.pick([1, 2, 3, 4, 5, 7])
    nums = ctx.pick([(1,), (2,), (3,), (0, 2), (4, 1), (2, 3, 0), (7,),
                     (1, 1, 5)])
    weighted = ctx.choose(3)
    sp = ctx.choose(2)
    reqs = ctx.pick([(None, 3), (1, 2, None), (4, 0, 4), (9,), (2, 30)])
    items = ['w%d' % i for i in range(nw)]
    w = [None, [1 + i for i in range(nw)], [0 if i % 2 else 3 for i in range(
        nw)]][weighted]
    seedkind = ctx.choose(2)
    with hrng.control(hrng.Oracle(ctx, grid=(0.0, 0.4, hrng.MAXU), cap=3,
                                  first=6 if ctx.quick else 20)):
        spy = Spy(Choice(items, w, replace_only_after_call=True))
        args = [Spy(Sequential(list(nums))), spy]
        if sp:
            args.append(Spy(Sequential(['-', '+'])))
        em = Text(*args, rng_seed=[None, 4][seedkind])
        ctx.step('%d unique words (weights %r), counts %r', nw, w, nums)
        for req in reqs:
            spy.drain()
            em.numwords_emitter.drain()
            if sp:
                em.sep_emitter.drain()
            vals = _ask(ctx, em, req)
            ws, counts = spy.drain(), em.numwords_emitter.drain()
            total = sum(max(0, c - 1) for c in counts)
            _judge_text(ctx, vals, counts, ws, em.sep_emitter.drain() if sp
                        else [' '] * total)
            # Words repeat only after all of them have been used.
            for at in range(0, len(ws), nw):
                part = ws[at:at + nw]
                ctx.check(len(set(part)) == len(part), 'words %d to %d of '
                          'this request repeat before all %d were used: %r',
                          at, at + len(part) - 1, nw, ws)
    ctx.state((nw, nums, weighted, sp, reqs))
    ctx.outcome((nw, nums, weighted))


def nested(ctx):
    """Words of words, texts of texts, large single values."""
    n = ctx.pick([1, 2, 5, 50])
    length = ctx.pick([0, 1, 2, 30, 1000])
    req = ctx.pick(REQ + [40])
    kind = ctx.choose(3)
    inner = Spy(Word(StreamEmitter([2, 0, 1]), StreamEmitter('abcde')))
    if kind == 0:
        em = Word(StreamEmitter([length, n]), inner)
        ls = [length, n]
        _ask(ctx, em, 3)
        ws = inner.drain()
        vals = _ask(ctx, em, req)
        ws = inner.drain()
        at = 0
        for i, v in enumerate(vals):
            k = ls[(3 + i) % 2]
            ctx.check(v == ''.join(ws[at:at + k]), 'word of words is %r', v)
            at += k
        ctx.check(at == len(ws), 'took %d, used %d', len(ws), at)
    elif kind == 1:
        em = Text(StreamEmitter([length, n]), inner, Static('; '))
        vals = _ask(ctx, em, req)
        ws = inner.drain()
        counts = [[length, n][i % 2] for i in range(len(vals))]
        _judge_text(ctx, vals, counts, ws, ['; '] * sum(
            max(0, c - 1) for c in counts))
    else:
        mid = Spy(Text(StreamEmitter([2, 1]), inner, StreamEmitter('-+')))
        em = Text(StreamEmitter([length, n]), mid)
        vals = _ask(ctx, em, req)
        counts = [[length, n][i % 2] for i in range(len(vals))]
        _judge_text(ctx, vals, counts, mid.drain(), [' '] * sum(
            max(0, c - 1) for c in counts))
    ctx.state((n, length, req, kind))
    ctx.outcome((n, length, req, kind))


BULKY = [('a', 'b', 'c'), (' a', 'b ', '\n', '', ' '), ('\tx\n', 'é', '漢字'),
         ('w%d' % i + ' ' * (i % 3) for i in range(311))]
BULKY[3] = tuple(BULKY[3])


def bulk(ctx):
    """Requests of any size; words and separators with any characters."""
    ws = ctx.pick(BULKY)
    nums = ctx.pick([(1,), (0, 1, 2, 3, 4), (3, 1, 0), (40, 1), (700,),
                     (9, 0, 10, 1, 11)])
    seps = ctx.pick([None, (' ',), ('\n', '', ' , '), ('', '\t')])
    reqs = ctx.pick([(1, 300), (30, 2, 1000), (2500,), (101, None, 99)]
                    if max(nums) < 50 else [(1, 7), (30, None)])
    kind = ctx.choose(2)
    args = [_stream(nums, kind), _stream(ws, kind)]
    if seps:
        args.append(_stream(seps, kind))
    em = Text(*args)
    wo = Word(_stream(nums, kind), _stream(ws, kind))
    ctx.step('counts %r, words %r, separators %r', nums, ws[:9], seps)
    ni = wi = si = ci = 0
    for req in reqs:
        for v, w in zip(_ask(ctx, em, req), _ask(ctx, wo, req)):
            n = nums[ni % len(nums)]
            want = []
            for x in range(n):
                if x:
                    want.append(seps[si % len(seps)] if seps else ' ')
                    si += 1
                want.append(ws[wi % len(ws)])
                wi += 1
            ctx.check(v == ''.join(want), 'text %d is %r instead of %r '
                      '(counts %r)', ni, v[:99], ''.join(want)[:99], nums)
            want = ''.join(ws[(ci + x) % len(ws)] for x in range(n))
            ctx.check(w == want, 'word %d is %r instead of %r (lengths %r)',
                      ni, w[:99], want[:99], nums)
            ci += n
            ni += 1
    ctx.state((BULKY.index(ws), nums, seps, reqs, kind))
    ctx.outcome((BULKY.index(ws), nums, seps))


def numbers(ctx):
    """Every number of strings, words, characters, and of different ones."""
    what = ctx.pick(['strings', 'count', 'both', 'source', 'separators',
                     'alphabet'])
    k = ctx.number()
    kind = ctx.choose(2)
    nums, req, nw, ns = (2, 0, 3), 3, 5, 2
    if what == 'strings':
        req = k
    elif what == 'count':
        nums = (k,)
    elif what == 'both':
        nums, req = (k, 1, k), 40
    elif what == 'source':
        nw = k + 1
        req = 150
    elif what == 'separators':
        ns = k + 1
        req = 200
    else:
        nw, nums, req = k + 1, (1, k), 9
    ws = ['%s%d' % ('abcdefg'[i % 7], i) for i in range(nw)]
    seps = ['<%d>' % i for i in range(ns)]
    em = Text(_stream(nums, kind), _stream(ws, kind), _stream(seps, kind))
    plain = Text(_stream(nums, kind), _stream(ws, kind))
    wo = Word(_stream(nums, kind), _stream(ws, kind))
    ctx.step('%s %d', what, k)
    at = wi = si = 0
    for _ in range(2):
        for r in (req, None):
            for t, p, w in zip(_ask(ctx, em, r), _ask(ctx, plain, r),
                               _ask(ctx, wo, r)):
                n = nums[at % len(nums)]
                mine = [ws[(wi + i) % nw] for i in range(n)]
                want = ''.join(mine)
                ctx.check(w == want, 'word %d is %r instead of %r (%s %d)',
                          at, w[:99], want[:99], what, k)
                ctx.check(p == ' '.join(mine), 'text %d is %r instead of %r '
                          '(%s %d)', at, p[:99], ' '.join(mine)[:99], what,
                          k)
                want = []
                for i, x in enumerate(mine):
                    if i:
                        want.append(seps[si % ns])
                        si += 1
                    want.append(x)
                want = ''.join(want)
                ctx.check(t == want, 'text %d is %r instead of %r (%s %d)',
                          at, t[:99], want[:99], what, k)
                wi += n
                at += 1
    ctx.state((what, k, kind))
    ctx.outcome((what, k))


def all_words(ctx):
    """The same for sources whose words repeat only after each call."""
    k = ctx.number()
    what = ctx.pick(['source', 'words', 'count', 'texts'])
    w = ctx.choose(3)
    nw, nums, req = 5, (2, 1), 3
    if what == 'source':
        nw, nums, req = k + 1, (3, 2), 30
    elif what == 'words':
        nums, req = (1,), k
    elif what == 'count':
        nums, req = (k,), 2
    else:
        nums, req, nw = (0, 3, 1), k, 7
    items = ['w%d' % i for i in range(nw)]
    weights = [None, [1 + i % 3 for i in range(nw)],
               [i % 2 for i in range(nw)]][w]
    spy = Spy(Choice(items, weights, replace_only_after_call=True))
    em = Text(Spy(Sequential(list(nums))), spy, Spy(Sequential(['-', '+'])),
              rng_seed=k)
    ctx.step('%s %d, weights %r', what, k, weights)
    for r in (req, None, req):
        spy.drain()
        em.numwords_emitter.drain()
        em.sep_emitter.drain()
        vals = _ask(ctx, em, r)
        ws = spy.drain()
        _judge_text(ctx, vals, em.numwords_emitter.drain(), ws,
                    em.sep_emitter.drain())
        for at in range(0, len(ws), nw):
            part = ws[at:at + nw]
            ctx.check(len(set(part)) == len(part), 'words %d to %d of this '
                      'request repeat before all %d were used: %r', at,
                      at + len(part) - 1, nw, ws)
    ctx.state((what, k, w))
    ctx.outcome((what, k))


def scenarios(tier, seed):
    return [Scenario('words', words), Scenario('texts', texts),
            Scenario('many words', periodic(words), split=3),
            Scenario('many texts', periodic(texts), split=3),
            Scenario('spied', spied),
            Scenario('unique_words', unique_words, dev_bound=1),
            Scenario('nested', nested), Scenario('bulk', bulk),
            Scenario('numbers', numbers, split=2),
            Scenario('all words', all_words, split=2)]
