"""Call contract: for every emitter of a zoo of all types and compositions,
after every history of up to two (thorough: three) operations, every request
size and every way of asking are compared with each other on twins, under an
uninterpreted RNG with every single deviation from a default as a branch."""
from fauxdoc.emitter import Emitter

from .. import hrng, zoo
from ..common import outcome
from ..explore import Scenario, periodic

OPS = [('call', None), ('call', 0), ('call', 1), ('call', 2), ('call', 3),
       ('reset',), ('seed',), ('call', 7), ('call', -1), ('value',)]
SIZES = [0, 1, 2, 3, 5, 17, 100]


def _apply(em, op):
    if op[0] == 'reset':
        em.reset()
    elif op[0] == 'seed':
        getattr(em, 'seed', lambda s: None)(11)
    elif op[0] == 'emit':
        return outcome(em.emit)
    elif op[0] == 'emit_many':
        return outcome(em.emit_many, op[1])
    elif op[0] == 'value':
        # Also emitters within emitters.
        for e in (em, *getattr(em, 'emitters', {}).values()):
            if hasattr(e, 'value') and not isinstance(e.value, (int, list)):
                e.value = e.value.__class__('other') if isinstance(
                    e.value, str) else ('other', e.value)
    elif op[0] == 'call' and op[1] == -1:
        # Not a request anyone should make; but it happens.
        out = outcome(em, -1)
        return out if out[0] == 'ok' and out[1] == [] else None
    else:
        return outcome(em, op[1]) if op[1] is not None else outcome(em)
    return None


def _list(ctx, name, out, n, what):
    if out[0] == 'err' and name in zoo.LIMITED and out[1] == 'ValueError':
        return False
    ctx.check(out[0] == 'ok', '%s: %s failed: %r', name, what, out)
    ctx.check(type(out[1]) is list, '%s: %s returned %r, not a list', name,
              what, out[1])
    ctx.check(len(out[1]) == n, '%s: %s returned %d values: %r', name, what,
              len(out[1]), out[1])
    return True


def _body(ctx, depth, sizes, controller):
    name, build = ctx.pick(zoo.EMITTERS)
    hist = list(ctx.history(depth, OPS, stop=True))
    n = ctx.some(sizes)
    with hrng.control(controller(ctx)) if controller else \
            hrng.control(hrng.CTRL):
        twins = [build(5) for _ in range(8)]
        for em in twins:
            for op in hist:
                r = _apply(em, op)
                if em is twins[0]:
                    ctx.step('%s %r -> %r', name, op, r)
                    if op[0] == 'call' and op[1] is not None and op[1] >= 0:
                        _list(ctx, name, r, op[1], 'call(%d)' % op[1])
        a, b, c, d, e, f, g, h = twins
        ra = outcome(a, n)
        rb = outcome(b.emit_many, n)
        rc = outcome(c, number=n)
        ctx.step('call(%d) -> %r', n, ra)
        live = _list(ctx, name, ra, n, 'call(%d)' % n)
        _list(ctx, name, rb, n, 'emit_many(%d)' % n)
        ctx.check(repr(ra) == repr(rb), '%s: call(%d) gave %r but '
                  'emit_many(%d) gave %r', name, n, ra, n, rb)
        ctx.check(repr(ra) == repr(rc), '%s: call(%d) gave %r but '
                  'call(number=%d) gave %r', name, n, ra, n, rc)
        rd, re_ = outcome(d), outcome(e.emit)
        ctx.check(rd[0] == 'ok' or name in zoo.LIMITED, '%s: call() failed: '
                  '%r', name, rd)
        ctx.check(repr(rd) == repr(re_), '%s: call() gave %r but emit() gave '
                  '%r', name, rd, re_)
        if n == 1 and live:
            ctx.check(repr(ra[1][0]) == repr(rd[1]), '%s: call(1) gave %r '
                      'but call() gave %r', name, ra, rd)
        # Afterwards, all are in the same state again, whatever became of
        # the lists they returned.
        if live:
            keep = list(ra[1])
            rb[1].clear()
            rc[1].append('junk')
            rc[1].reverse()
            if rc[1]:
                rc[1][0] = 'junk'
        for k in (2, None, 0, 1, 3):
            args = () if k is None else (k,)
            x = [repr(outcome(t, *args)) for t in (a, b, c)]
            ctx.check(x[0] == x[1] == x[2], '%s: after call(%d), '
                      'emit_many(%d) and changes to the returned lists, '
                      'call(%r) gave %r', name, n, n, k, x)
            y = [repr(outcome(t, *args)) for t in (d, e)]
            ctx.check(y[0] == y[1], '%s: after call() or emit(), call(%r) '
                      'gave %r', name, k, y)
        if live:
            ctx.check(repr(ra[1]) == repr(keep), '%s: the list returned '
                      'before was changed later', name)
        # Two requests never return the same list.
        r1, r2 = outcome(f, n), outcome(f, n)
        ctx.check(r1[0] == 'err' or r2[0] == 'err' or r1[1] is not r2[1],
                  '%s: the same list was returned twice', name)
        if hasattr(f, 'items') and r1[0] == 'ok':
            ctx.check(r1[1] is not f.items, '%s: returned its own items '
                      'list', name)
    ctx.state((name, hist, n))
    ctx.outcome((name, n, repr(ra)[:200]))


def histories(ctx):
    _body(ctx, 2 if ctx.quick else 3,
          SIZES if ctx.quick else [0, 1, 2, 3, 4, 5, 8, 17, 50, 100], None)


def answers(ctx):
    _body(ctx, 1, [0, 1, 2, 4] if ctx.quick else [0, 1, 2, 3, 5],
          lambda c: hrng.Oracle(c, grid=(0.0, 0.3, 0.6, hrng.MAXU), cap=3,
                                first=10 if ctx.quick else 40))


def bignum(ctx):
    """Sizes around the limits of limited emitters, and large ones."""
    name, build = ctx.pick(zoo.EMITTERS)
    n = ctx.pick(list(range(5, 132)) + [150, 151, 257, 300, 301, 1000])
    a, b = build('q'), build('q')
    ra, rb = outcome(a, n), outcome(b.emit_many, n)
    ctx.step('%s(%d)', name, n)
    _list(ctx, name, ra, n, 'call(%d)' % n)
    ctx.check(repr(ra) == repr(rb), '%s: call(%d) and emit_many(%d) differ',
              name, n, n)
    x, y = repr(outcome(a, 3)), repr(outcome(b, 3))
    ctx.check(x == y, '%s: after %d values: %s and %s', name, n, x, y)
    ctx.state((name, n))
    ctx.outcome((name, n))


def scenarios(tier, seed):
    return [Scenario('histories', histories),
            Scenario('long use', periodic(
                histories, 45, ('rare',), (2,)), split=3), Scenario('bignum', bignum),
            Scenario('answers', answers, dev_bound=1)]
