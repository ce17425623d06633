"""Reference model of fauxdoc.emitters.Choice, written from its docs."""
import itertools

from .common import distinct, dump, is_err, outcome, take_multiset


class ChoiceModel:
    """What is left to emit, and which settings are in force."""

    def __init__(self, items, weights=None, replace=True, roac=False):
        self.items = list(items)
        self.weights = None if weights is None else list(weights)
        self.replace = bool(replace or roac)
        self.roac = roac
        self.renew()

    def renew(self):
        self.left = list(self.items)

    def key(self):
        return (repr(self.items), repr(self.weights), self.replace,
                self.roac, sorted(map(repr, self.left)))

    def set_replace(self, value):
        if value != self.replace:
            self.replace = value
            if not value:
                self.roac = False
            self.renew()

    def set_roac(self, value):
        self.roac = value
        if value:
            self.set_replace(True)

    def set_weights(self, weights):
        self.weights = None if weights is None else list(weights)
        if not self.replace:
            self.renew()

    def restart(self):
        if not self.replace:
            self.renew()

    def usable(self):
        """Items that can be chosen at all (in replacement modes)."""
        if self.weights is None:
            return list(self.items)
        if len(self.items) == 1:
            return list(self.items)
        return [i for i, w in zip(self.items, self.weights) if w]


def check_attributes(ctx, em, m, after):
    left = m.left if not m.replace else m.items
    nd = len(distinct(left))
    ctx.equal(em.num_unique_items, len(left), 'num_unique_items after %s',
              after)
    ctx.equal(em.num_unique_values, nd, 'num_unique_values after %s', after)
    ctx.equal(em.emits_unique_values, (not m.replace) and nd == len(left),
              'emits_unique_values after %s', after)
    ctx.equal(em.replace, m.replace, 'replace after %s', after)
    ctx.equal(em.replace_only_after_call, m.roac,
              'replace_only_after_call after %s', after)
    ctx.check(list(em.items) == m.items, 'items after %s: %r', after,
              em.items)
    if m.weights is None:
        ctx.check(em.weights is None and em.cum_weights is None,
                  'weights after %s: %r, %r instead of None', after,
                  em.weights, em.cum_weights)
    else:
        cum = list(itertools.accumulate(m.weights))
        ctx.check(em.weights is not None and em.cum_weights is not None and
                  len(em.weights) == len(cum) and
                  all(abs(a - b) < 1e-9 for a, b in
                      zip(em.weights, m.weights)),
                  'weights after %s: %r instead of %r', after, em.weights,
                  m.weights)
        ctx.check(len(em.cum_weights) == len(cum) and
                  all(abs(a - b) < 1e-9 for a, b in
                      zip(em.cum_weights, cum)),
                  'cum_weights after %s: %r instead of %r', after,
                  em.cum_weights, cum)


def request(ctx, em, m, number, how='call'):
    """Makes one request and checks the result against the model."""
    n = len(m.items)
    if how == 'emit':
        what, out = 'emit()', outcome(em.emit)
        number = None
    elif how == 'emit_many':
        what, out = 'emit_many(%d)' % number, outcome(em.emit_many, number)
    elif number is None:
        what, out = 'call()', outcome(em)
    else:
        what, out = 'call(%d)' % number, outcome(em, number)
    ctx.step('%s -> %r', what, out)
    single = number is None
    k = 1 if single else max(number, 0)
    limited = not m.replace
    per_call = m.replace and m.roac and not single and k > 1
    pool = m.left if limited else m.items
    if (limited or per_call) and k > len(pool):
        ctx.check(is_err(out, 'ValueError'),
                  '%s with %d items available gave %r instead of a '
                  'ValueError', what, len(pool), out)
        return None
    ctx.check(out[0] == 'ok', '%s failed: %r', what, out)
    values = [out[1]] if single else out[1]
    if not single:
        ctx.check(type(values) is list, '%s returned %r, not a list', what,
                  values)
        ctx.check(len(values) == k, '%s returned %d values: %r', what,
                  len(values), values)
    if limited or per_call:
        pool = pool if limited else list(pool)
        extra = take_multiset(pool, values)
        ctx.check(not extra, '%s emitted %r, but %r was/were not available '
                  'any more', what, values, extra)
        if per_call and m.weights is not None:
            good = m.usable()
            if k <= len(good):
                bad = take_multiset(list(good), values)
                ctx.check(not bad, '%s emitted %r although its weight is 0',
                          what, bad)
    else:
        good = m.usable()
        for v in values:
            ctx.check(any(v is g or v == g for g in good),
                      '%s emitted %r, which is not one of the usable items '
                      '%r', what, v, good)
    return values


def full_key(em, m):
    return (dump(em), m.key())
