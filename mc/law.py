"""Exhaustive enumeration of RNG answers for one computation, nested in an
execution of the explorer: exact laws and sets of reachable outcomes."""
from fractions import Fraction

from . import hrng
from .explore import Violation


class Branch(hrng.Controller):
    """Answers draws along a prefix, then with the first alternative."""

    def __init__(self, grid, prefix, max_draws=300, jitter=0.0):
        self.grid = grid
        self.jitter = jitter
        self.prefix = prefix
        self.trace = []
        self.max_draws = max_draws

    def _choose(self, n):
        i = len(self.trace)
        if i > self.max_draws:
            raise Violation('more than %d random draws in one request: it '
                            'does not seem to end' % self.max_draws)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((c, n))
        return c

    def draw_random(self, rng):
        # (The jitter keeps answers of different draws from being equal.)
        shift = self.jitter * (len(self.trace) % 7 - 3)
        return self.grid[self._choose(len(self.grid))] + shift

    def draw_below(self, rng, n):
        return self._choose(n)


def midpoints(m):
    return tuple((j + 0.5) / m for j in range(m))


def branches(ctx, fn, grid, setup=None, jitter=0.0):
    """Yields (outcome, probability) for every sequence of RNG answers.

    If `setup` is given it is run first on every branch (not under the
    enumeration) and its result is passed to fn.
    """
    prefix = []
    while True:
        args = () if setup is None else (setup(),)
        b = Branch(grid, prefix, jitter=jitter)
        with hrng.control(b):
            res = fn(*args)
        ctx.stats.transitions += 1
        p = 1
        for _, n in b.trace:
            p *= n
        yield res, Fraction(1, p)
        tr = b.trace
        i = len(tr) - 1
        while i >= 0 and tr[i][0] + 1 >= tr[i][1]:
            i -= 1
        if i < 0:
            return
        prefix = [c for c, _ in tr[:i]] + [tr[i][0] + 1]


def law(ctx, fn, m=12, setup=None, limit=400000, jitter=0.0):
    """Exact distribution of fn's (hashable) results: random() takes each of
    m evenly spread values, _randbelow(n) each of n, equally likely."""
    out = {}
    for count, (res, p) in enumerate(branches(
            ctx, fn, midpoints(m), setup, jitter / m)):
        out[res] = out.get(res, 0) + p
        if count > limit:
            ctx.horizon('law enumeration')
    return out


def reach(ctx, fn, allowed, wanted, grids, setup=None, limit=60000):
    """All results must satisfy allowed(res); all of `wanted` must occur.

    The first grid is enumerated completely, the following ones until
    everything wanted was seen.  Returns what was not reached.
    """
    missing = set(wanted)
    for gi, grid in enumerate(grids):
        for count, (res, _) in enumerate(branches(ctx, fn, grid, setup)):
            msg = allowed(res)
            if msg:
                raise Violation(msg)
            missing.discard(res)
            if gi and not missing:
                break
            if count > limit:
                ctx.capped('reachability enumeration')
                break
        if not missing:
            break
    return missing
