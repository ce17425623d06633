"""A controllable random.Random, put in place before fauxdoc is imported.

All randomness in fauxdoc comes from `random.Random` instances.  Here that
class is replaced with a subclass whose two primitive draws, `random()` and
`_randbelow(n)`, can be answered by the model checker; everything else in the
class (choice, choices, sample, shuffle, randrange, ...) stays the standard
library's code, working from those primitives.  With no controller active the
subclass is indistinguishable from the original.
"""
import random

_REAL = random.Random
MAXU = 1.0 - 2.0 ** -53     # the largest value random() can return
MINU = 2.0 ** -53           # the smallest nonzero one

CTRL = None                 # the active controller, if any
DRAWS = 0                   # primitive draws answered by a controller


class HRandom(_REAL):
    """random.Random, with draws that a controller can answer."""

    _h_count = 0

    def seed(self, a=None, version=2):
        HRandom._h_count += 1
        self._h_uid = HRandom._h_count
        self._h_seed = a
        self._h_pos = 0
        if CTRL is not None:
            CTRL.on_seed(self, a)
            # The type rules for seeds are still those of the original
            # (seeding with None would read system entropy: not needed).
            super().seed(0 if a is None else a, version)
        else:
            super().seed(a, version)

    def random(self):
        if CTRL is None:
            return super().random()
        global DRAWS
        DRAWS += 1
        self._h_pos += 1
        return CTRL.draw_random(self)

    def getrandbits(self, k):
        if CTRL is None:
            return super().getrandbits(k)
        global DRAWS
        DRAWS += 1
        self._h_pos += 1
        return CTRL.draw_below(self, 1 << k)

    def _randbelow(self, n):
        if CTRL is None:
            return super()._randbelow(n)
        global DRAWS
        DRAWS += 1
        self._h_pos += 1
        return CTRL.draw_below(self, n)


def install():
    random.Random = HRandom


class control:
    """Context manager: answer all draws from `controller`."""

    def __init__(self, controller):
        self.controller = controller

    def __enter__(self):
        global CTRL
        self.saved = CTRL
        CTRL = self.controller
        return self.controller

    def __exit__(self, *exc):
        global CTRL
        CTRL = self.saved
        return False


class Controller:
    def on_seed(self, rng, seed):
        pass

    def draw_random(self, rng):
        raise NotImplementedError

    def draw_below(self, rng, n):
        raise NotImplementedError


class Scripted(Controller):
    """Every draw is a choice point of the explorer.

    `grid` is the set of answers of random(); _randbelow(n) has all n
    answers (up to `cap`: above that a spread of them).  With dev=True the
    alternatives to the first answer count against the deviation bound.
    """

    def __init__(self, ctx, grid=(0.0, 0.35, 0.7, MAXU), cap=16, dev=False,
                 max_draws=400):
        self.ctx = ctx
        self.grid = tuple(grid)
        self.cap = cap
        self.dev = dev
        self.left = max_draws

    def _tick(self):
        self.left -= 1
        if self.left < 0:
            self.ctx.horizon('rng draws')

    def draw_random(self, rng):
        self._tick()
        return self.grid[self.ctx.choose(len(self.grid), dev=self.dev,
                                         label='random()')]

    def draw_below(self, rng, n):
        self._tick()
        if n <= self.cap:
            return self.ctx.choose(n, dev=self.dev, label='randbelow')
        alts = sorted({0, 1, n // 3, n // 2, n - 2, n - 1})
        self.ctx.capped('randbelow(n) with n > %d' % self.cap)
        return alts[self.ctx.choose(len(alts), dev=self.dev,
                                    label='randbelow*')]


class Oracle(Controller):
    """An uninterpreted RNG: a function from (seed, position) to answers.

    The answers are choice points, made once and remembered, so exploring
    them quantifies over all functions an RNG could be (within the grid).
    Unseeded generators each get answers of their own.
    """

    def __init__(self, ctx, grid=(0.1, 0.8), cap=4, dev=True, first=40,
                 max_draws=5000):
        self.ctx = ctx
        self.grid = tuple(grid)
        self.cap = cap
        self.dev = dev
        self.memo = {}
        self.anon = 0
        self.left = max_draws
        self.first = first      # later draws have only the default answer

    def on_seed(self, rng, seed):
        if seed is None:
            self.anon += 1
            rng._h_key = ('anon', self.anon)
        else:
            rng._h_key = (type(seed).__name__, seed)

    def _answer(self, rng, kind, n):
        self.left -= 1
        if self.left < 0:
            self.ctx.horizon('rng draws')
        key = getattr(rng, '_h_key', ('early', rng._h_uid))
        full = (key, rng._h_pos, kind, n)
        if full not in self.memo:
            k = min(n, self.cap)
            # The default answer depends on the position (and seed), so that
            # the all-default run is not a constant stream; deviations cover
            # the rest.
            base = (rng._h_pos * 7 + len(repr(key)) + sum(
                map(ord, repr(key)))) % n
            if len(self.memo) < self.first:
                c = self.ctx.choose(k, dev=self.dev, label=kind)
            else:
                c = 0
            self.memo[full] = (base + c * max(1, n // k)) % n
        return self.memo[full]

    def draw_random(self, rng):
        return self.grid[self._answer(rng, 'random()', len(self.grid))]

    def draw_below(self, rng, n):
        return self._answer(rng, 'randbelow', n)


PHI = 0.6180339887498949


class Pattern(Controller):
    """A fixed, named answer pattern (for sizes too big to branch on)."""

    NAMES = ('zero', 'max', 'up', 'down', 'golden', 'saw')

    def __init__(self, name, max_draws=2000000, ctx=None):
        self.name = name
        self.i = 0
        self.max_draws = max_draws
        self.ctx = ctx

    def _u(self):
        self.i += 1
        i = self.i
        if i > self.max_draws and self.ctx is not None:
            self.ctx.horizon('rng draws')
        if self.name == 'zero':
            # A constant would never end a rejection loop; the first answers
            # are all zero, later ones spread out.
            return 0.0 if i <= 300 else (i * PHI) % 1.0
        if self.name == 'max':
            return MAXU if i <= 300 else (i * PHI) % 1.0
        if self.name == 'up':
            return (i % 997) / 997.0
        if self.name == 'down':
            return 1.0 - ((i % 997) + 1) / 998.0
        if self.name == 'saw':
            return (0.0, 0.5, MAXU, MINU, 0.25, 0.75, 0.999)[i % 7] \
                if i <= 300 else (i * PHI) % 1.0
        return (i * PHI) % 1.0

    def draw_random(self, rng):
        return self._u()

    def draw_below(self, rng, n):
        return min(n - 1, int(self._u() * n))
