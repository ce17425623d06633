"""Exhaustive exploration of choice-driven scenarios on the real code.

A scenario is a function of a Ctx.  Everything that can vary - configuration,
operations, arguments, RNG answers, injected faults - is taken from
ctx.choose(n), and the explorer runs the scenario once for every possible
sequence of answers (depth-first, by replaying a prefix of answers and taking
the next alternative at its end).  Choices marked `dev` are limited to a
bounded number of non-default answers per execution.  ctx.merge(key) prunes
executions that reach a state already explored from (explicit-state search
with replay); exceeding ctx.horizon ends an execution and is counted.
"""
import collections
import hashlib
import multiprocessing
import multiprocessing.connection
import os
import re
import resource
import signal
import time
import traceback


class Violation(Exception):
    """The property is broken.  `key` identifies what, for known findings."""

    def __init__(self, msg, key=None, hang=False):
        super().__init__(msg)
        self.msg = msg
        self.key = key
        self.hang = hang


class Pruned(Exception):
    pass


class Horizon(Exception):
    pass


class _ProbeStop(BaseException):
    pass


class Hang(BaseException):
    pass


def _digest(key):
    return hashlib.blake2b(repr(key).encode('utf-8', 'surrogatepass'),
                           digest_size=12).digest()


class Ctx:
    def __init__(self, prefix=(), ns=(), visited=None, stats=None,
                 probe=False, tier='quick', seed=1):
        self.prefix = prefix
        self.ns = ns
        self.trace = []          # (choice, n, dev)
        self.log = []            # human-readable steps
        self.visited = visited if visited is not None else {}
        self.stats = stats
        self.probe = probe
        self.queue = None
        self.base = 0
        self.tier = tier
        self.seed = seed
        self.quick = tier == 'quick'
        self.loop = None         # (period, length): see periodic()
        self.dense = None        # the size: see every_size()

    # -- choice points -----------------------------------------------------
    def choose(self, n, dev=False, label=''):
        if n < 1:
            raise AssertionError('choose(%r)' % n)
        i = len(self.trace)
        if self.probe and i >= len(self.prefix):
            self.probe_n = n
            raise _ProbeStop
        if i < len(self.prefix):
            c = self.prefix[i]
            if i < len(self.ns) and self.ns[i] != n:
                raise Violation(
                    'not deterministic: repeating the same history and RNG '
                    'answers led to a different choice point (%s: %d '
                    'alternatives before, %d now)' % (label, self.ns[i], n))
        else:
            c = 0
        self.trace.append((c, n, dev))
        return c

    def pick(self, seq, dev=False, label=''):
        seq = seq if isinstance(seq, (list, tuple)) else list(seq)
        return seq[self.choose(len(seq), dev=dev, label=label)]

    def some(self, seq, few=2, label=''):
        """A choice of configuration; in periodic histories and where every
        size is tried, from a few."""
        seq = seq if isinstance(seq, (list, tuple)) else list(seq)
        if (self.loop or self.dense is not None) and len(seq) > few:
            seq = [seq[i * (len(seq) - 1) // max(1, few - 1)]
                   for i in range(few)]
        return self.pick(seq, label=label)

    def size(self, seq):
        """A choice of a size (see every_size)."""
        return self.pick(seq) if self.dense is None else self.dense

    def number(self, tail=None):
        """Any number up to a bound, and some beyond it."""
        return self.pick(list(range(131 if self.quick else 261)) + [
            n for n in (TAIL if tail is None else tail)
            if self.quick or n > 260])

    def history(self, depth, ops, stop=False):
        """The operations of a history: all histories of `depth` operations
        (with `stop`, of up to as many), or long periodic ones."""
        if not self.loop:
            for _ in range(depth):
                c = self.choose(len(ops) + (1 if stop else 0))
                if stop and c == 0:
                    return
                yield ops[c - 1 if stop else c]
            return
        shape, length = self.loop
        if shape == 'rare':
            # One operation over and over, with another one now and then.
            a, b = self.choose(len(ops)), self.choose(len(ops))
            word = [a] * 36 + [b]
        else:
            word = [self.choose(len(ops)) for _ in range(shape)]
        for i in range(length):
            yield ops[word[i % len(word)]]

    # -- bookkeeping -------------------------------------------------------
    def step(self, text, *args):
        """One operation (= one transition) on the implementation."""
        self.stats.transitions += 1
        self.log.append((text, args))

    def note(self, text, *args):
        self.log.append((text, args))

    def state(self, key):
        self.stats.states.add(_digest(key))

    def outcome(self, key):
        self.stats.outcomes.add(_digest(key))

    def merge(self, key, remaining=0):
        """Stop here if this state was already explored as deep."""
        key = _digest(key)
        self.stats.states.add(key)
        if len(self.trace) < len(self.prefix):
            return
        if self.queue is not None:
            # Breadth-first: states are expanded one operation at a time,
            # each from the shortest history that leads to it.
            if len(self.trace) <= self.base:
                return
            if key not in self.visited:
                self.visited[key] = remaining
                self.queue.append(([c for c, _, _ in self.trace],
                                   [n for _, n, _ in self.trace]))
            raise Pruned
        seen = self.visited.get(key)
        if seen is not None and seen >= remaining:
            raise Pruned
        self.visited[key] = remaining

    def horizon(self, what):
        self.stats.horizons[what] = self.stats.horizons.get(what, 0) + 1
        raise Horizon(what)

    def capped(self, what):
        self.stats.caps[what] = self.stats.caps.get(what, 0) + 1

    # -- checking ----------------------------------------------------------
    def check(self, cond, msg, *args, key=None):
        if not cond:
            raise Violation(msg % args if args else msg, key)

    def equal(self, got, want, msg, *args, key=None):
        if not (type(got) is type(want) and got == want):
            raise Violation('%s: got %s, expected %s' % (
                msg % args if args else msg, short(got), short(want)), key)

    def rendered(self):
        out = []
        for text, args in self.log:
            try:
                out.append(text % args if args else text)
            except Exception:
                out.append(text + ' ' + ', '.join(map(_safe_repr, args)))
        return out


def _safe_repr(x):
    """(The code under test may be what breaks an object's repr.)"""
    try:
        return repr(x)
    except Exception as e:
        return '<%s without a repr: %s>' % (type(x).__name__, type(e).__name__)


def _scrub(ctx):
    return [re.sub(r' at 0x[0-9a-f]+', '', x) for x in ctx.rendered()]


def short(x, n=400):
    r = repr(x)
    return r if len(r) <= n else r[:n] + '...(%d chars)' % len(r)


class Stats:
    def __init__(self):
        self.executions = 0
        self.completed = 0
        self.pruned = 0
        self.horizon_ends = 0
        self.transitions = 0
        self.states = set()
        self.outcomes = set()
        self.horizons = {}
        self.caps = {}
        self.max_depth = 0
        self.exhaustive = True
        self.violations = []     # (msg, key, choices, log)
        self.samples = []
        self.hangs = 0
        self.longest = 0.0
        self.replayed = 0

    def absorb(self, o):
        self.executions += o.executions
        self.completed += o.completed
        self.pruned += o.pruned
        self.horizon_ends += o.horizon_ends
        self.transitions += o.transitions
        self.states |= o.states
        self.outcomes |= o.outcomes
        for d, e in ((self.horizons, o.horizons), (self.caps, o.caps)):
            for k, v in e.items():
                d[k] = d.get(k, 0) + v
        self.max_depth = max(self.max_depth, o.max_depth)
        self.exhaustive = self.exhaustive and o.exhaustive
        self.violations += o.violations
        self.samples += o.samples
        self.hangs += o.hangs
        self.longest = max(self.longest, o.longest)
        self.replayed += o.replayed


class Scenario:
    def __init__(self, name, fn, dev_bound=None, budget=None, post=None,
                 parallel=True, exec_limit=30, bfs=False,
                 split=1):
        self.name = name
        self.fn = fn
        self.dev_bound = dev_bound
        self.budget = budget
        self.post = post
        self.parallel = parallel
        self.exec_limit = exec_limit
        self.bfs = bfs
        self.split = split      # how many choices tasks are split by


def periodic(fn, length=80, shapes=(2, 'rare'), more=(3,)):
    """The scenario with its histories replaced by long ones that repeat
    themselves: what only shows at the n-th operation."""
    def run(ctx):
        ctx.loop = (ctx.pick(shapes if ctx.quick else shapes + more),
                    length if ctx.quick else 2 * length)
        fn(ctx)
    return run


TAIL = (151, 257, 641, 1025, 2601)
EVERY = range(1, 131)


def every_size(fn, sizes=EVERY, tail=TAIL):
    """The scenario for every single size up to a bound, and some beyond it:
    what only shows at one of them, or from one of them on.  (Other choices
    are then from a few.)"""
    def run(ctx):
        bound = range(sizes[0], 2 * sizes[-1])
        ctx.dense = ctx.pick(list(sizes if ctx.quick else bound) +
                             [n for n in tail if ctx.quick or n not in bound])
        fn(ctx)
    return run


# When each worker's current execution has to be over (0: none is running),
# for executions that not even the alarm can end.
_BEAT = multiprocessing.RawArray('d', 64)
_WORKER = [0]
GRACE = 60
MEMORY = 6 << 30
STOP_AT = 12               # violations that end the run


class Workers:
    """Forked workers, each on a pipe of its own: there is no shared lock, so
    that they can be killed at any time and one that dies is noticed."""

    def __init__(self, n, tasks):
        self.tasks = collections.deque(tasks)
        self.conns = {}
        mp = multiprocessing.get_context('fork')
        for i in range(n):
            here, there = mp.Pipe()
            p = mp.Process(target=self._run, args=(
                i, there, [here] + list(self.conns)), daemon=True)
            p.start()
            there.close()
            self.conns[here] = p
            self._give(here)

    @staticmethod
    def _run(i, conn, others):
        for c in others:
            c.close()
        _WORKER[0] = i + 1
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
        try:
            while True:
                task = conn.recv()
                if task is None:
                    break
                conn.send(_work(task))
        except (EOFError, OSError):
            pass
        os._exit(0)

    def _give(self, conn):
        try:
            conn.send(self.tasks.popleft() if self.tasks else None)
        except OSError:
            pass

    def results(self, timeout):
        """Some results; None for a worker that died with its task."""
        out = []
        for conn in multiprocessing.connection.wait(list(self.conns),
                                                    timeout):
            try:
                out.append(conn.recv())
                self._give(conn)
            except (EOFError, OSError):
                p = self.conns.pop(conn)
                p.join(5)
                if p.exitcode:
                    out.append(None)
        return out

    def stop(self):
        for p in self.conns.values():
            p.kill()
        for p in self.conns.values():
            p.join(5)


def _alarm(signum, frame):
    raise Hang()


def run_once(sc, ctx):
    """Runs one execution.  Returns None, or the Violation it ended in."""
    from . import hrng
    hrng.CTRL = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, sc.exec_limit)
    _BEAT[_WORKER[0]] = time.monotonic() + sc.exec_limit
    try:
        sc.fn(ctx)
        return None
    except Violation as v:
        return v
    except (Pruned, Horizon, _ProbeStop):
        raise
    except Hang:
        return Violation('an operation did not finish within %s s' %
                         sc.exec_limit, hang=True)
    except MemoryError:
        return Violation('an operation took more memory than there is')
    except RecursionError as e:
        return Violation('unexpected RecursionError: %s' % e)
    except (Exception, SystemExit, GeneratorExit) as e:
        tb = traceback.format_exc().strip().splitlines()
        return Violation('unexpected %s: %s | %s' % (
            type(e).__name__, e, ' / '.join(x.strip() for x in tb[-7:])))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        _BEAT[_WORKER[0]] = 0
        hrng.CTRL = None


def explore(sc, tier, seed, fixed=(), known=frozenset(), stop_at=3):
    """Explores all executions with the given prefix."""
    stats = Stats()
    visited = {}
    t0 = time.time()
    if not sc.bfs:
        _dfs(sc, tier, seed, list(fixed), [], len(fixed), known, stop_at,
             stats, visited, None, t0)
        return stats
    queue = collections.deque([(list(fixed), [])])
    first = True
    while queue:
        prefix, ns = queue.popleft()
        # The first expansion starts from the beginning, so its merges at
        # the root are not replays.
        base = -1 if first and not fixed else len(prefix)
        first = False
        if not _dfs(sc, tier, seed, prefix, ns, len(prefix), known, stop_at,
                    stats, visited, queue, t0, base):
            break
    return stats


def _dfs(sc, tier, seed, prefix, ns, floor, known, stop_at, stats, visited,
         queue, t0, base=0):
    """Depth-first over all continuations; False if it was cut short."""
    while True:
        ctx = Ctx(prefix, ns, visited, stats, tier=tier, seed=seed)
        ctx.queue = queue
        ctx.base = base
        ended = 'completed'
        v = None
        began = time.monotonic()
        try:
            v = run_once(sc, ctx)
        except Pruned:
            ended = 'pruned'
        except Horizon:
            ended = 'horizon'
        stats.executions += 1
        stats.longest = max(stats.longest, time.monotonic() - began)
        if v is not None:
            new = (v.key is None or v.key not in known)
            if new or not any(x[1] == v.key for x in stats.violations):
                stats.violations.append((
                    v.msg, v.key, [c for c, _, _ in ctx.trace],
                    ctx.rendered()))
            if v.hang or sum(1 for x in stats.violations
                             if x[1] is None or x[1] not in known) >= stop_at:
                stats.hangs += v.hang
                stats.exhaustive = False
                return False
        elif ended == 'completed' or (ended == 'pruned' and queue is not None):
            # (In breadth-first mode every execution ends at the state its
            # last operation led to: it was carried out and compared.)
            stats.completed += 1
            if ended == 'pruned':
                stats.pruned += 1
            if len(stats.samples) < 2 and (
                    stats.completed in (1, 7, 40) and ctx.log):
                stats.samples.append({
                    'scenario': sc.name,
                    'choices': [c for c, _, _ in ctx.trace][:60],
                    'steps': ctx.rendered()[:12]})
            # Determinism of replay: run some executions a second time.
            if stats.completed in (1, 2, 3, 10, 100, 1000):
                s2 = Stats()
                c2 = Ctx([c for c, _, _ in ctx.trace],
                         [n for _, n, _ in ctx.trace], {}, s2,
                         tier=tier, seed=seed)
                if queue is not None:
                    c2.queue, c2.base = [], len(ctx.trace) - 1
                try:
                    v2 = run_once(sc, c2)
                except (Pruned, Horizon):
                    v2 = None
                stats.replayed += 1
                if v2 is not None or _scrub(c2) != _scrub(ctx):
                    stats.violations.append((
                        'not deterministic: the same history and RNG answers '
                        'gave a different result when repeated' + (
                            '' if v2 is None else ': ' + v2.msg), None,
                        [c for c, _, _ in ctx.trace], ctx.rendered()))
                    stats.exhaustive = False
                    return False
        elif ended == 'pruned':
            stats.pruned += 1
        else:
            stats.horizon_ends += 1
        tr = ctx.trace
        stats.max_depth = max(stats.max_depth, len(tr))
        # Backtrack to the last choice with an untried alternative.
        i = len(tr) - 1
        devs = [0]
        for c, n, d in tr:
            devs.append(devs[-1] + (1 if d and c else 0))
        nxt = None
        while i >= floor:
            c, n, d = tr[i]
            if c + 1 < n and not (
                    d and sc.dev_bound is not None and
                    devs[i] + 1 > sc.dev_bound):
                nxt = i
                break
            i -= 1
        if nxt is None:
            return True
        prefix = [c for c, _, _ in tr[:nxt]] + [tr[nxt][0] + 1]
        ns = [n for _, n, _ in tr[:nxt + 1]]
        if sc.budget and time.time() - t0 > sc.budget:
            stats.exhaustive = False
            stats.caps['time budget'] = stats.caps.get('time budget', 0) + 1
            return False


_JOB = {}


def _work(task):
    i, fixed = task
    sc = _JOB['scenarios'][i]
    t = time.time()
    try:
        st = explore(sc, _JOB['tier'], _JOB['seed'], fixed, _JOB['known'])
    except BaseException as e:       # an error of the machinery itself
        return i, None, '%s\n%s' % (e, traceback.format_exc()), 0
    if len(st.samples) > 2:
        st.samples = st.samples[:2]
    return i, st, None, time.time() - t


def run_all(scenarios, tier, seed, known, jobs=None):
    """Explores all scenarios, in parallel by their first choice."""
    tasks = []
    early = []
    for i, sc in enumerate(scenarios):
        prefixes = [()]
        for _ in range(sc.split if sc.parallel else 0):
            longer = []
            for prefix in prefixes:
                ctx = Ctx(prefix, stats=Stats(), tier=tier, seed=seed)
                ctx.probe = True
                n = None
                try:
                    v = run_once(sc, ctx)
                    if v is not None:
                        # (Some only show the first time in a process.)
                        early.append((i, (v.msg, v.key, [
                            c for c, _, _ in ctx.trace], ctx.rendered())))
                except _ProbeStop:
                    n = ctx.probe_n
                except (Pruned, Horizon):
                    pass
                if n is None:
                    longer.append(prefix)
                else:
                    longer += [prefix + (c,) for c in range(n)]
            prefixes = longer
        tasks += [(i, p) for p in prefixes]
    _JOB.update(scenarios=scenarios, tier=tier, seed=seed, known=known)
    jobs = jobs or int(os.environ.get('MC_JOBS', 0)) or min(
        8, os.cpu_count() or 1)
    results = [Stats() for _ in scenarios]
    for i, v in early:
        results[i].violations.append(v)
    walls = [0.0] * len(scenarios)
    errors = []
    # Nothing is gained by an answer that comes too late.
    deadline = time.monotonic() + (780 if tier == 'quick' else 40000)
    pool = None
    if jobs > 1 and len(tasks) > 1:
        pool = Workers(min(jobs, len(tasks), 60), tasks)
    else:
        it = map(_work, tasks)
    left = len(tasks)
    new = 0
    broken = False
    while left and not broken:
        for res in [next(it)] if pool is None else pool.results(5):
            left -= 1
            if res is None:
                results[0].violations.append((
                    'the interpreter died during an operation in some '
                    'scenario', None, [], []))
                broken = True
                continue
            i, st, err, wall = res
            if err:
                errors.append((scenarios[i].name, err))
                continue
            results[i].absorb(st)
            walls[i] += wall
            new += sum(1 for x in st.violations
                       if x[1] is None or x[1] not in known)
            if left and (st.hangs or new >= STOP_AT):
                # Broken for sure: leave the rest out.
                broken = True
        now = time.monotonic()
        if any(b and now > b + GRACE for b in _BEAT):
            results[0].violations.append((
                'an operation did not finish (and could not be '
                'interrupted) in some scenario', None, [], []))
            broken = True
        elif left and now > deadline:
            results[0].caps['time limit'] = 1
            broken = True
    if broken:
        for r in results:
            r.exhaustive = False
    if pool is not None:
        pool.stop()
    return results, walls, errors
