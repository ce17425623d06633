"""Helpers shared by the checks: outcomes, state dumps, stub emitters."""
import collections
import datetime
import random
import types

from . import hrng
from .explore import Violation, short


def outcome(fn, *args, **kwargs):
    """('ok', value) or ('err', exception type name, text)."""
    try:
        return ('ok', fn(*args, **kwargs))
    except Violation:
        raise
    except Exception as e:
        return ('err', type(e).__name__, str(e))


def is_err(out, name):
    return out[0] == 'err' and out[1] == name


class Opaque(Exception):
    """The state holds something that can't be dumped (e.g. a generator)."""


_ATOMS = (str, bytes, int, float, bool, type(None), complex,
          datetime.date, datetime.time, datetime.timedelta, range)


def dump(obj, _memo=None, strict=True):
    """A hashable description of the whole state of an object graph.

    It is generic (it follows __dict__), so it does not depend on how the
    implementation names or organises its state.  Random generators are
    described by their seed only: under a controller their answers are choice
    points of the exploration.
    """
    memo = {} if _memo is None else _memo
    if isinstance(obj, _ATOMS):
        return (type(obj).__name__, repr(obj))
    if isinstance(obj, (types.FunctionType, types.BuiltinFunctionType,
                        types.MethodType, type, types.ModuleType)):
        return ('fn', getattr(obj, '__qualname__', repr(type(obj))))
    if id(obj) in memo:
        return ('ref', memo[id(obj)])
    memo[id(obj)] = len(memo)
    if isinstance(obj, random.Random):
        return ('rng', repr(getattr(obj, '_h_seed', None)))
    if isinstance(obj, (list, tuple, collections.deque)):
        base = (type(obj).__name__,) + tuple(
            dump(x, memo, strict) for x in obj)
        if not getattr(obj, '__dict__', None):
            return base
        return base + (dump(vars(obj), memo, strict),)
    if isinstance(obj, (set, frozenset)):
        return (type(obj).__name__,) + tuple(sorted(
            repr(dump(x, memo, strict)) for x in obj))
    if isinstance(obj, dict):
        return (type(obj).__name__,) + tuple(
            (dump(k, memo, strict), dump(v, memo, strict))
            for k, v in obj.items())
    if hasattr(obj, '__next__') and not hasattr(obj, '_mc_stub'):
        if strict:
            raise Opaque(type(obj).__name__)
        return ('opaque', type(obj).__name__)
    d = getattr(obj, '__dict__', None)
    slots = [(s, getattr(obj, s)) for c in type(obj).__mro__
             for s in (lambda x: (x,) if isinstance(x, str) else x)(
                 c.__dict__.get('__slots__', ()))
             if s not in ('__dict__', '__weakref__') and hasattr(obj, s)]
    if d is None and not slots:
        if strict:
            raise Opaque(type(obj).__name__)
        return ('opaque', type(obj).__name__)
    items = sorted((d or {}).items()) + slots
    return ('obj', type(obj).__name__) + tuple(
        (k, dump(v, memo, strict)) for k, v in items)


def take_multiset(pool, values):
    """Removes values from a list; returns those that were not in it."""
    missing = []
    for v in values:
        for i, p in enumerate(pool):
            if p is v or p == v:
                del pool[i]
                break
        else:
            missing.append(v)
    return missing


def distinct(values):
    out = []
    for v in values:
        if not any(v is o or v == o for o in out):
            out.append(v)
    return out


class StreamEmitter:
    """A minimal emitter-like stub: emits successive values of a sequence.

    Records every request made to it.  Not derived from fauxdoc code.
    """
    _mc_stub = True
    emits_unique_values = False
    num_unique_values = None

    def __init__(self, values, name='', log=None):
        self.values = list(values)
        self.name = name
        self.pos = 0
        self.log = log if log is not None else []
        self.resets = 0
        self.drawn = 0

    def _next(self):
        v = self.values[self.pos % len(self.values)]
        self.pos += 1
        self.drawn += 1
        return v

    def __call__(self, number=None):
        self.log.append((self.name, number))
        if number is None:
            return self._next()
        return [self._next() for _ in range(number)]

    def emit(self):
        return self(None)

    def emit_many(self, number):
        return self(number)

    def reset(self):
        self.pos = 0
        self.resets += 1


class Obj:
    """A value with identity (equal only to itself)."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<%s>' % self.name


def fresh_values(values, out, ctx, what):
    """Checks a multi-value result: a list of the right length."""
    ctx.check(type(out) is list, '%s returned %s instead of a list', what,
              type(out).__name__)
