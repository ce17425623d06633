"""Object groups: all sequences of up to three (thorough: four) list or dict
operations on a group against a plain list or OrderedDict, every earlier group
and container being watched; after each, attributes and methods are broadcast
and every member's own record of what reached it is compared; plus all
combinations of up to four members of sixteen kinds."""
import collections
import copy
import pickle

from fauxdoc.emitters.fromfields import SourceFieldGroup
from fauxdoc.group import ObjectGroup, ObjectMap

from ..common import is_err, outcome
from ..explore import Scenario, every_size


class Member:
    """Has an attribute and methods, and records what reaches it."""
    multi_valued = False

    def __init__(self, name):
        self.name = name
        self.log = []
        self._val = None

    @property
    def val(self):
        return self._val

    @val.setter
    def val(self, v):
        self.log.append(('set', v))
        self._val = v

    def go(self, *args, **kwargs):
        self.log.append(('go', args, tuple(sorted(kwargs.items()))))
        return 'ignored'

    def __repr__(self):
        return self.name

    def __lt__(self, other):
        return self.name < other.name


class Lacking:
    """Has neither the attribute nor the method."""
    __slots__ = ('name', 'log')
    multi_valued = True

    def __init__(self, name):
        self.name, self.log = name, []

    def __repr__(self):
        return self.name

    def __lt__(self, other):
        return self.name < other.name


class Falsy(Member):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Alike(Member):
    """Equal to every other one of its class."""

    def __eq__(self, other):
        return isinstance(other, Alike)

    __hash__ = None


def broadcast(ctx, g, members, tag):
    """Broadcasts over a group that should have these members."""
    for m in members:
        if m is not None:
            del m.log[:]
    ctx.stats.transitions += 2
    out = outcome(g.do_method, 'go', tag, key=1)
    ctx.check(out == ('ok', None), 'do_method: %r', out)
    out = outcome(g.setattr, 'val', tag)
    ctx.check(out == ('ok', None), 'setattr: %r', out)
    for m in members:
        if m is None:
            continue
        times = sum(1 for x in members if x is m)
        want = []
        if not isinstance(m, Lacking):
            want = [('go', (tag,), (('key', 1),))] * times + [
                ('set', tag)] * times
        ctx.check(m.log == want, 'member %r of %r was reached by %r instead '
                  'of %r', m, members, m.log, want)
        ctx.check(not hasattr(m, 'val') or m.val == tag, 'val is %r', tag)


def ident(xs, ys):
    xs, ys = list(xs), list(ys)
    return len(xs) == len(ys) and all(a is b for a, b in zip(xs, ys))


class Watched:
    def __init__(self):
        self.groups = []        # (group, model)
        self.plain = []         # (container, frozen content)

    def add(self, g, model):
        self.groups.append((g, model))

    def check(self, ctx, what):
        for g, m in self.groups:
            if isinstance(m, list):
                ctx.check(ident(g, m) and len(g) == len(m), 'after %s a '
                          'group has %r instead of %r', what, list(g), m)
            else:
                ctx.check(list(g) == list(m) and
                          ident(g.values(), m.values()), 'after %s a map '
                          'has %r instead of %r', what, list(g.items()),
                          list(m.items()))
        for c, frozen in self.plain:
            now = list(c.items()) if isinstance(c, dict) else list(c)
            ctx.check(now == frozen, 'after %s a container a group was made '
                      'from has %r instead of %r', what, now, frozen)


def _slice(a, b, c=None):
    return slice(a, b, c)


def list_ops(p):
    """name -> function on (a group or a list), returning a result or not.

    `p` holds the members x, y, z (y lacks everything) and n (None)."""
    x, y, z, n = p
    add = {
        'append x': lambda g: g.append(x), 'append none': lambda g:
        g.append(n), 'append y': lambda g: g.append(y),
        'insert 0 z': lambda g: g.insert(0, z),
        'insert -1 y': lambda g: g.insert(-1, y),
        'insert 99 x': lambda g: g.insert(99, x),
        'extend list': lambda g: g.extend([z, n]),
        'extend gen': lambda g: g.extend(v for v in (x, y)),
        'extend tuple': lambda g: g.extend((y,)),
        'extend self': lambda g: g.extend(g),
        'extend group': lambda g: g.extend(ObjectGroup(z, x)),
        'pop': lambda g: g.pop(), 'pop 0': lambda g: g.pop(0),
        'pop -2': lambda g: g.pop(-2), 'remove x': lambda g: g.remove(x),
        'remove none': lambda g: g.remove(n),
        'reverse': lambda g: g.reverse(), 'clear': lambda g: g.clear(),
        'sort': lambda g: g.sort(key=repr, reverse=True),
        'badsort': lambda g: g.sort(),
        'set 0': lambda g: g.__setitem__(0, z),
        'set -1': lambda g: g.__setitem__(-1, n),
        'set slice': lambda g: g.__setitem__(slice(1, 2), [x, y, z]),
        'set step': lambda g: g.__setitem__(slice(None, None, 2), [z, z]),
        'set slice group': lambda g: g.__setitem__(slice(0, 1),
                                                   ObjectGroup(n, z)),
        'del 0': lambda g: g.__delitem__(0),
        'del slice': lambda g: g.__delitem__(slice(0, None, 2)),
        'del 5': lambda g: g.__delitem__(5),
    }
    return add


DERIVE = {
    '[1:]': lambda g: g[1:], '[:-1]': lambda g: g[:-1], '[::-1]':
    lambda g: g[::-1], '[::2]': lambda g: g[::2], '[5:]': lambda g: g[5:],
    '[:]': lambda g: g[:], '[-2:9]': lambda g: g[-2:9],
    'copy': lambda g: g.copy(), 'copy.copy': lambda g: copy.copy(g),
    '*2': lambda g: g * 2, '*0': lambda g: g * 0, '3*': lambda g: 3 * g,
    '+self': lambda g: g + g, '*-1': lambda g: g * -1,
}


def lists(ctx):
    x, y, z = Member('x'), Lacking('y'), Falsy('z')
    members = (x, y, z, None)
    init = ctx.pick([(), (x,), (x, y, None), (z, x, y), (None, z)])
    cls = ctx.choose(2)
    source = list(init)
    if cls:
        g = SourceFieldGroup(source)
    else:
        g = ObjectGroup(*source)
    ctx.step('%s(%r)', type(g).__name__, source)
    model = list(source)
    w = Watched()
    w.plain.append((source, list(source)))
    w.add(g, model)
    w.check(ctx, 'creating it')
    ops = list_ops(members)
    inplace = ['+= list', '+= group', '*= 2', '*= 0']
    plus = ['+ list', 'list +', '+ group', '+ tuple', '+ int', 'list()']
    names = list(ops) + list(DERIVE) + inplace + plus
    deep = not ctx.quick or (len(init) == 3 and not cls and init[0] is x)
    depth = 3 if deep else 2
    for i in range(depth):
        name = ctx.pick(names)
        if name in ops:
            a, b = outcome(ops[name], g), outcome(ops[name], model)
            ctx.step('%s -> %r', name, a[:2])
            ctx.check(a[:2] == b[:2] and (a[0] != 'ok' or a[1] is b[1]),
                      '%s gave %r instead of %r', name, a, b)
        elif name in DERIVE:
            a = outcome(DERIVE[name], g)
            new = DERIVE[name](model) if name != 'copy.copy' else model[:]
            ctx.step('%s -> %r', name, a[:2])
            ctx.check(a[0] == 'ok' and isinstance(a[1], ObjectGroup),
                      '%s gave %r', name, a)
            ctx.check(a[1] is not g, '%s returned the group itself', name)
            g, model = a[1], new
            w.add(g, model)
        elif name == 'list()':
            lst = list(g)
            lst.append('junk')
        elif name in plus:
            other = {'+ list': [z, x], 'list +': [z, None],
                     '+ group': ObjectGroup(y, x), '+ tuple': (x,),
                     '+ int': 5}[name]
            a = outcome(lambda: other + g) if name == 'list +' else \
                outcome(lambda: g + other)
            ctx.step('%s -> %r', name, a[:2])
            if name == '+ int':
                ctx.check(is_err(a, 'TypeError'), '+ 5 gave %r', a)
            else:
                ctx.check(a[0] == 'ok' and isinstance(a[1], ObjectGroup),
                          '%s gave %r', name, a)
                model = list(other) + model if name == 'list +' else \
                    model + list(other)
                w.plain.append((other, list(other)))
                g = a[1]
                w.add(g, model)
        else:
            before = g
            if name == '+= list':
                g += [y, z]
                model += [y, z]
            elif name == '+= group':
                g += ObjectGroup(x)
                model += [x]
            elif name == '*= 2':
                g *= 2
                model *= 2
            else:
                g *= 0
                model *= 0
            ctx.step('%s', name)
            ctx.check(g is before, '%s made another group', name)
        w.check(ctx, name)
        broadcast(ctx, g, model, (i, 't'))
    reads(ctx, g, model, members)
    w.check(ctx, 'reading')
    ctx.state((cls, [repr(m) for m in model]))
    ctx.outcome([repr(m) for m in model])


def reads(ctx, g, model, members):
    ctx.check(len(g) == len(model) and bool(g) is bool(model), 'len or truth '
              'is wrong')
    ctx.check(ident(reversed(g), model[::-1]), 'reversed is wrong')
    n = len(model)
    for i in range(-n - 1, n + 2):
        a, b = outcome(lambda: g[i]), outcome(lambda: model[i])
        ctx.check(a[:2] == b[:2], '[%d] is %r instead of %r', i, a, b)
    for sl in (slice(None), slice(1, -1), slice(None, None, -2),
               slice(7, 2), slice(-1, None)):
        s = g[sl]
        ctx.check(isinstance(s, ObjectGroup) and ident(s, model[sl]),
                  '%r is %r', sl, s)
        broadcast(ctx, s, model[sl], sl.start)
    for m in members:
        ctx.check((m in g) == (m in model) and g.count(m) == model.count(m),
                  'in or count of %r wrong', m)
        ctx.check(outcome(g.index, m)[:2] == outcome(model.index, m)[:2],
                  'index of %r is %r', m, outcome(g.index, m))
        ctx.check(outcome(g.index, m, 1)[:2] == outcome(model.index, m,
                                                        1)[:2], 'index of '
                  '%r from 1 is %r', m, outcome(g.index, m, 1))
    ctx.check(g == model and not g != model and g == g[:] and
              (g == model + [0]) is False and ObjectGroup(*model) == g,
              'comparison with a list is wrong')


KEYS = ['k', 'l', 'm']


def map_ops(p):
    x, y, z, n = p
    return {
        'k = x': lambda g: g.__setitem__('k', x),
        'l = y': lambda g: g.__setitem__('l', y),
        'm = none': lambda g: g.__setitem__('m', n),
        'k = z': lambda g: g.__setitem__('k', z),
        'del k': lambda g: g.__delitem__('k'),
        'del l': lambda g: g.__delitem__('l'),
        'pop m': lambda g: g.pop('m'), 'pop k': lambda g: g.pop('k', z),
        'popitem': lambda g: g.popitem(),
        'popitem first': lambda g: g.popitem(last=False),
        'update': lambda g: g.update({'m': z, 'k': y}),
        'update kw': lambda g: g.update(j=x, l=z),
        'update pairs': lambda g: g.update([('q', x), ('k', n)]),
        'update map': lambda g: g.update(ObjectMap({'l': x, 'w': y})),
        'setdefault k': lambda g: g.setdefault('k', y),
        'setdefault z': lambda g: g.setdefault('zz'),
        'clear': lambda g: g.clear(),
        'end k': lambda g: g.move_to_end('k'),
        'front m': lambda g: g.move_to_end('m', last=False),
        'get': lambda g: g.get('m', x),
        'missing': lambda g: g['nothing'],
    }


MAP_DERIVE = {
    'copy': lambda g: g.copy(), 'copy.copy': lambda g: copy.copy(g),
    '| dict': lambda g: g | {'k': None, 'new': None},
    '| self': lambda g: g | g,
    'dict |': lambda g: {'old': None, 'k': None} | g,
}


def maps(ctx):
    x, y, z = Member('x'), Lacking('y'), Falsy('z')
    members = (x, y, z, None)
    init = ctx.pick([[], [('k', x)], [('l', y), ('k', x), ('m', None)],
                     [('m', z), ('k', None), ('l', x)]])
    kind = ctx.choose(4)
    source = [dict, collections.OrderedDict, ObjectMap, dict][kind](
        dict(init))
    if kind == 3 and not init:
        g = ObjectMap()
    else:
        g = ObjectMap(source)
    model = collections.OrderedDict(init)
    ctx.step('ObjectMap(%r)', init)
    w = Watched()
    w.plain.append((source, list(source.items())))
    w.add(g, model)
    w.check(ctx, 'creating it')
    ops = map_ops(members)
    names = list(ops) + list(MAP_DERIVE) + ['|=', 'fromkeys']
    depth = 3 if ctx.quick else 4
    for i in range(depth):
        name = ctx.pick(names)
        if name in ops:
            a, b = outcome(ops[name], g), outcome(ops[name], model)
            ctx.step('%s -> %r', name, a[:2])
            ctx.check(a[:2] == b[:2], '%s gave %r instead of %r', name, a, b)
        elif name == '|=':
            before = g
            other = {'m': x, 'v': z}
            g |= other
            model |= other
            ctx.check(g is before, '|= made another map')
        elif name == 'fromkeys':
            g = ObjectMap.fromkeys(['l', 'k'], x)
            model = collections.OrderedDict.fromkeys(['l', 'k'], x)
            ctx.check(isinstance(g, ObjectMap), 'fromkeys gave %r', g)
            w.add(g, model)
        else:
            a = outcome(MAP_DERIVE[name], g)
            new = MAP_DERIVE[name](model)
            ctx.step('%s -> %r', name, a[:2])
            ctx.check(a[0] == 'ok' and isinstance(a[1], ObjectMap) and
                      a[1] is not g, '%s gave %r', name, a)
            g, model = a[1], new
            w.add(g, model)
        w.check(ctx, name)
        broadcast(ctx, g, list(model.values()), (i, 'm'))
    ctx.check(g == model and g == dict(model) and not g != model, 'not '
              'equal to the same dict')
    if len(model) > 1:
        turned = collections.OrderedDict(reversed(list(model.items())))
        ctx.check((g == turned) is (model == turned) and
                  g == dict(turned), 'comparison with another order')
    ctx.check(list(reversed(g)) == list(reversed(model)) and
              list(g.keys()) == list(model) and
              ident(g.values(), model.values()) and
              list(g.items()) == list(model.items()) and
              len(g) == len(model) and bool(g) is bool(model), 'views differ')
    for k in ('k', 'l', 'm', 'q', None):
        ctx.check((k in g) is (k in model) and g.get(k, 7) is
                  model.get(k, 7), 'reading %r differs', k)
    w.check(ctx, 'reading')
    ctx.state([(k, repr(v)) for k, v in model.items()])
    ctx.outcome([(k, repr(v)) for k, v in model.items()])


# -- members of all kinds ------------------------------------------------------

class Base:
    """The record is kept outside of the member."""


def kinds():
    """name -> (make(log), has the attribute, has the method, error)."""
    class Plain:
        def __init__(self, log):
            self.val, self.log = 1, log

        def go(self, *a, **k):
            self.log.append((a, k))

    class NoneVal(Plain):
        def __init__(self, log):
            self.val, self.log = None, log

    class ClassVal(Plain):
        val = 0

        def __init__(self, log):
            self.log = log

    class Slots:
        __slots__ = ('val', 'log')

        def __init__(self, log):
            self.val, self.log = (), log

        def go(self, *a, **k):
            self.log.append((a, k))

    class FalsyM(Plain):
        def __bool__(self):
            return False

    class Empty(Plain):
        def __len__(self):
            return 0

    class Same(Plain):
        def __eq__(self, o):
            return True
        __hash__ = None

    class Unequal(Plain):
        def __eq__(self, o):
            raise RuntimeError('compared')
        __hash__ = None

    class OnlyAttr:
        def __init__(self, log):
            self.val = 'v'

    class OnlyMethod:
        def __init__(self, log):
            self.log = log

        def go(self, *a, **k):
            self.log.append((a, k))
            return self

    class Nothing:
        def __init__(self, log):
            pass

    class Dynamic:
        def __init__(self, log):
            self.__dict__['log'] = log
            self.__dict__['d'] = {'val': 3}

        def __getattr__(self, name):
            if name == 'go':
                return lambda *a, **k: self.log.append((a, k))
            if name in self.__dict__.get('d', ()):
                return self.d[name]
            raise AttributeError(name)

        def __setattr__(self, name, v):
            self.d[name] = v

    class Broken:
        """Accessing it says it isn't there."""
        def __init__(self, log):
            pass

        @property
        def val(self):
            raise AttributeError('val')

        @property
        def go(self):
            raise AttributeError('go')

    class InstanceMethod:
        def __init__(self, log):
            self.val = 0
            self.go = lambda *a, **k: log.append((a, k))

    class FalsyMethod:
        def __init__(self, log):
            class Call(list):
                def __call__(self, *a, **k):
                    log.append((a, k))
            self.val, self.go = [], Call()

    class RaisesAttr(Plain):
        def go(self, *a, **k):
            self.log.append((a, k))
            raise AttributeError('inner')

    class RaisesType(Plain):
        def go(self, *a, **k):
            self.log.append((a, k))
            raise TypeError('inner')

    class RaisesStop(Plain):
        def go(self, *a, **k):
            self.log.append((a, k))
            raise StopIteration('inner')

    class RaisesAttrOwn(Plain):
        """Its method uses an attribute named like itself."""
        def go(self, *a, **k):
            self.log.append((a, k))
            return self.missing.go()

    class RaisesSet(Plain):
        """Setting its attribute fails."""
        set_error = AttributeError

        def __init__(self, log):
            self.log, self._val = log, None

        @property
        def val(self):
            return self._val

        @val.setter
        def val(self, v):
            self._val = v
            raise self.set_error('while setting')

    class RaisesSetType(RaisesSet):
        set_error = TypeError

    class RaisesSetValue(RaisesSet):
        set_error = ValueError

    out = {}
    for c, a, m, e in ((Plain, 1, 1, None), (NoneVal, 1, 1, None),
                       (ClassVal, 1, 1, None), (Slots, 1, 1, None),
                       (FalsyM, 1, 1, None), (Empty, 1, 1, None),
                       (Same, 1, 1, None), (Unequal, 1, 1, None),
                       (OnlyAttr, 1, 0, None), (OnlyMethod, 0, 1, None),
                       (Nothing, 0, 0, None), (Dynamic, 1, 1, None),
                       (Broken, 0, 0, None), (InstanceMethod, 1, 1, None),
                       (FalsyMethod, 1, 1, None),
                       (RaisesAttr, 1, 1, 'AttributeError'),
                       (RaisesType, 1, 1, 'TypeError'),
                       (RaisesStop, 1, 1, 'StopIteration'),
                       (RaisesAttrOwn, 1, 1, 'AttributeError'),
                       (RaisesSet, 1, 1, None), (RaisesSetType, 1, 1, None),
                       (RaisesSetValue, 1, 1, None)):
        out[c.__name__] = (c, bool(a), bool(m), e)
    out['None'] = (lambda log: None, False, False, None)
    out['int'] = (lambda log: 5, False, False, None)
    out['empty group'] = (lambda log: ObjectGroup(), False, False, None)
    out['group'] = (lambda log: ObjectGroup(1), False, False, None)
    out['empty map'] = (lambda log: ObjectMap(), False, False, None)
    return out


def members(ctx):
    ks = kinds()
    names = sorted(ks)
    n = ctx.pick([1, 2, 3])
    pick = names if n < 3 else names[::2] if ctx.quick else names
    chosen = [ctx.pick(pick) for _ in range(n)]
    as_map = ctx.choose(2)
    order, logs, objs = [], [], []
    for i, k in enumerate(chosen):
        class L(list):
            def append(self, v, i=i):
                order.append(i)
                list.append(self, v)
        logs.append(L())
        objs.append(ks[k][0](logs[-1]))
    if as_map:
        g = ObjectMap({'k%d' % i: o for i, o in enumerate(objs)})
    else:
        g = ObjectGroup(*objs)
    ctx.step('%s of %r', type(g).__name__, chosen)
    ctx.check(ident(g.values() if as_map else g, objs), 'it has other members')
    for value in (None, 'new', 0):
        out = outcome(g.setattr, 'val', value)
        ctx.step('setattr(val, %r) -> %r', value, out)
        stop = next((i for i, o in enumerate(objs)
                     if hasattr(o, 'set_error')), n)
        if stop < n:
            ctx.check(is_err(out, objs[stop].set_error.__name__), 'the '
                      'error of setting it for %s did not come through: %r',
                      chosen[stop], out)
        else:
            ctx.check(out == ('ok', None), 'setattr: %r', out)
        for o, k in list(zip(objs, chosen))[:stop + 1]:
            if ks[k][1]:
                ctx.check(getattr(o, 'val') is value, 'setattr left %s at '
                          '%r', k, o.val)
            else:
                ctx.check(not hasattr(o, 'val'), 'setattr gave %s an '
                          'attribute it lacked', k)
    for args, kwargs in (((), {}), ((1, None), {'a': 2}), (([],), {
            'number': 0})):
        del order[:]
        for lg in logs:
            del lg[:]
        out = outcome(lambda: g.do_method('go', *args, **kwargs))
        ctx.step('do_method(go, %r, %r) -> %r', args, kwargs, out[:2])
        stop = next((i for i, k in enumerate(chosen) if ks[k][3]), None)
        if stop is None:
            ctx.check(out == ('ok', None), 'do_method: %r', out)
            want = [i for i, k in enumerate(chosen) if ks[k][2]]
            ctx.check(order == want, 'do_method reached %r instead of %r of '
                      '%r', order, want, chosen)
        else:
            ctx.check(out[0] == 'err' and out[1] == ks[chosen[stop]][3],
                      'the error of %s did not come through: %r',
                      chosen[stop], out)
            want = [i for i, k in enumerate(chosen[:stop + 1]) if ks[k][2]]
            ctx.check(order[:len(want)] == want and
                      len(set(order)) == len(order), 'do_method reached %r '
                      'of %r', order, chosen)
        for lg, i in zip(logs, range(n)):
            ctx.check(all(x == (args, kwargs) for x in lg), '%s got %r',
                      chosen[i], lg)
    out = outcome(g.do_method, 'no_such_method')
    ctx.check(out == ('ok', None), 'do_method of a method that all lack: %r',
              out)
    out = outcome(g.setattr, 'no_such_attr', 1)
    ctx.check(out == ('ok', None) and not any(
        hasattr(o, 'no_such_attr') for o in objs), 'setattr of an attribute '
        'that all lack: %r', out)
    ctx.state((tuple(chosen), as_map))
    ctx.outcome((tuple(chosen), as_map, out[0]))


class Changing(Member):
    """Changes its group when it is reached."""
    change = None

    def go(self, *args, **kwargs):
        super().go(*args, **kwargs)
        if self.change:
            self.change(self)

    @property
    def val(self):
        return self._val

    @val.setter
    def val(self, v):
        self.log.append(('set', v))
        self._val = v
        if self.change:
            self.change(self)

    __eq__ = object.__eq__
    __hash__ = object.__hash__


def changing(ctx):
    """Members that change their group while it is being broadcast over."""
    n = ctx.pick([1, 2, 3, 4])
    as_map = ctx.choose(2)
    ms = [Changing('c%d' % i) for i in range(n)]
    if as_map:
        g = ObjectMap({m.name: m for m in ms})
    else:
        g = ObjectGroup(*ms)
    added = []

    def leave(m):
        if as_map:
            g.pop(m.name, None)
        elif m in g:
            g.remove(m)

    def drop_last(m):
        if len(g):
            g.popitem() if as_map else g.pop()

    def drop_first(m):
        if len(g):
            g.popitem(last=False) if as_map else g.pop(0)

    def add(m):
        if len(added) < 40:
            added.append(Changing('new%d' % len(added)))
            added[-1].change = add
            if as_map:
                g[added[-1].name] = added[-1]
            else:
                g.append(added[-1])

    def add_first(m):
        if len(added) < 40:
            added.append(Changing('new%d' % len(added)))
            if as_map:
                g[added[-1].name] = added[-1]
                g.move_to_end(added[-1].name, last=False)
            else:
                g.insert(0, added[-1])

    def clear(m):
        g.clear()

    def turn(m):
        if as_map:
            for k in list(g)[::-1]:
                g.move_to_end(k)
        else:
            g.reverse()
    ways = [None, leave, drop_last, drop_first, add, add_first, clear, turn]
    for m in ms:
        m.change = ctx.pick(ways)
    what = ctx.choose(2)
    out = outcome(g.setattr, 'val', 1) if what else outcome(g.do_method, 'go')
    ctx.step('%s of members that %r: %r', ['do_method', 'setattr'][what],
             [m.change and m.change.__name__ for m in ms], out)
    ctx.check(out == ('ok', None), 'the broadcast failed: %r', out)
    left = list(g.values()) if as_map else list(g)
    for m in ms:
        ctx.check(len(m.log) == 1 if any(m is o for o in left) else
                  len(m.log) <= 1, 'a member was reached %d times', len(m.log))
    ctx.check(all(len(m.log) <= 1 for m in added), 'an added member was '
              'reached twice')
    ctx.state((as_map, [m.change and m.change.__name__ for m in ms], what))
    ctx.outcome((as_map, what, [len(m.log) for m in ms]))


def big(ctx):
    """Long groups; copies by pickle and deepcopy."""
    n = ctx.size([10, 257, 1000])
    as_map = ctx.choose(2)
    ms = [(None if i % 7 == 3 else (Lacking if i % 5 == 1 else Member)(
        'b%04d' % i)) for i in range(n)]
    g = ObjectMap({'%d' % i: m for i, m in enumerate(ms)}) if as_map else \
        ObjectGroup(*ms)
    ctx.step('%d members', n)
    broadcast(ctx, g, ms, 'big')
    for t, how in enumerate((copy.deepcopy, lambda v: pickle.loads(
            pickle.dumps(v)))):
        again = 'again %d' % t
        c = how(g)
        ctx.check(type(c) is type(g) and len(c) == n, 'a deep copy is %r',
                  type(c))
        broadcast(ctx, g, ms, again)
        own = list(c.values()) if as_map else list(c)
        ctx.check([repr(m) for m in own] == [repr(m) for m in ms] and
                  not any(a is b for a, b in zip(own, ms) if a is not None),
                  'a deep copy differs')
        ctx.check(all(not hasattr(m, 'val') or m.val != again
                      for m in own), 'a deep copy shares members')
        broadcast(ctx, c, own, 'own')
        ctx.check(all(not hasattr(m, 'val') or m.val == again
                      for m in ms), 'a deep copy shares members')
    if not as_map:
        for s in (g[3:], g[::-1], g * 2, g + g[:5], g.copy()):
            broadcast(ctx, s, list(s), 'sl')
    ctx.state((n, as_map))
    ctx.outcome((n, as_map))


def scenarios(tier, seed):
    return [Scenario('lists', lists, split=3),
            Scenario('maps', maps, split=2),
            Scenario('members', members), Scenario('changing', changing),
            Scenario('big', big),
            Scenario('every size', every_size(big, range(0, 131)), split=2)]
