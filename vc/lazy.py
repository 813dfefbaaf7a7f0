"""Contract of lazily computed attributes (lazyval).

The memory is a weak dictionary from objects to values, of any size and in any
state; the computation is arbitrary: it may raise, may give any value (also
None or a false one) and may read the same attribute of other objects.
"""
import time
import weakref

import z3

from . import core, generic
from .core import Unsupported, ctx, mkbool
from .registry import Opaque
from .seqs import Base
from .verify import call

MOD = 'trading_calendars.utils.memoize'
I, B = z3.IntSort(), z3.BoolSort()
NONE = z3.Int('none')


class Obj(Opaque):
    __hash__ = None


class Value(Opaque):
    """equality is whatever the values say (a value may differ from itself)"""

    def __eq__(self, o):
        e = term(o) if o is None or isinstance(o, Value) else None
        if e is None:
            raise Unsupported('comparison of a value')
        return mkbool(z3.Function('equal', I, I, B)(self.e, e))

    def __ne__(self, o):
        e = term(o) if o is None or isinstance(o, Value) else None
        if e is None:
            raise Unsupported('comparison of a value')
        return mkbool(z3.Function('unequal', I, I, B)(self.e, e))

    __hash__ = None

    def __bool__(self):
        return bool(mkbool(z3.Function('truth', I, B)(self.e)))


def value(e):
    return None if ctx().branch(e == NONE) else Value(e)


def term(v):
    if v is None:
        return NONE
    if isinstance(v, Value):
        return v.e
    raise Unsupported('value %s' % type(v).__name__)


class WeakMap(Base):
    """WeakKeyDictionary by contract: a map on objects; the entries of objects
    that are alive stay.  Made empty; `havoc` puts it in any state."""

    def __init__(self, *a):
        if a:
            raise Unsupported('WeakKeyDictionary(...)')
        self.has, self.val = (lambda x: z3.BoolVal(False)), (lambda x: z3.IntVal(0))

    def _k(self, o):
        if not isinstance(o, Obj):
            raise Unsupported('key %s' % type(o).__name__)
        return o.e

    def __contains__(self, o):
        return bool(mkbool(self.has(self._k(o))))

    def __getitem__(self, o):
        e = self._k(o)
        if not ctx().branch(self.has(e)):
            raise KeyError(o)
        return value(self.val(e))

    def get(self, o, default=None):
        e = self._k(o)
        return value(self.val(e)) if ctx().branch(self.has(e)) else default

    def __setitem__(self, o, v):
        e, has, val, t = self._k(o), self.has, self.val, term(v)
        self.has = lambda x: z3.Or(x == e, has(x))
        self.val = lambda x: z3.If(x == e, t, val(x))

    def setdefault(self, o, v=None):
        if o not in self:
            self[o] = v
        return self[o]

    def _drop(self, e):
        has = self.has
        self.has = lambda x: z3.And(x != e, has(x))

    def __delitem__(self, o):
        e = self._k(o)
        if not ctx().branch(self.has(e)):
            raise KeyError(o)
        self._drop(e)

    def pop(self, o, *d):
        e = self._k(o)
        if ctx().branch(self.has(e)):
            v = value(self.val(e))
            self._drop(e)
            return v
        if d:
            return d[0]
        raise KeyError(o)

    def clear(self):
        self.has = lambda x: z3.BoolVal(False)

    def __bool__(self):
        raise Unsupported('truth of the memory')

    def __iter__(self):
        raise Unsupported('iteration over the memory')

    __len__ = __bool__


class WeakRefs(Base):
    WeakKeyDictionary = WeakMap

    def __getattr__(self, n):
        raise Unsupported('weakref.%s' % n)


class Failed(Exception):
    pass


def agree(a, b, but=None):
    x = z3.Int(ctx().fresh('ob'))
    g = z3.And(a[0](x) == b[0](x), z3.Implies(a[0](x), a[1](x) == b[1](x)))
    return z3.ForAll([x], g if but is None else z3.Implies(x != but, g))


class Attr(object):
    """A lazyval in an arbitrary state."""

    def __init__(self, c, world, errors=(Failed, KeyError, ValueError)):
        m = world.load(MOD)
        for k, v in list(vars(m).items()):
            if v is weakref.WeakKeyDictionary:
                setattr(m, k, WeakMap)
            elif v is weakref:
                setattr(m, k, WeakRefs())
        self.calls = []
        self.val = z3.Int('computed')

        def compute(o):
            """the decorated function"""
            if not isinstance(o, Obj):
                raise Unsupported('computation called with %s' % type(o).__name__)
            self.calls.append(o.e)
            if len(self.calls) > 1:
                self.val = z3.Int(c.fresh('computed'))
            for n, e in enumerate(errors):
                if c.branch(z3.Bool(c.fresh('raises%d' % n))):
                    self.error = e('computation')
                    raise self.error
            # other objects may have had their value computed meanwhile
            h, v = z3.Function(c.fresh('has'), I, B), z3.Function(c.fresh('val'), I, I)
            mm = self.map
            x = z3.Int(c.fresh('ob'))
            h0, v0, e0 = mm.has, mm.val, o.e
            c.assume(z3.ForAll([x], z3.Implies(h0(x), z3.And(h(x), v(x) == v0(x)))))
            c.assume(h(e0) == h0(e0))
            mm.has, mm.val = h, v
            self.mid = (h, v)
            return value(self.val)
        self.compute = compute
        self.lv = m.lazyval(compute)
        maps = [v for v in vars(self.lv).values() if isinstance(v, WeakMap)]
        if len(maps) != 1 or any(not isinstance(v, WeakMap) and v is not compute and not isinstance(v, (str, type(None)))
                                 for v in vars(self.lv).values()):
            raise Unsupported('state of the attribute')
        self.map = maps[0]
        self.empty = self.map.has
        self.attrs = dict(vars(self.lv))
        self.has, self.v0 = z3.Function('computed_before', I, B), z3.Function('memory', I, I)
        self.map.has, self.map.val = self.has, self.v0
        self.s0 = (self.has, self.v0)

    def frame(self):
        if vars(self.lv) != self.attrs:
            raise Unsupported('the attribute keeps other state')

    @property
    def s(self):
        return self.map.has, self.map.val


def op_init(c, w):
    a = Attr(c, w)
    x = z3.Int('ob')
    return ('ret', None), [('nothing is computed', z3.BoolVal(not a.calls)),
                           ('nothing is remembered', z3.ForAll([x], z3.Not(a.empty(x))))]


def op_get(c, w):
    a = Attr(c, w)
    o = Obj(z3.Int('o'))
    out = call(lambda: a.lv.__get__(o, Obj))
    a.frame()
    if set(vars(o)) != {'e'}:
        raise Unsupported('the attribute keeps state on the object')
    had = a.has(o.e)
    n = len(a.calls)
    goals = [('computed exactly if not computed before, from the object itself', z3.If(
        had, z3.BoolVal(n == 0), z3.And(z3.BoolVal(n == 1), *[e == o.e for e in a.calls])))]
    if out[0] == 'ret':
        r = term(out[1])
        goals.append(('value', r == z3.If(had, a.v0(o.e), a.val)))
        goals.append(('remembered', z3.And(a.s[0](o.e), a.s[1](o.e) == r)))
        goals.append(('other objects untouched', agree(a.mid if n else a.s0, a.s, o.e)))
        again = call(lambda: a.lv.__get__(o, Obj))
        if again[0] != 'ret':
            return out, [('the same value on the next reading', z3.BoolVal(False))]
        goals.append(('the same value on the next reading',
                      z3.And(z3.BoolVal(len(a.calls) == n), term(again[1]) == r)))
    else:
        goals.append(('only an error of the computation', z3.BoolVal(n == 1 and out[1] is a.error)))
        goals.append(('nothing remembered after an error', agree(a.s0, a.s)))
    return out, goals


def op_class(c, w):
    a = Attr(c, w)
    out = call(lambda: a.lv.__get__(None, Obj))
    a.frame()
    return out, [('the attribute itself', z3.BoolVal(out[0] == 'ret' and out[1] is a.lv)),
                 ('nothing is computed', z3.BoolVal(not a.calls)), ('nothing changes', agree(a.s0, a.s))]


def op_set(c, w):
    a = Attr(c, w)
    o = Obj(z3.Int('o'))
    out = call(lambda: a.lv.__set__(o, value(z3.Int('new'))))
    a.frame()
    if set(vars(o)) != {'e'}:
        raise Unsupported('the attribute keeps state on the object')
    return out, [('refused', z3.BoolVal(out[0] == 'raise' and isinstance(out[1], AttributeError))),
                 ('nothing is computed', z3.BoolVal(not a.calls)), ('nothing changes', agree(a.s0, a.s))]


OPS = {'__init__': op_init, '__get__': op_get, '__get__ (class)': op_class, '__set__': op_set}


def task(op):
    from . import driver
    w = driver._world()
    rep = generic.verify('utils.memoize.lazyval.' + op, lambda c: OPS[op](c, w), deadline=time.time() + 60)
    d = driver.report_dict(rep)
    d['stats'] = core.take_stats()
    return d
