"""Contracts of the calendar registry (TradingCalendarDispatcher).

A registry is three maps from names to calendars, types and alias targets, of
any size.  Names, calendars and types are arbitrary values.  Class invariant:
following aliases always ends (a rank decreases along every alias) and an
alias is not also the name of a calendar or type.  `canon` is the end of the
alias chain, defined by its recursion equation.

In finite mode there are N names and all quantifiers are expanded.
"""
import time

import z3

from . import core, generic, loader
from .core import Control, SBool, Unsupported, ctx, mkbool
from .seqs import Base
from .verify import call

MOD = 'trading_calendars.calendar_utils'
CLS = 'TradingCalendarDispatcher'
I, B = z3.IntSort(), z3.BoolSort()


def names(f, pats=None):
    """for all names x: f(x)"""
    c = ctx()
    if c.N is not None:
        return z3.And([f(z3.IntVal(k)) for k in range(c.N)])
    x = z3.Int(c.fresh('nm'))
    return z3.ForAll([x], f(x), patterns=pats(x)) if pats else z3.ForAll([x], f(x))


class Opaque(Base):
    """A name, calendar or type: only equality is known about it."""

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        if isinstance(o, Opaque):
            return mkbool(self.e == o.e) if type(o) is type(self) else False
        return False

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))

    def __hash__(self):
        raise Unsupported('hash of a symbolic name')

    def _vc_isinstance(self, cls):
        """of this type? any answer, but the same each time"""
        if cls is object:
            return True
        f = z3.Function('isinstance %s' % getattr(cls, '__name__', cls), z3.IntSort(), z3.BoolSort())
        return bool(mkbool(f(self.e)))

    def __repr__(self):
        return '<%s>' % type(self).__name__

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


class Name(Opaque):
    def _vc_isinstance(self, cls):
        return issubclass(str, cls) if isinstance(cls, type) else False


class Cal(Opaque):
    pass


class BuildError(KeyError):
    """What a type raises when it cannot build its calendar; a KeyError, since
    that is what the registry itself looks out for."""


class Type(Opaque):
    """A registered type: each call builds a new calendar, or fails."""
    def _vc_isinstance(self, cls):
        return cls in (type, object)

    log = None
    may_fail = False

    def __call__(self):
        c = ctx()
        if Type.may_fail and mkbool(z3.Bool('fails')):
            raise BuildError('no calendar')
        r = z3.Int(c.fresh('built'))
        c.assume(c.ghosts['new'](r))
        Type.log.append((self.e, r))
        return Cal(r)


class AnyName(Base):
    """An element of a list of symbolic length; only printable."""

    def __repr__(self):
        return '<name>'

    def __eq__(self, o):
        raise Unsupported('element of a symbolic list')

    __hash__ = None


class SymSet(Base):
    _vc_symset = True

    def __init__(self, has):
        self.has = has

    def __contains__(self, x):
        return bool(mkbool(self.has(x.e)))

    def __or__(self, o):
        if not isinstance(o, SymSet):
            raise Unsupported('set union')
        a, b = self.has, o.has
        return SymSet(lambda x: z3.Or(a(x), b(x)))

    def __and__(self, o):
        return SymSet(lambda x: z3.And(self.has(x), o.has(x)))

    def __sub__(self, o):
        return SymSet(lambda x: z3.And(self.has(x), z3.Not(o.has(x))))

    def union(self, *os):
        r = self
        for o in os:
            r = r | to_set(o)
        return r

    def update(self, *os):
        self.has = self.union(*os).has

    def __ior__(self, o):
        self.update(o)
        return self

    def __iter__(self):
        raise Unsupported('iteration over a symbolic set')

    def _vc_mkset(self):
        return SymSet(self.has)


def to_set(x):
    if isinstance(x, SymSet):
        return x
    if isinstance(x, SymDict):
        return SymSet(x.has)
    raise Unsupported('set(%s)' % type(x).__name__)


class SymDict(Base):
    """dict: has(name), val(name)"""
    _vc_symdict = True

    def __init__(self, has, val, wrap):
        self.has, self.val, self.wrap = has, val, wrap

    def _k(self, k):
        if not isinstance(k, Name):
            raise Unsupported('key %s' % type(k).__name__)
        return k.e

    def __contains__(self, k):
        return bool(mkbool(self.has(self._k(k))))

    def __getitem__(self, k):
        e = self._k(k)
        if not ctx().branch(self.has(e)):
            raise KeyError(k)
        return self.wrap(self.val(e))

    def get(self, k, default=None):
        e = self._k(k)
        if ctx().branch(self.has(e)):
            return self.wrap(self.val(e))
        return default

    def __setitem__(self, k, v):
        e, has, val = self._k(k), self.has, self.val
        if not isinstance(v, self.wrap):
            raise Unsupported('value %s' % type(v).__name__)
        self.has = lambda x: z3.Or(x == e, has(x))
        self.val = lambda x: z3.If(x == e, v.e, val(x))

    def _drop(self, e):
        has = self.has
        self.has = lambda x: z3.And(x != e, has(x))

    def __delitem__(self, k):
        e = self._k(k)
        if not ctx().branch(self.has(e)):
            raise KeyError(k)
        self._drop(e)

    def pop(self, k, *d):
        e = self._k(k)
        if ctx().branch(self.has(e)):
            v = self.wrap(self.val(e))
            self._drop(e)
            return v
        if d:
            return d[0]
        raise KeyError(k)

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def clear(self):
        self.has = lambda x: z3.BoolVal(False)

    def copy(self):
        return SymDict(self.has, self.val, self.wrap)

    def keys(self):
        return SymSet(self.has)

    def _vc_mkset(self):
        return SymSet(self.has)

    def __bool__(self):
        raise Unsupported('truth of a symbolic dict')

    def __iter__(self):
        raise Unsupported('iteration over a symbolic dict')

    def __len__(self):
        raise Unsupported('len of a symbolic dict')


class SymList(Base):
    """The list (or set) of names seen so far by a loop: membership only."""

    def __init__(self, has):
        self.has = has

    def append(self, x):
        has = self.has
        if not isinstance(x, Name):
            raise Unsupported('append')
        self.has = lambda y: z3.Or(y == x.e, has(y))

    add = append

    def __contains__(self, x):
        if not isinstance(x, Name):
            raise Unsupported('in')
        return bool(mkbool(self.has(x.e)))

    def __iter__(self):
        return iter([AnyName()])


def sym_chain(orig):
    def chain(*its):
        if any(isinstance(x, (SymSet, SymDict)) for x in its):
            r = SymSet(lambda x: z3.BoolVal(False))
            for x in its:
                r = r | to_set(x)
            return r
        return orig(*its)
    return chain


_chain = sym_chain(loader.sym_chain)
loader.SYM_ITERTOOLS.chain = _chain
_chain.from_iterable = loader.sym_chain.from_iterable


class State(object):
    """The three maps at one moment."""

    def __init__(self, d):
        self.C = (d._calendars.has, d._calendars.val)
        self.F = (d._calendar_factories.has, d._calendar_factories.val)
        self.A = (d._aliases.has, d._aliases.val)


def same_map(a, b, but=None):
    def f(x):
        g = z3.And(a[0](x) == b[0](x), z3.Implies(a[0](x), a[1](x) == b[1](x)))
        return g if but is None else z3.Implies(x != but, g)
    return names(f)


def same(s, t, but=None):
    return [('calendars', same_map(s.C, t.C, but)), ('types', same_map(s.F, t.F, but)),
            ('aliases', same_map(s.A, t.A, but))]


class Reg(object):
    """An arbitrary registry that satisfies the class invariant."""

    def __init__(self, c, world):
        cu = world.load(MOD)
        cls = getattr(cu, CLS)
        fn = lambda nm, *s: z3.Function(nm, *s)
        self.hC, self.vC = fn('inC', I, B), fn('cal', I, I)
        self.hF, self.vF = fn('inF', I, B), fn('typ', I, I)
        self.hA, self.vA = fn('inA', I, B), fn('target', I, I)
        self.rank, self.canon = fn('rank', I, I), fn('canon', I, I)
        vC = self.vC
        self.d = cls.__new__(cls)
        self.d._calendars = SymDict(self.hC, self.vC, Cal)
        self.d._calendar_factories = SymDict(self.hF, self.vF, Type)
        self.d._aliases = SymDict(self.hA, self.vA, Name)
        for n in self.d.__dict__:
            if n not in ('_calendars', '_calendar_factories', '_aliases'):
                raise Unsupported('registry state %s' % n)
        hA, tA, rk, cn = self.hA, self.vA, self.rank, self.canon
        if c.N is not None:
            c.assume(names(lambda x: z3.And(0 <= tA(x), tA(x) < c.N)))
        c.assume(names(lambda x: rk(x) >= 0, lambda x: [rk(x)]))
        c.assume(names(lambda x: z3.Implies(hA(x), rk(tA(x)) < rk(x)), lambda x: [tA(x)]))
        c.assume(names(lambda x: cn(x) == z3.If(hA(x), cn(tA(x)), x), lambda x: [cn(x)]))
        c.assume(names(lambda x: z3.Implies(hA(x), z3.And(z3.Not(self.hC(x)), z3.Not(self.hF(x)))),
                       lambda x: [hA(x)]))
        # a calendar that is built is none of those registered, nor built before
        built = []

        def new(r):
            g = z3.And([names(lambda x: vC(x) != r, lambda x: [vC(x)])] + [r != b for b in built])
            built.append(r)
            return g
        c.ghosts['new'] = new
        Type.log = []
        Type.may_fail = False
        self.errors = world.load('trading_calendars.errors')
        self.modular = True

    def end_of_chain(self, c):
        """Lemma (induction on rank): the end of a chain is not an alias."""
        c.use('lemma canon: the end of an alias chain is not an alias (obligation below)')
        c.assume(names(lambda x: z3.Not(self.hA(self.canon(x))), lambda x: [self.canon(x)]))

    def name(self, c, nm):
        x = z3.Int(nm)
        c.inputs[nm] = x
        if c.N is not None:
            c.assume(z3.And(0 <= x, x < c.N))
        return Name(x)


def resolve_contract(reg, c, extra=None):
    """resolve_alias by its contract.  extra: (alias, target) of an alias just
    added to a map that was acyclic before."""
    d = reg.d

    def resolve_alias(name):
        if not isinstance(name, Name):
            raise Unsupported('resolve_alias(%s)' % type(name).__name__)
        A = d._aliases
        st = (A.has, A.val)
        if c.must(same_map(st, (reg.hA, reg.vA))):
            return Name(reg.canon(name.e))
        # the alias map is base + one alias `a` that base does not have
        for a, base, canon in c.ghosts.get('bases', []):
            if c.must(z3.And(st[0](a), z3.Not(base[0](a)), same_map(st, base, but=a), name.e == a)):
                t = canon(st[1](a))
                if c.branch(t == a):
                    raise reg.errors.CyclicCalendarAlias(cycle='')
                return Name(t)
        raise Unsupported('resolve_alias on a changed alias map')
    return resolve_alias


def finite_canon(c, has, val):
    """Resolution by unrolling (finite mode)."""
    def f(x, k=None):
        k = c.N + 1 if k is None else k
        if k == 0:
            return x
        return z3.If(has(x), f(val(x), k - 1), x)
    return f


# -- the operations -----------------------------------------------------------------


def outcome_is(reg, out, exc=None):
    if exc is None:
        return out[0] == 'ret'
    return out[0] == 'raise' and type(out[1]).__name__ == exc


def base_of(reg, c, a):
    """The alias map without `a`, with its own resolution `canon1`: canon of
    the original map unless the chain passes through `a`, then `a`."""
    c1 = z3.Function('canon1', I, I)
    hA, tA = reg.hA, reg.vA
    base = (lambda x: z3.And(x != a, hA(x)), tA)
    c.assume(names(lambda x: c1(x) == z3.If(base[0](x), c1(tA(x)), x), lambda x: [c1(x)]))
    c.assume(names(lambda x: z3.Not(base[0](c1(x))), lambda x: [c1(x)]))
    c.ghosts['bases'] = [(a, base, c1)]
    return base, c1


def op_get(reg, c):
    x = reg.name(c, 'x')
    reg.end_of_chain(c)
    reg.d.resolve_alias = resolve_contract(reg, c)
    s0 = State(reg.d)
    Type.may_fail = True
    out = call(lambda: reg.d.get_calendar(x))
    Type.may_fail = False
    s1 = State(reg.d)
    k = reg.canon(x.e)
    goals = [('types unchanged', same_map(s0.F, s1.F)), ('aliases unchanged', same_map(s0.A, s1.A))]
    calls = Type.log
    if out[0] == 'ret':
        if not isinstance(out[1], Cal):
            return out, [('returns a calendar', z3.BoolVal(False))]
        r = out[1].e
        goals.append(('the registered calendar, or a new one of the registered type', z3.If(
            reg.hC(k), z3.And(r == reg.vC(k), z3.BoolVal(not calls)),
            z3.And(reg.hF(k), z3.BoolVal(len(calls) == 1),
                   *([calls[0][0] == reg.vF(k), calls[0][1] == r] if calls else [])))))
        goals.append(('remembered under its name', z3.And(s1.C[0](k), s1.C[1](k) == r)))
        goals.append(('other calendars unchanged', same_map(s0.C, s1.C, but=k)))
        n = len(calls)
        again = call(lambda: reg.d.get_calendar(x))
        goals.append(('the same object on the next lookup', z3.And(
            z3.BoolVal(again[0] == 'ret' and len(Type.log) == n),
            again[1].e == r if isinstance(again[1], Cal) else z3.BoolVal(False))))
    elif outcome_is(reg, out, 'InvalidCalendarName'):
        goals.append(('only unknown names are refused', z3.Not(z3.Or(reg.hC(k), reg.hF(k)))))
        goals.append(('calendars unchanged', same_map(s0.C, s1.C)))
        goals.append(('nothing is built', z3.BoolVal(not calls)))
    elif outcome_is(reg, out, 'BuildError'):
        goals.append(('only a type that is asked can fail', z3.And(z3.Not(reg.hC(k)), reg.hF(k))))
        goals.append(('calendars unchanged after a failure', same_map(s0.C, s1.C)))
    else:
        goals.append(('no other error', z3.BoolVal(False)))
    return out, goals


def op_has(reg, c):
    x = reg.name(c, 'x')
    s0 = State(reg.d)
    out = call(lambda: reg.d.has_calendar(x))
    if out[0] != 'ret' or not isinstance(out[1], (bool, SBool)):
        return out, [('returns a truth value', z3.BoolVal(False))]
    r = core.zb(out[1])
    return out, [('true exactly for registered names',
                  r == z3.Or(reg.hC(x.e), reg.hF(x.e), reg.hA(x.e)))] + same(s0, State(reg.d))


def op_names(reg, c):
    s0 = State(reg.d)
    out = call(lambda: reg.d.get_calendar_names())
    if out[0] != 'ret' or not isinstance(out[1], SymSet):
        raise Unsupported('names')
    return out, [('exactly the registered names', names(
        lambda y: out[1].has(y) == z3.Or(reg.hC(y), reg.hF(y), reg.hA(y))))] + same(s0, State(reg.d))


def register(meth, which):
    def op(reg, c):
        x = reg.name(c, 'x')
        force = mkbool(z3.Bool('force'))
        v = Cal(z3.Int('v')) if which == 'C' else Type(z3.Int('v'))
        s0 = State(reg.d)
        out = call(lambda: getattr(reg.d, meth)(x, v, force))
        s1 = State(reg.d)
        used = z3.Or(reg.hC(x.e), reg.hF(x.e), reg.hA(x.e))
        if out[0] == 'ret':
            goals = [('accepted only if free or forced', z3.Or(core.zb(force), z3.Not(used)))]
            goals += [('other ' + nm, g) for nm, g in same(s0, s1, but=x.e)]
            goals += bound_only(s1, x.e, which, v.e)
            return out, goals
        if not outcome_is(reg, out, 'CalendarNameCollision'):
            return out, [('no other error', z3.BoolVal(False))]
        return out, [('refused only on a collision', z3.And(z3.Not(core.zb(force)), used))] + same(s0, s1)
    return op


def bound_only(s, x, which, v):
    out = []
    for k in 'CFA':
        has, val = getattr(s, k)
        out.append(('bound only to the new entry (%s)' % k,
                    z3.And(has(x), val(x) == v) if k == which else z3.Not(has(x))))
    return out


def op_alias(reg, c):
    x, y = reg.name(c, 'x'), reg.name(c, 'y')
    force = mkbool(z3.Bool('force'))
    reg.end_of_chain(c)
    base, c1 = base_of(reg, c, x.e)
    reg.d.resolve_alias = resolve_contract(reg, c)
    s0 = State(reg.d)
    out = call(lambda: reg.d.register_calendar_alias(x, y, force))
    s1 = State(reg.d)
    used = z3.Or(reg.hC(x.e), reg.hF(x.e), reg.hA(x.e))
    closes = c1(y.e) == x.e         # following aliases from y leads back to x
    if out[0] == 'ret':
        goals = [('accepted only if free or forced', z3.Or(core.zb(force), z3.Not(used))),
                 ('accepted only if no loop is closed', z3.Not(closes))]
        goals += [('other ' + nm, g) for nm, g in same(s0, s1, but=x.e)]
        goals += bound_only(s1, x.e, 'A', y.e)
        rk, (h1, t1) = reg.rank, s1.A
        rank1 = lambda z: z3.If(c1(z) == x.e, rk(z) + rk(y.e) + 1, rk(z))
        goals.append(('alias chains never loop', names(lambda z: z3.Implies(
            h1(z), z3.And(rank1(t1(z)) < rank1(z), rank1(t1(z)) >= 0)))))
        return out, goals
    if outcome_is(reg, out, 'CalendarNameCollision'):
        return out, [('refused only on a collision', z3.And(z3.Not(core.zb(force)), used))] + same(s0, s1)
    if outcome_is(reg, out, 'CyclicCalendarAlias'):
        return out, [('refused only if a loop is closed', closes)] + same(s0, s1)
    return out, [('no other error', z3.BoolVal(False))]


def op_deregister(reg, c):
    x = reg.name(c, 'x')
    s0 = State(reg.d)
    out = call(lambda: reg.d.deregister_calendar(x))
    s1 = State(reg.d)
    if out[0] != 'ret':
        return out, [('no error', z3.BoolVal(False))]
    return out, [('other ' + nm, g) for nm, g in same(s0, s1, but=x.e)] + [
        ('the name is free', z3.Not(z3.Or(s1.C[0](x.e), s1.F[0](x.e), s1.A[0](x.e))))]


def op_clear(reg, c):
    out = call(lambda: reg.d.clear_calendars())
    s1 = State(reg.d)
    if out[0] != 'ret':
        return out, [('no error', z3.BoolVal(False))]
    return out, [('nothing is left', names(lambda y: z3.Not(z3.Or(s1.C[0](y), s1.F[0](y), s1.A[0](y)))))]


def op_resolve(reg, c):
    """resolve_alias on a map that satisfies the invariant."""
    x = reg.name(c, 'x')
    c.ghosts['resolve'] = dict(reg=reg, start=x.e, has=reg.hA, val=reg.vA, canon=reg.canon,
                               rank=reg.rank, extra=None)
    s0 = State(reg.d)
    out = call(lambda: reg.d.resolve_alias(x))
    if out[0] != 'ret' or not isinstance(out[1], Name):
        return out, [('no error', z3.BoolVal(False))]
    return out, [('the end of the chain', out[1].e == reg.canon(x.e))] + same(s0, State(reg.d))


def op_resolve_new(reg, c):
    """resolve_alias(a) just after the alias a was added to an acyclic map."""
    a, y = reg.name(c, 'x'), reg.name(c, 'y')
    c.assume(z3.Not(reg.hA(a.e)))
    A = reg.d._aliases
    A[a] = y
    c.ghosts['resolve'] = dict(reg=reg, start=a.e, has=A.has, val=A.val, canon=reg.canon,
                               rank=reg.rank, extra=(a.e, y.e))
    s0 = State(reg.d)
    out = call(lambda: reg.d.resolve_alias(a))
    t = reg.canon(y.e)
    goals = same(s0, State(reg.d))
    if out[0] == 'ret':
        if not isinstance(out[1], Name):
            return out, [('returns a name', z3.BoolVal(False))]
        return out, goals + [('the end of the chain', z3.And(out[1].e == t, t != a.e))]
    if outcome_is(reg, out, 'CyclicCalendarAlias'):
        return out, goals + [('refused only if the chain loops', t == a.e)]
    return out, [('no other error', z3.BoolVal(False))]


def op_init(reg, c):
    """Construction copies the tables of types and aliases it is given."""
    d = reg.d
    cls = type(d)
    cal, fac, ali = d._calendars, d._calendar_factories, d._aliases
    s0 = State(d)
    out = call(lambda: cls(cal, fac, ali))
    if out[0] != 'ret':
        return out, [('no error', z3.BoolVal(False))]
    n = out[1]
    for k in n.__dict__:
        if k not in ('_calendars', '_calendar_factories', '_aliases'):
            raise Unsupported('registry state %s' % k)
    if not all(isinstance(v, SymDict) for v in n.__dict__.values()):
        raise Unsupported('registry state')
    return out, same(s0, State(n)) + [
        ('the table of types is a copy', z3.BoolVal(n._calendar_factories is not fac)),
        ('the table of aliases is a copy', z3.BoolVal(n._aliases is not ali))]


def op_lemma(reg, c):
    """Induction step of the lemma used above."""
    x = z3.Int('x')
    hA, t, cn, rk = reg.hA, reg.vA, reg.canon, reg.rank
    return ('ret', None), [('step: the end of a chain is not an alias', z3.Implies(
        names(lambda y: z3.Implies(z3.And(rk(y) < rk(x)), z3.Not(hA(cn(y)))), lambda y: [cn(y)]),
        z3.Not(hA(cn(x)))))]


OPS = {
    'get_calendar': (op_get, ('C15',)),
    'has_calendar': (op_has, ('C15',)),
    'get_calendar_names': (op_names, ('C15',)),
    'resolve_alias': (op_resolve, ('C15', 'C16', 'C17')),
    'resolve_alias (new alias)': (op_resolve_new, ('C16',)),
    'register_calendar': (register('register_calendar', 'C'), ('C16',)),
    'register_calendar_type': (register('register_calendar_type', 'F'), ('C16',)),
    'register_calendar_alias': (op_alias, ('C16',)),
    'deregister_calendar': (op_deregister, ('C15', 'C16')),
    'clear_calendars': (op_clear, ('C15',)),
    '__init__': (op_init, ('C17',)),
    'lemma canon': (op_lemma, ('C15', 'C16', 'C17')),
}


# -- the loop of resolve_alias ----------------------------------------------------------


class ResolveLoop(object):
    """Invariant: the chain still ends where it did; the names seen all have a
    higher rank than the current one (or are the alias just added)."""

    def __init__(self):
        self.on = ctx().N is None and 'resolve' in ctx().ghosts

    def shape(self, env):
        cur = [k for k, v in env.items() if isinstance(v, Name)]
        seen = [k for k, v in env.items() if isinstance(v, (list, set)) and k != 'self']
        rest = [k for k, v in env.items() if k not in cur and k not in seen and k != 'self']
        if len(cur) != 1 or len(seen) != 1 or rest:
            raise Unsupported('loop of resolve_alias has another shape')
        return cur[0], seen[0]

    def inv(self, g, cur, has):
        hA, cn, rk = g['reg'].hA, g['canon'], g['rank']
        if g['extra'] is None:
            return z3.And(cn(cur) == cn(g['start']), names(lambda s: z3.Implies(has(s), rk(s) > rk(cur))))
        a, y = g['extra']
        return z3.Or(
            z3.And(cur == a, names(lambda s: z3.Not(has(s)))),
            z3.And(cur != a, cn(cur) == cn(y), has(a),
                   names(lambda s: z3.Implies(has(s), z3.Or(s == a, rk(s) > rk(cur))))))

    def variant(self, g, cur):
        if g['extra'] is None:
            return g['rank'](cur)
        a, y = g['extra']
        return z3.If(cur == a, g['rank'](y) + 1, g['rank'](cur))

    def enter(self, env):
        if not self.on:
            return env
        c = ctx()
        g = c.ghosts['resolve']
        kc, ks = self.shape(env)
        if len(env[ks]):
            raise Unsupported('loop of resolve_alias has another start')
        c.oblige('loop invariant holds at the start', self.inv(g, env[kc].e, lambda s: z3.BoolVal(False)))
        cur = z3.Int(c.fresh('cur'))
        seen = z3.Function(c.fresh('seen'), I, B)
        c.assume(self.inv(g, cur, seen))
        self.g, self.kc, self.ks, self.v0 = g, kc, ks, self.variant(g, cur)
        return dict(env, **{kc: Name(cur), ks: SymList(seen)})

    def end(self, env):
        if not self.on:
            return
        c = ctx()
        cur, seen = env[self.kc], env[self.ks]
        if not isinstance(cur, Name) or not isinstance(seen, SymList):
            raise Unsupported('loop of resolve_alias has another shape')
        c.oblige('loop invariant is kept', self.inv(self.g, cur.e, seen.has))
        v = self.variant(self.g, cur.e)
        c.oblige('loop ends', z3.And(v < self.v0, self.v0 >= 0))
        raise core.PathEnd()


loader.LOOP_INVARIANTS[(MOD, 'resolve_alias')] = ResolveLoop


def runner(op, world):
    def run(c):
        reg = Reg(c, world)
        return OPS[op][0](reg, c)
    return run


def vacuous(op, world):
    """No path of the operation is possible (finite mode, 3 names)."""
    for c, res in core.explore(runner(op, world), N=3, deadline=time.time() + 20):
        if res is not None and c.solver.check() == z3.sat:
            return False
    return True


def task(op):
    from . import driver
    w = driver._world()
    key = '%s.%s' % (CLS, op)
    rep = generic.verify(key, runner(op, w), deadline=time.time() + 120)
    try:
        rep.vacuous = rep.proved and vacuous(op, w)
    except Control:
        rep.vacuous = False
    d = driver.report_dict(rep)
    d['stats'] = core.take_stats()
    return d
