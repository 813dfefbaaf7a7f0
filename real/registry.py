"""Small-scope check of the registry: every state over three names and every
operation, against a reference written from the property text."""
import itertools
import random

from trading_calendars import calendar_utils as cu
from trading_calendars import errors
from real.limits import Slow, within

NAMES = ['a', 'b', 'c']
ALL = NAMES + ['z']


class Cal(object):
    def __init__(self, tag):
        self.tag = tag


class Ref(object):
    """Reference registry."""

    def __init__(self, C, F, A):
        self.C, self.F, self.A = dict(C), dict(F), dict(A)

    def used(self, n):
        return n in self.C or n in self.F or n in self.A

    def end(self, n):
        seen = set()
        while n in self.A:
            if n in seen:
                return None
            seen.add(n)
            n = self.A[n]
        return n

    def bind(self, n, table, v):
        for t in (self.C, self.F, self.A):
            t.pop(n, None)
        table[n] = v


def states():
    """All states over NAMES: each is free, a calendar, a type, a type whose
    calendar was built, or an alias; chains do not loop."""
    kinds = [('free',), ('cal',), ('type',), ('built',)]
    per = [kinds + [('alias', t) for t in ALL if t != n] for n in NAMES]
    for combo in itertools.product(*per):
        C, F, A = {}, {}, {}
        for n, k in zip(NAMES, combo):
            if k[0] in ('cal', 'built'):
                C[n] = Cal('cal-' + n)
            if k[0] in ('type', 'built'):
                F[n] = 'type-' + n
            if k[0] == 'alias':
                A[n] = k[1]
        r = Ref(C, F, A)
        if all(r.end(n) is not None for n in NAMES):
            yield C, F, A


def operations():
    for n in NAMES:
        for force in (False, True):
            yield ('register_calendar', n, 'new', force)
            yield ('register_calendar_type', n, 'new', force)
            for t in ALL:
                yield ('register_calendar_alias', n, t, force)
        yield ('deregister_calendar', n)
    for n in ALL:
        yield ('get_calendar', n)
    yield ('clear_calendars',)
    yield ('nothing',)


class Run(object):
    """The real registry and the reference side by side."""

    def __init__(self, C, F, A):
        self.built = []
        self.types = {}
        C = dict(C)
        self.r = Ref(C, F, A)
        self.d = cu.TradingCalendarDispatcher(
            C, dict((n, self.type_(t)) for n, t in F.items()), dict(A))
        self.k = 0

    def type_(self, tag):
        if tag not in self.types:
            def f():
                c = Cal('built-' + tag)
                self.built.append(c)
                return c
            self.types[tag] = f
        return self.types[tag]

    def call(self, name, *a, **k):
        try:
            return ('ret', getattr(self.d, name)(*a, **k))
        except Exception as e:
            return ('raise', type(e).__name__)

    def get(self, n):
        """Compare one lookup; '' or what is wrong."""
        r = self.r
        k = r.end(n)
        nb = len(self.built)
        got = self.call('get_calendar', n)
        if k in r.C:
            if got != ('ret', r.C[k]) or len(self.built) != nb:
                return 'lookup of %r gave %s instead of the calendar registered under %r' % (n, show(got), k)
        elif k in r.F:
            if len(self.built) != nb + 1 or got != ('ret', self.built[-1]) or self.built[-1].tag != 'built-' + r.F[k]:
                return 'lookup of %r gave %s instead of a new calendar of its type' % (n, show(got))
            r.C[k] = got[1]
        elif got != ('raise', 'InvalidCalendarName') or len(self.built) != nb:
            return 'lookup of the unknown name %r gave %s' % (n, show(got))
        return ''

    def step(self, op):
        r, d = self.r, self.d
        if op[0] == 'nothing':
            return ''
        if op[0] == 'get_calendar':
            return self.get(op[1])
        if op[0] == 'clear_calendars':
            got = self.call(op[0])
            r.C.clear(), r.F.clear(), r.A.clear()
            return '' if got[0] == 'ret' else 'clear raised %s' % got[1]
        if op[0] == 'deregister_calendar':
            got = self.call(op[0], op[1])
            for t in (r.C, r.F, r.A):
                t.pop(op[1], None)
            return '' if got[0] == 'ret' else 'deregister raised %s' % got[1]
        n, v, force = op[1:]
        self.k += 1
        if op[0] == 'register_calendar':
            v, table = Cal('new%d' % self.k), r.C
            arg = v
        elif op[0] == 'register_calendar_type':
            v, table = 'new%d' % self.k, r.F
            arg = self.type_(v)
        else:
            table, arg = r.A, v
        # False is also the default: both ways of asking
        got = self.call(op[0], n, arg, force=force) if force or self.k % 2 else self.call(op[0], n, arg)
        want = ('ret', None)
        if r.used(n) and not force:
            want = ('raise', 'CalendarNameCollision')
        elif table is r.A:
            t = Ref(r.C, r.F, r.A)
            t.bind(n, t.A, v)
            if t.end(n) is None:
                want = ('raise', 'CyclicCalendarAlias')
        if want[0] == 'ret':
            r.bind(n, table, v)
        if got[0] != want[0] or (got[0] == 'raise' and got[1] != want[1]):
            return '%s%s gave %s instead of %s' % (op[0], (op[1], str(op[2]), op[3]), show(got), show(want))
        return ''

    def observe(self):
        """Every question to the registry, '' or the first wrong answer."""
        r = self.r
        for n in ALL:
            if self.call('has_calendar', n) != ('ret', r.used(n)):
                return 'has_calendar(%r) is %s' % (n, show(self.call('has_calendar', n)))
            if self.call('resolve_alias', n) != ('ret', r.end(n)):
                return 'resolve_alias(%r) is %s instead of %r' % (n, show(self.call('resolve_alias', n)), r.end(n))
        got = self.call('get_calendar_names')
        want = set(r.C) | set(r.F) | set(r.A)
        if got[0] != 'ret' or set(got[1]) != want or len(got[1]) != len(want):
            return 'names are %s instead of %s' % (show(got), sorted(want))
        for n in ALL + ALL:
            w = self.get(n)
            if w:
                return w
        return ''


def show(o):
    v = o[1]
    if isinstance(v, Cal):
        v = 'calendar ' + v.tag
    return '%s %s' % ('error' if o[0] == 'raise' else 'result', v)


PROP = {'get_calendar': 'C15', 'nothing': 'C15', 'clear_calendars': 'C15', 'deregister_calendar': 'C15'}


def run_case(C, F, A, ops):
    R = Run(C, F, A)
    for op in ops:
        w = R.step(op)
        if w:
            return 'operation', w, op
    w = R.observe()
    return ('afterwards', w, ops[-1]) if w else None


def failing_type(exc):
    """A type whose first attempt fails: its own error comes out, nothing is
    remembered, and the next lookup builds the calendar."""
    err, made = exc('cannot be built'), []

    def build():
        made.append(Cal('a') if made else None)
        if made[-1] is None:
            raise err
        return made[-1]
    d = cu.TradingCalendarDispatcher({}, {'a': build}, {'b': 'a'})
    try:
        got = d.get_calendar('b')
        return 'result %r although the type failed with %s' % (got, exc.__name__)
    except Exception as e:
        if isinstance(e, errors.InvalidCalendarName):
            return 'the registered name is refused as unknown when its type fails with %s' % exc.__name__
    if sorted(d.get_calendar_names()) != ['a', 'b']:
        return 'names are %s after a type failed' % sorted(d.get_calendar_names())
    if d.get_calendar('a') is not made[-1] or d.get_calendar('b') is not made[-1] or len(made) != 2:
        return 'no new calendar after a type failed'
    return ''


def small_scope(prop, seed, full):
    rnd = random.Random(seed)
    ev, kinds, viol, seen = 0, set(), [], set()
    ops = list(operations())
    sts = list(states())

    def one(C, F, A, seq):
        try:
            bad = within(20, lambda: run_case(C, F, A, seq))
        except Slow:
            bad = ('', 'no answer (the operation does not end)', ('end',))
        kinds.add((seq[-1][0], tuple(sorted(F)), tuple(sorted(A.items()))))
        if bad:
            key = 'registry: ' + bad[2][0]
            if key not in seen:
                seen.add(key)
                viol.append(dict(key=key, calendars=sorted(C), types=sorted(F), aliases=A,
                                 operations=[list(map(str, o)) for o in seq], when=bad[0], got=bad[1]))
    for C, F, A in sts:
        for op in ops:
            mine = PROP.get(op[0], 'C16')
            if mine != prop:
                continue
            ev += 1
            one(C, F, A, [op])
            if 'registry: end' in seen:
                return ev, len(kinds), viol
    for _ in range(6000 if full else 1500):
        C, F, A = rnd.choice(sts)
        seq = [rnd.choice(ops) for _ in range(rnd.randrange(2, 9))]
        if prop == 'C16' and PROP.get(seq[-1][0], 'C16') != 'C16':
            seq.append(rnd.choice([o for o in ops if PROP.get(o[0], 'C16') == 'C16']))
        ev += 1
        one(C, F, A, seq)
        if 'registry: end' in seen:
            return ev, len(kinds), viol
    if prop == 'C15' and not viol:
        for exc in (KeyError, ValueError, AttributeError, TypeError, RuntimeError):
            ev += 1
            bad = failing_type(exc)
            if bad:
                viol.append(dict(key='registry: failing type', got=bad, when='', types=['a'],
                                 aliases={'b': 'a'}, operations=[['get_calendar', 'b']]))
                break
    # long chains
    for m in (10, 60) if not viol else ():
        A = dict(('n%d' % i, 'n%d' % (i + 1)) for i in range(m))
        F = {'n%d' % m: object}
        d = cu.TradingCalendarDispatcher({}, F, A)
        ev += 1
        if d.resolve_alias('n0') != 'n%d' % m or d.get_calendar('n3') is not d.get_calendar('n%d' % m):
            viol.append(dict(key='registry: long chain', got='chain of %d aliases is not followed' % m,
                             operations=[], when='', aliases=m))
        d.deregister_calendar('n%d' % m)
        try:
            d.register_calendar_alias('n%d' % m, 'n0')
            viol.append(dict(key='registry: long chain', got='loop of %d aliases accepted' % m,
                             operations=[], when='', aliases=m))
        except errors.CyclicCalendarAlias:
            pass
    return ev, len(kinds), viol


def module_functions():
    """The module level functions are those of one registry."""
    import trading_calendars as tc
    bad = []
    d = cu.global_calendar_dispatcher
    for n in ('get_calendar', 'get_calendar_names', 'clear_calendars', 'deregister_calendar',
              'register_calendar', 'register_calendar_type', 'register_calendar_alias', 'resolve_alias'):
        f = getattr(cu, n)
        if getattr(f, '__self__', None) is not d or f.__func__ is not getattr(cu.TradingCalendarDispatcher, n):
            bad.append(n)
        if hasattr(tc, n) and getattr(tc, n) != f:
            bad.append('trading_calendars.' + n)
    return bad
