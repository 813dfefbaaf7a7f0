"""Verifies the observance rules (spec/rules.py) for every date."""
import time

import z3

from spec import rules as spec, years
from . import core, loader, seqs
from .core import Budget, SBool, SInt, Unsupported, zb, zi
from .seqs import DAY
from .verify import Obligation, Report, call

LIMDAY = 10 ** 5        # about 1696 .. 2243, the range of pandas timestamps


class L(object):
    @staticmethod
    def And(*xs):
        return z3.And([zb(x) for x in xs])


def clauses(rule, day):
    w = (day + 3) % 7
    y = seqs.YR(day)
    return [(zb(c), s) for c, s in
            rule.clauses(L, w, y, lambda s: seqs.YR(day + s))]


def load(world, rule):
    m = world.load('trading_calendars.' + rule.module)
    f = getattr(m, rule.name)
    if isinstance(f, loader.Poison):
        raise Unsupported('%s not loaded' % rule.name)
    return f


def run_rule(world, rule, N=None):
    def run(c):
        f = load(world, rule)
        D = z3.Function('D', z3.IntSort(), z3.IntSort())
        rng = lambda d: z3.And(-LIMDAY < d, d < LIMDAY)
        if rule.kind == 'date':
            d = z3.Int('d')
            c.inputs['d0'] = d
            c.assume(rng(d))
            c.assume(seqs.civil_year(d))
            out = call(lambda: f(seqs.mkts(SInt(d * DAY), None)))
            if out[0] == 'raise' or not isinstance(out[1], seqs.Timestamp):
                return out, z3.BoolVal(False)
            v = zi(out[1].value)
            return out, z3.And([z3.Implies(cond, v == (d + s) * DAY)
                                for cond, s in clauses(rule, d)])
        if rule.kind == 'election':
            return election(c, f)
        n = N if N is not None else SInt(z3.Int('n'))
        if N is None:
            c.assume(zi(n) >= 0)
        c.assume(c.forall(0, n, lambda k: rng(D(k)), pats=lambda k: [D(k)]))
        if N is not None:
            for k in range(N):
                c.inputs['d%d' % k] = D(z3.IntVal(k))
                for s in range(-4, 5):
                    c.assume(seqs.civil_year(D(z3.IntVal(k)) + s))
        # DAY is kept opaque in the index (V = DAY * D) so that division by it
        # is a lemma and not an arithmetic search
        V = z3.Function('V', z3.IntSort(), z3.IntSort())
        c.assume(c.forall(0, n, lambda k: V(k) == DAY * D(k), pats=lambda k: [V(k)]))
        ix = seqs.DatetimeIndex(buf=seqs.Buf(n, lambda k: V(k)), tz=None)
        out = call(lambda: f(ix))
        if out[0] == 'raise' or not isinstance(out[1], seqs.DatetimeIndex):
            return out, z3.BoolVal(False)
        R = out[1]
        if not (R.tz is None):
            return out, z3.BoolVal(False)
        m, at = R.n, R.buf.at
        mem = seqs.members(R.buf)

        # every result comes from a clause
        def src(v):
            return lambda k0: c.exists(0, n, lambda k: z3.Or([
                z3.And(cond, v(k0) == V(k) + s * DAY) for cond, s in clauses(rule, D(k))]))
        g1 = [c.forall(0, nn, lambda k, cond=cond, idx=idx: z3.Implies(
            cond(k), src(lambda k0: at(idx(k0)))(k))) for nn, cond, idx in mem]

        # every clause has its result; `strong` has only the instances j = k,
        # `weak` is the contract
        goals = [('nothing else', [z3.And(g1)])]
        for i, (_, sh) in enumerate(clauses(rule, z3.IntVal(0))):
            def strong(k):
                cond, s = clauses(rule, D(k))[i]
                return z3.Implies(cond, z3.Or(
                    [z3.And(k < zi(nn), mc(k), at(idx(k)) == V(k) + s * DAY) for nn, mc, idx in mem]))

            def weak(k):
                cond, s = clauses(rule, D(k))[i]
                return z3.Implies(cond, z3.Or(
                    [c.exists(0, nn, lambda j: z3.And(mc(j), at(idx(j)) == V(k) + s * DAY))
                     for nn, mc, idx in mem]))
            goals.append(('nothing missing %d' % i,
                          [c.forall(0, n, strong)] * (N is None) + [c.forall(0, n, weak)]))
        return out, goals
    return run


def election(c, f):
    """First Tuesday on or after the same month and day of the next year that
    is divisible by four (this year included); 29 February is left open."""
    y, dd, q = z3.Int('y'), z3.Int('dd'), z3.Int('q')
    m = 1
    while m < 12 and not c.branch(z3.Bool('m%d' % m)):
        m += 1
    dfc = lambda yy, mm, d: zi(seqs.days_from_civil(SInt(yy), mm, 1)) + d - 1
    d = z3.Int('d')
    c.inputs['d0'] = d
    nxt = dfc(y + 1, 1, 1) if m == 12 else dfc(y, m + 1, 1)
    c.assume(z3.And(1700 < y, y < 2240, d == dfc(y, m, dd), 1 <= dd, d < nxt))
    if m == 2:
        c.assume(dd <= 28)
    c.assume(seqs.YR(d) == y)
    c.assume(seqs.civil_year(d))
    out = call(lambda: f(seqs.mkts(SInt(d * DAY), None)))
    if out[0] == 'raise' or not isinstance(out[1], seqs.Timestamp):
        return out, z3.BoolVal(False)
    r = z3.Int('r')
    c.assume(z3.And(4 * q >= y, 4 * q < y + 4))
    t = dfc(4 * q, m, dd)
    v = zi(out[1].value)
    c.assume(z3.And(t <= r, r < t + 7, (r + 3) % 7 == spec.TUE))
    return out, v == r * DAY


def goals_of(g):
    return g if isinstance(g, list) else [('postcondition', [g])]


def prove(facts, alts, ms, finite):
    for lim in ([ms] if len(alts) == 1 else [800, ms]):
        for g in reversed(alts):
            r = core.prove(facts, g, ms=lim, finite=finite)
            if r.status == 'proved':
                return r
    return r


def verify(world, rule, ms=15000, deadline=None, run=None):
    rep = Report(rule.key)
    t0 = time.time()
    scalar = rule.kind != 'list'
    try:
        for c, res in core.explore(run or run_rule(world, rule), deadline=deadline, feas_ms=3000 if scalar else 250):
            if res is None:
                continue
            rep.paths += 1
            out, g = res
            k = out[0] if out[0] == 'ret' else 'raise ' + type(out[1]).__name__
            rep.outcomes[k] = rep.outcomes.get(k, 0) + 1
            for nm, gg in goals_of(g):
                rep.obligations.append(Obligation(
                    '%s/path%d/%s' % (rule.key, rep.paths, nm),
                    prove(c.facts, gg, ms, scalar)))
            rep.contracts_used.update(c.assumption_log)
    except Unsupported as e:
        rep.unsupported = str(e)
    except Budget as e:
        rep.unsupported = 'budget: %s' % e
    rep.wall = time.time() - t0
    return rep


def search(world, rule, budget=40):
    out = []
    end = time.time() + budget
    for N in ((None,) if rule.kind != 'list' else (1, 2)):
        try:
            for c, res in core.explore(run_rule(world, rule, N), N=N, deadline=end, qbound=8, feas_ms=3000):
                if res is None:
                    continue
                for nm, g in goals_of(res[1]):
                    r = core.prove(c.facts, g[-1], finite=True, ms=8000)
                    if r.status == 'refuted':
                        ds = [r.model.eval(c.inputs[k], model_completion=True).as_long()
                              for k in sorted(c.inputs)]
                        out.append(dict(rule=rule.key, dates=ds))
                if len(out) >= 3:
                    return out
        except (Unsupported, Budget):
            pass
        if out:
            break
    return out


# -- holidays of the Hebrew calendar ---------------------------------------------------

HEB = z3.Function('heb_year', z3.IntSort(), z3.IntSort())       # of 1 January of the year
LEAP = z3.Function('heb_leap', z3.IntSort(), z3.BoolSort())
GREG = z3.Function('heb_greg', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())


class Closed(object):
    def __getattr__(self, name):
        raise Unsupported('pyluach: ' + name)


class MGreg(Closed):
    """a day, counted from 1 January 1970"""

    def __init__(self, n):
        self.n = n

    def weekday(self):
        return core.mkint((self.n + 4) % 7 + 1)     # Sunday is 1

    def __add__(self, k):
        return MGreg(self.n + zi(k))

    def __sub__(self, k):
        if isinstance(k, MGreg):
            raise Unsupported('pyluach: difference of days')
        return MGreg(self.n - zi(k))


class MFirst(Closed):
    """GregorianDate(year, 1, 1)"""

    def __init__(self, year, month, day):
        if (month, day) != (1, 1):
            raise Unsupported('pyluach: GregorianDate')
        self.year = year

    def to_heb(self):
        return MYear(core.mkint(HEB(zi(self.year))))


class MYear(Closed):
    def __init__(self, year):
        self.year = year

    @property
    def leap(self):
        return core.mkbool(LEAP(zi(self.year)))


class MHeb(Closed):
    def __init__(self, year, month, day):
        self.year, self.month, self.day = year, month, day

    def to_greg(self):
        return MGreg(GREG(zi(self.year), zi(self.month), zi(self.day)))


def hebrew_world():
    import types
    w = loader.World()
    p, d, h = types.ModuleType('pyluach'), types.ModuleType('pyluach.dates'), types.ModuleType('pyluach.hebrewcal')
    d.HebrewDate, d.GregorianDate, h.Year = MHeb, MFirst, MYear
    p.dates, p.hebrewcal = d, h
    w.extra.update({'pyluach': p, 'pyluach.dates': d, 'pyluach.hebrewcal': h})
    return w


def run_hebrew(world, name):
    ahead, month, day, moves = years.HEBREW[name]

    def run(c):
        f = getattr(world.load('trading_calendars.tase_holidays'), name)
        if isinstance(f, loader.Poison):
            raise Unsupported('%s not loaded' % name)
        y = z3.Int('y')
        c.assumption_log.append('pyluach: conversion between Hebrew and Gregorian dates (heb_year, heb_leap, heb_greg)')
        out = call(lambda: f(SInt(y)))
        if out[0] == 'raise' or not isinstance(out[1], MGreg):
            return out, z3.BoolVal(False)
        h = HEB(y + ahead)
        m = z3.If(LEAP(h), z3.IntVal(13), z3.IntVal(12)) if month == 'adar' else z3.IntVal(month)
        g = GREG(h, m, z3.IntVal(day))
        move = z3.IntVal(0)
        for w, k in moves.items():
            move = z3.If((g + 3) % 7 == w, z3.IntVal(k), move)
        return out, out[1].n == g + move
    return run


def hebrew_task(name):
    """One function of the year, for the driver's pool."""
    from . import driver
    key = 'tase_holidays.' + name
    rule = spec.Rule('tase_holidays', name, 'date', None)
    w = hebrew_world()
    try:
        load(w, rule)
    except AttributeError:
        rep = Report(key)
        rep.unsupported = 'the rule is not in the source'
        return driver.report_dict(rep)
    rep = verify(w, rule, deadline=time.time() + 60, run=run_hebrew(w, name))
    d = driver.report_dict(rep)
    d['stats'] = dict(core.STATS)
    for k in core.STATS:
        core.STATS[k] = type(core.STATS[k])(0)
    return d


EXCHANGES = tuple('exchange_calendar_' + x for x in
                  ('xbue', 'xsgo', 'xtai', 'xbud', 'xwar', 'xmos', 'xphs'))


def task(key):
    """One rule, for the driver's pool."""
    from . import driver
    rule = [r for r in spec.RULES if r.key == key][0]
    w = driver._world(EXCHANGES)
    try:
        load(w, rule)
    except AttributeError:
        rep = Report(key)
        rep.unsupported = 'the rule is not in the source'
        return driver.report_dict(rep)
    rep = verify(w, rule, deadline=time.time() + 120)
    d = driver.report_dict(rep)
    if not rep.proved:
        d['candidates'] = search(w, rule)
    d['stats'] = dict(core.STATS)
    for k in core.STATS:
        core.STATS[k] = type(core.STATS[k])(0)
    return d
