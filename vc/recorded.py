"""Contracts of the constructors of calendars with recorded holidays: for
every table of holidays (any number of dates, any order), every start and end
and every list of sessions the parent constructor may come up with."""
import time

import z3

from . import core, generic, seqs, symcal
from .core import SInt, Unsupported, zi
from .seqs import DAY
from .symlogic import SymL
from .verify import call

BASE = 'trading_calendars.trading_calendar'
HK_TABLES = ('chinese_buddhas_birthday_dates', 'chinese_lunar_new_year_dates',
             'day_after_mid_autumn_festival_dates', 'double_ninth_festival_dates',
             'dragon_boat_festival_dates', 'qingming_festival_dates')
I = z3.IntSort()


def table(c, nm):
    """A table of m >= 1 dates; returns (index, first day, last day)."""
    D, V = z3.Function('D_' + nm, I, I), z3.Function('V_' + nm, I, I)
    m = z3.Int('m_' + nm)
    if c.N is not None:
        c.assume(m == c.N)
        for k in range(c.N):
            c.inputs['%s%d' % (nm, k)] = D(z3.IntVal(k))
    c.assume(m >= 1)
    n = c.N if c.N is not None else SInt(m)
    ok = lambda k: z3.And(-10 ** 5 < D(k), D(k) < 10 ** 5, V(k) == DAY * D(k))
    c.assume(c.forall(0, n, ok, pats=lambda k: [V(k)]))
    lo, hi = z3.Int('lo_' + nm), z3.Int('hi_' + nm)
    c.assume(c.forall(0, n, lambda k: z3.And(lo <= D(k), D(k) <= hi), pats=lambda k: [D(k)]))
    c.assume(c.forall(0, n, lambda k: z3.And(lo <= D(k), D(k) <= hi), pats=lambda k: [V(k)]))
    i, j = z3.Int('i_' + nm), z3.Int('j_' + nm)
    for w, e in ((i, lo), (j, hi)):
        c.assume(z3.And(0 <= w, w < m, D(w) == e, ok(w)))
    return seqs.DatetimeIndex(buf=seqs.Buf(n, lambda k: V(k)), tz=None), lo, hi


def year(c, d):
    c.assume(seqs.civil_year(d))
    return seqs.YR(d)


class Parent(object):
    """TradingCalendar.__init__ by contract (proved below): the first and the
    last session are the ends of a list of midnights."""

    def __init__(self, c):
        self.calls = []
        d0, d1 = z3.Int('first_session'), z3.Int('last_session')
        c.inputs['first_session'], c.inputs['last_session'] = d0, d1
        c.assume(z3.And(-10 ** 5 < d0, d0 <= d1, d1 < 10 ** 5))
        self.d = (d0, d1)

        def init(cal, start=None, end=None):
            self.calls.append((start, end))
            cal.first_trading_session = seqs.mkts(SInt(d0 * DAY), seqs.UTC)
            cal.last_trading_session = seqs.mkts(SInt(d1 * DAY), seqs.UTC)
        self.init = init


def construct(c, mod, cls, args, ns):
    tc = mod.__dict__.get('TradingCalendar')
    p = Parent(c)
    old = tc.__init__
    tc.__init__ = p.init
    try:
        k = type('AnyRecorded', (cls,), dict(ns, name='any', tz=None, open_times=(), close_times=()))
        out = call(lambda: k(**args))
    finally:
        tc.__init__ = old
    if len(p.calls) != 1:
        raise Unsupported('the parent constructor is called %d times' % len(p.calls))
    return out, p


def guard(c, out, p, lo_year, hi_year):
    inside = z3.And(lo_year <= year(c, p.d[0]), year(c, p.d[1]) <= hi_year)
    if out[0] == 'ret':
        return [('built only if all sessions are in recorded years', inside)]
    return [('refused with ValueError', z3.BoolVal(isinstance(out[1], ValueError))),
            ('refused only if a session is outside the recorded years', z3.Not(inside))]


def op_precomputed(start, end):
    def run(c, w):
        mod = w.load('trading_calendars.precomputed_trading_calendar')
        t, lo, hi = table(c, 'table')
        args = {}
        for nm, given in (('start', start), ('end', end)):
            if given:
                v = z3.Int('arg_' + nm)
                c.inputs['arg_' + nm] = v
                args[nm] = seqs.mkts(SInt(v), seqs.UTC)
        out, p = construct(c, mod, mod.PrecomputedTradingCalendar, args,
                           dict(precomputed_holidays=property(lambda self: t)))
        y0, y1 = year(c, lo), year(c, hi)
        s, e = p.calls[0]
        goals = guard(c, out, p, y0, y1)
        for nm, v in (('start', s), ('end', e)):
            if nm in args:
                goals.append(('%s is passed on' % nm, z3.BoolVal(v is args[nm])))
            elif not isinstance(v, seqs.Timestamp) or v.tz is not seqs.UTC:
                goals.append(('%s defaults to a UTC date' % nm, z3.BoolVal(False)))
            elif nm == 'start':
                goals.append(('from the first day of the first recorded year',
                              zi(v.value) == DAY * zi(seqs.days_from_civil(SInt(y0), 1, 1))))
            else:
                goals.append(('to the last day of the last recorded year',
                              zi(v.value) == DAY * zi(seqs.days_from_civil(SInt(y1), 12, 31))))
        return out, goals
    return run


def op_hk(c, w):
    mod = w.load('trading_calendars.exchange_calendar_xhkg')
    los, his = [], []
    old = {nm: mod.__dict__[nm] for nm in HK_TABLES}
    try:
        for nm in HK_TABLES:
            t, lo, hi = table(c, nm)
            setattr(mod, nm, t)
            los.append(lo)
            his.append(hi)
        out, p = construct(c, mod, mod.XHKGExchangeCalendar, {}, {})
    finally:
        for nm, v in old.items():
            setattr(mod, nm, v)
    first, last = z3.Int('latest_first'), z3.Int('earliest_last')
    c.assume(z3.And([first >= x for x in los] + [z3.Or([first == x for x in los])]))
    c.assume(z3.And([last <= x for x in his] + [z3.Or([last == x for x in his])]))
    return out, guard(c, out, p, year(c, first), year(c, last))


def op_parent(c, w):
    """The contract of the parent constructor used above."""
    cal, V = symcal.build(c, w, N=c.N)
    f, l = cal.first_trading_session, cal.last_trading_session
    if not all(isinstance(x, seqs.Timestamp) and x.tz is seqs.UTC for x in (f, l)):
        return ('ret', cal), [('sessions are UTC timestamps', z3.BoolVal(False))]
    return ('ret', cal), [('first session', zi(f.value) == V.S.f(z3.IntVal(0))),
                          ('last session', zi(l.value) == V.S.f(zi(V.n) - 1))]


def op_adhoc(c, w):
    """The recorded holidays are the holidays the calendar is built with."""
    mod = w.load('trading_calendars.precomputed_trading_calendar')
    t, lo, hi = table(c, 'table')
    k = type('AnyRecorded', (mod.PrecomputedTradingCalendar,), dict(
        name='any', tz=None, open_times=(), close_times=(), precomputed_holidays=property(lambda self: t)))
    o = k.__new__(k)
    out = call(lambda: o.adhoc_holidays)
    if out[0] != 'ret' or not isinstance(out[1], seqs.DatetimeIndex):
        raise Unsupported('ad hoc holidays')
    b, a = out[1].buf, t.buf
    return out, [('the same dates', z3.And(zi(b.n) == zi(a.n), c.forall(0, a.n, lambda k: b.at(k) == a.at(k))))]


OPS = {
    'TradingCalendar.__init__ (first and last session)': op_parent,
    'PrecomputedTradingCalendar.__init__()': op_precomputed(False, False),
    'PrecomputedTradingCalendar.__init__(start)': op_precomputed(True, False),
    'PrecomputedTradingCalendar.__init__(end)': op_precomputed(False, True),
    'PrecomputedTradingCalendar.__init__(start, end)': op_precomputed(True, True),
    'PrecomputedTradingCalendar.adhoc_holidays': op_adhoc,
    'XHKGExchangeCalendar.__init__': op_hk,
}


def task(op):
    from . import driver
    w = driver._world(('precomputed_trading_calendar', 'exchange_calendar_xhkg'))

    def run(c):
        c.abstract_civil = True
        return OPS[op](c, w)
    rep = generic.verify(op, run, deadline=time.time() + 100)
    d = driver.report_dict(rep)
    d['stats'] = core.take_stats()
    return d
