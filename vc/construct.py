"""Contracts of the construction of a calendar: for every list of sessions,
every time zone, every table of local times, every day offset and every list of
special dates.

Special dates are specified by date: a special time whose date and instant both
lie in the requested range replaces the regular time, and a date without special
time keeps it.  A date inside the range whose instant is outside is left open
(known finding D4)."""
import time

import z3

from . import core, generic, loader, seqs
from .core import NAT, SInt, Unsupported, zi
from .seqs import DAY, HOUR, MIN, SEC
from .times import SymTime
from .verify import call

I = z3.IntSort()
TC = 'trading_calendars.trading_calendar'


def fn(nm):
    return z3.Function(nm, I, I)


def sessions(c, nm='S', empty=False):
    """n increasing midnights, n >= 1 (or none)."""
    n, S, D = z3.Int('n_' + nm), fn(nm), fn('day_' + nm)
    i, j = z3.Int(c.fresh('i')), z3.Int(c.fresh('j'))
    c.assume(n == 0 if empty else n >= 1)
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), S(i) < S(j)),
                       patterns=[z3.MultiPattern(S(i), S(j))]))
    c.assume(c.forall(0, n, lambda k: z3.And(S(k) == DAY * D(k), -10 ** 5 < D(k), D(k) < 10 ** 5),
                      pats=lambda k: [S(k)]))
    ix = seqs.DatetimeIndex(buf=seqs.Buf(SInt(n), lambda k: S(k)), tz=seqs.UTC)
    return ix, n, S


def tod(c, nm):
    h, m, s = (z3.Int('%s_%s' % (nm, x)) for x in ('hour', 'minute', 'second'))
    c.assume(z3.And(0 <= h, h < 24, 0 <= m, m < 60, 0 <= s, s < 60))
    return SymTime(SInt(h), SInt(m), SInt(s)), h * HOUR + m * MIN + s * SEC


def table(c, nm, length):
    """((None, t0), (start1, t1), ...) with increasing starts; and the local
    time in force on a date, as a term."""
    rows, force = [], None
    prev = None
    cuts = []
    for k in range(length):
        t, e = tod(c, '%s%d' % (nm, k))
        start = None
        if k:
            d = z3.Int('%s_start%d' % (nm, k))
            c.assume(z3.And(-10 ** 5 < d, d < 10 ** 5))
            if prev is not None:
                c.assume(prev < d)
            prev = d
            start = seqs.mkts(SInt(d * DAY), None)
            cuts.append((d * DAY, e))
        else:
            first = e
        rows.append((start, t))

    def in_force(day):
        out = first
        for d, e in cuts:
            out = z3.If(d <= day, e, out)
        return out
    return tuple(rows), in_force


def index_goal(c, R, n, want, pat):
    if not isinstance(R, seqs.DatetimeIndex):
        return [('an index is returned', z3.BoolVal(False))]
    if R.tz is not seqs.UTC:
        return [('in UTC', z3.BoolVal(False))]
    k = z3.Int('any')
    return [('one time per session', zi(R.n) == n),
            ('each is the local time in force on its date',
             z3.Implies(z3.And(0 <= k, k < n), R.buf.at(k) == want(k)))]


def op_group(length):
    def run(c, w):
        f = w.load(TC)._group_times
        c.slices = True
        ix, n, S = sessions(c)
        rows, force = table(c, 't', length)
        tz = seqs.SymTz('zone')
        off = z3.Int('offset')
        c.assume(z3.And(-1000 <= off, off <= 1000))
        out = call(lambda: f(ix, rows, tz, SInt(off)))
        if out[0] == 'raise':
            return out, [('no error', z3.BoolVal(False))]
        want = lambda k: tz.f(S(k) + off * DAY + force(S(k)))
        return out, index_goal(c, out[1], n, want, S)
    return run


class Table(object):
    """((None, t0), (start1, t1), ...) with increasing starts, of any length
    K >= 1.  cut(k) is the first session that is not before start k, which
    exists as the sessions are in order."""
    _vc_seq = True

    def __init__(self, c, nm, n, S):
        self.K = z3.Int('length_' + nm)
        self.n = SInt(self.K)
        self.h, self.m, self.s, self.d, self.cut = (
            fn('%s_%s' % (nm, x)) for x in ('hour', 'minute', 'second', 'start', 'cut'))
        h, m, s, d, cut = self.h, self.m, self.s, self.d, self.cut
        K = self.K
        c.assume(K >= 1)
        c.assume(c.forall(0, K, lambda k: z3.And(
            0 <= h(k), h(k) < 24, 0 <= m(k), m(k) < 60, 0 <= s(k), s(k) < 60), pats=lambda k: [h(k)]))
        c.assume(c.forall(0, K, lambda k: z3.And(-10 ** 5 < d(k), d(k) < 10 ** 5), pats=lambda k: [d(k)]))
        i, j = z3.Int(c.fresh('i')), z3.Int(c.fresh('j'))
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(1 <= i, i < j, j < K), d(i) < d(j)),
                           patterns=[z3.MultiPattern(d(i), d(j))]))
        c.assume(z3.And(cut(0) == 0, cut(K) == n))
        c.assume(c.forall(1, K, lambda k: z3.And(
            0 <= cut(k), cut(k) <= n, z3.Implies(cut(k) < n, d(k) * DAY <= S(cut(k))),
            z3.Implies(cut(k) > 0, S(cut(k) - 1) < d(k) * DAY)), pats=lambda k: [cut(k), d(k)]))

    def _elem(self, k):
        k = zi(k)
        t = SymTime(SInt(self.h(k)), SInt(self.m(k)), SInt(self.s(k)))
        if core.ctx().branch(k == 0):
            return None, t
        return seqs.mkts(SInt(self.d(k) * DAY), None), t

    def tod(self, k):
        return self.h(k) * HOUR + self.m(k) * MIN + self.s(k) * SEC

    def _slen(self):
        return self.n

    def __iter__(self):
        raise Unsupported('loop over a table of any length')

    def __getitem__(self, k):
        raise Unsupported('entry of a table of any length')

    def __len__(self):
        raise Unsupported('length of a table of any length')


def op_group_any(c, w):
    """Tables of any length.  The times of entry k are those of the sessions
    from cut(k) to cut(k + 1), on which entry k is in force; by the law of
    concatenation the result is the times of all sessions in order."""
    f = w.load(TC)._group_times
    c.slices = True
    ix, n, S = sessions(c)
    T = Table(c, 't', n, S)
    tz = seqs.SymTz('zone')
    off = z3.Int('offset')
    c.assume(z3.And(-1000 <= off, off <= 1000))
    out = call(lambda: f(ix, T, tz, SInt(off)))
    if out[0] == 'raise':
        return out, [('no error', z3.BoolVal(False))]
    R = out[1]
    if not isinstance(R, seqs.DatetimeIndex) or R.tz is not seqs.UTC:
        return out, [('an index in UTC is returned', z3.BoolVal(False))]
    if not (R.buf.prov and R.buf.prov[0] == 'flat'):
        raise Unsupported('result is not a recognised concatenation')
    fm = R.buf.prov[1]
    c.use('law of concatenation')
    i, j, k = fm.i, z3.Int('any'), z3.Int('another')
    goals = [('one part per entry', zi(fm.count) == T.K)]
    for q, (facts, entries, obs) in enumerate(fm.cases):
        e = entries[0]
        lo, hi = T.cut(i), T.cut(i + 1)
        ends = z3.And(0 <= lo, lo <= hi, hi <= n)
        ini = z3.And(lo <= k, k < hi)
        g = lambda x: z3.Implies(z3.And(facts), x)
        goals += [
            ('part %d: sessions on which the entry is in force' % q, g(z3.And(
                ends, z3.Implies(z3.And(ini, i > 0), T.d(i) * DAY <= S(k)),
                z3.Implies(z3.And(ini, i + 1 < T.K), S(k) < T.d(i + 1) * DAY)))),
            ('part %d: as many times as sessions' % q, g(zi(e.n) == hi - lo)),
            ('part %d: each is the local time in force on its date' % q, g(z3.Implies(
                z3.And(0 <= j, j < hi - lo),
                e.buf.at(j) == tz.f(S(lo + j) + off * DAY + T.tod(i)))))]
    return out, goals


def op_group_none(c, w):
    f = w.load(TC)._group_times
    ix, n, S = sessions(c)
    out = call(lambda: f(ix, None, seqs.SymTz('zone')))
    return out, [('no table, no times', z3.BoolVal(out[0] == 'ret' and out[1] is None))]


class Group(object):
    """Special dates with one local time: m dates in any order."""

    def __init__(self, c, nm, tz, inside=None):
        self.m, self.D, self.N = z3.Int('m_' + nm), fn('D_' + nm), fn('no_' + nm)
        c.assume(self.m >= 0)
        c.assume(c.forall(0, self.m, lambda k: z3.And(
            self.D(k) == DAY * self.N(k), -10 ** 5 < self.N(k), self.N(k) < 10 ** 5), pats=lambda k: [self.D(k)]))
        if inside is not None:      # the holidays of a calendar between two dates
            c.assume(c.forall(0, self.m, lambda k: z3.And(inside[0] <= self.D(k), self.D(k) <= inside[1]),
                              pats=lambda k: [self.D(k)]))
        self.time, self.tod = tod(c, 'time_' + nm)
        self.tz = tz

    def index(self, tz):
        return seqs.DatetimeIndex(buf=seqs.Buf(SInt(self.m), lambda k: self.D(k)), tz=tz)

    def instant(self, k):
        return self.tz.f(self.D(k) + self.tod)


class SomeCalendar(object):
    """A holiday calendar: its dates between start and end, as a list."""

    def __init__(self, g, start, end):
        self.g, self.start, self.end = g, start, end
        self.calls = 0

    def holidays(self, start=None, end=None, return_name=False):
        if start is not self.start or end is not self.end or return_name:
            raise Unsupported('holidays asked for other dates')
        self.calls += 1
        ctx_use('AbstractHolidayCalendar.holidays')
        return self.g.index(seqs.UTC)


class SomeDates(object):
    """A list of any dates; it may be handed on or copied, nothing else."""
    _vc_copy = True

    def __iter__(self):
        raise Unsupported('loop over any dates')

    __len__ = __getitem__ = __bool__ = __add__ = __radd__ = __contains__ = (
        lambda self, *a: self.__iter__())


def ctx_use(x):
    core.ctx().use(x)


def bounds(c):
    a, b = z3.Int('start'), z3.Int('end')
    c.assume(z3.And(-10 ** 5 < a, a <= b, b < 10 ** 5))
    return (a * DAY, b * DAY), seqs.mkts(SInt(a * DAY), seqs.UTC), seqs.mkts(SInt(b * DAY), seqs.UTC)


def groups(c, tz, reg, adhoc, rng, start, end, nm=''):
    gr = [Group(c, '%sr%d' % (nm, k), tz, inside=rng) for k in range(reg)]
    ga = [Group(c, '%sa%d' % (nm, k), tz) for k in range(adhoc)]
    return gr, ga


def op_special(reg, adhoc, aware):
    def run(c, w):
        mod = w.load(TC)
        tz = seqs.SymTz('zone')
        rng, start, end = bounds(c)
        gr, ga = groups(c, tz, reg, adhoc, rng, start, end)
        cals = [(g.time, SomeCalendar(g, start, end)) for g in gr]
        hoc = [(g.time, g.index(seqs.UTC if aware else None)) for g in ga]
        k = type('Any', (mod.TradingCalendar,), dict(name='any', tz=tz, open_times=(), close_times=()))
        o = k.__new__(k)
        out = call(lambda: o._special_dates(cals, hoc, start, end))
        if out[0] == 'raise' or not isinstance(out[1], seqs.Series):
            return out, [('a series is returned', z3.BoolVal(False))]
        R = out[1]
        return out, special_goals(c, R, gr + ga, rng)
    return run


def special_goals(c, R, gs, rng):
    goals = [('times are in UTC', z3.BoolVal(R.tz is seqs.UTC and (not gs or R.index.tz is seqs.UTC)))]
    n = zi(R.n)
    q, p = z3.Int('any'), z3.Int('another')
    inq = z3.And(0 <= q, q < n)
    if not gs:
        return goals + [('nothing special', n == 0)]
    D, W = R.index.buf.at, R.buf.at
    src = seqs.members(R.index.buf)
    goals.append(('sorted by date', z3.Implies(z3.And(inq, q <= p, p < n), D(q) <= D(p))))
    goals.append(('entries are special dates with their instant, one of them inside the range',
                  z3.Implies(inq, z3.And(z3.Or(z3.And(rng[0] <= W(q), W(q) <= rng[1]),
                                               z3.And(rng[0] <= D(q), D(q) <= rng[1])), sound(c, R, q, gs)))))
    for i, g in enumerate(gs):
        j = z3.Int('some%d' % i)
        pre = z3.And(0 <= j, j < g.m, rng[0] <= g.instant(j), g.instant(j) <= rng[1],
                     rng[0] <= g.D(j), g.D(j) <= rng[1])
        goals.append(('group %d: each special date in the range is there' % i, z3.Implies(pre, z3.Or([
            z3.And(cond(j), 0 <= pos(j), pos(j) < n, D(pos(j)) == g.D(j), W(pos(j)) == g.instant(j))
            for m, cond, pos in src]))))
    return goals


def sound(c, R, q, gs):
    """Entry q equals an element of some group (found through the sources of
    the sequence, otherwise an existential)."""
    D, W = R.index.buf.at, R.buf.at
    out = []
    for g in gs:
        k = z3.Int(c.fresh('src'))
        out.append(z3.Exists([k], z3.And(0 <= k, k < g.m, D(q) == g.D(k), W(q) == g.instant(k))))
    return z3.Or(out)


def arr(c, nm, n):
    """A list of n instants."""
    f = fn(nm)
    c.assume(c.forall(0, n, lambda k: z3.And(-2 ** 62 < f(k), f(k) < 2 ** 62), pats=lambda k: [f(k)]))
    return f


def op_overwrite(which, empty=False):
    """which: 'overwrite' or 'breaks'"""
    def run(c, w):
        mod = w.load(TC)
        f = mod._overwrite_special_dates if which == 'overwrite' else mod._remove_breaks_for_special_dates
        ix, n, S = sessions(c)
        O = arr(c, 'O', n)
        m, D, W = z3.Int('m'), fn('D'), fn('W')
        c.assume(m >= 0)
        i, j = z3.Int(c.fresh('i')), z3.Int(c.fresh('j'))
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), D(i) <= D(j)),
                           patterns=[z3.MultiPattern(D(i), D(j))]))
        # two entries for one date agree
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m, D(i) == D(j)), W(i) == W(j)),
                           patterns=[z3.MultiPattern(D(i), D(j))]))
        opens = seqs.DatetimeIndex(buf=seqs.Buf(SInt(n), lambda k: O(k)), tz=seqs.UTC)
        sp = seqs.Series(buf=seqs.Buf(SInt(m), lambda k: W(k)), dt='M8', tz=seqs.UTC,
                         index=seqs.DatetimeIndex(buf=seqs.Buf(SInt(m), lambda k: D(k)), tz=seqs.UTC))
        out = call(lambda: f(ix, opens, sp))
        a, b = z3.Int('any'), z3.Int('special')
        nosession = z3.Exists([j], z3.And(0 <= j, j < m, z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < n), S(i) != D(j)), patterns=[S(i)])))
        if out[0] == 'raise':
            return out, [('refused with ValueError', z3.BoolVal(isinstance(out[1], ValueError))),
                         ('refused only for a special date that is no session', nosession)]
        R = opens.buf.at
        want = (lambda k: W(k)) if which == 'overwrite' else (lambda k: z3.IntVal(NAT))
        ina = z3.And(0 <= a, a < n)
        return out, [
            ('as many times as before', zi(opens.buf.n) == n),
            ('every special date is a session', z3.Not(nosession)),
            ('special dates get %s' % ('the special time' if which == 'overwrite' else 'no break'),
             z3.Implies(z3.And(ina, 0 <= b, b < m, D(b) == S(a)), R(a) == want(b))),
            ('other dates keep their time', z3.Implies(z3.And(ina, z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < m), D(j) != S(a)), patterns=[D(j)])), R(a) == O(a)))]
    return run


def op_no_breaks(c, w):
    f = w.load(TC)._remove_breaks_for_special_dates
    ix, n, S = sessions(c)
    sp = seqs.Series(buf=seqs.Buf(SInt(z3.Int('m')), lambda k: fn('W')(k)), dt='M8', tz=seqs.UTC, index=ix)
    out = call(lambda: f(ix, None, sp))
    return out, [('no breaks stay no breaks', z3.BoolVal(out[0] == 'ret' and out[1] is None))]


class Minutes(object):
    """The minute list is specified by C01; here it may be anything."""

    def __get__(self, o, cls=None):
        if o is None:
            return self
        well_formed(o)
        return seqs.DatetimeIndex(buf=seqs.Buf(SInt(z3.Int('minutes')), lambda k: fn('minute')(k)), tz=seqs.UTC)


def well_formed(o):
    """Precondition: the times in the final schedule are in order (C25)."""
    if o.__dict__.get('vc_wf'):
        return
    o.__dict__['vc_wf'] = True
    c = core.ctx()
    O, C, n = o._opens.buf.at, o._closes.buf.at, o.vc_n
    i, j = z3.Int(c.fresh('i')), z3.Int(c.fresh('j'))
    fo, fc = c.func('open'), c.func('close')        # names for the two columns
    c.assume(c.forall(0, n, lambda k: z3.And(fo(k) == O(k), fc(k) == C(k), fo(k) < fc(k)), pats=lambda k: [fo(k)]))
    c.assume(c.forall(0, n, lambda k: z3.And(fo(k) == O(k), fc(k) == C(k), fo(k) < fc(k)), pats=lambda k: [fc(k)]))
    c.assume(c.forall(0, n, lambda k: z3.And(fo(k) == O(k), fc(k) == C(k), fo(k) < fc(k)),
                      pats=lambda k: [o.vc_S(k)]))
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.And(
        fo(i) < fo(j), fc(i) < fc(j), fc(i) < fo(j))), patterns=[
            z3.MultiPattern(f(i), g(j)) for f in (fo, fc) for g in (fo, fc)]))
    o._opens.buf.at, o._closes.buf.at = (lambda k: fo(k)), (lambda k: fc(k))
    for f, g in ((fo, o.vc_special[0]), (fc, o.vc_special[1])):
        w, D, W = g.at, g.D, g.W
        if w is None:
            continue
        lemma(c, [i], z3.Implies(z3.And(0 <= i, i < g.m), f(w(i)) == W(i)), [D(i), W(i), w(i)])
        lemma(c, [i, j], z3.Implies(z3.And(0 <= i, i < j, j < g.m), w(i) <= w(j)), [z3.MultiPattern(w(i), w(j))])


def lemma(c, xs, body, pats):
    """Proved from the facts so far, then available to what follows."""
    if core.prove(c.facts, body, ms=4000).status == 'proved':
        c.assume(z3.ForAll(xs, body, patterns=pats))


class Special(object):
    """Result of _special_dates by its contract: dates in order with their
    instant; two entries for one date have the same instant."""

    def __init__(self, c, nm):
        self.m, self.D, self.W, self.N = z3.Int('m_' + nm), fn('D_' + nm), fn('W_' + nm), fn('no_' + nm)
        self.at = None
        D, W, m = self.D, self.W, self.m
        i, j = z3.Int(c.fresh('i')), z3.Int(c.fresh('j'))
        c.assume(m >= 0)
        c.assume(c.forall(0, m, lambda k: z3.And(D(k) == DAY * self.N(k), -10 ** 5 < self.N(k), self.N(k) < 10 ** 5,
                                                 -2 ** 62 < W(k), W(k) < 2 ** 62), pats=lambda k: [D(k)]))
        c.assume(c.forall(0, m, lambda k: z3.And(-2 ** 62 < W(k), W(k) < 2 ** 62), pats=lambda k: [W(k)]))
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), z3.And(
            D(i) <= D(j), z3.Implies(D(i) == D(j), W(i) == W(j)))), patterns=[z3.MultiPattern(D(i), D(j))]))

    def sessions(self, c, n, S, nm, good):
        """Each date is a session (at(j) is its number), or some is not."""
        D = self.D
        if good:
            w = self.at = fn('at_' + nm)
            c.assume(c.forall(0, self.m, lambda k: z3.And(0 <= w(k), w(k) < n, S(w(k)) == D(k)),
                              pats=lambda k: [D(k)]))
            c.assume(c.forall(0, self.m, lambda k: z3.And(0 <= w(k), w(k) < n, S(w(k)) == D(k)),
                              pats=lambda k: [w(k)]))
        else:
            b = z3.Int('not_a_session')
            c.assume(z3.And(0 <= b, b < self.m, c.forall(0, n, lambda k: S(k) != D(b), pats=lambda k: [S(k)])))

    def series(self):
        D, W = self.D, self.W
        return seqs.Series(buf=seqs.Buf(SInt(self.m), lambda k: W(k)), dt='M8', tz=seqs.UTC,
                           index=seqs.DatetimeIndex(buf=seqs.Buf(SInt(self.m), lambda k: D(k)), tz=seqs.UTC))


class SomeTable(object):
    """A table of local times of which only its contract is known: times(k,
    offset) is the time in force on session k."""

    def __init__(self, c, nm, n):
        self.times = z3.Function('regular_' + nm, I, I, I)
        x, y = z3.Int(c.fresh('x')), z3.Int(c.fresh('y'))
        c.assume(z3.ForAll([x, y], z3.And(-2 ** 62 < self.times(x, y), self.times(x, y) < 2 ** 62),
                           patterns=[self.times(x, y)]))

    def __iter__(self):
        raise Unsupported('loop over some table')

    __len__ = __getitem__ = __bool__ = lambda self, *a: self.__iter__()


def op_init(good_opens=True, good_closes=True, breaks=True, empty=False, tables=False):
    """The constructor, using the contract of _special_dates.  Either all
    special opens (closes) are sessions or one of them is not.  tables: the
    tables of times are arbitrary, by the contract of _group_times; otherwise
    they have one entry and _group_times is run."""
    def run(c, w):
        mod = w.load(TC)
        group = mod.__dict__.get('_group_times')
        if tables and group is None:
            raise Unsupported('no _group_times')
        try:
            return body(c, w, mod)
        finally:
            if tables:
                mod._group_times = group

    def body(c, w, mod):
        base = mod.TradingCalendar
        tz = seqs.SymTz('zone')
        ix, n, S = sessions(c, empty=empty)
        rng, start, end = bounds(c)
        c.assume(c.forall(0, n, lambda k: z3.And(rng[0] <= S(k), S(k) <= rng[1]), pats=lambda k: [S(k)]))
        x = z3.Int(c.fresh('x'))
        c.assume(z3.ForAll([x], z3.And(-2 ** 62 < tz.f(x), tz.f(x) < 2 ** 62), patterns=[tz.f(x)]))
        T = {r: tod(c, r) for r in ('open', 'close', 'bstart', 'bend')}
        oo, co = z3.Int('open_offset'), z3.Int('close_offset')
        c.assume(z3.And(-100 < oo, oo < 100, -100 < co, co < 100))
        so, sc = Special(c, 'opens'), Special(c, 'closes')
        so.sessions(c, n, S, 'opens', good_opens)
        sc.sessions(c, n, S, 'closes', good_closes)
        inputs = {'opens': ([object()], [object()]), 'closes': ([object()], [object()])}
        hol, extra = object(), SomeDates()
        calls, made = [], []

        def date_range(st, en, periods, freq, tz_, closed):
            if st is not start or en is not end or periods is not None or closed is not None:
                raise Unsupported('date_range arguments')
            if not isinstance(freq, loader.CustomBusinessDay) or tz_ is not seqs.UTC:
                raise Unsupported('date_range frequency')
            calls.append(freq)
            made.append(seqs.DatetimeIndex(buf=seqs.Buf(SInt(n), lambda k: S(k)), tz=seqs.UTC))
            return made[-1]

        def special_dates(self, calendars, ad_hoc_dates, start_date, end_date):
            if start_date is not start or end_date is not end:
                raise Unsupported('special dates of another range')
            for s, nm in ((so, 'opens'), (sc, 'closes')):
                if calendars is inputs[nm][0] and ad_hoc_dates is inputs[nm][1]:
                    ctx_use('_special_dates by its contract')
                    return s.series()
            raise Unsupported('special dates of other rules')

        def labels(self, index):
            well_formed(self)
            return base.minute_index_to_session_labels(self, index)
        row = lambda r: ((None, T[r][0]),)
        if tables:
            some = {r: SomeTable(c, r, n) for r in T}
            row = lambda r: some[r]

            def group(all_days, times, zone, offset=0):
                if times is None:
                    return None
                if not isinstance(times, SomeTable) or zone is not tz or not any(all_days is x for x in made):
                    raise Unsupported('times of other sessions')
                ctx_use('_group_times by its contract')
                off = zi(offset)
                return seqs.DatetimeIndex(buf=seqs.Buf(SInt(n), lambda k: times.times(k, off)), tz=seqs.UTC)
            mod._group_times = group
        ns = dict(name='any', tz=tz, open_times=row('open'), close_times=row('close'),
                  open_offset=SInt(oo), close_offset=SInt(co), weekmask='1010111',
                  regular_holidays=hol, adhoc_holidays=extra, vc_n=n, vc_special=(so, sc), vc_S=staticmethod(lambda k: S(k)),
                  all_minutes=Minutes(), minute_index_to_session_labels=labels, _special_dates=special_dates)
        for nm in inputs:
            ns['special_' + nm], ns['special_%s_adhoc' % nm] = inputs[nm]
        if breaks:
            ns.update(break_start_times=row('bstart'), break_end_times=row('bend'))
        cls = type('AnyCalendar', (base,), ns)
        loader.DATE_RANGE = date_range
        try:
            out = call(lambda: cls(start, end))
        finally:
            loader.DATE_RANGE = None
        goals = [('one list of sessions is made', z3.BoolVal(len(calls) == 1))]
        if len(calls) == 1:
            f = calls[0]
            goals.append(('from the working week and both kinds of holidays', z3.BoolVal(
                f.weekmask == '1010111' and f.calendar is hol and f.holidays is extra and f.n_ == 1)))
        if empty:
            return out, goals + [('a range without session is refused', z3.BoolVal(out[0] == 'raise'))]
        if out[0] == 'raise':
            return out, goals + [
                ('refused only for a special date that is no session',
                 z3.BoolVal(isinstance(out[1], ValueError) and not (good_opens and good_closes)))]
        if not (good_opens and good_closes):
            return out, goals + [('a special date that is no session is refused', z3.BoolVal(False))]
        cal = out[1]
        a = z3.Int('any')
        ina = z3.And(0 <= a, a < n)
        sch = cal.schedule
        goals.append(('sessions', z3.And(zi(sch.index.n) == n, z3.Implies(ina, sch.index.buf.at(a) == S(a)))))
        goals.append(('first and last session', z3.And(
            zi(cal.first_trading_session.value) == S(0), zi(cal.last_trading_session.value) == S(n - 1),
            zi(cal.first_session.value) == S(0), zi(cal.last_session.value) == S(n - 1))))
        roles = [('open', 'market_open', oo, so, False, cal.market_opens_nanos),
                 ('close', 'market_close', co, sc, False, cal.market_closes_nanos),
                 ('bstart', 'break_start', 0, sc, True, cal.market_break_starts_nanos),
                 ('bend', 'break_end', 0, sc, True, cal.market_break_ends_nanos)]
        for r, col, off, g, br, nanos in roles:
            got = sch[col].buf.at
            goals.append(('%s: stored as numbers' % col, z3.And(
                zi(nanos.n) == n, z3.Implies(ina, nanos.buf.at(a) == got(a)))))
            reg = some[r].times(a, zi(off)) if tables else tz.f(S(a) + off * DAY + T[r][1])
            if br and not breaks:
                goals.append(('%s: no break' % col, z3.Implies(ina, got(a) == NAT)))
                continue
            j, q = z3.Int('special'), z3.Int(c.fresh('q'))
            goals.append(('%s: special time' % col, z3.Implies(
                z3.And(ina, 0 <= j, j < g.m, g.D(j) == S(a)), got(a) == (z3.IntVal(NAT) if br else g.W(j)))))
            goals.append(('%s: regular time' % col, z3.Implies(z3.And(ina, z3.ForAll([q], z3.Implies(
                z3.And(0 <= q, q < g.m), g.D(q) != S(a)), patterns=[g.D(q)])), got(a) == reg)))
        for nm, g, lst in (('late opens', so, cal.late_opens), ('early closes', sc, cal.early_closes)):
            p, q, j = z3.Int('first'), z3.Int('later'), z3.Int('special')
            L = lst.buf.at
            goals.append(('%s: in order, once' % nm, z3.Implies(z3.And(0 <= p, p < q, q < zi(lst.n)), L(p) < L(q))))
            k = z3.Int(c.fresh('src'))
            goals.append(('%s: only special dates' % nm, z3.Implies(z3.And(0 <= p, p < zi(lst.n)), z3.Exists(
                [k], z3.And(0 <= k, k < g.m, L(p) == g.D(k))))))
            src = seqs.members(lst.buf)
            goals.append(('%s: all special dates' % nm, z3.Implies(z3.And(0 <= j, j < g.m), z3.Or([
                z3.And(cond(j), 0 <= pos(j), pos(j) < zi(lst.n), L(pos(j)) == g.D(j)) for m, cond, pos in src]))))
        return out, goals
    return run


def op_breaks(c, w):
    """_check_breaks_match: refuses exactly the lists where one of the two
    break times is missing."""
    f = w.load(TC)._check_breaks_match
    n = z3.Int('n')
    A, B = fn('A'), fn('B')
    c.assume(n >= 0)
    mk = lambda g: seqs.ndarray(seqs.Buf(SInt(n), lambda k: g(k)), 'i8')
    out = call(lambda: f(mk(A), mk(B)))
    k = z3.Int(c.fresh('k'))
    bad = z3.Exists([k], z3.And(0 <= k, k < n, (A(k) == NAT) != (B(k) == NAT)))
    if out[0] == 'raise':
        return out, [('ValueError', z3.BoolVal(isinstance(out[1], ValueError))),
                     ('refused only when a break time is missing', bad)]
    return out, [('nothing missing', z3.Not(bad)), ('no result', z3.BoolVal(out[1] is None))]


OPS = {}
OPS['_check_breaks_match'] = (op_breaks, ('C25',))
ALL = ('C12', 'C13', 'C23', 'C24', 'C25')
OPS['construction'] = (op_init(), ALL)
OPS['construction without breaks'] = (op_init(breaks=False), ALL)
OPS['construction with tables of times of any kind'] = (op_init(tables=True), ALL[:2])
OPS['construction over a range without session'] = (op_init(empty=True), ('C23',))
OPS['construction with a special open that is no session'] = (op_init(good_opens=False), ('C12',))
OPS['construction with a special close that is no session'] = (op_init(good_closes=False), ('C12',))
for _l in (1, 2, 3, 4):
    OPS['_group_times (%d entries)' % _l] = (op_group(_l), ('C12', 'C13'))
OPS['_group_times (any number of entries)'] = (op_group_any, ('C12', 'C13'))
OPS['_group_times (no table)'] = (op_group_none, ('C12',))
for _r in range(3):
    for _a in range(3):
        OPS['_special_dates (%d calendars, %d lists)' % (_r, _a)] = (
            op_special(_r, _a, (_r + _a) % 2 == 0), ('C12', 'C13', 'C24'))
OPS['_overwrite_special_dates'] = (op_overwrite('overwrite'), ('C12', 'C13'))
OPS['_remove_breaks_for_special_dates'] = (op_overwrite('breaks'), ('C12', 'C13'))
OPS['_remove_breaks_for_special_dates (no breaks)'] = (op_no_breaks, ('C12',))


def task(op):
    from . import driver
    w = driver._world()
    run = OPS[op][0]
    rep = generic.verify(op, lambda c: run(c, w), deadline=time.time() + 200)
    d = driver.report_dict(rep)
    d['stats'] = core.take_stats()
    return d
