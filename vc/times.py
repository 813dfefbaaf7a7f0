"""Contract of days_at_time: local times of day to UTC, for every list of
dates, every time of day, every day offset and every time zone."""
import time

import z3

from . import core, generic, seqs
from .core import SInt, zi
from .seqs import DAY, HOUR, MIN, SEC
from .verify import call

KEY = 'utils.pandas_utils.days_at_time'
DAYS = ('naive', 'utc')         # how the dates are given


class SymTime(object):
    """An arbitrary datetime.time"""
    microsecond = 0
    tzinfo = None

    def __init__(self, h, m, s):
        self.hour, self.minute, self.second = h, m, s


class YearTz(seqs.SymTz):
    """America/New_York in 2016 (finite mode only: counterexamples run on it)."""
    zone = 'America/New_York'
    T1 = 16873 * DAY + 2 * HOUR         # 2016-03-13 02:00 local: clocks forward
    T2 = 17111 * DAY + 2 * HOUR         # 2016-11-06 02:00 local: clocks back

    def __init__(self):
        pass

    def f(self, w):
        return z3.If(z3.And(w >= self.T1, w < self.T2), w + 4 * HOUR, w + 5 * HOUR)

    def g(self, u):
        return z3.If(z3.And(u >= self.T1 + 5 * HOUR, u < self.T2 + 4 * HOUR), u - 4 * HOUR, u - 5 * HOUR)

    def exists(self, w):
        """not in the hour left out or repeated"""
        return z3.And(z3.Or(w < self.T1, w >= self.T1 + HOUR), z3.Or(w < self.T2 - HOUR, w >= self.T2))


def setup(kind, N=None):
    def run(c, world):
        f = world.load('trading_calendars.utils.pandas_utils').days_at_time
        D = z3.Function('D', z3.IntSort(), z3.IntSort())
        V = z3.Function('V', z3.IntSort(), z3.IntSort())
        n = N if N is not None else SInt(z3.Int('n'))
        h, mi, s, off = (z3.Int(x) for x in ('hour', 'minute', 'second', 'offset'))
        c.assume(z3.And(0 <= h, h < 24, 0 <= mi, mi < 60, 0 <= s, s < 60))
        for x in (h, mi, s, off):
            c.inputs[str(x)] = x
        if N is None:
            tz = seqs.SymTz('zone')
            c.assume(zi(n) >= 0)
            c.assume(z3.And(-1000 <= off, off <= 1000))
            c.assume(c.forall(0, n, lambda k: z3.And(-10 ** 5 < D(k), D(k) < 10 ** 5, V(k) == DAY * D(k)),
                              pats=lambda k: [V(k)]))
        else:
            tz = YearTz()
            c.assume(z3.And(-9 <= off, off <= 9))
            for k in range(N):
                c.inputs['d%d' % k] = D(k)
                c.assume(z3.And(16810 <= D(k), D(k) <= 17150, V(k) == DAY * D(k)))
        tod = h * HOUR + mi * MIN + s * SEC
        wall = lambda k: V(k) + off * DAY + tod
        if N is not None:
            for k in range(N):
                c.assume(tz.exists(wall(z3.IntVal(k))))
                c.assume(tz.exists(V(z3.IntVal(k)) + tod))
        ix = seqs.DatetimeIndex(buf=seqs.Buf(n, lambda k: V(k)), tz=seqs.UTC if kind == 'utc' else None)
        out = call(lambda: f(ix, SymTime(SInt(h), SInt(mi), SInt(s)), tz, SInt(off)))
        R = out[1]
        if out[0] == 'raise' or not isinstance(R, seqs.DatetimeIndex):
            return out, [('returns an index', z3.BoolVal(False))]
        if R.tz is not seqs.UTC:
            return out, [('the result is in UTC', z3.BoolVal(False))]
        return out, [
            ('one entry per date', zi(R.n) == zi(n)),
            ('each is the instant of its local time',
             c.forall(0, n, lambda k: R.buf.at(k) == tz.f(wall(k)), pats=lambda k: [V(k)]))]
    return run


def decode(kind):
    def f(c, v, N):
        i = c.inputs
        return dict(kind=kind, dates=[v(i['d%d' % k]) for k in range(N)],
                    time=[v(i[x]) for x in ('hour', 'minute', 'second')], offset=v(i['offset']),
                    tz='America/New_York')
    return f


def task(kind):
    from . import driver
    w = driver._world()
    rep = generic.verify('%s (%s dates)' % (KEY, kind), lambda c: setup(kind)(c, w),
                         deadline=time.time() + 120)
    d = driver.report_dict(rep)
    if not rep.proved:
        d['candidates'] = generic.search(lambda N: lambda c: setup(kind, N)(c, w), (0, 1, 2), decode(kind))
    d['stats'] = core.take_stats()
    return d
