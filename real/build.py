"""How a calendar is built, compared with an independent reference: sessions by
enumerating the days, times with pytz, special times day by day."""
import datetime
import hashlib
import json
import multiprocessing
import os
import random
import re
import warnings

warnings.simplefilter('ignore')
import numpy as np                                     # noqa
import pandas as pd                                    # noqa
import pytz                                            # noqa
from pandas.tseries.holiday import AbstractHolidayCalendar, Holiday   # noqa

NAT = np.iinfo(np.int64).min
DAY = 86400 * 10 ** 9
EPOCH = datetime.date(1970, 1, 1)
RECORD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'recorded.json')


def day_no(x):
    """Day number of a date given in any form."""
    if isinstance(x, Holiday):
        x = datetime.date(x.year, x.month, x.day)
    return pd.Timestamp(x).tz_localize(None).normalize().value // DAY


def date(d):
    return EPOCH + datetime.timedelta(int(d))


def T(d):
    return pd.Timestamp(int(d) * DAY, tz='UTC')


def show(v):
    return None if v is None else 'none' if v == NAT else str(pd.Timestamp(int(v)))


def local(tz, d, t, off=0):
    """UTC nanoseconds of the local time t of day d + off; None if the clock
    shows it twice or never."""
    naive = datetime.datetime.combine(date(d + off), datetime.time(t.hour, t.minute, t.second))
    if isinstance(tz, str):
        tz = pytz.timezone(tz)
    try:
        u = tz.localize(naive, is_dst=None).astimezone(pytz.UTC)
    except (pytz.AmbiguousTimeError, pytz.NonExistentTimeError):
        return None
    x = u.replace(tzinfo=None) - datetime.datetime(1970, 1, 1)
    return (x.days * 86400 + x.seconds) * 10 ** 9


def by_day(table):
    return None if table is None else [(None if s is None else day_no(s), t) for s, t in table]


def in_force(table, d):
    t = None
    for start, time in table:
        if start is None or start <= d:
            t = time
    return t


def days_of(cal, lo, hi):
    """Dates of a holiday calendar, asked over a range that holds lo..hi."""
    if cal is None:
        return set()
    lo, hi = max(lo - 800, -100000), min(hi + 800, 100000)
    rules = AbstractHolidayCalendar(rules=list(cal.rules))
    return set(day_no(x) for x in rules.holidays(pd.Timestamp(lo * DAY), pd.Timestamp(hi * DAY)))


def specials(decl, kind, lo, hi):
    """{date: [times]} of the special opens or closes with a date in lo..hi"""
    out = {}
    for t, c in getattr(decl, 'special_' + kind):
        for d in days_of(c, lo, hi):
            if lo <= d <= hi:
                out.setdefault(d, []).append(t)
    for t, ds in getattr(decl, 'special_%s_adhoc' % kind):
        for d in ds:
            d = day_no(d)
            if lo <= d <= hi:
                out.setdefault(d, []).append(t)
    return out


def working(weekmask):
    names = ['mon', 'tue', 'wed', 'thu', 'fri', 'sat', 'sun']
    m = re.sub(r'\s', '', weekmask)
    if set(m) <= set('01'):
        return [c == '1' for c in m]
    return [n in weekmask.lower() for n in names]


def session_days(decl, lo, hi):
    w = working(decl.weekmask)
    out = set(day_no(x) for x in decl.adhoc_holidays) | days_of(decl.regular_holidays, lo, hi)
    return [d for d in range(lo, hi + 1) if w[(d + 3) % 7] and d not in out]


def columns(cal):
    sch = cal.schedule
    col = lambda c: [int(x) for x in sch[c].values.astype('datetime64[ns]').astype(np.int64)]
    return dict(S=[int(x) for x in sch.index.asi8], opens=col('market_open'), starts=col('break_start'),
                ends=col('break_end'), closes=col('market_close'))


BOUND = day_no('1970-01-01'), day_no('2200-12-31')


def compare(cal, lo, hi):
    """Differences of a built calendar and the reference:
    [dict(prop=, key=, known=, date=, what=, got=, want=)]"""
    out = []
    got = columns(cal)
    note = lambda prop, key, **k: out.append(dict(k, prop=prop, key=key))
    S = [v // DAY for v in got['S']]
    want = session_days(cal, lo, hi)
    if any(v % DAY for v in got['S']) or S != want:
        diff = sorted(set(S) ^ set(want)) or [d for d, e in zip(S, want) if d != e][:1] or [lo]
        unknown = [d for d in diff if BOUND[0] <= d <= BOUND[1]]
        for d in unknown[:1] or diff[:1]:
            note('C23', 'sessions', known=None if unknown else 'D5', date=str(date(d)),
                 got='is%s a session' % ('' if d in set(S) else ' not'), want='the opposite')
    if not S or got['S'] != sorted(set(got['S'])):
        note('C23', 'sessions', known=None, date='', got='not increasing', want='increasing')
        return out
    for attr, k in (('first_trading_session', 0), ('last_trading_session', -1)):
        v = getattr(cal, attr)
        if v.value != got['S'][k] or str(v.tz) != 'UTC':
            note('C23', attr, known=None, date='', got=str(v), want=str(date(S[k])))
    if str(cal.schedule.index.tz) != 'UTC':
        note('C23', 'zone', known=None, date='', got=str(cal.schedule.index.tz), want='UTC')
    offs = dict(opens=cal.open_offset, closes=cal.close_offset, starts=0, ends=0)
    tables = dict(opens=by_day(cal.open_times), closes=by_day(cal.close_times),
                  starts=by_day(cal.break_start_times), ends=by_day(cal.break_end_times))
    sp = {k: specials(cal, k, lo, hi) for k in ('opens', 'closes')}
    start, end = lo * DAY, hi * DAY
    replaced = {}
    for kind in ('opens', 'closes'):
        reg = {}
        taken = set()
        for d, v in zip(S, got[kind]):
            t = in_force(tables[kind], d)
            r = local(cal.tz, d, t, offs[kind]) if t is not None else None
            if d in sp[kind]:
                ws = [local(cal.tz, d, t) for t in sp[kind][d]]
                if None in ws or r is None:
                    taken.add((d, None))
                    continue
                if v in ws:
                    drop = all(not start <= w <= end for w in ws)
                    taken.add((d, None if v == r and drop else True))
                    continue
                drop = all(not start <= w <= end for w in ws)
                known = 'D4' if drop and v == r and d in (lo, hi) else None
                if known:
                    taken.add((d, False))
                note('C12', kind, known=known, date=str(date(d)), got=show(v), want=show(ws[0]))
            elif r is not None and v != r:
                note('C12', kind, known=None, date=str(date(d)), got=show(v), want=show(r))
        replaced[kind] = taken
        lst = cal.late_opens if kind == 'opens' else cal.early_closes
        vals = [int(x) for x in lst.asi8] if len(lst) else []
        ds = [v // DAY for v in vals]
        if any(v % DAY for v in vals) or ds != sorted(set(ds)):
            note('C24', kind, known=None, date='', got=str(list(lst)[:4]), want='increasing session labels')
        else:
            may = dict(taken)
            for d in sorted(set(ds) | set(may)):
                w = may.get(d, False)
                if w is None:
                    continue
                if (d in ds) != w:
                    note('C24', kind, known=None, date=str(date(d)),
                         got='listed' if d in ds else 'not listed', want='the opposite')
        if vals and str(lst.tz) != 'UTC':
            note('C24', kind, known=None, date='', got=str(lst.tz), want='UTC')
    for kind in ('starts', 'ends'):
        for i, (d, v) in enumerate(zip(S, got[kind])):
            t = in_force(tables[kind], d) if tables[kind] is not None else None
            r = local(cal.tz, d, t) if t is not None else NAT
            if r is None:
                continue
            if d in sp['closes'] and tables[kind] is not None:
                w = dict(replaced['closes']).get(d)
                if w is None:
                    continue
                r = r if w is False else NAT
            if v != r:
                note('C12', 'breaks', known=None, date=str(date(d)), got=show(v), want=show(r))
    return out


def expect_error(decl, lo, hi):
    """A special date inside the range that is not a session; None when it only
    counts by its date (instant outside)."""
    S = set(session_days(decl, lo, hi))
    res = False
    for kind in ('opens', 'closes'):
        for d, ts in specials(decl, kind, lo, hi).items():
            if d not in S:
                ws = [local(decl.tz, d, t) for t in ts]
                if any(w is not None and lo * DAY <= w <= hi * DAY for w in ws):
                    return True
                res = None
    return res


# -- made-up calendars -------------------------------------------------------------

ZONES = ('UTC', 'America/New_York', 'Asia/Hong_Kong', 'Europe/London', 'Asia/Tokyo',
         'America/Chicago', 'America/Santiago', 'Australia/Sydney', 'Asia/Kolkata', 'Pacific/Auckland')


def made_up(rnd, big=False):
    """(class, lo, hi); big: years of sessions, with many holidays, special
    dates and entries in the tables of times."""
    from trading_calendars.trading_calendar import HolidayCalendar, TradingCalendar
    lo, era = day_no('1995-01-01') + rnd.randint(0, 9000), rnd.random()
    if era < .08:
        lo = day_no('2040-01-01') + rnd.randint(0, 55000)
    elif era < .16:                 # no rules of holidays there (D5)
        lo = day_no('1930-01-01') + rnd.randint(0, 12000)
    hi = lo + rnd.choice((0, 1, 2, 5, 12, 30, 30, 90, 200, 400))
    if big:
        hi = lo + rnd.choice((2000, 4000))
    tm = lambda h0, h1: datetime.time(rnd.randint(h0, h1 - 1), rnd.randint(0, 59))
    near = lambda: rnd.choice((lo - 3, lo - 1, lo, lo, lo + 1, hi - 1, hi, hi, hi + 1, rnd.randint(lo, hi),
                               rnd.randint(lo, hi), rnd.randint(lo, hi)))
    ts = lambda d: pd.Timestamp(int(d) * DAY)

    def table(h0, h1):
        n = rnd.choice((10, 30, 60) if big else (1, 1, 2, 2, 3, 5))
        starts = sorted(set(near() for _ in range(n - 1)))
        return tuple([(None, tm(h0, h1))] + [(ts(s), tm(h0, h1)) for s in starts])
    ns = dict(name='MADE', tz=pytz.timezone(rnd.choice(ZONES + ('Pacific/Auckland', 'Australia/Sydney'))))
    oo, co = rnd.choice((0, 0, 0, -1)), rnd.choice((0, 0, 0, 1))
    ns['open_offset'], ns['close_offset'] = oo, co
    ns['open_times'] = table(8, 10) if oo == 0 else table(17, 23)
    ns['close_times'] = table(14, 17) if co == 0 else table(4, 7)
    if oo == -1 and co == 1:
        ns['close_offset'], ns['close_times'] = 0, table(14, 17)
    if rnd.random() < .5:
        ns['break_start_times'], ns['break_end_times'] = table(11, 12), table(12, 13)
    ns['weekmask'] = rnd.choice(('1111100', '1111100', '1111111', '1111001', '1010101', 'Mon Tue Wed Thu Fri Sat'))
    hol = [near() for _ in range(rnd.choice((400, 1500, 2500) if big else (0, 1, 3, 6)))]
    if big:
        hol += rnd.sample(range(lo, hi + 1), len(hol) // 2)
    form = rnd.choice((lambda ds: [T(d) for d in ds], lambda ds: [ts(d) for d in ds],
                       lambda ds: pd.DatetimeIndex([ts(d) for d in ds]),
                       lambda ds: [date(d).isoformat() for d in ds]))
    ns['adhoc_holidays'] = [T(d) for d in hol]
    if rnd.random() < .6 and lo >= BOUND[0]:
        rules = []
        for _ in range(rnd.randint(1, 3)):
            x = date(near())
            if (x.month, x.day) != (2, 29):
                rules.append(Holiday('h%d' % len(rules), month=x.month, day=x.day))
        if rules:
            ns['regular_holidays'] = HolidayCalendar(rules)
    base = type('Base', (TradingCalendar,), dict(ns))
    S = session_days(base.__new__(base), lo, hi)
    contradiction = rnd.random() < (0 if big else .15)
    used = {'opens': set(), 'closes': set()}
    pools = {'opens': None, 'closes': None}
    for kind, h in (('opens', (10, 11)), ('closes', (11, 14))):
        reg, adhoc = [], []
        pick = [d for d in ([lo, hi] if rnd.random() < .5 else []) if d in S]
        pick += [rnd.choice(S) for _ in range(rnd.choice((150, 400) if big else (0, 1, 2, 4)))] if S else []
        # pandas cannot make rules for 29 February
        pick = sorted(d for d in set(pick) if (date(d).month, date(d).day) != (2, 29))
        rnd.shuffle(pick)
        cut = rnd.randint(0, len(pick)) if lo >= BOUND[0] else 0
        for part, dest in ((pick[:cut], 'reg'), (pick[cut:], 'adhoc')):
            k = rnd.randint(0, len(part))
            for g in (part[:k], part[k:]):
                t = datetime.time(rnd.randint(h[0], h[1] - 1), rnd.randint(0, 59))
                if g and rnd.random() < .4:
                    # the instant on which the range itself starts or ends
                    w = T(g[0]).tz_convert(ns['tz']).time()
                    t = w if h[0] <= w.hour < h[1] else t
                if dest == 'reg':
                    rules = []
                    for d in g:
                        x = date(d)
                        # one year only, so that it does not meet a holiday elsewhere
                        rules.append(Holiday('s%d' % d, month=x.month, day=x.day, start_date=ts(d), end_date=ts(d)))
                    if g:       # pandas cannot ask an empty calendar with aware dates
                        reg.append((t, HolidayCalendar(rules)))
                elif g or rnd.random() < .1:
                    extra = [lo - 400, hi + 400] if rnd.random() < .3 else []
                    adhoc.append((t, form(sorted(g + extra)) if rnd.random() < .5 else form(g + extra)))
        if contradiction and rnd.random() < .7:
            out = [d for d in range(lo, hi + 1) if d not in set(S)]
            if out:
                t = datetime.time(rnd.randint(h[0], h[1] - 1), rnd.randint(0, 59))
                adhoc.append((t, form([rnd.choice(out)])))
        ns['special_' + kind], ns['special_%s_adhoc' % kind] = reg, adhoc
    return type('MadeUp', (TradingCalendar,), ns), lo, hi


def describe(ns, lo, hi):
    tab = lambda t: None if t is None else [(str(a)[:10], str(b)) for a, b in t]
    return dict(tz=str(ns.tz), range=[str(date(lo)), str(date(hi))], opens=tab(ns.open_times),
                closes=tab(ns.close_times), breaks=[tab(ns.break_start_times), tab(ns.break_end_times)],
                offsets=[ns.open_offset, ns.close_offset], weekmask=ns.weekmask,
                holidays=[str(x)[:10] for x in ns.adhoc_holidays],
                regular=[str(r) for r in ns.regular_holidays.rules] if ns.regular_holidays else [],
                special={k: [(str(t), [str(r) for r in c.rules]) for t, c in getattr(ns, 'special_' + k)] +
                         [(str(t), [str(x)[:10] for x in ds]) for t, ds in getattr(ns, 'special_%s_adhoc' % k)]
                         for k in ('opens', 'closes')})


def one_made_up(seed):
    rnd = random.Random(seed)
    cls, lo, hi = made_up(rnd, big=seed % 64 == 0)
    decl = cls.__new__(cls)
    err = expect_error(decl, lo, hi)
    S = session_days(decl, lo, hi)
    shape = (len(decl.open_times), len(decl.close_times), decl.break_start_times is not None,
             decl.open_offset, decl.close_offset, len(decl.special_opens), len(decl.special_opens_adhoc),
             len(decl.special_closes), len(decl.special_closes_adhoc), min(len(S), 3), err)
    try:
        cal = cls(T(lo), T(hi))
    except Exception as e:
        if not S or (err is True and isinstance(e, ValueError)) or err is None:
            return shape, []
        props = ['C12']
        try:                    # the sessions alone
            type('Plain', (cls,), dict(special_opens=[], special_closes=[], special_opens_adhoc=[],
                                       special_closes_adhoc=[]))(T(lo), T(hi))
        except Exception:
            props.append('C23')
        return shape, [dict(prop=prop, key='construction', known=None, date='', got='%s: %s' % (
            type(e).__name__, str(e)[:200]), want='ValueError' if err else 'built',
            calendar=describe(decl, lo, hi)) for prop in props]
    if not S:
        return shape, [dict(prop='C23', key='empty', known=None, date='', got='built', want='an error',
                            calendar=describe(decl, lo, hi))]
    if err:
        return shape, [dict(prop='C12', key='not a session', known=None, date='', got='built', want='ValueError',
                            calendar=describe(decl, lo, hi))]
    out = compare(cal, lo, hi)
    for v in out:
        v['calendar'] = describe(decl, lo, hi)
    return shape, out


# -- shipped calendars -------------------------------------------------------------

def fast_minutes():
    """The list of minutes is not needed here and large."""
    from trading_calendars import trading_calendar as tc
    if hasattr(tc, 'compute_all_minutes'):
        tc.compute_all_minutes = lambda *a, **k: pd.DatetimeIndex([], tz='UTC')


def factories():
    from trading_calendars import calendar_utils as cu
    return cu._default_calendar_factories


def recorded_years(name, cls):
    """Years covered by the recorded tables, if the calendar has any."""
    from trading_calendars.precomputed_trading_calendar import PrecomputedTradingCalendar
    year = lambda x: pd.Timestamp(x).year
    if issubclass(cls, PrecomputedTradingCalendar):
        ys = [year(x) for x in cls.__new__(cls).precomputed_holidays]
        return min(ys), max(ys)
    if name == 'XHKG':
        from trading_calendars import exchange_calendar_xhkg as x
        ts = [getattr(x, t, None) for t in (
            'chinese_buddhas_birthday_dates', 'chinese_lunar_new_year_dates', 'day_after_mid_autumn_festival_dates',
            'double_ninth_festival_dates', 'dragon_boat_festival_dates', 'qingming_festival_dates')]
        ts = [t for t in ts if t is not None]
        if ts:
            return max(min(map(year, t)) for t in ts), min(max(map(year, t)) for t in ts)
    return None


def supported(name, cls, y0=1960, y1=2060):
    r = recorded_years(name, cls)
    if r:
        y0, y1 = max(y0, r[0]), min(y1, r[1])
    return y0, y1


def whole(y0, y1):
    return day_no('%d-01-01' % y0), day_no('%d-12-31' % y1)


def interesting(decl, lo, hi, S):
    """Dates where the range matters: specials, switches of tables, holidays."""
    ds = set()
    for k in ('opens', 'closes'):
        ds |= set(specials(decl, k, lo, hi))
    sw = set()
    for t in (decl.open_times, decl.close_times, decl.break_start_times, decl.break_end_times):
        sw |= set(day_no(a) for a, _ in t or () if a is not None)
    return sorted(ds), sorted(d for d in sw if lo <= d <= hi)


def digests(cal, y0, y1):
    """Per year (without the first and last, where the range may cut): short
    digests of the sessions, of their times and of the special sessions."""
    G = columns(cal)
    late, early = set(cal.late_opens), set(cal.early_closes)
    rows = {y: ([], [], []) for y in range(y0 + 1, y1)}
    for k, s in enumerate(G['S']):
        d = date(s // DAY)
        if d.year in rows:
            a, b, c = rows[d.year]
            a.append(str(d))
            b.append('%s %s' % (d, [G[x][k] for x in ('opens', 'starts', 'ends', 'closes')]))
            t = pd.Timestamp(s, tz='UTC')
            if t in late or t in early:
                c.append('%s %s %s' % (d, t in late, t in early))
    h = lambda x: hashlib.sha1('\n'.join(x).encode()).hexdigest()[:10]
    return {str(y): [h(x) for x in r] for y, r in rows.items()}


def against_record(name, cal, y0, y1):
    """Differences from the record of the exchanges' dates (spec/recorded.json)."""
    with open(RECORD) as f:
        rec = json.load(f).get(name, {})
    out = []
    for y, got in sorted(digests(cal, y0, y1).items()):
        for prop, what, g, w in zip(('C23', 'C12', 'C24'), ('sessions', 'times', 'special sessions'),
                                    got, rec.get(y, got)):
            if g != w:
                out.append(dict(prop=prop, key='recorded %s' % what, known=None, date=y, calendar=name,
                                got='other %s' % what, want='the recorded %s of that year' % what))
                if prop == 'C23':
                    break           # the times follow
    return out


def one_shipped(task):
    name, seed, n, prop = task
    fast_minutes()
    rnd = random.Random('%s %s' % (seed, name))
    cls = factories()[name]
    y0, y1 = supported(name, cls, 1990, 2030)
    lo, hi = whole(y0, y1)
    res, ev, seen = [], 0, set()

    def attempt(a, b):
        try:
            return cls(start=T(a), end=T(b))
        except Exception as e:
            decl = cls.__new__(cls)
            S = session_days(decl, a, b)
            if not S or (S[0] < lo or S[-1] > hi):
                return None
            res.append(dict(prop='C12', key='construction', known=None, date='', want='built',
                            calendar=name, range=[str(date(a)), str(date(b))],
                            got='%s: %s' % (type(e).__name__, str(e)[:200])))
    ranges = [(lo, hi)]
    cal = attempt(lo, hi)
    if cal is not None:
        sp, sw = interesting(cal, lo, hi, cal)
        for _ in range(n):
            p = rnd.choice([x for x in (sp, sw) if x] or [range(lo, hi)])
            d = rnd.choice(list(p))
            w = rnd.choice((0, 1, 3, 10, 40))
            ranges.append(rnd.choice(((d, min(hi, d + w)), (max(lo, d - w), d), (max(lo, d - 1), min(hi, d + 1)),
                                      (max(lo, d - w), min(hi, d + 2)))))
    for a, b in ranges:
        c = cal if (a, b) == (lo, hi) else attempt(a, b)
        if c is None:
            continue
        ev += len(c.schedule)
        seen.add((name, b - a))
        for v in compare(c, a, b):
            res.append(dict(v, calendar=name, range=[str(date(a)), str(date(b))]))
    if cal is not None:
        res += against_record(name, cal, y0, y1)
    return ev, sorted(map(str, seen)), res


def construct(j, pool):
    """Made-up and shipped calendars against the reference; job['prop'] picks
    the differences that count."""
    ev, seen, res = 0, set(), []
    n = 3000 if j.get('full') else 640
    for shape, out in pool.imap_unordered(one_made_up, [j['seed'] * 1000003 + i for i in range(n)], chunksize=8):
        ev += 1
        seen.add(str(shape))
        res += out
    for e, s, out in pool.imap_unordered(one_shipped, [
            (name, j['seed'], 12 if j.get('full') else 2, j['prop']) for name in sorted(factories())], chunksize=1):
        ev += e
        seen.update(s)
        res += out
    # regular holidays before 1970 (known finding D5)
    for name, a, b in (('XNYS', '1969-12-01', '1970-01-31'), ('XLON', '1965-12-01', '1965-12-31')):
        if name in factories():
            lo, hi = day_no(a), day_no(b)
            c = factories()[name](start=T(lo), end=T(hi))
            ev += len(c.schedule)
            res += [dict(v, calendar=name, range=[a, b]) for v in compare(c, lo, hi)]
    return collect(j, ev, seen, res)


def collect(j, ev, seen, res):
    viol, known, keys = [], {}, set()
    for v in sorted(res, key=lambda v: str(v.get('calendar')).startswith('{')):
        if v['prop'] != j['prop']:
            continue
        if v['known']:
            known.setdefault(v['known'], []).append(v)
        elif v['key'] not in keys:
            keys.add(v['key'])
            viol.append(v)
    return dict(evaluations=ev, distinct=len(seen), violations=viol,
                known={k: dict(count=len(v), example=v[0]) for k, v in known.items()})


def one_range(task):
    """Sub-ranges of one shipped calendar against the whole range."""
    name, seed, n = task
    fast_minutes()
    rnd = random.Random('%s %s' % (seed, name))
    cls = factories()[name]
    lo, hi = whole(*supported(name, cls, 1990, 2030))
    full = cls(start=T(lo), end=T(hi))
    F = columns(full)
    row = {s: k for k, s in enumerate(F['S'])}
    sp, sw = interesting(full, lo, hi, full)
    res, ev, seen = [], 0, set()
    spec = {k: specials(full, k, lo, hi) for k in ('opens', 'closes')}
    for i in range(n):
        p = [x for x in (sp, sp, sw) if x]
        d = rnd.choice(list(rnd.choice(p))) if p and rnd.random() < .8 else rnd.randint(lo, hi)
        w = rnd.choice((0, 1, 3, 10, 40, 400))
        a, b = rnd.choice(((d, d + w), (d - w, d), (d - w, d + 2), (d - 1, d + 1)))
        a, b = max(a, lo), min(b, hi)
        want = [s for s in F['S'] if a * DAY <= s <= b * DAY]
        if not want:
            continue
        ev += len(want)
        seen.add((name, i))
        rng = [str(date(a)), str(date(b))]
        try:
            c = cls(start=T(a), end=T(b))
        except Exception as e:
            res.append(dict(prop='C13', key='construction', known=None, date='', calendar=name, range=rng,
                            got='%s: %s' % (type(e).__name__, str(e)[:200]), want='built'))
            continue
        G = columns(c)
        if G['S'] != want:
            res.append(dict(prop='C13', key='sessions', known=None, date='', calendar=name, range=rng,
                            got='%d sessions' % len(G['S']), want='%d sessions' % len(want)))
            continue
        for k, s in enumerate(G['S']):
            dd = s // DAY
            for kind in ('opens', 'closes', 'starts', 'ends'):
                v, f = G[kind][k], F[kind][row[s]]
                if v == f:
                    continue
                known = None
                src = 'opens' if kind == 'opens' else 'closes'
                if dd in (a, b) and dd in spec[src]:
                    ws = [local(c.tz, dd, t) for t in spec[src][dd]]
                    if all(x is not None and not a * DAY <= x <= b * DAY for x in ws):
                        t = dict(opens=c.open_times, closes=c.close_times, starts=c.break_start_times,
                                 ends=c.break_end_times)[kind]
                        off = dict(opens=c.open_offset, closes=c.close_offset).get(kind, 0)
                        if v == local(c.tz, dd, in_force(by_day(t), dd), off):
                            known = 'D4'
                res.append(dict(prop='C13', key=kind, known=known, date=str(date(dd)), calendar=name, range=rng,
                                got=show(v), want=show(f)))
    return ev, sorted(map(str, seen)), res


def one_made_range(seed):
    rnd = random.Random(seed)
    cls, lo, hi = made_up(rnd, big=seed % 64 == 0)
    try:
        full = cls(T(lo - 2), T(hi + 2))
    except Exception:
        return 0, [], []
    F = columns(full)
    res, seen = [], []
    spec = {k: specials(full, k, lo - 3, hi + 3) for k in ('opens', 'closes')}
    ev = 0
    for _ in range(3):
        a = rnd.choice((lo, lo - 1, rnd.randint(lo - 1, hi)))
        b = rnd.choice((hi, hi + 1, rnd.randint(a, hi + 1)))
        b = max(a, b)
        want = [(s, o, x, y, c) for s, o, x, y, c in zip(F['S'], F['opens'], F['starts'], F['ends'], F['closes'])
                if a * DAY <= s <= b * DAY]
        if not want:
            continue
        ev += len(want)
        seen.append(str((seed, a - lo, b - hi)))
        try:
            c = cls(T(a), T(b))
        except Exception as e:
            res.append(dict(prop='C13', key='construction', known=None, date='', calendar=describe(full, a, b),
                            got='%s: %s' % (type(e).__name__, str(e)[:200]), want='built'))
            continue
        G = columns(c)
        got = list(zip(G['S'], G['opens'], G['starts'], G['ends'], G['closes']))
        if [g[0] for g in got] != [w[0] for w in want]:
            res.append(dict(prop='C13', key='sessions', known=None, date='', calendar=describe(full, a, b),
                            got=len(got), want=len(want)))
            continue
        for g, w in zip(got, want):
            if g == w:
                continue
            d = g[0] // DAY
            known = None
            if d in (a, b):
                k = [kk for kk in ('opens', 'closes') if d in spec[kk] and all(
                    not a * DAY <= (local(c.tz, d, t) or 0) <= b * DAY for t in spec[kk][d])]
                sk = dict(opens=(1,), closes=(2, 3, 4))
                if all(any(i in sk[kk] for kk in k) for i in range(5) if g[i] != w[i]):
                    known = 'D4'
            res.append(dict(prop='C13', key='times', known=known, date=str(date(d)), calendar=describe(full, a, b),
                            got=[show(x) for x in g], want=[show(x) for x in w]))
    return ev, seen, res


def ranges(j, pool):
    ev, seen, res = 0, set(), []
    n = 1500 if j.get('full') else 320
    tasks = [(one_made_range, j['seed'] * 1000003 + 500000 + i) for i in range(n)]
    tasks += [(one_range, (name, j['seed'], 40 if j.get('full') else 6)) for name in sorted(factories())]
    for e, s, out in pool.imap_unordered(apply, tasks, chunksize=2):
        ev += e
        seen.update(s)
        res += out
    return collect(dict(j, prop='C13'), ev, seen, res)


def apply(t):
    return t[0](t[1])


# -- every shipped calendar is well formed ---------------------------------------------

def well_formed(G):
    """First row that is not well formed: (row, what)"""
    n = len(G['S'])
    O, B, E, C = (np.array(G[k], dtype=np.int64) for k in ('opens', 'starts', 'ends', 'closes'))
    M = 60 * 10 ** 9
    for what, bad in (
            ('open missing', O == NAT), ('close missing', C == NAT), ('open not before close', O >= C),
            ('one end of the break missing', (B == NAT) != (E == NAT)),
            ('break not between open and close',
             (B != NAT) & (E != NAT) & ~((O <= B) & (B < E) & (E <= C))),
            ('open not on a minute', O % M != 0), ('close not on a minute', C % M != 0),
            ('break not on a minute', ((B != NAT) & (B % M != 0)) | ((E != NAT) & (E % M != 0))),
            ('close not before the next open', np.append(C[:-1] >= O[1:], False) if n else np.array([], bool))):
        k = np.flatnonzero(bad)
        if len(k):
            return int(k[0]), what
    return None


def one_well_formed(task):
    name, seed, n = task
    fast_minutes()
    rnd = random.Random('%s %s' % (seed, name))
    cls = factories()[name]
    lo, hi = whole(*supported(name, cls))
    res, ev, seen = [], 0, []
    todo = [(lo, hi)]
    for _ in range(n):
        a = rnd.randint(lo, hi - 15)
        todo.append((a, min(hi, a + rnd.choice((10, 60, 300)))))
    full = None
    for a, b in todo:
        rng = [str(date(a)), str(date(b))]
        v = dict(prop='C25', known=None, calendar=name, range=rng, date='', want='')
        try:
            c = cls(start=T(a), end=T(b))
        except Exception as e:
            res.append(dict(v, key='construction', got='%s: %s' % (type(e).__name__, str(e)[:200])))
            continue
        G = columns(c)
        if full is None and (a, b) == (lo, hi):
            # ranges of few sessions: a single one, and around special dates
            full = [x // DAY for x in G['S']]
            sp = [day_no(x) for ks in (c.late_opens, c.early_closes) for x in ks]
            one = rnd.choice(full)
            todo += [(one, one), (full[0], full[0]), (full[-1], full[-1])]
            for d in rnd.sample(sp, min(len(sp), 2 + n)):
                todo.append(rnd.choice(((d, d), (max(lo, d - 1), d), (d, min(hi, d + 1)),
                                        (max(lo, d - 1), min(hi, d + 1)))))
        ev += len(G['S'])
        seen.append('%s %d' % (name, b - a))
        bad = well_formed(G)
        if bad:
            res.append(dict(v, key=bad[1], date=str(date(G['S'][bad[0]] // DAY)), got='%s: %s' % (
                bad[1], [show(G[k][bad[0]]) for k in ('opens', 'starts', 'ends', 'closes')])))
        for what, ks in (('late open', c.late_opens), ('early close', c.early_closes)):
            for x in ks[~ks.isin(c.schedule.index)][:1]:
                res.append(dict(v, key=what, date=str(x), got='%s is not a session' % what))
    return ev, seen, res


def shipped(j, pool):
    ev, seen, res = 0, set(), []
    for e, s, out in pool.imap_unordered(one_well_formed, [
            (name, j['seed'], 20 if j.get('full') else 2) for name in sorted(factories())], chunksize=1):
        ev += e
        seen.update(s)
        res += out
    return dict(collect(dict(j, prop='C25'), ev, seen, res), calendars=len(factories()))


def one_record(name):
    fast_minutes()
    cls = factories()[name]
    y0, y1 = supported(name, cls, 1990, 2030)
    lo, hi = whole(y0, y1)
    return name, digests(cls(start=T(lo), end=T(hi)), y0, y1)


def record(j, pool):
    return dict(record=dict(pool.imap_unordered(one_record, sorted(factories()), chunksize=1)))


def with_pool(f):
    def run(j):
        with multiprocessing.get_context('fork').Pool(int(os.environ.get('VERIF_JOBS') or 6)) as p:
            return f(j, p)
    return run
