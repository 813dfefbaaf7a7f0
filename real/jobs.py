"""Jobs run by the project interpreter."""
import random
import time

JOBS = {}


def job(f):
    JOBS[f.__name__] = f
    return f


@job
def bounded(j):
    from real import harness as h
    ev, viol, distinct, notes = h.bounded(
        j['names'], j['seed'], j.get('cap', 100),
        time.time() + j.get('budget', 60))
    return dict(evaluations=ev, violations=viol, distinct=distinct, notes=notes)


def ask(h, cal, V, q):
    return h.run_one(cal, V, q[0], q[1], q[2])


def follow_ups(h, cx):
    """Questions whose answer shows what an earlier one left behind."""
    out = [[cx['op'], cx['args'], cx.get('nanos', False)]]
    ct = h.CONTRACTS[cx['op']]
    if ct.args and ct.args[0][1] == 'instant':
        for d in ('next', 'previous', 'none'):
            out.append(['minute_to_session_label', [cx['args'][0], d], False])
    return out


def history_differs(h, spec, history):
    """The last question of the history is answered differently on a fresh
    calendar (or the schedule changed)."""
    cal, V = h.calendar_from(spec)
    base = h.view_of(cal)
    for q in history:
        got = ask(h, cal, V, q)[1]
    now = h.view_of(cal)
    for f in ('S', 'O', 'BS', 'BE', 'C'):
        if getattr(now, f).vals != getattr(base, f).vals:
            return 'schedule changed: ' + f
    fresh, V2 = h.calendar_from(spec)
    want = ask(h, fresh, V2, history[-1])[1]
    if got != want:
        return 'answer %r, on a fresh calendar %r' % (got, want)
    return None


@job
def replay(j):
    """Replays candidate counterexamples of calendar queries.  With
    mode='history' only a dependence on earlier questions counts."""
    from real import harness as h
    out = []
    for cx in j['candidates']:
        try:
            cal, V = h.calendar_from(cx['calendar'])
        except h.Unrealised as e:
            out.append(dict(cx, confirmed=None, why='not realisable: %s' % e))
            continue
        except Exception as e:
            out.append(dict(cx, confirmed=None, why='cannot build: %s: %s' % (type(e).__name__, e)))
            continue
        try:
            first = []
            if cx.get('before') is not None:
                first = [['minute_to_session_label', [cx['before'], 'next'], False]]
            res = None
            if j.get('mode') == 'history':
                qs = follow_ups(h, cx)
                for hist in [first + qs[:1]] + [first + qs[:1] + [q] for q in qs]:
                    d = history_differs(h, cx['calendar'], hist)
                    if d:
                        res = dict(cx, confirmed=True, history=hist, got=d)
                        break
                res = res or dict(cx, confirmed=False)
            else:
                for q in first:
                    ask(h, cal, V, q)
                for q in follow_ups(h, cx):
                    if q[0] != cx['op']:
                        continue
                    ok, got = ask(h, cal, V, q)
                    if not ok:
                        res = dict(cx, args=q[1], nanos=q[2], confirmed=True, got=repr(got)[:400])
                        break
                res = res or dict(cx, confirmed=False, got=repr(got)[:400])
            out.append(res)
        except Exception as e:
            out.append(dict(cx, confirmed=None, why='cannot evaluate: %s: %s' % (type(e).__name__, e)))
    return dict(results=out)


def neighbour(h, last, pools, rnd):
    """The question just asked with one argument changed or all of them turned
    round."""
    n, vals = last[0], list(last[1])
    kinds = [k for _, k in h.CONTRACTS[n].args]
    i = rnd.randrange(len(vals))
    r = rnd.random()
    if r < .3 and len(vals) == 2 and kinds[0] == kinds[1]:
        vals.reverse()
    elif r < .6 and h.api.COUNT in kinds:
        i = kinds.index(h.api.COUNT)
        vals[i] = -vals[i]
    else:
        vals[i] = rnd.choice(pools[n])[i]
    return vals


@job
def histories(j):
    """Bounded: random interleavings of questions on one object; an answer that
    breaks its contract is asked again on a fresh calendar, and a difference is
    a violation.  The schedule must stay as it was."""
    from real import harness as h
    rnd = random.Random(j['seed'])
    end = time.time() + j.get('budget', 60)
    names = [n for n in h.CONTRACTS if not h.CONTRACTS[n].exec_only and n != 'all_minutes']
    ev, viol, hist, distinct, wrong = 0, [], 0, set(), set()
    specs = [dict(kind='synthetic', **s) for s in h.synthetic_specs(j['seed'])]
    specs += [dict(kind='shipped', name='XHKG'), dict(kind='shipped', name='XNYS')]
    D, M, S = h.DAY, h.MIN, [18267 * h.DAY + i * h.DAY for i in range(150)]
    specs.append(dict(kind='synthetic', S=S, O=S, BS=[h.NAT] * 150, BE=[h.NAT] * 150,
                      C=[x + D - M for x in S], open_offset=0))
    kind0 = lambda n: h.CONTRACTS[n].args[0][1] if h.CONTRACTS[n].args else None
    for spec in specs:
        for rep in range(j.get('repeat', 2)):
            if time.time() > end or len(viol) >= 2:
                break
            try:
                cal, V = h.calendar_from(spec)
            except Exception:
                break
            pools = {n: h.arg_sets(h.CONTRACTS[n], V, rnd, 60) for n in names}
            base = h.view_of(cal)
            hist += 1
            trace, last = [], None
            # the last, large calendar: some questions of each kind, twice
            plan = [(n, v) for n in names for v in pools[n][:6]] * 2 if spec is specs[-1] else []
            for step in range(len(plan) or j.get('length', 250)):
                r = rnd.random()
                if plan:
                    (n, vals), nanos = plan[step], False
                elif trace and r < .15:
                    n, vals, nanos = rnd.choice(trace[-10:])
                elif last is not None and r < .4:
                    n = rnd.choice([x for x in names if kind0(x) == kind0(last[0])])
                    vals = list(rnd.choice(pools[n]))
                    vals[0] = last[1][0]
                    nanos = False
                elif last is not None and r < .55 and len(last[1]) > 1:
                    n, vals, nanos = last[0], neighbour(h, last, pools, rnd), False
                else:
                    n = rnd.choice(names)
                    vals = rnd.choice(pools[n])
                    nanos = n in ('is_open_on_minute', 'minute_to_session_label') and rnd.random() < .5
                trace.append([n, vals, nanos])
                if vals:
                    last = (n, vals)
                ok, got = h.run_one(cal, V, n, vals, nanos)
                ev += 1
                distinct.add((n, got[0]))
                if not ok and n not in wrong:
                    d = history_differs(h, spec, trace)
                    if d:
                        viol.append(dict(calendar=spec, history=trace, got=d, op=n, args=vals))
                        break
                    wrong.add(n)            # wrong also when fresh: not this property
            now = h.view_of(cal)
            for f in ('S', 'O', 'BS', 'BE', 'C'):
                if getattr(now, f).vals != getattr(base, f).vals and not viol:
                    viol.append(dict(calendar=spec, history=trace, got='schedule changed: ' + f,
                                     op='schedule', args=[]))
    return dict(evaluations=ev, histories=hist, violations=viol, distinct=len(distinct))


@job
def deep(j):
    from real import harness as h
    ev, viol, distinct = h.deep(j['names'], j['seed'], time.time() + j['budget'])
    return dict(evaluations=ev, violations=viol, distinct=distinct)


# -- observance rules ------------------------------------------------------------------


class Conc(object):
    @staticmethod
    def And(*xs):
        return all(xs)


def rule_function(rule):
    import importlib
    return getattr(importlib.import_module('trading_calendars.' + rule.module), rule.name)


def rule_expected(rule, days):
    """The dates (day numbers) the contract allows for these dates."""
    import datetime as dtm
    e = dtm.date(1970, 1, 1)

    def date(d):
        return e + dtm.timedelta(d)
    out = []
    for d in days:
        x = date(d)
        if rule.kind == 'election':
            y = x.year + (-x.year) % 4
            t = x.replace(year=y)
            while t.weekday() != 1:
                t += dtm.timedelta(1)
            out.append((t - e).days)
            continue
        for cond, s in rule.clauses(Conc, x.weekday(), x.year, lambda s: date(d + s).year):
            if cond:
                out.append(d + s)
    return out


def rule_case(rule, f, days):
    """(holds, what was returned)"""
    import pandas as pd
    stamps = [pd.Timestamp(d * 86400 * 10 ** 9) for d in days]
    want = rule_expected(rule, days)
    try:
        if rule.kind == 'list':
            got = f(pd.DatetimeIndex(stamps))
        else:
            got = [f(stamps[0])]
        got = [pd.Timestamp(g) for g in got]
        vals = [g.value // (86400 * 10 ** 9) for g in got]
        ok = set(vals) == set(want) and all(g.tz is None and g == g.normalize() for g in got)
    except Exception as e:
        return False, '%s: %s' % (type(e).__name__, e)
    return ok, [str(g) for g in got]


@job
def rules(j):
    import random
    import datetime as dtm
    from spec import rules as spec
    rnd = random.Random(j['seed'])
    by = dict((r.key, r) for r in spec.RULES)
    e = dtm.date(1970, 1, 1)
    lo, hi = (dtm.date(1950, 1, 1) - e).days, (dtm.date(2051, 1, 1) - e).days
    ev, kinds, viol, replays = 0, set(), [], []
    for c in j.get('candidates', []):
        ok, got = rule_case(by[c['rule']], rule_function(by[c['rule']]), c['dates'])
        replays.append(dict(c, confirmed=not ok, got=got, key=c['rule']))
    for r in spec.RULES if not j.get('candidates') else []:
        f = rule_function(r)
        if r.kind != 'list':
            step = 1 if j.get('full') else 13
            cases = [[d] for d in range(lo + rnd.randrange(step), hi, step)
                     if r.kind != 'election' or not (
                         (e + dtm.timedelta(d)).month == 2 and (e + dtm.timedelta(d)).day == 29)]
        else:
            cases = []
            for k in (range(365) if j.get('full') else rnd.sample(range(365), 60)):     # the same day of every year, as holiday rules are asked
                cases.append([(dtm.date(y, 1, 1) - e).days + k for y in range(1990, 2040)])
            for _ in range(100 if j.get('full') else 30):
                cases.append(sorted(rnd.sample(range(lo, hi), rnd.randrange(1, 30))))
        bad = 0
        for days in cases:
            ev += 1
            ok, got = rule_case(r, f, days)
            kinds.add((r.key, len(days), str(got)[:60]))
            if not ok:
                if len(days) > 1:       # smallest part that fails
                    for d in days:
                        ok1, got1 = rule_case(r, f, [d])
                        if not ok1:
                            days, got = [d], got1
                            break
                viol.append(dict(key=r.key, rule=r.key, dates=days, got=got, want=rule_expected(r, days)))
                bad += 1
                if bad >= 2:
                    break
    if not j.get('candidates'):
        n, seen, bad = year_rules()
        ev += n
        kinds |= seen
        viol += bad
    return dict(evaluations=ev, distinct=len(kinds), violations=viol, results=replays)


def year_rules():
    """The holidays of spec/years.py, every year from 1900 to 2100 (rules that
    are not in the source under their name are passed over)."""
    import datetime as dtm
    import importlib
    import pandas as pd
    from spec import years
    e = dtm.date(1970, 1, 1)
    span = range(1900, 2101)
    ev, kinds, viol = 0, set(), []

    def compare(key, got, want):
        n = 0
        for y in span:
            kinds.add((key, str(want(y))))
            a, b = sorted(got.get(y, [])), [want(y)] if want(y) else []
            if a != b and n < 2:
                n += 1
                viol.append(dict(key=key, rule=key, dates=[(dtm.date(y, 1, 1) - e).days],
                                 got='%s in the year %d' % ([str(x) for x in a], y), want=[str(x) for x in b]))

    def group(ds):
        out = {}
        for d in ds:
            out.setdefault(d.year, []).append(dtm.date(d.year, d.month, d.day))
        return out
    cases = [('tase_holidays', n, 'year', lambda y, n=n: years.hebrew_holiday(n, y)) for n in sorted(years.HEBREW)]
    for module, name, kind, want in cases + years.HOLIDAYS:
        f = getattr(importlib.import_module('trading_calendars.' + module), name, None)
        if f is None:
            continue
        ev += len(span)
        key = '%s.%s' % (module, name)
        try:
            if kind == 'year':
                got = {}
                for y in span:
                    x = f(y)
                    got[y] = [dtm.date(x.year, x.month, x.day)]
            elif kind == 'easter':
                got = group(f('1900', '2101'))
            else:
                h = f() if kind == 'maker' else f
                got = group(h.dates(pd.Timestamp('1900-01-01'), pd.Timestamp('2100-12-31')))
        except Exception as x:
            viol.append(dict(key=key, rule=key, dates=[], got='%s: %s' % (type(x).__name__, x), want=[]))
            continue
        compare(key, got, want)
    return ev, kinds, viol


# -- local times ----------------------------------------------------------------------


def times_case(c):
    """(holds or None if the zone's clock never / twice shows a time, returned, expected)"""
    import datetime as dtm
    import pandas as pd
    import pytz
    from trading_calendars.utils.pandas_utils import days_at_time
    z = pytz.timezone(c['tz'])
    t = dtm.time(*c['time'])
    want = []
    for d in c['dates']:
        w = dtm.datetime.combine(dtm.date(1970, 1, 1) + dtm.timedelta(d + c['offset']), t)
        try:
            want.append(z.localize(w, is_dst=None).astimezone(pytz.UTC))
        except pytz.InvalidTimeError:
            return None, None, None
    ds = [pd.Timestamp(d * 86400 * 10 ** 9) for d in c['dates']]
    kind = c['kind']
    if kind == 'naive':
        ds = pd.DatetimeIndex(ds)
    elif kind == 'utc':
        ds = pd.DatetimeIndex(ds).tz_localize('UTC')
    elif kind == 'list-utc':
        ds = [d.tz_localize('UTC') for d in ds]
    elif kind == 'strings':
        ds = [str(d.date()) for d in ds]
    try:
        if c['offset'] or kind == 'naive':
            got = days_at_time(ds, t, z if kind != 'strings' else c['tz'], c['offset'])
        else:
            got = days_at_time(ds, t, tz=z)
        ok = (isinstance(got, pd.DatetimeIndex) and str(got.tz) == 'UTC' and len(got) == len(want)
              and all(a == b for a, b in zip(got, want)))
        got = [str(g) for g in got]
    except Exception as e:
        ok, got = False, '%s: %s' % (type(e).__name__, e)
    return ok, got, [str(w) for w in want]


@job
def times(j):
    import datetime as dtm
    import pytz
    rnd = random.Random(j['seed'])
    key = 'days_at_time'
    if j.get('candidates'):
        out = []
        for c in j['candidates']:
            ok, got, want = times_case(c)
            out.append(dict(c, confirmed=None if ok is None else not ok, got=got, want=want, key=key))
        return dict(results=out)
    zones = ['America/New_York', 'Europe/London', 'Asia/Hong_Kong', 'Asia/Tokyo', 'America/Sao_Paulo',
             'Australia/Sydney', 'Asia/Kolkata', 'America/Santiago', 'UTC', 'Pacific/Auckland']
    e = dtm.date(1970, 1, 1)
    ev, kinds, viol = 0, set(), []
    for tz in zones:
        z = pytz.timezone(tz)
        near = [(t.date() - e).days for t in getattr(z, '_utc_transition_times', [])
                if 1985 < t.year < 2030]
        for i in range(400 if j.get('full') else 60):
            m = rnd.choice([0, 1, 1, 2, 3, 8])
            dates = [(rnd.choice(near) + rnd.randrange(-3, 4)) if near and rnd.random() < .6
                     else rnd.randrange(5000, 21000) for _ in range(m)]
            if rnd.random() < .7:
                dates.sort()
            c = dict(tz=tz, dates=dates, offset=rnd.choice([0, 0, 0, -1, -1, 1, 2, -2, 7]),
                     time=rnd.choice([[9, 30, 0], [18, 1, 0], [0, 0, 0], [23, 59, 59], [rnd.randrange(24), rnd.randrange(60), rnd.randrange(60)]]),
                     kind=rnd.choice(['naive', 'utc', 'list', 'list-utc', 'strings']))
            ok, got, want = times_case(c)
            if ok is None:
                continue
            ev += 1
            kinds.add((tz, c['kind'], c['offset'], m))
            if not ok and len(viol) < 3:
                viol.append(dict(c, key=key, got=got, want=want))
    return dict(evaluations=ev, distinct=len(kinds), violations=viol)


# -- registry ---------------------------------------------------------------------------


@job
def registry(j):
    from real import registry as R
    if j.get('candidates'):
        return dict(results=[])
    ev, kinds, viol = R.small_scope(j['prop'], j['seed'], j.get('full'))
    return dict(evaluations=ev, distinct=kinds, violations=viol[:5])


@job
def defaults(j):
    """The default registry, completely."""
    import pandas as pd
    from real import registry as R
    from trading_calendars import TradingCalendar
    from trading_calendars import calendar_utils as cu
    if j.get('candidates'):
        return dict(results=[])
    viol, ev = [], 0

    def bad(key, got, **k):
        viol.append(dict(k, key=key, got=got))
    d = cu.global_calendar_dispatcher
    F, A = cu._default_calendar_factories, cu._default_calendar_aliases
    names = set(d.get_calendar_names())
    if names != set(F) | set(A) | set(cu.default_calendar_names):
        bad('names', 'the global registry does not list the defaults: %s' % sorted(
            names ^ (set(F) | set(A))))
    for n in sorted(names):
        ev += 1
        x, steps = n, 0
        while x in A and steps <= len(A):
            x, steps = A[x], steps + 1
        if steps > len(A):
            bad('loop', 'aliases of %r loop' % n)
            continue
        if x not in F:
            bad('dangling', '%r leads to %r, which is not a registered type' % (n, x))
            continue
        try:
            r = d.resolve_alias(n)
        except Exception as e:
            r = type(e).__name__
        if r != x:
            bad('resolve', 'resolve_alias(%r) is %r instead of %r' % (n, r, x))
        if not (isinstance(F[x], type) and issubclass(F[x], TradingCalendar)):
            bad('type', '%r is not a calendar type' % x)
    for n in A:
        ev += 1
        if n in F:
            bad('shadow', 'the alias %r shadows the calendar of that name' % n)
    built = {}
    start, end = pd.Timestamp('2015-03-02', tz='UTC'), pd.Timestamp('2015-05-29', tz='UTC')
    samples = []
    for n in sorted(F):
        ev += 1
        try:
            cal = F[n](start=start, end=end)
            ok = len(cal.all_sessions) > 30
        except Exception as e:
            bad('build', 'calendar %r cannot be built: %s: %s' % (n, type(e).__name__, e))
            continue
        if not ok:
            bad('build', 'calendar %r has %d sessions in a quarter' % (n, len(cal.all_sessions)))
        if cal.name in built:
            bad('distinct', 'calendars %r and %r are both named %r' % (built[cal.name], n, cal.name))
        built[cal.name] = n
        samples.append([n, cal.name, len(cal.all_sessions)])
    # separate registries from the same defaults
    ops = [('register_calendar', 'new', object()), ('register_calendar_type', 'new', object),
           ('register_calendar_alias', 'new', 'XNYS'), ('deregister_calendar', 'NYSE'),
           ('deregister_calendar', 'XNYS'), ('register_calendar_type', 'XNYS', object, True),
           ('register_calendar_alias', 'NYSE', 'XLON', True), ('register_calendar', 'XLON', object(), True),
           ('clear_calendars',)]
    for op in ops:
        ev += 1
        a = cu.TradingCalendarDispatcher({}, F, A)
        b = cu.TradingCalendarDispatcher({}, F, A)
        before = (dict(F), dict(A))
        getattr(a, op[0])(*op[1:])
        if (dict(F), dict(A)) != before or set(b.get_calendar_names()) != set(before[0]) | set(before[1]) or any(
                b.resolve_alias(n) != d.resolve_alias(n) for n in sorted(names)):
            bad('shared', '%s on one registry changes the defaults or another registry' % op[0])
            F.clear(), F.update(before[0]), A.clear(), A.update(before[1])
    fs = R.module_functions()
    if fs:
        bad('module', 'module functions do not belong to the default registry: %s' % fs)
    return dict(evaluations=ev, distinct=len(names) + len(built), violations=viol[:5], samples=samples[:3])


@job
def lazy(j):
    """Random and exhaustive short histories of lazy attributes."""
    import gc
    import itertools
    import numpy as np
    import pandas as pd
    from trading_calendars.utils.memoize import lazyval
    viol, seen, ev = [], set(), 0
    NAT, STAMP, INDEX, ARRAY = pd.NaT, pd.Timestamp('2020-01-02'), pd.DatetimeIndex([]), np.array([1, 2])
    FRAME = pd.DataFrame({'a': []})

    class Boom(Exception):
        pass

    def make():
        log = {'n': 0, 'calls': []}

        class Thing(object):
            def __init__(self, key, values):
                self.key, self.values = key, list(values)

            def _c(self, which):
                log['calls'].append((self.key, which))
                v = self.values.pop(0)
                if isinstance(v, type) and issubclass(v, BaseException):
                    raise v('computation')
                return v

            @lazyval
            def a(self):
                return self._c('a')

            @lazyval
            def b(self):
                return self._c('b')
        return Thing, log

    def run(plan, values):
        """plan: [(object, attribute, operation)]"""
        T, log = make()
        objs = {k: T(k, values[k]) for k in values}
        ref, left = {}, {k: list(v) for k, v in values.items()}
        for step, (k, at, op) in enumerate(plan):
            before = len(log['calls'])
            o = objs[k]
            if op == 'class':
                if getattr(T, at) is not T.__dict__[at] or len(log['calls']) != before:
                    return step, 'reading on the class does not give the attribute'
                continue
            if op == 'set':
                try:
                    setattr(o, at, 'other')
                    return step, 'assignment was accepted'
                except AttributeError:
                    pass
                if len(log['calls']) != before:
                    return step, 'assignment computed the value'
                continue
            if op == 'new':
                # the object goes away and another takes its place
                objs[k] = T(k, left[k])
                ref.pop((k, 'a'), None), ref.pop((k, 'b'), None)
                o = None
                if len(plan) < 3:
                    gc.collect()
                continue
            try:
                got = ('value', getattr(o, at))
            except (Boom, KeyError, AttributeError) as e:
                got = ('error', type(e))
            calls = log['calls'][before:]
            if (k, at) in ref:
                want, n = ('value', ref[k, at]), []
            else:
                v = left[k].pop(0)
                n = [(k, at)]
                if isinstance(v, type) and issubclass(v, BaseException):
                    want = ('error', v)
                else:
                    want = ('value', v)
                    ref[k, at] = v
            if calls != n:
                return step, 'computed %s instead of %s' % (calls, n)
            if got[0] != want[0] or got[1] is not want[1]:
                return step, 'gave %r instead of %r' % (got[1], want[1])
        return None

    def values(rnd):
        class Same(object):
            def __eq__(self, o):
                return True

            def __hash__(self):
                return 1
        pool = [None, 0, '', False, (), 'x', 7, [], Boom, KeyError, AttributeError, float('nan'), 1.5, 0.0, NAT,
                {}, {1: 2}, frozenset(), object(), Same(), int, lambda: 1, iter([1]), -1, b'', True,
                NotImplemented, Ellipsis, 10 ** 30, ValueError('x'), STAMP, INDEX, ARRAY, FRAME]
        return {k: [rnd.choice(pool) if rnd.random() < .7 else [k, i] for i in range(60)] for k in (1, 2, 3)}

    def go(plan, vals):
        r = run(plan, vals)
        if r and len(viol) < 5:
            viol.append(dict(key=r[1].split(' ')[0], plan=plan[:r[0] + 1], got=r[1],
                             values={k: repr(v[:4]) for k, v in vals.items()}))
    rnd = random.Random(j['seed'])
    alphabet = [(k, a, 'get') for k in (1, 2) for a in 'ab'] + [(1, 'a', 'set'), (1, 'a', 'class'), (1, 'a', 'new')]
    for n in (1, 2, 3, 4):
        for plan in itertools.product(alphabet, repeat=n):
            ev += 1
            go(plan, values(rnd))
            seen.add((n, plan[-1], plan.count(plan[-1])))
    for _ in range(3000 if j.get('full') else 400):
        ev += 1
        plan = [(rnd.choice((1, 2, 3)), rnd.choice('ab'),
                 rnd.choice(['get'] * 8 + ['set', 'class'] + (['new'] if rnd.random() < .2 else [])))
                for _ in range(40)]
        go(plan, values(rnd))
        seen.add((40, plan[-1], plan.count(plan[-1])))
    # a computation that reads the attribute of another object
    class Node(object):
        def __init__(self, n):
            self.n, self.next = n, None

        @lazyval
        def total(self):
            return self.n + (self.next.total if self.next else 0)
    ev += 1
    ns = [Node(i) for i in range(5)]
    for a, b in zip(ns, ns[1:]):
        a.next = b
    if [n.total for n in ns] != [10, 10, 9, 7, 4]:
        viol.append(dict(key='nested', plan='nested', got=[n.total for n in ns], values={}))
    # many short-lived objects: none inherits the value of an earlier one
    for i in range(3000):
        n = Node(i)
        ev += 1
        if n.total != i:
            viol.append(dict(key='stale', plan='many objects', got='object %d has the value %d' % (i, n.total),
                             values={}))
            break
        if i % 500 == 0:
            n = None
            gc.collect()
    return dict(evaluations=ev, distinct=len(seen), violations=viol)


@job
def recorded(j):
    """Construction of calendars with recorded holidays around the recorded years."""
    import datetime
    import pandas as pd
    import pytz
    from trading_calendars import calendar_utils as cu
    from trading_calendars.precomputed_trading_calendar import PrecomputedTradingCalendar
    from trading_calendars.trading_calendar import TradingCalendar
    rnd = random.Random(j['seed'])
    viol, seen, ev = [], set(), 0

    def synthetic(table):
        class Recorded(PrecomputedTradingCalendar):
            name = 'REC'
            tz = pytz.UTC
            open_times = ((None, datetime.time(10)),)
            close_times = ((None, datetime.time(11)),)
            precomputed_holidays = pd.to_datetime(table)
        return Recorded

    def bad(key, **k):
        if key not in [v['key'] for v in viol]:
            viol.append(dict(k, key=key))

    def attempt(nm, cls, y0, y1, start, end):
        probe = cls.__new__(cls)
        try:
            TradingCalendar.__init__(probe, start=start, end=end)
        except Exception:
            return          # no sessions in the range
        years = probe.first_trading_session.year, probe.last_trading_session.year
        want = y0 <= years[0] and years[1] <= y1
        try:
            cls(start=start, end=end)
            got = True
        except ValueError:
            got = False
        except Exception as e:
            got = type(e).__name__
        seen.add((nm, years[0] - y0, years[1] - y1, start.dayofweek, end.dayofweek))
        if got != want:
            bad('guard', calendar=nm, start=str(start), end=str(end),
                got='%s although its sessions lie in %d-%d and holidays are recorded for %d-%d' % (
                    {True: 'built', False: 'refused'}.get(got, got), years[0], years[1], y0, y1))
    T = lambda s: pd.Timestamp(s, tz='UTC')

    def around(nm, cls, y0, y1, cheap):
        n = 0
        for y, back in ((y0, True), (y1 + 1, False)):
            cuts = ['%d-12-%d' % (y - 1, d) for d in (29, 30, 31)] + ['%d-01-0%d' % (y, d) for d in range(1, 5)]
            for cut in cuts:
                for days in (0, 1, 3, 20) if j.get('full') else (rnd.choice((0, 1)), 3):
                    a = T(cut)
                    if back:
                        attempt(nm, cls, y0, y1, a, a + pd.Timedelta(days=days))
                    else:
                        attempt(nm, cls, y0, y1, a - pd.Timedelta(days=days), a)
                    n += 1
        for a, b in (('%d-06-01' % (y0 - 1), '%d-02-01' % y0), ('%d-12-01' % y1, '%d-03-01' % (y1 + 1)),
                     ('%d-02-01' % (y0 - 3), '%d-03-01' % (y0 - 3)), ('%d-02-01' % (y1 + 4), '%d-03-01' % (y1 + 4))):
            attempt(nm, cls, y0, y1, T(a), T(b))
            n += 1
        return n

    def defaults(nm, cls, y0, y1, table):
        try:
            cal = cls()
        except Exception as e:
            bad('default', calendar=nm, start='default', end='default', got='not built: %s' % e)
            return
        out = set(pd.to_datetime(table))
        want = [d for d in pd.date_range('%d-01-01' % y0, '%d-12-31' % y1) if d.dayofweek < 5 and d not in out]
        got = [d.tz_localize(None) for d in cal.all_sessions]
        reg = cal.regular_holidays
        if nm == 'synthetic' and got != want or not got or got[0] < pd.Timestamp('%d-01-01' % y0) \
                or got[-1] > pd.Timestamp('%d-12-31' % y1) or (reg is None and (got[0] != want[0] or got[-1] != want[-1])):
            bad('default', calendar=nm, start='default', end='default', got='sessions from %s to %s' % (got[0], got[-1]))
        seen.add((nm, 'default', y1 - y0))
    for i in range(40 if j.get('full') else 14):
        y0 = rnd.randint(1975, 2030)
        y1 = y0 + rnd.choice((0, 1, 2, 3, 7))
        table = ['%d-%02d-%02d' % (y, rnd.randint(1, 12), rnd.randint(1, 28)) for y in (y0, y1)]
        table += ['%d-%02d-%02d' % (rnd.randint(y0, y1), rnd.randint(1, 12), rnd.randint(1, 28))
                  for _ in range(rnd.randint(0, 6))]
        rnd.shuffle(table)
        cls = synthetic(table)
        ev += around('synthetic', cls, y0, y1, True) + 1
        defaults('synthetic', cls, y0, y1, table)
    names = [n for n, f in sorted(cu._default_calendar_factories.items())
             if issubclass(f, PrecomputedTradingCalendar)]
    for n in names:
        cls = cu._default_calendar_factories[n]
        table = cls.__new__(cls).precomputed_holidays
        ys = [pd.Timestamp(x).year for x in table]
        ev += around(n, cls, min(ys), max(ys), False)
    from trading_calendars import exchange_calendar_xhkg as x
    hk = [getattr(x, t, None) for t in (
        'chinese_buddhas_birthday_dates', 'chinese_lunar_new_year_dates', 'day_after_mid_autumn_festival_dates',
        'double_ninth_festival_dates', 'dragon_boat_festival_dates', 'qingming_festival_dates')]
    if all(t is not None for t in hk):
        ev += around('XHKG', cu._default_calendar_factories['XHKG'],
                     max(min(pd.Timestamp(d).year for d in t) for t in hk),
                     min(max(pd.Timestamp(d).year for d in t) for t in hk), False)
    return dict(evaluations=ev, distinct=len(seen), violations=viol, calendars=names)


@job
def text(j):
    """The text calendar, read back."""
    import calendar as stdcal
    import contextlib
    import io
    import pandas as pd
    import trading_calendars
    from trading_calendars import tcal
    rnd = random.Random(j['seed'])
    viol, seen, ev = [], set(), 0

    class Fake(object):
        def __init__(self, sessions):
            self.sessions = sessions

        def is_session(self, d):
            t = pd.Timestamp(d)
            return (t.year, t.month, t.day) in self.sessions

    def run(cal, *args):
        old = trading_calendars.get_calendar
        trading_calendars.get_calendar = lambda name: cal
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf):
                tcal.main(['tcal', 'ANY'] + [str(a) for a in args])
        finally:
            trading_calendars.get_calendar = old
        return buf.getvalue()

    def read_month(lines, y, m, is_session):
        """lines after the title; returns what is wrong"""
        if not lines or lines[0].rstrip() != ' Su  Mo  Tu  We  Th  Fr  Sa':
            return 'no line of weekdays'
        days = []
        for line in lines[1:]:
            line = line.rstrip().ljust(28)
            if len(line) > 28:
                return 'line too long: %r' % line
            for col in range(7):
                cell = line[4 * col:4 * col + 4]
                if not cell.strip():
                    continue
                if cell[0] + cell[3] not in ('  ', '[]') or not cell[1:3].strip().isdigit():
                    return 'cell %r' % cell
                days.append((int(cell[1:3]), col, cell[0] == '['))
        want = []
        for d in range(1, stdcal.monthrange(y, m)[1] + 1):
            col = (stdcal.weekday(y, m, d) + 1) % 7
            want.append((d, col, not is_session(y, m, d)))
        if days != want:
            diff = [(a, b) for a, b in zip(days, want) if a != b][:1] or [(len(days), len(want))]
            return 'days (day, column, marked) %s instead of %s' % diff[0]
        # days of the same week share a line
        return None

    def month(cal, y, m, is_session, kind):
        out = run(cal, m, y)
        lines = out.rstrip('\n').split('\n')
        bad = None
        if stdcal.month_name[m] not in lines[0] or str(y) not in lines[0]:
            bad = 'title %r' % lines[0]
        bad = bad or read_month(lines[1:], y, m, is_session)
        seen.add(('month', stdcal.monthrange(y, m), kind))
        if bad:
            note('month', y, m, bad)

    def note(key, y, m, bad):
        if key not in [v['key'] for v in viol]:
            viol.append(dict(key=key, year=y, month=m, got=bad))

    def year(cal, y, is_session, kind):
        out = run(cal, y)
        lines = out.split('\n')
        seen.add(('year', stdcal.weekday(y, 1, 1), stdcal.isleap(y), kind))
        if lines[0].strip() != str(y):
            return note('year', y, None, 'title %r' % lines[0])
        names = [stdcal.month_name[m] for m in range(1, 13)]
        starts = [i for i, l in enumerate(lines) if l.split() in [names[k:k + 3] for k in (0, 3, 6, 9)]]
        if len(starts) != 4:
            return note('year', y, None, 'rows of months %s' % starts)
        for r, a in enumerate(starts):
            b = starts[r + 1] if r < 3 else len(lines)
            for c in range(3):
                block = [l.ljust(90)[31 * c:31 * c + 28] for l in lines[a + 1:b]]
                bad = read_month(block, y, r * 3 + c + 1, is_session)
                if bad:
                    return note('year', y, r * 3 + c + 1, bad)

    def fake(y, kind):
        days = [(d.year, d.month, d.day) for d in pd.date_range('%d-01-01' % y, '%d-12-31' % y)]
        if kind == 'all':
            s = set(days)
        elif kind == 'none':
            s = set()
        else:
            p = rnd.choice((.1, .5, .9))
            s = set(d for d in days if rnd.random() < p)
        return Fake(s), lambda *d: d in s
    shapes = {}
    for y in range(1970, 2200):
        shapes.setdefault((stdcal.weekday(y, 1, 1), stdcal.isleap(y)), []).append(y)
    years = [rnd.choice(v) for v in shapes.values()] + [1900, 2000, 2100]
    for y in years:
        for kind in ('all', 'none', 'random', 'random'):
            cal, f = fake(y, kind)
            ev += 13
            year(cal, y, f, kind)
            for m in range(1, 13):
                month(cal, y, m, f, kind)
    # real calendars
    from trading_calendars import calendar_utils as cu
    for n in ('XNYS', 'XHKG', 'CMES', '24/7'):
        cal = cu._default_calendar_factories[n](start=pd.Timestamp('2014-12-29', tz='UTC'),
                                                end=pd.Timestamp('2016-01-08', tz='UTC'))
        s = set((d.year, d.month, d.day) for d in cal.all_sessions)
        f = lambda *d: d in s
        ev += 13
        year(cal, 2015, f, n)
        for m in range(1, 13):
            month(cal, 2015, m, f, n)
    return dict(evaluations=ev, distinct=len(seen), violations=viol)


def _builders():
    from real import build
    for f in (build.construct, build.ranges, build.shipped, build.record):
        JOBS[f.__name__] = build.with_pool(f)


_builders()


@job
def library(job):
    from real import library
    return library.library(job)
