"""Runs the real code (project interpreter) against the contracts of spec/api.py.

Used to replay counter-models and for the bounded cross-checks."""
import datetime
import os
import random
import sys
import warnings

warnings.simplefilter('ignore')
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.path.insert(1, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

import numpy as np                                     # noqa
import pandas as pd                                    # noqa
import pytz                                            # noqa
from pytz import UTC                                   # noqa

from spec import api                                   # noqa
from spec.logic import Arr, Concrete                   # noqa
from trading_calendars.trading_calendar import TradingCalendar   # noqa
from real.limits import Slow, within                 # noqa

L = Concrete()
NAT = api.NAT
MIN, HOUR, DAY = api.MIN, api.HOUR, api.DAY


class View(object):
    exec_open = 0
    exec_close = 0


def make_view(S, O, BS, BE, C):
    V = View()
    V.n = len(S)
    V.S, V.O, V.BS, V.BE, V.C = Arr(S), Arr(O), Arr(BS), Arr(BE), Arr(C)
    V.M = Arr([api.minute_of(L, V, i, j) for i in range(V.n)
               for j in range(api.n_minutes(L, V, i))])
    return V


def view_of(cal):
    sch = cal.schedule
    col = lambda c: [int(x) for x in sch[c].values.astype('datetime64[ns]').astype(np.int64)]
    return make_view([int(x) for x in sch.index.asi8], col('market_open'),
                     col('break_start'), col('break_end'), col('market_close'))


def tod(ns):
    s = (ns % DAY) // 10 ** 9
    return datetime.time(s // 3600, s // 60 % 60, s % 60)


def build_synthetic(S, O, BS, BE, C, open_offset=0):
    """A real calendar with exactly this schedule (UTC exchange; whole-second
    times of day).  Returns (calendar, view)."""
    ts = lambda v: pd.Timestamp(v)

    def table(vals):
        out = []
        for i, (s, v) in enumerate(zip(S, vals)):
            out.append((None if i == 0 else ts(s), tod(v)))
        return tuple(out)
    has_break = any(b != NAT for b in BS)
    days = set(S)
    hol = [ts(d).tz_localize(UTC) for d in range(S[0], S[-1] + DAY, DAY) if d not in days]
    nobreak = [i for i in range(len(S)) if BS[i] == NAT] if has_break else []
    later = set((c - s) // DAY for s, c in zip(S, C))
    ns = dict(name='synthetic', tz=UTC, open_times=table(O), close_times=table(C),
              weekmask='1111111', adhoc_holidays=hol, open_offset=open_offset,
              close_offset=later.pop() if len(later) == 1 and not has_break else 0)
    if has_break:
        bs = [b if b != NAT else O[i] for i, b in enumerate(BS)]
        be = [b if b != NAT else C[i] for i, b in enumerate(BE)]
        ns['break_start_times'], ns['break_end_times'] = table(bs), table(be)
        ns['special_closes_adhoc'] = [
            (tod(C[i]), [ts(S[i]).tz_localize(UTC)]) for i in nobreak]
    cls = type('Synthetic', (TradingCalendar,), ns)
    # one day more at the end so that special closes of the last session count
    end = ts(S[-1]).tz_localize(UTC)
    if nobreak and nobreak[-1] == len(S) - 1:
        end = ts(S[-1] + DAY - 1).tz_localize(UTC)
    cal = cls(ts(S[0]).tz_localize(UTC), end)
    V = make_view(S, O, BS, BE, C)
    W = view_of(cal)
    for f in ('S', 'O', 'BS', 'BE', 'C'):
        if getattr(V, f).vals != getattr(W, f).vals:
            raise Unrealised('%s: wanted %s got %s' % (f, getattr(V, f).vals, getattr(W, f).vals))
    return cal, V


class Unrealised(Exception):
    pass


def encode(x):
    if isinstance(x, tuple) and len(x) == 2:
        return ('pair', encode(x[0]), encode(x[1]))
    if x is pd.NaT:
        return ('nat',)
    if isinstance(x, pd.Timestamp):
        return ('ts', x.value) if str(x.tz) == 'UTC' else ('other', repr(x))
    if isinstance(x, (bool, np.bool_)):
        return ('bool', bool(x))
    if isinstance(x, (int, np.integer)):
        return ('int', int(x))
    if isinstance(x, pd.DatetimeIndex):
        if str(x.tz) != 'UTC':
            return ('other', repr(x))
        return ('index', [int(v) for v in x.asi8])
    if isinstance(x, pd.Series):
        if str(getattr(x.dt, 'tz', None)) != 'UTC':
            return ('other', repr(x))
        return ('series', [int(v) for v in x.index.asi8],
                [int(v) for v in x.values.astype('datetime64[ns]').astype(np.int64)])
    return ('other', repr(x)[:200])


def outcome(f):
    try:
        return ('ret', encode(f()))
    except Exception as e:
        return ('raise', [k.__name__ for k in type(e).__mro__])


class Args(object):
    pass


def py_args(contract, vals, nanos=False):
    """vals: list of plain values (ints in ns, bools, str, list of ints)."""
    a, py = Args(), []
    for (name, kind), v in zip(contract.args, vals):
        if kind == api.INDEX:
            setattr(a, name, Arr(v))
            py.append(pd.DatetimeIndex(np.array(v, dtype='int64').view('datetime64[ns]'), tz=UTC))
        else:
            setattr(a, name, v)
            if kind == api.SESSION or (kind == api.INSTANT and not nanos):
                py.append(pd.Timestamp(v, tz=UTC))
            else:
                py.append(v)
    return py, a


CONTRACTS = {c.name: c for c in api.CONTRACTS}


def run_one(cal, V, name, vals, nanos=False):
    """(holds, outcome)"""
    ct = CONTRACTS[name]
    py, a = py_args(ct, vals, nanos)
    if ct.kind == 'property':
        out = outcome(lambda: getattr(cal, name))
    else:
        out = outcome(lambda: getattr(cal, name)(*py))
    return bool(ct.post(L, V, a, out)), out


# -- bounded cross-check ----------------------------------------------------------


def synthetic_specs(seed):
    base = 18267 * DAY
    rnd = random.Random(seed)
    one = [(9 * HOUR, NAT, NAT, 9 * HOUR + 3 * MIN)]
    specs = [
        ([base], one, 0),
        ([base], [(9 * HOUR, 9 * HOUR + 2 * MIN, 9 * HOUR + 5 * MIN, 9 * HOUR + 8 * MIN)], 0),
        ([base, base + DAY, base + 4 * DAY],
         [(HOUR, HOUR, 2 * HOUR, 2 * HOUR), (HOUR, NAT, NAT, HOUR + MIN),
          (9 * HOUR, 9 * HOUR + MIN, 9 * HOUR + 2 * MIN, 9 * HOUR + 4 * MIN)], 0),
        # the whole day, closes one minute before the next open
        ([base + i * DAY for i in range(3)], [(0, NAT, NAT, DAY - MIN)] * 3, 0),
        ([base + i * DAY for i in range(3)], [(MIN, NAT, NAT, 0)] * 3, 1),
        ([base + i * DAY for i in range(4)], [(-3 * HOUR, NAT, NAT, 0)] * 4, 0),
    ]
    for _ in range(6):
        n = rnd.randint(1, 5)
        days, d = [], base
        for _ in range(n):
            days.append(d)
            d += rnd.choice([1, 1, 1, 2, 3]) * DAY
        times = []
        for _ in range(n):
            o = rnd.randint(0, 1200) * MIN
            c = o + rnd.randint(1, 12) * MIN
            if rnd.random() < .5 and c - o >= 2 * MIN:
                b = o + rnd.randint(0, (c - o) // MIN - 1) * MIN
                e = b + rnd.randint(1, (c - b) // MIN) * MIN
                times.append((o, b, e, c))
            else:
                times.append((o, NAT, NAT, c))
        specs.append((days, times, 0))
    # long sessions and breaks, seconds, far apart, before 1970
    for start in (base, base, base, -4000 * DAY, base + 2000 * DAY):
        n = rnd.randint(3, 6)
        days, d = [], start
        for _ in range(n):
            days.append(d)
            d += rnd.choice([1, 1, 2, 5, 40]) * DAY
        times = []
        for _ in range(n):
            sec = rnd.choice((0, 0, 30 * 10 ** 9))
            o = rnd.randint(0, 300) * MIN + sec
            c = o + rnd.choice((60, 390, 391, 510, 720, 1020, 1138)) * MIN
            if rnd.random() < .6:
                b = o + rnd.choice((0, 1, 30, 59)) * MIN
                e = rnd.choice((b + MIN, b + (c - b) // MIN // 2 * MIN, c - MIN, c))
                times.append((o, b, max(e, b + MIN), c))
            else:
                times.append((o, NAT, NAT, c))
        specs.append((days, times, 0))
    # sessions of more than a day; opens long before the label
    specs.append(([base, base + 3 * DAY, base + 7 * DAY],
                  [(9 * HOUR, NAT, NAT, 41 * HOUR), (HOUR, NAT, NAT, 30 * HOUR),
                   (0, NAT, NAT, 24 * HOUR)], 0))
    specs.append(([base, base + DAY, base + 2 * DAY],
                  [(-14 * HOUR, NAT, NAT, 2 * HOUR), (-13 * HOUR, NAT, NAT, HOUR),
                   (-20 * HOUR, NAT, NAT, 3 * HOUR)], 0))
    out = []
    for days, times, mode in specs:
        S = list(days)
        col = [[t[j] if t[j] == NAT else s + t[j] for s, t in zip(S, times)] for j in range(4)]
        if mode == 1:       # opens the evening before: skip, covered by shipped ones
            continue
        if any(o < s for s, o in zip(S, col[0])):
            off = -1
        else:
            off = 0
        out.append(dict(S=S, O=col[0], BS=col[1], BE=col[2], C=col[3], open_offset=off))
    return out


def shipped(name):
    """A small piece of a shipped calendar."""
    ts = lambda s: pd.Timestamp(s, tz=UTC)
    if name == 'XHKG':
        from trading_calendars.exchange_calendar_xhkg import XHKGExchangeCalendar as K
        return K(ts('2019-12-20'), ts('2020-01-03'))
    if name == 'XNYS':
        from trading_calendars.exchange_calendar_xnys import XNYSExchangeCalendar as K
        return K(ts('2019-11-25'), ts('2019-12-03'))
    if name == 'CMES':
        from trading_calendars.exchange_calendar_cmes import CMESExchangeCalendar as K
        return K(ts('2019-11-27'), ts('2019-12-02'))
    if name == '24/7':
        from trading_calendars.always_open import AlwaysOpenCalendar as K
        return K(ts('2019-11-27'), ts('2019-11-28'))
    if name == 'us_futures':
        from trading_calendars.us_futures_calendar import QuantopianUSFuturesCalendar as K
        return K(ts('2019-11-27'), ts('2019-12-02'))
    if name == 'XNYS-full':
        from trading_calendars.exchange_calendar_xnys import XNYSExchangeCalendar as K
        return K(ts('1990-01-01'), ts('2021-12-31'))
    if name == 'XHKG-full':
        from trading_calendars.exchange_calendar_xhkg import XHKGExchangeCalendar as K
        return K(ts('2000-01-01'), ts('2021-12-31'))
    raise KeyError(name)


def instants(V, rnd, limit=60):
    pts = set()
    ks = list(range(V.n))
    if V.n > 4:
        ks = [0, 1, V.n // 2, V.n - 2, V.n - 1]
    for k in ks:
        for A in (V.O, V.BS, V.BE, V.C):
            if A(k) != NAT:
                for d in (-MIN, -1, 0, 1, MIN):
                    pts.add(A(k) + d)
        pts.add((V.O(k) + V.C(k)) // 2)
        pts.add(V.S(k))
    pts.add(V.O(0) - 5 * DAY)
    pts.add(V.C(V.n - 1) + 5 * DAY)
    pts = sorted(pts)
    if len(pts) > limit:
        keep = pts[:6] + pts[-6:]
        pts = sorted(set(keep + rnd.sample(pts, limit - 12)))
    return pts


def sessions(V, rnd):
    ks = list(range(V.n)) if V.n <= 6 else [0, 1, 2, V.n // 2, V.n - 2, V.n - 1]
    out = set()
    for k in ks:
        out.add(V.S(k))
        out.add(V.S(k) + DAY)
        out.add(V.S(k) - DAY)
    out.add(V.O(0))
    return sorted(out)


def indexes(V, rnd):
    M = V.M.vals
    inside = sorted(set(M[:4] + M[-4:] + V.O.vals[:5] + V.C.vals[:5]
                        + [b for b in V.BS.vals[:5] if b != NAT]))
    out = [[], [M[0]], [M[-1]], inside, inside[:1] * 2 + inside[1:3], list(reversed(inside)),
           [M[0] - 1] + inside, inside + [M[-1] + 1]]
    for k in range(min(V.n - 1, 4)):
        gap = (V.C(k) + V.O(k + 1)) // 2
        out.append(sorted(inside + [gap]))
    for k in range(min(V.n, 4)):
        if V.BS(k) != NAT and V.BE(k) - V.BS(k) > MIN:
            out.append([V.O(k), V.BS(k) + MIN, V.C(k)])
    for _ in range(3):
        out.append(sorted(rnd.sample(M, min(len(M), 5))))
    # long lists, right and with one minute outside somewhere in the middle
    many = M[:20000]
    out.append(many)
    for k in sorted(set((0, V.n // 3, max(V.n - 2, 0)))):
        if k < V.n - 1 and V.C(k) + MIN < V.O(k + 1) and V.C(k) < many[-1]:
            out.append(sorted(many + [V.C(k) + MIN]))
    return out


def arg_sets(ct, V, rnd, cap):
    import itertools
    dom = []
    for name, kind in ct.args:
        if kind == api.INSTANT:
            dom.append(instants(V, rnd))
        elif kind == api.SESSION:
            dom.append(sessions(V, rnd))
        elif kind == api.COUNT:
            m = len(V.M.vals) if 'minute' in ct.name else V.n
            dom.append(sorted(set([0, 1, -1, 2, -2, 3, -3, 7, -7, m, -m, m - 1, 1 - m, m + 3, -m - 3])))
        elif kind == api.FLAG:
            dom.append([False, True])
        elif kind == api.DIRECTION:
            dom.append(list(api.DIRECTIONS))
        elif kind == api.INDEX:
            dom.append(indexes(V, rnd))
    combos = list(itertools.product(*dom))
    if len(combos) > cap:
        combos = rnd.sample(combos, cap)
    return [list(c) for c in combos]


def bounded(names, seed, cap=150, deadline=None, want_shipped=('XHKG', 'XNYS', 'CMES')):
    """Evaluate contracts on real calendars.  Returns (evaluations, violations,
    distinct, notes)."""
    import time
    rnd = random.Random(seed)
    evals, viol, distinct, notes = 0, [], set(), []
    cals = []
    for sp in synthetic_specs(seed):
        cals.append((dict(kind='synthetic', **sp), lambda sp=sp: build_synthetic(
            sp['S'], sp['O'], sp['BS'], sp['BE'], sp['C'], sp['open_offset'])))
    for nm in want_shipped:
        def mk(nm=nm):
            cal = shipped(nm)
            return cal, view_of(cal)
        cals.append((dict(kind='shipped', name=nm), mk))
    futures = any(CONTRACTS[n].exec_only for n in names)
    if futures:
        def mkf():
            cal = shipped('us_futures')
            V = view_of(cal)
            V.exec_open, V.exec_close = 25 * HOUR // 2, -HOUR
            return cal, V
        cals.append((dict(kind='shipped', name='us_futures'), mkf))
    for spec, mk in cals:
        if deadline and time.time() > deadline:
            notes.append('time budget reached')
            break
        try:
            cal, V = mk()
        except Unrealised as e:
            notes.append('not realised: %s' % str(e)[:200])
            continue
        except Exception as e:
            notes.append('could not build %s: %s: %s' % (spec.get('name', 'synthetic'), type(e).__name__, str(e)[:200]))
            continue
        for nm in names:
            ct = CONTRACTS[nm]
            for vals in arg_sets(ct, V, rnd, cap):
                for nanos in ((False, True) if nm in ('is_open_on_minute', 'minute_to_session_label') else (False,)):
                    ok, out = run_one(cal, V, nm, vals, nanos)
                    evals += 1
                    distinct.add((nm, out[0], str(out[1])[:60]))
                    if not ok:
                        viol.append(dict(calendar=spec, op=nm, args=vals, nanos=nanos,
                                         got=repr(out)[:400]))
                        if len(viol) >= 3:
                            return evals, viol, len(distinct), notes
    return evals, viol, len(distinct), notes


def calendar_from(spec):
    if spec['kind'] == 'synthetic':
        return build_synthetic(spec['S'], spec['O'], spec['BS'], spec['BE'], spec['C'],
                               spec.get('open_offset', 0))
    cal = shipped(spec['name'])
    V = view_of(cal)
    if spec['name'] == 'us_futures':
        V.exec_open, V.exec_close = 25 * HOUR // 2, -HOUR
    return cal, V


def deep(names, seed, deadline):
    """Contracts on calendars of full size.  A call that takes longer than ten
    seconds there is left out, with the rest of that function's calls."""
    import time
    rnd = random.Random(seed)
    ev, viol, distinct = 0, [], set()
    kinds = ['XNYS-full', 'XHKG-full']
    for kind in kinds:
        spec = dict(kind='shipped', name=kind)
        cal, V = calendar_from(spec)
        while time.time() < deadline:
            t0 = time.time()
            for nm in names:
                ct = CONTRACTS[nm]
                for vals in arg_sets(ct, V, rnd, 40):
                    if time.time() > deadline:
                        break
                    try:
                        ok, out = within(10, lambda: run_one(cal, V, nm, vals))
                    except Slow:
                        break
                    ev += 1
                    distinct.add((nm, out[0], str(out[1])[:60]))
                    if not ok:
                        viol.append(dict(calendar=spec, op=nm, args=vals, nanos=False,
                                         got=repr(out)[:300]))
                        return ev, viol, len(distinct)
            if time.time() - t0 > (deadline - time.time()) / 2:
                break
            if ev > 3000:
                break
    return ev, viol, len(distinct)
