"""An arbitrary well-formed calendar, built by the real constructor.

The constructor of the class in the repository is executed symbolically with
  * date_range returning an arbitrary strictly increasing list of midnights,
  * conversion of the (distinct) open / break / close times of day to UTC
    returning arbitrary instants subject only to WF (this forgets how the
    times are computed, so the resulting proofs hold for every calendar,
    special opens and closes included: any final schedule is covered).
"""
import datetime

import z3

from spec import api
from . import core, loader, seqs
from .core import NAT, SInt, Unsupported, PathEnd, ctx, mkint, zi
from .seqs import DAY, MIN
from .symlogic import SymArr, SymL

ROLE_TIMES = {'O': datetime.time(1, 0), 'BS': datetime.time(2, 0),
              'BE': datetime.time(3, 0), 'C': datetime.time(4, 0)}


class View(object):
    exec_open = 0
    exec_close = 0


class RoleTz(object):
    """Time zone whose conversion is forgotten except for its role."""
    zone = 'any'

    def __init__(self, arrays, S):
        self.arrays = arrays
        self.S = S


def _role_localize(self, tz, *a, **k):
    """DatetimeIndex.tz_localize(RoleTz)"""
    c = ctx()
    at = self.buf.at
    for role, t in ROLE_TIMES.items():
        if c.must(c.forall(0, self.n, lambda k: at(k) == tz.S(k) + t.hour * seqs.HOUR)):
            f = tz.arrays[role]
            return seqs.DatetimeIndex(buf=seqs.Buf(self.n, lambda k: f(k)), tz=tz)
    raise Unsupported('conversion of times with unknown role')


_orig_localize = seqs.DatetimeIndex.tz_localize


def _localize(self, tz, *a, **k):
    if isinstance(tz, RoleTz):
        return _role_localize(self, tz)
    return _orig_localize(self, tz, *a, **k)


seqs.DatetimeIndex.tz_localize = _localize


def wf(c, n, S, O, BS, BE, C, breaks=True):
    """WF: the precondition under which the queries are specified."""
    def pair(f, g, rel):
        i, j = z3.Int(c.fresh('i')), z3.Int(c.fresh('j'))
        if c.N is not None:
            return z3.And([rel(f(z3.IntVal(a)), g(z3.IntVal(b)))
                           for a in range(n) for b in range(a + 1, n)])
        return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < zi(n)),
                         rel(f(i), g(j))), patterns=[z3.MultiPattern(f(i), g(j))])
    lt = lambda a, b: a < b
    c.assume(zi(n) >= 1)
    c.assume(pair(S, S, lt))
    c.assume(pair(O, O, lt))
    c.assume(pair(C, C, lt))
    c.assume(pair(C, O, lt))

    # whole days / whole minutes are stated with witnesses instead of `mod`
    def one(k):
        return wf_one(k, S, O, BS, BE, C)
    for f in (S, O, C, BS, BE):
        c.assume(c.forall(0, n, one, pats=lambda k: [f(k)]))
        if c.N is not None:
            break


def wf_one(k, S, O, BS, BE, C):
    """WF of one session"""
    lim = 2 ** 62
    fn = lambda nm: z3.Function(nm, z3.IntSort(), z3.IntSort())
    sday, len_, first, second = fn('sday'), fn('len'), fn('first'), fn('second')
    return z3.And(
        S(k) == DAY * sday(k), O(k) < C(k), C(k) == O(k) + MIN * len_(k),
        -lim < O(k), C(k) < lim, -lim < S(k), S(k) < lim,
        (BS(k) == NAT) == (BE(k) == NAT),
        z3.Implies(BS(k) != NAT, z3.And(
            O(k) <= BS(k), BS(k) < BE(k), BE(k) <= C(k),
            BS(k) == O(k) + MIN * first(k), C(k) == BE(k) + MIN * second(k))))


def prepare(c, world, breaks=True, N=None, short=True):
    n = N if N is not None else SInt(z3.Int('n'))
    fn = lambda nm: z3.Function(nm, z3.IntSort(), z3.IntSort())
    arrays = {r: fn(r) for r in ('O', 'BS', 'BE', 'C')}
    S = fn('S')
    wf(c, n, S, arrays['O'], arrays['BS'], arrays['BE'], arrays['C'])
    if N is not None:
        # realisable counterexamples: consecutive days in 2020, sessions on the
        # minute within the day (short ones where minutes are enumerated)
        base = 18267 * DAY          # 2020-01-06
        for k in range(N):
            kk = z3.IntVal(k)
            O, C = arrays['O'](kk), arrays['C'](kk)
            c.assume(z3.And(S(kk) == base + k * DAY, O >= S(kk), C < S(kk) + DAY, O % MIN == 0))
            if short:
                c.assume(C - O <= 3 * MIN)
    if not breaks:
        c.assume(c.forall(0, n, lambda k: arrays['BS'](k) == NAT, pats=lambda k: [arrays['BS'](k)]))
    return n, S, arrays


core.WITNESS = ('len', 'first', 'second', 'sday')


def build(c, world, N=None, breaks=True, cls_path=None, exec_offsets=None, short=True):
    """Returns (calendar object, View).  Raises PathEnd if the constructor
    raises on this path (out of scope of the query contracts)."""
    n, S, arrays = prepare(c, world, breaks, N, short)
    tc = world.load('trading_calendars.trading_calendar')
    base = tc.TradingCalendar
    ns = dict(name='any', tz=RoleTz(arrays, S),
              open_times=((None, ROLE_TIMES['O']),),
              close_times=((None, ROLE_TIMES['C']),),
              break_start_times=((None, ROLE_TIMES['BS']),),
              break_end_times=((None, ROLE_TIMES['BE']),))
    if cls_path:
        mod = world.load(cls_path[0])
        base = getattr(mod, cls_path[1])
        ns.update(regular_holidays=None, open_offset=0, close_offset=0)
    ns[MEMO] = Memo()
    cls = type('AnyCalendar', (base,), ns)
    calls = []

    def date_range(start, end, periods, freq, tz, closed):
        if not isinstance(freq, loader.CustomBusinessDay) or tz is not seqs.UTC:
            raise Unsupported('date_range call')
        calls.append((start, end, freq))
        return seqs.DatetimeIndex(buf=seqs.Buf(n, lambda k: S(k)), tz=seqs.UTC)
    loader.DATE_RANGE = date_range
    start = seqs.Timestamp('1990-01-01', tz=seqs.UTC)
    end = seqs.Timestamp('2050-01-01', tz=seqs.UTC)
    try:
        cal = cls(start, end)
    finally:
        loader.DATE_RANGE = None
    V = View()
    V.n = n
    V.S = SymArr(n, S)
    for r in arrays:
        setattr(V, r, SymArr(n, arrays[r]))
    V.M = None
    return cal, V


class Ghost(object):
    def __init__(self, count, prefix):
        self.count = count
        self.prefix = prefix


def has_quantifier(e, seen):
    if z3.is_quantifier(e):
        return True
    if e.get_id() in seen:
        return False
    seen.add(e.get_id())
    return any(has_quantifier(x, seen) for x in e.children())


def minute_models(world):
    """Sessions of any length whose piece of the minute list differs from the
    specified one: [(model)], for one session on 6 January 2020."""
    from spec import api
    from .symlogic import SymL
    L, out = SymL(), []

    def run(c):
        cal, V = build(c, world)
        buf = cal.all_minutes.buf
        if not (isinstance(buf.prov, tuple) and buf.prov[0] == 'flat'):
            return None
        fm = buf.prov[1]
        k = zi(fm.i)
        fn = lambda nm: z3.Function(nm, z3.IntSort(), z3.IntSort())
        S, O, BS, BE, C = [fn(x) for x in ('S', 'O', 'BS', 'BE', 'C')]
        for facts, entries, obs in fm.cases:
            g = L._pieces_equal(entries, api.n_minutes(L, V, core.mkint(k)),
                                lambda j: api.minute_of(L, V, core.mkint(k), j))
            s = z3.Solver()
            s.set('timeout', 5000)
            s.add([f for f in list(c.facts) + list(facts) if not has_quantifier(f, set())])
            s.add(wf_one(k, S, O, BS, BE, C), k == 0, S(k) == 18267 * DAY, O(k) >= S(k), C(k) < S(k) + DAY,
                  O(k) % MIN == 0, z3.Not(g))
            if s.check() == z3.sat:
                out.append(s.model())
        return None
    for _ in core.explore(run, deadline=None):
        pass
    return out


def attach_minutes(c, cal, V, L):
    """Check that all_minutes is the specified concatenation (obligation) and
    assume the consequences proved in lemmas.py."""
    am = cal.all_minutes
    if c.N is None:
        goal = L.ret_flat_minutes(('ret', am), V)
        r = core.prove(c.facts, goal, ms=15000)
        if r.status != 'proved':
            # the minute list itself is wrong or not understood
            raise Unsupported('the minute list does not match its contract (see C01)')
    f = am.buf.at
    m = am.buf.n
    V.M = SymArr(m, f)
    if c.N is not None:
        return
    Mf = f
    i, j = z3.Int(c.fresh('i')), z3.Int(c.fresh('j'))
    c.use('minute list lemmas (lemmas.py), from the C01 obligations')
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < zi(m)), Mf(i) < Mf(j)),
                       patterns=[z3.MultiPattern(Mf(i), Mf(j))]))
    c.assume(zi(m) >= 1)
    off = z3.Function('off', z3.IntSort(), z3.IntSort())
    c.assume(z3.And(off(0) == 0, off(zi(V.n)) == zi(m)))
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j <= zi(V.n)), off(i) < off(j)),
                       patterns=[z3.MultiPattern(off(i), off(j))]))
    O, C = V.O.f, V.C.f
    # first and last minute of each session, and its neighbours
    c.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zi(V.n)), z3.And(
        0 <= off(i), off(i) < off(i + 1), off(i + 1) <= zi(m),
        Mf(off(i)) == O(i), Mf(off(i + 1) - 1) == C(i))),
        patterns=[O(i), C(i)]))
    c.ghosts['minutes'] = Ghost(
        lambda k: zi(api.n_minutes(L, V, mkint(k))), lambda k: off(k))


# -- state of the object between calls -------------------------------------------


MEMO = '_minute_to_session_label_cache'


class Memo(object):
    """Property installed on the symbolic calendar class.  Once `arbitrary` is
    set, the memo of the last 'next' lookup holds any pair allowed by its
    invariant: nothing, or an instant with the label its contract gives it
    (chosen when it is first read)."""

    def __get__(self, o, cls=None):
        if o is None:
            return self
        st = o.__dict__['vc_memo']
        if st.get('V') is not None:
            V, st['V'] = st['V'], None
            c = ctx()
            if c.branch(z3.Bool('memo_filled')):
                x = z3.Int('memo_instant')
                k = z3.Int('memo_session')
                c.inputs['memo_instant'] = x
                c.assume(memo_inv(V, x, V.S.f(k), k))
                st['val'] = (SInt(x), seqs.mkts(SInt(V.S.f(k)), seqs.UTC))
        return st['val']

    def __set__(self, o, v):
        o.__dict__.setdefault('vc_memo', {})
        o.__dict__['vc_memo']['val'] = v
        o.__dict__['vc_memo']['V'] = None
        o.__dict__['vc_memo']['written'] = True


def arbitrary_cache(c, cal, V, L):
    st = cal.__dict__.get('vc_memo')
    if st is None:
        return
    if st['val'] != (None, None):
        raise Unsupported('initial memo')
    st['V'] = V
    st['written'] = False


def memo_inv(V, x, label, k):
    C = V.C.f
    c = ctx()
    return z3.And(0 <= k, k < zi(V.n), label == V.S.f(k), x <= C(k),
                  c.forall(0, k, lambda j: C(j) < x, pats=lambda j: [C(j)]))


def _bufs(v):
    if isinstance(v, (seqs.ndarray, seqs.Index, seqs.Series)):
        out = [v.buf]
        if isinstance(v, seqs.Series):
            out += _bufs(v.index)
        return out
    if isinstance(v, seqs.DataFrame):
        out = _bufs(v.index)
        for s in v.data.values():
            out += _bufs(s)
        return out
    return []


def snapshot(cal):
    snap = {}
    for k, v in cal.__dict__.items():
        if k != 'vc_memo':
            snap[k] = (v, [(b, b.n, b.at) for b in _bufs(v)])
    return snap


def frame_goal(c, cal, before, V, L):
    """Everything but the memo is as before the call; the memo satisfies its
    invariant.  Other state makes the query "not proved" (bounded check)."""
    for k, (v, bufs) in before.items():
        if cal.__dict__.get(k, None) is not v:
            raise Unsupported('a query changes the attribute %s' % k)
        for b, n, at in bufs:
            if b.at is not at or b.n is not n:
                raise Unsupported('a query changes the data of %s' % k)
        if isinstance(v, (list, dict, set)) :
            raise Unsupported('mutable state in %s' % k)
    for k in cal.__dict__:
        if k not in before and k != 'vc_memo':
            raise Unsupported('a query stores a new attribute: %s' % k)
    st = cal.__dict__.get('vc_memo')
    if st is None or not st['written']:
        return z3.BoolVal(True)
    memo = st['val']
    if not (isinstance(memo, tuple) and len(memo) == 2):
        raise Unsupported('memo of unknown shape')
    x, lab = memo
    if x is None and lab is None:
        return z3.BoolVal(True)
    if isinstance(x, seqs.Timestamp):
        x = x.value
    if not isinstance(x, (int, SInt)) or not isinstance(lab, seqs.Timestamp):
        raise Unsupported('memo of unknown shape')
    if lab.tz is not seqs.UTC:
        return z3.BoolVal(False)
    r = zi(L.lower(V.C, mkint(zi(x))))
    return z3.And(r < zi(V.n), zi(lab.value) == V.S.f(r))
