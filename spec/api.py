"""Contracts of the calendar's public operations.

One definition, two uses: vc/ proves them for every calendar and every argument
from the real source; real/ evaluates them on real calendar objects.

L is the logic backend, V the view of the calendar:
  V.n                       number of sessions
  V.S V.O V.BS V.BE V.C     session labels, opens, break starts/ends, closes
                            (nanoseconds UTC; NAT where there is no break)
  V.M                       all trading minutes
Precondition WF (well-formed calendar), see wf().
"""
NAT = -9223372036854775808
MIN = 60 * 10 ** 9
HOUR = 60 * MIN
DAY = 24 * HOUR


def open_at(L, V, dt, ignore_breaks):
    """The market is open at dt."""
    def one(k):
        inside = L.And(V.O(k) <= dt, dt <= V.C(k))
        brk = L.And(V.BS(k) != NAT, V.BS(k) < dt, dt < V.BE(k))
        return L.And(inside, L.Or(ignore_breaks, L.Not(brk)))
    return L.Exists(0, V.n, one)


# -- minutes of one session, as a sequence -------------------------------------


def n_minutes(L, V, i):
    whole = (V.C(i) - V.O(i)) // MIN + 1
    first = (V.BS(i) - V.O(i)) // MIN + 1
    second = (V.C(i) - V.BE(i)) // MIN + 1
    return L.If(V.BS(i) == NAT, whole, first + second)


def minute_of(L, V, i, j):
    first = (V.BS(i) - V.O(i)) // MIN + 1
    return L.If(L.Or(V.BS(i) == NAT, j < first),
                V.O(i) + j * MIN,
                V.BE(i) + (j - first) * MIN)


# -- queries ---------------------------------------------------------------------


def is_open_on_minute(L, V, a, out):
    return L.ret_bool(out, open_at(L, V, a.dt, a.ignore_breaks))


def _next(arr):
    def post(L, V, a, out):
        A = arr(V)
        r = L.upper(A, a.dt)
        return L.Ite(r < A.n, lambda: L.ret_ts(out, A(r)),
                     lambda: L.raised(out))
    return post


def _prev(arr):
    def post(L, V, a, out):
        A = arr(V)
        r = L.lower(A, a.dt)
        return L.Ite(r > 0, lambda: L.ret_ts(out, A(r - 1)),
                     lambda: L.raised(out))
    return post


def session_next(L, V, dt, ok, err):
    """first session closing at or after dt"""
    k = L.lower(V.C, dt)
    return L.Ite(k < V.n, lambda: ok(V.S(k)), err)


def minute_to_session_label(L, V, a, out):
    k = L.lower(V.C, a.dt)

    def ok(i):
        return L.ret_label(out, V.S(i))

    def err():
        return L.raised(out)
    if a.direction == 'next':
        return L.Ite(k < V.n, lambda: ok(k), err)
    if a.direction == 'previous':
        return L.Ite(
            k < V.n,
            lambda: L.Ite(V.O(k) <= a.dt, lambda: ok(k),
                          lambda: L.Ite(k > 0, lambda: ok(k - 1), err)),
            lambda: ok(k - 1))
    if a.direction == 'none':
        return L.Ite(open_at(L, V, a.dt, False), lambda: ok(k), err)
    return err()


def minute_index_to_session_labels(L, V, a, out):
    X = a.index
    increasing = L.increasing(X)

    def inside(i):
        return L.Exists(0, V.n, lambda k: L.And(V.O(k) <= X(i), X(i) <= V.C(k)))
    good = L.And(increasing, L.ForAll(0, X.n, inside))
    if L.symbolic:
        return L.index_to_labels(V, X, good, out)
    return L.Ite(good,
                 lambda: L.ret_seq(out, X.n, lambda i: V.S(L.lower(V.C, X(i)))),
                 lambda: L.raised(out, 'ValueError'))


def is_session(L, V, a, out):
    return L.ret_bool(out, L.Exists(0, V.n, lambda k: V.S(k) == a.dt))


def _pos(L, V, s):
    """(is a session, its position)"""
    k = L.lower(V.S, s)
    return k, lambda f, g: L.Ite(
        k < V.n, lambda: L.Ite(V.S(k) == s, lambda: f(), g), g)


def next_session_label(L, V, a, out):
    k, found = _pos(L, V, a.session)
    return found(lambda: L.Ite(k + 1 < V.n, lambda: L.ret_label(out, V.S(k + 1)),
                               lambda: L.raised(out, 'ValueError')),
                 lambda: L.raised(out))


def previous_session_label(L, V, a, out):
    k, found = _pos(L, V, a.session)
    return found(lambda: L.Ite(k > 0, lambda: L.ret_label(out, V.S(k - 1)),
                               lambda: L.raised(out, 'ValueError')),
                 lambda: L.raised(out))


def sessions_in_range(L, V, a, out):
    lo, hi = L.lower(V.S, a.start), L.upper(V.S, a.end)
    return L.ret_seq(out, L.max(hi - lo, 0), lambda j: V.S(lo + j))


def sessions_window(L, V, a, out):
    k, found = _pos(L, V, a.session)

    def ok():
        e = L.max(k + a.count, 0)
        lo = L.min(k, e)
        hi = L.min(L.max(k, e) + 1, V.n)
        return L.ret_seq(out, hi - lo, lambda j: V.S(lo + j))
    return found(ok, lambda: L.raised(out))


def session_distance(L, V, a, out):
    lo, hi = L.min(a.start, a.end), L.max(a.start, a.end)
    d = L.upper(V.S, hi) - L.lower(V.S, lo)
    return L.ret_int(out, L.If(a.end < a.start, -d, d))


def minutes_in_range(L, V, a, out):
    return _minute_slice(L, V, a.start, a.end, out)


def _minute_slice(L, V, t0, t1, out):
    lo, hi = L.lower(V.M, t0), L.upper(V.M, t1)
    return L.ret_seq(out, L.max(hi - lo, 0), lambda j: V.M(lo + j))


def minutes_window(L, V, a, out):
    k = L.upper(V.M, a.dt) - 1          # last minute at or before dt

    def ok():
        lo = L.If(a.count < 0, L.max(k + a.count + 1, 0), k)
        hi = L.If(a.count < 0, k + 1, L.min(k + a.count, V.M.n))
        return L.ret_seq(out, hi - lo, lambda j: V.M(lo + j))
    return L.Ite(k >= 0, ok, lambda: L.raised(out))


def minutes_for_session(L, V, a, out):
    k, found = _pos(L, V, a.session)
    return found(lambda: _minute_slice(L, V, V.O(k), V.C(k), out),
                 lambda: L.raised(out))


def minutes_for_sessions_in_range(L, V, a, out):
    i, f1 = _pos(L, V, a.start)
    j, f2 = _pos(L, V, a.end)

    def err():
        return L.raised(out)
    return f1(lambda: f2(lambda: _minute_slice(L, V, V.O(i), V.C(j), out), err), err)


def minutes_count_for_sessions_in_range(L, V, a, out):
    lo, hi = L.lower(V.S, a.start), L.upper(V.S, a.end)
    return L.Ite(
        lo < hi,
        lambda: L.ret_int(out, L.upper(V.M, V.C(hi - 1)) - L.lower(V.M, V.O(lo))),
        lambda: L.ret_int(out, 0))


def execution_minutes_for_session(L, V, a, out):
    k, found = _pos(L, V, a.session)
    return found(lambda: _minute_slice(L, V, V.O(k) + V.exec_open, V.C(k) + V.exec_close, out),
                 lambda: L.raised(out))


def execution_minutes_for_sessions_in_range(L, V, a, out):
    lo, hi = L.lower(V.S, a.start), L.upper(V.S, a.stop)

    def bounds(i):
        return (L.lower(V.M, V.O(i) + V.exec_open),
                L.upper(V.M, V.C(i) + V.exec_close))

    def length(i):
        b = bounds(i)
        return L.max(b[1] - b[0], 0)
    if L.symbolic:
        return L.ret_flat(out, lo, L.max(hi, lo), bounds, V.M)
    return L.ret_flat(out, lo, max(hi, lo), length, lambda i, j: V.M(bounds(i)[0] + j))


def _column(arr, nat=False):
    def post(L, V, a, out):
        k, found = _pos(L, V, a.session)
        A = arr(V)

        def ok():
            if nat:
                return L.Ite(A(k) == NAT, lambda: L.ret_nat(out),
                             lambda: L.ret_ts(out, A(k)))
            return L.ret_ts(out, A(k))
        return found(ok, lambda: L.raised(out))
    return post


def _columns(arr1, arr2, nat=False):
    p1, p2 = _column(arr1, nat), _column(arr2, nat)

    def post(L, V, a, out):
        k, found = _pos(L, V, a.session)
        return found(lambda: L.ret_pair(out, lambda o: p1(L, V, a, o),
                                        lambda o: p2(L, V, a, o)),
                     lambda: L.raised(out))
    return post


def _range_of(arr):
    def post(L, V, a, out):
        A = arr(V)
        lo, hi = L.lower(V.S, a.start), L.upper(V.S, a.end)
        return L.ret_series(out, L.max(hi - lo, 0), lambda j: V.S(lo + j),
                            lambda j: A(lo + j))
    return post


def first_session(L, V, a, out):
    return L.ret_label(out, V.S(0))


def last_session(L, V, a, out):
    return L.ret_label(out, V.S(V.n - 1))


def all_sessions(L, V, a, out):
    return L.ret_seq(out, V.n, V.S)


def all_minutes(L, V, a, out):
    return L.ret_flat_minutes(out, V) if L.symbolic else L.ret_flat(
        out, 0, V.n, lambda i: n_minutes(L, V, i),
        lambda i, j: minute_of(L, V, i, j))


# (method, property, arguments, postcondition)
INSTANT, SESSION, COUNT, FLAG, DIRECTION, INDEX = (
    'instant', 'session', 'count', 'flag', 'direction', 'index')


class Contract(object):
    def __init__(self, name, props, args, post, kind='method', exec_only=False,
                 needs_minutes=False):
        self.name = name
        self.props = props
        self.args = args
        self.post = post
        self.kind = kind
        self.exec_only = exec_only
        self.needs_minutes = needs_minutes


CONTRACTS = [
    Contract('is_open_on_minute', ['C02'], [('dt', INSTANT), ('ignore_breaks', FLAG)], is_open_on_minute),
    Contract('next_open', ['C03'], [('dt', INSTANT)], _next(lambda V: V.O)),
    Contract('next_close', ['C03'], [('dt', INSTANT)], _next(lambda V: V.C)),
    Contract('previous_open', ['C03'], [('dt', INSTANT)], _prev(lambda V: V.O)),
    Contract('previous_close', ['C03'], [('dt', INSTANT)], _prev(lambda V: V.C)),
    Contract('next_minute', ['C04'], [('dt', INSTANT)], _next(lambda V: V.M), needs_minutes=True),
    Contract('previous_minute', ['C04'], [('dt', INSTANT)], _prev(lambda V: V.M), needs_minutes=True),
    Contract('minute_to_session_label', ['C05', 'C06'], [('dt', INSTANT), ('direction', DIRECTION)], minute_to_session_label),
    Contract('minute_index_to_session_labels', ['C07'], [('index', INDEX)], minute_index_to_session_labels),
    Contract('is_session', ['C08'], [('dt', SESSION)], is_session),
    Contract('next_session_label', ['C08'], [('session', SESSION)], next_session_label),
    Contract('previous_session_label', ['C08'], [('session', SESSION)], previous_session_label),
    Contract('sessions_in_range', ['C08'], [('start', SESSION), ('end', SESSION)], sessions_in_range),
    Contract('sessions_window', ['C08'], [('session', SESSION), ('count', COUNT)], sessions_window),
    Contract('session_distance', ['C08'], [('start', SESSION), ('end', SESSION)], session_distance),
    Contract('minutes_in_range', ['C09'], [('start', INSTANT), ('end', INSTANT)], minutes_in_range, needs_minutes=True),
    Contract('minutes_window', ['C09'], [('dt', INSTANT), ('count', COUNT)], minutes_window, needs_minutes=True),
    Contract('minutes_for_session', ['C09'], [('session', SESSION)], minutes_for_session, needs_minutes=True),
    Contract('minutes_for_sessions_in_range', ['C09'], [('start', SESSION), ('end', SESSION)], minutes_for_sessions_in_range, needs_minutes=True),
    Contract('minutes_count_for_sessions_in_range', ['C10'], [('start', SESSION), ('end', SESSION)], minutes_count_for_sessions_in_range, needs_minutes=True),
    Contract('session_open', ['C11'], [('session', SESSION)], _column(lambda V: V.O)),
    Contract('session_close', ['C11'], [('session', SESSION)], _column(lambda V: V.C)),
    Contract('session_break_start', ['C11'], [('session', SESSION)], _column(lambda V: V.BS, True)),
    Contract('session_break_end', ['C11'], [('session', SESSION)], _column(lambda V: V.BE, True)),
    Contract('open_and_close_for_session', ['C11'], [('session', SESSION)], _columns(lambda V: V.O, lambda V: V.C)),
    Contract('break_start_and_end_for_session', ['C11'], [('session', SESSION)], _columns(lambda V: V.BS, lambda V: V.BE, True)),
    Contract('session_opens_in_range', ['C11'], [('start', SESSION), ('end', SESSION)], _range_of(lambda V: V.O)),
    Contract('session_closes_in_range', ['C11'], [('start', SESSION), ('end', SESSION)], _range_of(lambda V: V.C)),
    Contract('execution_minutes_for_session', ['C21'], [('session', SESSION)], execution_minutes_for_session, needs_minutes=True, exec_only=True),
    Contract('execution_minutes_for_sessions_in_range', ['C21'], [('start', SESSION), ('stop', SESSION)], execution_minutes_for_sessions_in_range, needs_minutes=True, exec_only=True),
    Contract('first_session', ['C23'], [], first_session, kind='property'),
    Contract('last_session', ['C23'], [], last_session, kind='property'),
    Contract('first_trading_session', ['C23'], [], first_session, kind='property'),
    Contract('last_trading_session', ['C23'], [], last_session, kind='property'),
    Contract('all_sessions', ['C23'], [], all_sessions, kind='property'),
    Contract('all_minutes', ['C01'], [], all_minutes, kind='property', needs_minutes=True),
]

DIRECTIONS = ('next', 'previous', 'none', 'sideways')
