"""Contracts of numpy and pandas, as executable symbolic models.

These classes are the *trusted library contracts* of the verifier: a one
dimensional array / index / series is a length and a function from positions
to values, both symbolic and unbounded.  The contracts are compared with the
real numpy/pandas by vc/libcheck.py.

Whatever is not modelled raises Unsupported, which makes the function under
verification "not proved" - never "proved".
"""
import datetime as _dt

import z3

from . import core
from .core import (NAT, SBool, SInt, Unsupported, PathEnd, ctx, mkbool, mkint,
                   zb, zi)

NS = 1
US = 1000
MS = 1000 * US
SEC = 1000 * MS
MIN = 60 * SEC
HOUR = 60 * MIN
DAY = 24 * HOUR

UTC = None            # set by the loader (the real pytz.UTC)


def slen(x):
    return mkint(x) if z3.is_expr(x) else x


class Base(object):
    """Attribute access outside of the modelled interface is Unsupported."""

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        raise Unsupported('%s.%s' % (type(self).__name__, name))


def norm_pos(n, k, what='index'):
    """Position k of a sequence of length n as Python does it; forks into the
    IndexError case."""
    n, k = zi(n), zi(k)
    c = ctx()
    if not c.branch(z3.And(k < n, k >= -n)):
        raise IndexError('%s out of bounds' % what)
    if c.branch(k >= 0):
        return z3.simplify(k)
    return z3.simplify(k + n)


def norm_slice(n, s):
    """(lo, length) of a slice with step 1 / None."""
    if s.step is not None and s.step != 1:
        if s.step == -1 and s.start is None and s.stop is None:
            return None
        raise Unsupported('slice step')
    c = ctx()
    n_ = zi(n)

    def clamp(v, default):
        if v is None:
            return default
        v = zi(as_int(v))
        if not c.branch(v >= 0):
            v = v + n_
            if not c.branch(v >= 0):
                return z3.IntVal(0)
        if not c.branch(v <= n_):
            return n_
        return v
    lo = clamp(s.start, z3.IntVal(0))
    hi = clamp(s.stop, n_)
    if c.branch(lo <= hi):
        return z3.simplify(lo), z3.simplify(hi - lo)
    return z3.simplify(lo), z3.IntVal(0)


def as_int(v):
    if isinstance(v, (int, SInt)):
        return v
    if isinstance(v, (SBool, bool)):
        return mkint(zi(v))
    if isinstance(v, SFloat):
        return v.as_int()
    raise Unsupported('integer expected, got %s' % type(v).__name__)


class SFloat(Base):
    """A float known to hold an exact integer (timedelta64[m] counts)."""

    def __init__(self, e):
        self.e = e

    def as_int(self):
        return mkint(self.e)


class Buf(object):
    __slots__ = ('n', 'at', 'prov')

    def __init__(self, n, at, prov=None):
        self.n = n            # int | SInt
        self.at = at          # z3 Int -> z3 term
        self.prov = prov


def rows(n, vals):
    vals = list(vals)

    def at(k):
        k = z3.simplify(zi(k))
        if z3.is_int_value(k):
            i = k.as_long()
            if 0 <= i < len(vals):
                return vals[i]
            return vals[0] if vals else z3.IntVal(0)
        out = vals[-1] if vals else z3.IntVal(0)
        for i in range(len(vals) - 2, -1, -1):
            out = z3.If(k == i, vals[i], out)
        return out
    return at


class DType(object):
    def __init__(self, name, unit='ns'):
        self.name = name
        self.unit = unit
        self.kind = {'i8': 'i', 'b': 'b', 'M8': 'M', 'm8': 'm', 'f8': 'f',
                     'O': 'O'}[name]

    def __repr__(self):
        return self.name


def dtype_of(d):
    if d is None:
        return None
    if isinstance(d, DType):
        return d.name
    if d in (int, 'int64', 'i8', 'int', '<i8') or getattr(d, '__name__', '') in ('int64', 'intp', 'int_', 'int', 'np_int64', 'b_int'):
        return 'i8'
    if d is bool or getattr(d, '__name__', '') in ('bool_', 'bool') or d == 'bool':
        return 'b'
    if isinstance(d, str):
        if d in ('datetime64[ns]', 'M8[ns]', '<M8[ns]', 'datetime64[ns, UTC]'):
            return 'M8'
        if d in ('timedelta64[ns]', 'm8[ns]', '<m8[ns]'):
            return 'm8'
        if d in ('timedelta64[m]', 'm8[m]'):
            return 'm8[m]'
        if d in ('float', 'float64', 'f8'):
            return 'f8'
    if d is float or getattr(d, '__name__', '') == 'float64':
        return 'f8'
    raise Unsupported('dtype %r' % (d,))


def scalar(dt, e, tz=None):
    """The Python-level scalar for an array element."""
    if dt == 'b':
        return mkbool(e)
    if dt == 'i8':
        return mkint(e)
    if dt == 'f8':
        return SFloat(e)
    if dt == 'M8':
        return datetime64(mkint(e))
    if dt == 'm8':
        return timedelta64(mkint(e))
    raise Unsupported('scalar of dtype %s' % dt)


def is_nat(e):
    return e == z3.IntVal(NAT)


class ndarray(Base):
    _vc_seq = True

    def __init__(self, buf, dt, view=False):
        self.buf = buf
        self.dt = dt
        self._view = view

    # -- basic
    @property
    def n(self):
        return self.buf.n

    def at(self, k):
        return self.buf.at(k)

    def _slen(self):
        return self.buf.n

    size = property(lambda self: self.buf.n)
    shape = property(lambda self: (self.buf.n,))
    ndim = property(lambda self: 1)
    dtype = property(lambda self: DType(self.dt))
    T = property(lambda self: self)
    values = property(lambda self: self)
    base = None

    def _elem(self, k):
        return scalar(self.dt, self.buf.at(k))

    def __len__(self):
        if isinstance(self.buf.n, int):
            return self.buf.n
        return ctx().concretize(self.buf.n)

    def __bool__(self):
        raise Unsupported('truth value of an array')

    def __iter__(self):
        if isinstance(self.buf.n, int):
            return iter([self._elem(z3.IntVal(i)) for i in range(self.buf.n)])
        raise Unsupported('iteration over a sequence of symbolic length')

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if isinstance(k, slice):
            r = norm_slice(self.n, k)
            at = self.buf.at
            if r is None:
                n = zi(self.n)
                return ndarray(Buf(self.n, lambda i: at(n - 1 - i)), self.dt,
                               True)
            lo, m = r
            return ndarray(Buf(mkint(m), lambda i: at(lo + i)), self.dt, True)
        if isinstance(k, (ndarray, Index, Series)):
            return ndarray(take_or_mask(self.buf, k), self.dt)
        if isinstance(k, list):
            return ndarray(take_or_mask(self.buf, array(k)), self.dt)
        if isinstance(k, (int, SInt, SBool)):
            return self._elem(norm_pos(self.n, k))
        raise Unsupported('array index %s' % type(k).__name__)

    def __setitem__(self, k, v):
        if self._view:
            raise Unsupported('assignment through a view')
        old = self.buf.at
        if isinstance(k, (int, SInt)):
            p = norm_pos(self.n, k)
            val = coerce(v, self.dt)
            self.buf.at = lambda i: z3.If(i == p, val, old(i))
            return
        if isinstance(k, slice):
            r = norm_slice(self.n, k)
            if r is None:
                raise Unsupported('reverse slice assignment')
            lo, m = r
            if isseq(v):
                b = to_buf(v, self.dt)
                if not ctx().branch(zi(b.n) == m):
                    raise ValueError('could not broadcast')
                self.buf.at = lambda i: z3.If(z3.And(lo <= i, i < lo + m),
                                              b.at(i - lo), old(i))
            else:
                val = coerce(v, self.dt)
                self.buf.at = lambda i: z3.If(z3.And(lo <= i, i < lo + m),
                                              val, old(i))
            return
        if isinstance(k, list):
            k = array(k)
        if isinstance(k, (Index, Series)):
            k = k.values
        if isinstance(k, ndarray) and k.dt == 'b':
            m = k.buf.at
            if not ctx().branch(zi(k.n) == zi(self.n)):
                raise IndexError('boolean index did not match')
            if isseq(v):
                self._masked_set(m, to_buf(v, self.dt))
                return
            val = coerce(v, self.dt)
            self.buf.at = lambda i: z3.If(m(i), val, old(i))
            return
        if isinstance(k, ndarray) and k.dt == 'i8':
            self._scatter(k, v)
            return
        raise Unsupported('array assignment')

    def _masked_set(self, m, v):
        old = self.buf.at
        sel = mask_buf(Buf(self.n, lambda i: i), m)
        if not ctx().branch(zi(sel.n) == zi(v.n)):
            raise ValueError('NumPy boolean array indexing assignment')
        inv = sel.prov[4]
        if inv is None:
            vals, j = [], 0
            for i in range(self.n):
                if ctx().must(zb(m(z3.IntVal(i)))):
                    vals.append(v.at(z3.IntVal(j)))
                    j += 1
                else:
                    vals.append(old(z3.IntVal(i)))
            self.buf.at = rows(self.n, vals)
            return
        self.buf.at = lambda i: z3.If(m(i), v.at(inv(i)), old(i))

    def _scatter(self, k, v):
        """a[idx] = values: last write wins, other elements unchanged."""
        c = ctx()
        n = zi(self.n)
        idx, m = k.buf.at, zi(k.n)
        old = self.buf.at
        bad = c.exists(0, m, lambda j: z3.Or(idx(j) < -n, idx(j) >= n))
        if c.branch(bad):
            raise IndexError('index out of bounds')

        def pos(j):
            return z3.If(idx(j) < 0, idx(j) + n, idx(j))
        if isseq(v):
            vb = to_buf(v, self.dt)
            if not c.branch(zi(vb.n) == m):
                raise ValueError('shape mismatch')
            val = vb.at
        else:
            cv = coerce(v, self.dt)

            def val(j):
                return cv
        if isinstance(k.n, int):
            def at(i):
                out = old(i)
                for j in range(k.n):
                    jj = z3.IntVal(j)
                    out = z3.If(pos(jj) == i, val(jj), out)
                return out
            self.buf.at = at
            return
        w = c.func('scatter')
        last = c.func('scatter_last')
        # last(i): the last j with pos(j) == i, or -1
        i_ = z3.Int(c.fresh('i'))
        j_ = z3.Int(c.fresh('j'))
        c.assume(z3.ForAll([i_], z3.And(
            last(i_) >= -1, last(i_) < m,
            z3.Implies(last(i_) >= 0, z3.And(pos(last(i_)) == i_,
                                             w(i_) == val(last(i_)))),
            z3.Implies(last(i_) == -1, w(i_) == old(i_))),
            patterns=[w(i_)]))
        c.assume(z3.ForAll([j_], z3.Implies(
            z3.And(j_ >= 0, j_ < m), last(pos(j_)) >= j_),
            patterns=[idx(j_)] if _is_app(idx(j_)) else []))
        # the same fact, triggered by the written cell
        self.buf.at = lambda i: w(i)

    # -- elementwise
    def _bin(self, o, f, dt, swap=False):
        return elementwise(self, o, f, dt, swap)

    def __eq__(self, o):
        return compare(self, o, lambda a, b: a == b, 'eq')

    def __ne__(self, o):
        return compare(self, o, lambda a, b: a != b, 'ne')

    def __lt__(self, o):
        return compare(self, o, lambda a, b: a < b, 'lt')

    def __le__(self, o):
        return compare(self, o, lambda a, b: a <= b, 'le')

    def __gt__(self, o):
        return compare(self, o, lambda a, b: a > b, 'gt')

    def __ge__(self, o):
        return compare(self, o, lambda a, b: a >= b, 'ge')

    __hash__ = None

    def __add__(self, o):
        return arith(self, o, '+')

    def __radd__(self, o):
        return arith(o, self, '+')

    def __sub__(self, o):
        return arith(self, o, '-')

    def __rsub__(self, o):
        return arith(o, self, '-')

    def __iadd__(self, o):
        r = arith(self, o, '+')
        if self._view:
            raise Unsupported('in-place operation on a view')
        r2 = to_buf(r, self.dt)
        self.buf.at = r2.at
        return self

    def __isub__(self, o):
        r = arith(self, o, '-')
        if self._view:
            raise Unsupported('in-place operation on a view')
        self.buf.at = to_buf(r, self.dt).at
        return self

    def __mul__(self, o):
        return arith(self, o, '*')

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return arith(self, o, '//')

    def __neg__(self):
        return arith(0, self, '-')

    def __and__(self, o):
        return logical(self, o, z3.And)

    __rand__ = __and__

    def __or__(self, o):
        return logical(self, o, z3.Or)

    __ror__ = __or__

    def __xor__(self, o):
        return logical(self, o, z3.Xor)

    def __invert__(self):
        if self.dt != 'b':
            raise Unsupported('~ of a non-boolean array')
        at = self.buf.at
        return ndarray(Buf(self.n, lambda k: z3.Not(at(k))), 'b')

    def __contains__(self, v):
        at = self.buf.at
        e = coerce(v, self.dt)
        return bool(mkbool(ctx().exists(0, self.n, lambda k: at(k) == e)))

    # -- methods
    def all(self, axis=None):
        at = self.buf.at
        return mkbool(ctx().forall(0, self.n, lambda k: _truth(at(k), self.dt)))

    def any(self, axis=None):
        at = self.buf.at
        return mkbool(ctx().exists(0, self.n, lambda k: _truth(at(k), self.dt)))

    def sum(self, axis=None):
        return seq_sum(self)

    def astype(self, d, copy=True):
        t = dtype_of(d)
        at = self.buf.at
        if self.dt == 'b' and t == 'i8':
            return ndarray(Buf(self.n, lambda k: z3.If(at(k), z3.IntVal(1), z3.IntVal(0))), 'i8')
        if t == 'm8[m]' and self.dt == 'm8':
            # float minutes; exact only for whole minutes, checked by truncation
            return ndarray(Buf(self.n, lambda k: _trunc_minutes(at(k))), 'f8')
        if t in ('i8', 'M8', 'm8', 'f8', 'b'):
            return ndarray(Buf(self.n, at, self.buf.prov), t)
        raise Unsupported('astype %r' % (d,))

    def view(self, d=None):
        if d is None:
            return ndarray(self.buf, self.dt, self._view)
        t = dtype_of(d)
        if t not in ('i8', 'M8', 'm8'):
            raise Unsupported('view %r' % (d,))
        return ndarray(self.buf, t, self._view)

    def copy(self):
        return ndarray(Buf(self.n, self.buf.at, self.buf.prov), self.dt)

    def searchsorted(self, v, side='left', sorter=None):
        if sorter is not None:
            raise Unsupported('sorter')
        return do_searchsorted(self.buf, v, side, self.dt)

    def nonzero(self):
        return (flatnonzero(self),)

    def ravel(self):
        return self

    flatten = copy

    def tolist(self):
        return list(self)

    def item(self):
        raise Unsupported('item')

    def max(self, axis=None):
        return seq_extreme(self, True)

    def min(self, axis=None):
        return seq_extreme(self, False)

    def cumsum(self):
        raise Unsupported('cumsum')

    def repeat(self, r):
        raise Unsupported('repeat')

    def take(self, idx):
        return self[idx]

    def __str__(self):
        return '<array>'

    __repr__ = __str__

    def __format__(self, spec):
        return '<array>'


def _remask(at, o, dt):
    e = coerce(o, 'm8')
    return lambda k: nat_guard2(at(k), e, at(k) + e)


def _is_app(e):
    return z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0 and not _has_bool(e)


def _has_bool(e):
    return z3.is_bool(e) or z3.is_app_of(e, z3.Z3_OP_ITE) or any(_has_bool(x) for x in e.children())


def _trunc_minutes(e):
    # timedelta64[m] conversion in pandas 1.1: floor division, as float
    return e / z3.IntVal(MIN)


def _truth(e, dt):
    return e if dt == 'b' else e != 0


def isseq(v):
    return isinstance(v, (ndarray, Index, Series, list, tuple))


def to_buf(v, dt=None):
    if isinstance(v, (ndarray,)):
        return Buf(v.buf.n, v.buf.at, v.buf.prov)
    if isinstance(v, Index):
        return Buf(v.buf.n, v.buf.at, v.buf.prov)
    if isinstance(v, Series):
        return Buf(v.buf.n, v.buf.at, v.buf.prov)
    if isinstance(v, (list, tuple)):
        return array(v).buf
    raise Unsupported('sequence expected, got %s' % type(v).__name__)


def elem_dt(v):
    if isinstance(v, (ndarray, Index, Series)):
        return v.dt
    if isinstance(v, (bool, SBool)):
        return 'b'
    if isinstance(v, (int, SInt)):
        return 'i8'
    if isinstance(v, (Timestamp, datetime64)):
        return 'M8'
    if isinstance(v, NaTType):
        return 'M8'
    if isinstance(v, (Timedelta, timedelta64, _dt.timedelta)):
        return 'm8'
    if isinstance(v, SFloat):
        return 'f8'
    if isinstance(v, (_dt.datetime, _dt.date)):
        return 'M8'
    raise Unsupported('element %s' % type(v).__name__)


def coerce(v, dt):
    """Scalar -> z3 term (or bool term for 'b')."""
    if isinstance(v, (Timestamp, datetime64, Timedelta, timedelta64)):
        return zi(v.value)
    if isinstance(v, NaTType):
        return z3.IntVal(NAT)
    if isinstance(v, _dt.timedelta):
        return z3.IntVal(td_ns(v))
    if isinstance(v, _dt.datetime):
        return zi(Timestamp(v).value)
    if isinstance(v, _dt.date):
        return zi(Timestamp(v).value)
    if isinstance(v, str):
        return zi(Timestamp(v).value)
    if dt == 'b' and isinstance(v, (bool, SBool)):
        return zb(v)
    if isinstance(v, (int, SInt, SBool)):
        return zi(v)
    if isinstance(v, SFloat):
        return v.e
    if isinstance(v, float) and v == int(v):
        return z3.IntVal(int(v))
    raise Unsupported('scalar %s' % type(v).__name__)


def td_ns(v):
    return (v.days * 86400 + v.seconds) * SEC + v.microseconds * US


def nat_guard2(a, b, r):
    return z3.If(z3.Or(is_nat(a), is_nat(b)), z3.IntVal(NAT), r)


def _align(a, b):
    """Common length of two operands (scalars broadcast)."""
    sa, sb = isseq(a), isseq(b)
    if sa and sb:
        na, nb = to_buf(a).n, to_buf(b).n
        if not ctx().branch(zi(na) == zi(nb)):
            if ctx().branch(zi(na) == 1) or ctx().branch(zi(nb) == 1):
                raise Unsupported('length-1 broadcasting')
            raise ValueError('operands could not be broadcast together')
        return na
    return to_buf(a).n if sa else to_buf(b).n


def _at(x, dt):
    if isseq(x):
        b = to_buf(x)
        return b.at
    e = coerce(x, dt)
    return lambda k: e


def elementwise(a, o, f, dt, swap=False):
    n = _align(a, o)
    fa, fb = _at(a, elem_dt_any(a)), _at(o, elem_dt_any(o))
    if swap:
        fa, fb = fb, fa
    return ndarray(Buf(n, lambda k: f(fa(k), fb(k))), dt)


def elem_dt_any(v):
    if isinstance(v, (list, tuple)):
        return array(v).dt
    if isinstance(v, str):
        return 'M8'
    if isinstance(v, float):
        return 'i8'
    return elem_dt(v)


def compare(a, o, f, kind):
    if o is None:
        raise Unsupported('comparison with None')
    try:
        da, do = elem_dt_any(a), elem_dt_any(o)
    except Unsupported:
        raise
    n = _align(a, o)
    fa, fb = _at(a, da), _at(o, do)
    if 'b' in (da, do):
        if da != do:
            fa0, fb0 = fa, fb
            fa = (lambda k: z3.If(fa0(k), z3.IntVal(1), z3.IntVal(0))) if da == 'b' else fa0
            fb = (lambda k: z3.If(fb0(k), z3.IntVal(1), z3.IntVal(0))) if do == 'b' else fb0
    elif da in ('M8', 'm8') or do in ('M8', 'm8'):
        if kind == 'ne':
            return ndarray(Buf(n, lambda k: z3.Or(is_nat(fa(k)), is_nat(fb(k)), f(fa(k), fb(k)))), 'b')
        return ndarray(Buf(n, lambda k: z3.And(z3.Not(is_nat(fa(k))), z3.Not(is_nat(fb(k))), f(fa(k), fb(k)))), 'b')
    return ndarray(Buf(n, lambda k: f(fa(k), fb(k))), 'b')


ARITH = {
    ('M8', '-', 'M8'): 'm8', ('M8', '+', 'm8'): 'M8', ('m8', '+', 'M8'): 'M8',
    ('M8', '-', 'm8'): 'M8', ('m8', '+', 'm8'): 'm8', ('m8', '-', 'm8'): 'm8',
    ('i8', '+', 'i8'): 'i8', ('i8', '-', 'i8'): 'i8', ('i8', '*', 'i8'): 'i8',
    ('i8', '//', 'i8'): 'i8', ('f8', '+', 'i8'): 'f8', ('i8', '+', 'f8'): 'f8',
    ('f8', '-', 'i8'): 'f8', ('f8', '+', 'f8'): 'f8', ('f8', '-', 'f8'): 'f8',
    ('m8', '//', 'm8'): 'i8', ('i8', '-', 'f8'): 'f8',
    ('b', '+', 'i8'): 'i8', ('i8', '+', 'b'): 'i8', ('i8', '-', 'b'): 'i8',
    ('f8', '+', 'b'): 'f8', ('b', '+', 'f8'): 'f8', ('f8', '-', 'b'): 'f8',
    ('m8', '*', 'i8'): 'm8', ('i8', '*', 'm8'): 'm8',
    ('m8', '*', 'b'): 'm8', ('b', '*', 'm8'): 'm8', ('f8', '*', 'i8'): 'f8',
    ('f8', '//', 'i8'): 'f8',
}


def arith(a, o, op):
    da, do = elem_dt_any(a), elem_dt_any(o)
    r = ARITH.get((da, op, do))
    if r is None:
        raise Unsupported('array arithmetic %s %s %s' % (da, op, do))
    n = _align(a, o)
    fa, fb = _at(a, da), _at(o, do)

    def num(f, d):
        if d == 'b':
            return lambda k: z3.If(f(k), z3.IntVal(1), z3.IntVal(0))
        return f
    fa, fb = num(fa, da), num(fb, do)
    if op == '+':
        g = lambda x, y: x + y
    elif op == '-':
        g = lambda x, y: x - y
    elif op == '*':
        g = lambda x, y: x * y
    else:
        ob = z3.simplify(fb(z3.IntVal(0))) if not isseq(o) else None
        if ob is None or not z3.is_int_value(ob) or ob.as_long() <= 0:
            raise Unsupported('division')
        g = lambda x, y: x / y
    guard_a = da in ('M8', 'm8')
    guard_b = do in ('M8', 'm8')
    if guard_a or guard_b:
        def at(k):
            x, y = fa(k), fb(k)
            conds = []
            if guard_a:
                conds.append(is_nat(x))
            if guard_b and not z3.is_int_value(y):
                conds.append(is_nat(y))
            if r in ('M8', 'm8'):
                return z3.If(z3.Or(conds), z3.IntVal(NAT), g(x, y)) if conds else g(x, y)
            return g(x, y)
    else:
        def at(k):
            return g(fa(k), fb(k))
    src = a if isseq(a) and not isseq(o) else o if isseq(o) and not isseq(a) else None
    prov = None
    if src is not None and getattr(src, 'buf', None) is not None:
        prov = ('map', Buf(src.buf.n, src.buf.at, src.buf.prov))
    return ndarray(Buf(n, at, prov), r)


def logical(a, o, f):
    n = _align(a, o)
    if elem_dt_any(a) != 'b' or elem_dt_any(o) != 'b':
        raise Unsupported('bitwise operation on non-booleans')
    fa, fb = _at(a, 'b'), _at(o, 'b')
    return ndarray(Buf(n, lambda k: f(fa(k), fb(k))), 'b')


def sorted_fact(buf):
    """The formula 'buf is non-decreasing'."""
    c = ctx()
    at, n = buf.at, zi(buf.n)
    if c.N is not None:
        return c.forall(0, n - 1, lambda k: at(k) <= at(k + 1))
    i, j = z3.Int(c.fresh('i')), z3.Int(c.fresh('j'))
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n),
                                        at(i) <= at(j)))


def do_searchsorted(buf, v, side, dt):
    """numpy.searchsorted: requires a sorted array."""
    c = ctx()
    c.use('numpy.searchsorted')
    if side not in ('left', 'right'):
        raise ValueError('side')
    n, at = zi(buf.n), buf.at
    key = 'searchsorted-needs-sorted-input'
    s = sorted_fact(buf)
    if not c.must(s):
        c.oblige(key, s)

    def spec(r, x):
        if side == 'left':
            lo = lambda k: at(k) < x
            hi = lambda k: at(k) >= x
        else:
            lo = lambda k: at(k) <= x
            hi = lambda k: at(k) > x
        # (the two ground instances at the boundary help E-matching)
        return z3.And(0 <= r, r <= n,
                      z3.Implies(r > 0, lo(r - 1)), z3.Implies(r < n, hi(r)),
                      c.forall(0, r, lo, pats=lambda k: pat(at(k))),
                      c.forall(r, n, hi, pats=lambda k: pat(at(k))))
    if isseq(v):
        vb = to_buf(v)
        vat, m = vb.at, vb.n
        if isinstance(m, int):
            rs = []
            for i in range(m):
                r = c.int('ss')
                c.assume(spec(r, vat(z3.IntVal(i))))
                rs.append(r)
            return ndarray(Buf(m, rows(m, rs)), 'i8')
        rf = c.func('ssv')
        q, k = z3.Int(c.fresh('q')), z3.Int(c.fresh('k'))
        inq = z3.And(0 <= q, q < zi(m))
        if side == 'left':
            flo, fhi = (lambda k: at(k) < vat(q)), (lambda k: at(k) >= vat(q))
        else:
            flo, fhi = (lambda k: at(k) <= vat(q)), (lambda k: at(k) > vat(q))
        lo, hi = flo(k), fhi(k)
        c.assume(z3.ForAll([q], z3.Implies(inq, z3.And(
            0 <= rf(q), rf(q) <= n, z3.Implies(rf(q) > 0, flo(rf(q) - 1)),
            z3.Implies(rf(q) < n, fhi(rf(q))))), patterns=[rf(q)]))
        c.assume(z3.ForAll([q, k], z3.Implies(
            z3.And(inq, 0 <= k, k < n),
            z3.If(k < rf(q), lo, hi)), patterns=[z3.MultiPattern(rf(q), t) for t in pat(at(k))]))
        return ndarray(Buf(m, lambda i: rf(i)), 'i8')
    x = coerce(v, dt)
    r = c.int('ss')
    c.assume(spec(r, x))
    return mkint(r)


def pat(t):
    return [t] if _is_app(t) else []


def take_or_mask(buf, k):
    if isinstance(k, (Index, Series)):
        kdt = k.dt
    else:
        kdt = k.dt
    kb = to_buf(k)
    c = ctx()
    if kdt == 'b':
        if not c.branch(zi(kb.n) == zi(buf.n)):
            raise IndexError('boolean index did not match')
        return mask_buf(buf, kb.at)
    if kdt == 'i8':
        n = zi(buf.n)
        idx, at = kb.at, buf.at
        bad = c.exists(0, kb.n, lambda j: z3.Or(idx(j) < -n, idx(j) >= n))
        if c.branch(bad):
            raise IndexError('index out of bounds')
        def res(j):
            i = idx(j)
            return at(z3.If(i < 0, i + n, i))
        if c.must(c.forall(0, kb.n, lambda j: idx(j) >= 0)):
            res = lambda j: at(idx(j))
        return Buf(kb.n, res)
    raise Unsupported('fancy index with dtype %s' % kdt)


def mask_buf(buf, m):
    """a[mask]: the selected elements in order, described by an increasing
    embedding emb and its inverse."""
    c = ctx()
    at = buf.at
    if isinstance(buf.n, int):
        keep = []
        for i in range(buf.n):
            if c.branch(zb(m(z3.IntVal(i)))):
                keep.append(at(z3.IntVal(i)))
        b = Buf(len(keep), rows(len(keep), keep), None)
        b.prov = ('mask', m, at, None, None)
        return b
    c.use('boolean-mask-selection')
    n = zi(buf.n)
    k0 = z3.Int('mask!k')
    key = (z3.simplify(zb(m(k0))).sexpr(), z3.simplify(n).sexpr())
    cache = c.__dict__.setdefault('_mask_cache', {})
    if key in cache:                # the same selection again
        cnt, emb, inv = cache[key]
        k = z3.Int(c.fresh('k'))
        b = Buf(mkint(cnt), lambda i: at(emb(i)))
        b.prov = ('mask', m, at, emb, inv, buf)
        if pat(at(k)):
            c.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, m(k)), z3.And(
                0 <= inv(k), inv(k) < cnt, emb(inv(k)) == k)), patterns=pat(at(k))))
        return b
    if getattr(c, 'slices', False):
        i, j, k = (z3.Int(c.fresh('cv')) for _ in range(3))
        if core.prove(c.facts, z3.Implies(z3.And(0 <= i, i < k, k < j, j < n, zb(m(i)), zb(m(j))), zb(m(k))),
                      ms=3000).status == 'proved':
            return slice_mask(c, buf, m)
    cnt = c.int('mlen')
    emb = c.func('emb')
    inv = c.func('inv')
    cache[key] = (cnt, emb, inv)
    c.assume(z3.And(cnt >= 0, cnt <= n))
    k, l = z3.Int(c.fresh('k')), z3.Int(c.fresh('l'))
    c.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < cnt), z3.And(
        0 <= emb(k), emb(k) < n, m(emb(k)), inv(emb(k)) == k)),
        patterns=[emb(k)]))
    c.assume(z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k < l, l < cnt),
                                          emb(k) < emb(l)),
                       patterns=[z3.MultiPattern(emb(k), emb(l))]))
    ps = [p for p in pat(at(k))]
    body = z3.Implies(z3.And(0 <= k, k < n, m(k)), z3.And(
        0 <= inv(k), inv(k) < cnt, emb(inv(k)) == k))
    c.assume(z3.ForAll([k], body, patterns=ps + [inv(k)]))
    b = Buf(mkint(cnt), lambda i: at(emb(i)))
    b.prov = ('mask', m, at, emb, inv, buf)
    return b


def slice_mask(c, buf, m):
    """A mask without gaps selects a slice lo .. hi."""
    n, at = zi(buf.n), buf.at
    lo, hi = c.int('slice_lo'), c.int('slice_hi')
    out = lambda k: z3.Not(zb(m(k)))
    c.assume(z3.And(0 <= lo, lo <= hi, hi <= n))
    # the ground instances at the ends help E-matching
    c.assume(z3.And(z3.Implies(lo < hi, z3.And(zb(m(lo)), zb(m(hi - 1)))),
                    z3.Implies(lo > 0, out(lo - 1)), z3.Implies(hi < n, out(hi))))
    c.assume(c.forall(lo, hi, lambda k: zb(m(k)), pats=lambda k: pat(at(k))))
    c.assume(c.forall(0, lo, out, pats=lambda k: pat(at(k))))
    c.assume(c.forall(hi, n, out, pats=lambda k: pat(at(k))))
    b = Buf(mkint(hi - lo), lambda i: at(lo + i))
    b.prov = ('mask', m, at, lambda i: lo + i, lambda k: k - lo, buf)
    return b


def members(buf):
    """The elements of a sequence as a union over its sources:
    [(n, condition(k), position(k))]."""
    p = buf.prov
    if p and p[0] == 'concat':
        out, off = [], 0
        for part in p[1]:
            o = zi(off)
            for n, cond, idx in members(part):
                out.append((n, cond, (lambda k, o=o, idx=idx: o + idx(k)) if out else idx))
            off = off + part.n
        return out
    if p and p[0] == 'mask' and p[4] is not None:
        m, inv = p[1], p[4]
        return [(n, lambda k, cond=cond, idx=idx: z3.And(cond(k), m(idx(k))),
                 lambda k, idx=idx: inv(idx(k))) for n, cond, idx in members(p[5])]
    if p and p[0] == 'map':
        return members(p[1])
    if p and p[0] == 'unique':
        return [(n, cond, lambda k, idx=idx: p[1](idx(k))) for n, cond, idx in members(p[2])]
    if p and p[0] == 'perm':
        return [(n, cond, lambda k, idx=idx: p[2](idx(k))) for n, cond, idx in members(Buf(buf.n, None, p[3]))]
    return [(buf.n, lambda k: z3.BoolVal(True), lambda k: k)]


def flatnonzero(a):
    a = asarray(a)
    at, dt = a.buf.at, a.dt
    m = lambda k: _truth(at(k), dt)
    b = mask_buf(Buf(a.n, lambda k: k), m)
    c = ctx()
    if not isinstance(a.n, int):
        # positions: emb itself; the first selected position exists iff any
        k = z3.Int(c.fresh('k'))
        if not c.branch(zi(b.n) >= 1):
            c.assume(c.forall(0, a.n, lambda k: z3.Not(m(k))))
        inv = b.prov[4]
        c.assume(c.forall(0, a.n, lambda k: z3.Implies(m(k), z3.And(
            0 <= inv(k), inv(k) < zi(b.n)))))
    return ndarray(Buf(b.n, b.at), 'i8')


class SumTerm(object):
    pass


def seq_sum(a):
    c = ctx()
    at, dt = a.buf.at, a.dt
    f = at
    if dt == 'b':
        f = lambda k: z3.If(at(k), z3.IntVal(1), z3.IntVal(0))
    if isinstance(a.n, int):
        e = z3.Sum([f(z3.IntVal(i)) for i in range(a.n)]) if a.n else z3.IntVal(0)
        return SFloat(e) if dt == 'f8' else (timedelta_like(dt, e))
    if c.N is not None:
        n = zi(a.n)
        e = z3.Sum([z3.If(z3.And(i < n), f(z3.IntVal(i)), z3.IntVal(0))
                    for i in range(c.quant_bound())])
        return SFloat(e) if dt == 'f8' else timedelta_like(dt, e)
    # sums over a slice of a registered ghost sequence equal the difference of
    # its prefix sums (congruence lemma, see lemmas.py)
    s = c.int('sum')
    for name, g in c.ghosts.items():
        lo = None
        # find the offset lo of the slice: position map of the buffer
        p = getattr(a, '_slice_lo', None)
        lo = zi(p) if p is not None else z3.IntVal(0)
        n = zi(a.n)
        goal = c.forall(0, n, lambda k: f(k) == g.count(lo + k))
        r = core.prove(c.facts, goal, ms=8000)
        if r.status == 'proved':
            c.use('sum-congruence lemma (lemmas.py)')
            # prefix sums; an empty slice sums to 0
            c.assume(s == g.prefix(lo + n) - g.prefix(lo))
            break
    if dt == 'b':
        n, j, j2 = zi(a.n), c.int('some'), c.int('other')
        c.assume(z3.And(s >= 0, s <= n))
        # positive if some element is true, below the length if some is false
        c.assume(z3.Implies(s > 0, z3.And(0 <= j, j < n, at(j))))
        c.assume(z3.Implies(s < n, z3.And(0 <= j2, j2 < n, z3.Not(at(j2)))))
        c.assume(c.forall(0, n, lambda k: z3.If(at(k), s > 0, s < n)))
    return SFloat(s) if dt == 'f8' else timedelta_like(dt, s)


def timedelta_like(dt, e):
    if dt in ('i8', 'b'):
        return mkint(e)
    if dt == 'm8':
        return Timedelta(mkint(e))
    raise Unsupported('sum of %s' % dt)


def seq_extreme(a, mx):
    c = ctx()
    at = a.buf.at
    if not c.branch(zi(a.n) >= 1):
        raise ValueError('zero-size array to reduction operation')
    j = c.int('ext')
    c.assume(z3.And(0 <= j, j < zi(a.n)))
    if mx:
        c.assume(c.forall(0, a.n, lambda k: at(k) <= at(j), pats=lambda k: pat(at(k))))
    else:
        c.assume(c.forall(0, a.n, lambda k: at(k) >= at(j), pats=lambda k: pat(at(k))))
    return a._elem(j)


def array(x, dtype=None, copy=True):
    t = dtype_of(dtype)
    if isinstance(x, FlatList):
        raise Unsupported('array of a symbolic list')
    if isinstance(x, ndarray):
        return x.copy() if t is None or t == x.dt else x.astype(dtype)
    if isinstance(x, (Index, Series)):
        return ndarray(to_buf(x), x.dt if t is None else t)
    if isinstance(x, (list, tuple)):
        if x and any(isseq(v) for v in x):
            return Rows([asarray(v) for v in x])
        if not x:
            return ndarray(Buf(0, lambda k: z3.IntVal(0)), t or 'i8')
        d = t or elem_dt(x[0])
        return ndarray(Buf(len(x), rows(len(x), [coerce(v, d) for v in x])), d)
    raise Unsupported('array(%s)' % type(x).__name__)


def asarray(x, dtype=None):
    if isinstance(x, ndarray) and dtype is None:
        return x
    return array(x, dtype)


class Rows(Base):
    """A list of equally long arrays (2-d array used for np.all(axis=0))."""

    def __init__(self, rows_):
        self.rows = rows_


# -- scalars ------------------------------------------------------------------


class NaTType(Base):
    value = NAT
    tz = None
    tzinfo = None
    year = property(lambda s: float('nan'))

    def tz_localize(self, tz, *a, **k):
        return self

    def tz_convert(self, tz):
        return self

    def __eq__(self, o):
        return False

    def __ne__(self, o):
        return True

    def __lt__(self, o):
        return False

    __le__ = __gt__ = __ge__ = __lt__

    def __hash__(self):
        return NAT

    def __repr__(self):
        return 'NaT'

    __str__ = __repr__

    def __add__(self, o):
        return self

    __radd__ = __sub__ = __rsub__ = __add__


NaT = NaTType()


def days_from_civil(y, m, d):
    """Days since 1970-01-01 (proleptic Gregorian); y may be symbolic, m and d
    concrete."""
    if isinstance(y, int):
        return (_dt.date(y, m, d) - _dt.date(1970, 1, 1)).days
    y = zi(y)
    if getattr(core.CUR, 'abstract_civil', False):
        return mkint(DFC(y, z3.IntVal(m), z3.IntVal(d)))
    yy = y - 1 if m <= 2 else y
    doy = (153 * (m + (9 if m <= 2 else -3)) + 2) // 5 + d - 1
    return mkint(365 * yy + yy / 4 - yy / 100 + yy / 400 + doy - 719468)


# In contexts with `abstract_civil` the arithmetic of the calendar is left
# uninterpreted (what is proved then holds for any arithmetic).
DFC = z3.Function('DFC', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
YR = z3.Function('YR', z3.IntSort(), z3.IntSort())     # year of a day number


def civil_year(days):
    """Definition of the year of a day."""
    if getattr(core.CUR, 'abstract_civil', False):
        return z3.BoolVal(True)
    y = YR(days)
    return z3.And(zi(days_from_civil(SInt(y), 1, 1)) <= days,
                  days < zi(days_from_civil(SInt(y + 1), 1, 1)))


class DateFields(object):
    """Mixin: calendar fields of a (possibly symbolic) instant."""

    def _days(self):
        self._need_utc_like()
        return self.value // DAY

    def _need_utc_like(self):
        if not (self.tz is None or self.tz is UTC):
            raise Unsupported('calendar fields of a zoned timestamp')

    def weekday(self):
        return (self._days() + 3) % 7

    dayofweek = property(weekday)

    def isoweekday(self):
        return self.weekday() + 1

    def _civil(self):
        """(year, month, day) - concrete if the value is; otherwise a year
        with its defining constraints; month by forking."""
        if isinstance(self.value, int):
            d = _dt.date(1970, 1, 1) + _dt.timedelta(days=self.value // DAY)
            return d.year, d.month, d.day
        c = ctx()
        cache = c.__dict__.setdefault('_civil_cache', set())
        days = zi(self._days())
        key = days.sexpr()
        y = YR(days)
        if key not in cache:
            c.assume(civil_year(days))
            cache.add(key)
        return mkint(y), None, None

    @property
    def year(self):
        return self._civil()[0]

    @property
    def month(self):
        y, m, d = self._civil()
        if m is not None:
            return m
        c = ctx()
        days = zi(self._days())
        for mm in range(2, 13):
            if c.branch(days < zi(days_from_civil(y, mm, 1))):
                return mm - 1
        return 12

    @property
    def day(self):
        y, m, d = self._civil()
        if d is not None:
            return d
        m = self.month
        return mkint(zi(self._days()) - zi(days_from_civil(y, m, 1)) + 1)

    def _tod(self):
        self._need_utc_like()
        return self.value % DAY

    hour = property(lambda s: s._tod() // HOUR)
    minute = property(lambda s: (s._tod() // MIN) % 60)
    second = property(lambda s: (s._tod() // SEC) % 60)


class _TSMeta(type):
    min = None
    max = None

    def now(cls, tz=None):
        return Timestamp('2026-01-01', tz=tz)

    def utcnow(cls):
        return Timestamp('2026-01-01', tz=UTC)

    def today(cls, tz=None):
        return Timestamp('2026-01-01', tz=tz)


class Timestamp(Base, DateFields, metaclass=_TSMeta):
    """value: nanoseconds since the epoch (UTC if tz-aware, wall if naive)."""

    def __new__(cls, x=None, *a, **kw):
        if isinstance(x, NaTType):
            return NaT
        return object.__new__(cls)

    def __init__(self, x=None, month=None, day=None, hour=0, minute=0,
                 second=0, tz=None, tzinfo=None, year=None, unit=None):
        tz = norm_tz(tz if tz is not None else tzinfo)
        self.tz = tz
        if year is not None:
            x = year
        if month is not None and day is not None:
            x = days_from_civil(x, month, day) * DAY + hour * HOUR + minute * MIN + second * SEC
            if tz is not None and tz is not UTC:
                raise Unsupported('zoned civil timestamp')
            self.value = x
            return
        if isinstance(x, Timestamp):
            self.value = x.value
            if tz is None:
                self.tz = x.tz
            elif x.tz is None:
                self.value = localize(x.value, tz)
            return
        if isinstance(x, (datetime64,)):
            self.value = x.value if tz in (None, UTC) else x.value
            return
        if isinstance(x, (int, SInt)):
            if unit not in (None, 'ns'):
                raise Unsupported('Timestamp unit')
            self.value = x
            return
        if isinstance(x, _dt.datetime):
            if x.tzinfo is not None:
                raise Unsupported('aware datetime')
            v = (x - _dt.datetime(1970, 1, 1))
            self.value = localize(td_ns(v), tz)
            return
        if isinstance(x, _dt.date):
            self.value = localize((x - _dt.date(1970, 1, 1)).days * DAY, tz)
            return
        if isinstance(x, str):
            self.value = localize(parse_str(x), tz)
            return
        raise Unsupported('Timestamp(%s)' % type(x).__name__)

    tzinfo = property(lambda s: s.tz)
    asm8 = property(lambda s: datetime64(s.value))
    nanosecond = property(lambda s: s._tod() % 1000)

    def to_datetime64(self):
        return datetime64(self.value)

    def tz_localize(self, tz, *a, **k):
        tz = norm_tz(tz)
        if self.tz is not None:
            if tz is None:
                return mkts(unlocalize(self.value, self.tz), None)
            raise TypeError('Cannot localize tz-aware Timestamp')
        return mkts(localize(self.value, tz), tz)

    def tz_convert(self, tz):
        if self.tz is None:
            raise TypeError('Cannot convert tz-naive Timestamp')
        return mkts(self.value, norm_tz(tz))

    def normalize(self):
        return mkts(self.value - self._tod(), self.tz)

    def floor(self, f):
        return mkts(self.value - self.value % freq_ns(f), self.tz)

    def ceil(self, f):
        s = freq_ns(f)
        return mkts(-((-self.value) // s) * s, self.tz)

    def date(self):
        return self.normalize()

    def to_pydatetime(self):
        return self

    def toordinal(self):
        return self._days() + 719163

    def strftime(self, f):
        return '<time>'

    def isoformat(self):
        return '<time>'

    def replace(self, **kw):
        if set(kw) <= {'hour', 'minute', 'second', 'microsecond', 'nanosecond'} and all(v == 0 for v in kw.values()) and len(kw) >= 3:
            return self.normalize()
        raise Unsupported('Timestamp.replace')

    def __add__(self, o):
        if isinstance(o, (Timedelta, timedelta64)):
            return mkts(self.value + o.value, self.tz)
        if isinstance(o, _dt.timedelta):
            return mkts(self.value + td_ns(o), self.tz)
        if isinstance(o, Offset):
            return o.apply(self)
        if isseq(o):
            return NotImplemented
        raise Unsupported('Timestamp + %s' % type(o).__name__)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (Timedelta, timedelta64)):
            return mkts(self.value - o.value, self.tz)
        if isinstance(o, _dt.timedelta):
            return mkts(self.value - td_ns(o), self.tz)
        if isinstance(o, Timestamp):
            return Timedelta(self.value - o.value)
        if isinstance(o, Offset):
            return (-o).apply(self)
        if isseq(o):
            return NotImplemented
        raise Unsupported('Timestamp - %s' % type(o).__name__)

    def __rsub__(self, o):
        raise Unsupported('rsub')

    def _c(self, o, f):
        if isinstance(o, NaTType):
            return False
        if isinstance(o, str):
            o = Timestamp(o, tz=self.tz)
        if isinstance(o, _dt.datetime):
            o = Timestamp(o)
        if isinstance(o, datetime64):
            o = mkts(o.value, self.tz)
        if not isinstance(o, Timestamp):
            return NotImplemented
        if (self.tz is None) != (o.tz is None):
            raise TypeError('Cannot compare tz-naive and tz-aware timestamps')
        return mkbool(f(zi(self.value), zi(o.value)))

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, Timestamp) and (self.tz is None) != (o.tz is None):
            return False
        return self._c(o, lambda a, b: a == b)

    def __ne__(self, o):
        if isinstance(o, Timestamp) and (self.tz is None) != (o.tz is None):
            return True
        if isinstance(o, NaTType):
            return True
        return self._c(o, lambda a, b: a != b)

    def __hash__(self):
        if isinstance(self.value, int):
            return hash(self.value)
        raise Unsupported('hash of a symbolic timestamp')

    def __str__(self):
        if isinstance(self.value, int):
            return 'Timestamp(%d)' % self.value
        return '<timestamp>'

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)


def mkts(v, tz):
    t = object.__new__(Timestamp)
    t.value = v
    t.tz = tz
    return t


def freq_ns(f):
    t = {'D': DAY, 'H': HOUR, 'h': HOUR, 'T': MIN, 'min': MIN, 'Min': MIN,
         '1min': MIN, '1T': MIN, '1D': DAY, 'S': SEC, 's': SEC, 'm': MIN}
    if f in t:
        return t[f]
    raise Unsupported('frequency %r' % (f,))


def parse_str(x):
    import re
    if x in ('today', 'now'):
        return Timestamp('2026-01-01').value
    m = re.match(u'^(⟦\\d+⟧|\\d{4})(?:-(⟦\\d+⟧|\\d{1,2})(?:-(⟦\\d+⟧|\\d{1,2}))?)?(?:[ T](\\d\\d):(\\d\\d)(?::(\\d\\d))?)?$', x.strip())
    if not m:
        raise Unsupported('date text %r' % x)

    def part(s, default):
        if s is None:
            return default
        if s.startswith(u'⟦'):
            return ctx().tokens[int(s[1:-1])]
        return int(s)
    y, mo, d = part(m.group(1), None), part(m.group(2), 1), part(m.group(3), 1)
    if not isinstance(mo, int):
        raise Unsupported('symbolic month text')
    if isinstance(d, int):
        base = days_from_civil(y, mo, d)
    else:
        base = days_from_civil(y, mo, 1) + d - 1
    hh, mi, ss = (int(m.group(i) or 0) for i in (4, 5, 6))
    return base * DAY + hh * HOUR + mi * MIN + ss * SEC


# time zones -------------------------------------------------------------------


class SymTz(object):
    """An arbitrary time zone: an uninterpreted map local -> UTC."""

    def __init__(self, name='tz'):
        self.zone = name
        self.f = z3.Function('utc_of_local_%s' % name, z3.IntSort(), z3.IntSort())
        self.g = z3.Function('local_of_utc_%s' % name, z3.IntSort(), z3.IntSort())

    def __repr__(self):
        return '<SymTz %s>' % self.zone


_TZF = {}


def norm_tz(tz):
    if isinstance(tz, str):
        if tz.upper() in ('UTC',):
            return UTC
        import pytz
        return pytz.timezone(tz)
    return tz


def localize(v, tz):
    """Wall clock nanos in zone tz -> UTC nanos (trusted: pytz/pandas)."""
    if tz is None or tz is UTC:
        return v
    if isinstance(tz, SymTz):
        return mkint(tz.f(zi(v)))
    if isinstance(v, int):
        w = _dt.datetime(1970, 1, 1) + _dt.timedelta(microseconds=v // 1000)
        loc = tz.localize(w)
        return v - td_ns(loc.utcoffset())
    f = _TZF.setdefault(str(tz), z3.Function('utc_of_local_%s' % tz, z3.IntSort(), z3.IntSort()))
    return mkint(f(zi(v)))


def localize_term(e, tz):
    if tz is None or tz is UTC:
        return e
    if isinstance(tz, SymTz):
        return tz.f(e)
    f = _TZF.setdefault(str(tz), z3.Function('utc_of_local_%s' % tz, z3.IntSort(), z3.IntSort()))
    return f(e)


def unlocalize(v, tz):
    if tz is None or tz is UTC:
        return v
    if isinstance(tz, SymTz):
        return mkint(tz.g(zi(v)))
    raise Unsupported('tz_localize(None) of a zoned value')


def unlocalize_term(e, tz):
    if tz is None or tz is UTC:
        return e
    if isinstance(tz, SymTz):
        return tz.g(e)
    raise Unsupported('tz_localize(None) of a zoned index')


class datetime64(Base):
    def __init__(self, v, unit='ns'):
        if isinstance(v, str):
            v = NAT if v == 'NaT' else parse_str(v)
        if isinstance(v, Timestamp):
            v = v.value
        self.value = v if unit == 'ns' else v * unit_ns(unit)

    def astype(self, d):
        t = dtype_of(d)
        if t == 'i8':
            return self.value
        if t == 'M8':
            return self
        raise Unsupported('datetime64.astype')

    def view(self, d):
        return self.astype(d)

    def _c(self, o, f, ne=False):
        if isinstance(o, (datetime64, Timestamp)):
            a, b = zi(self.value), zi(o.value)
            ok = z3.And(z3.Not(is_nat(a)), z3.Not(is_nat(b)), f(a, b))
            if ne:
                ok = z3.Or(is_nat(a), is_nat(b), f(a, b))
            return mkbool(ok)
        return NotImplemented

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._c(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._c(o, lambda a, b: a != b, True)

    __hash__ = None

    def __add__(self, o):
        if isinstance(o, (timedelta64, Timedelta)):
            return datetime64(self.value + o.value)
        return NotImplemented

    def __sub__(self, o):
        if isinstance(o, (timedelta64, Timedelta)):
            return datetime64(self.value - o.value)
        if isinstance(o, datetime64):
            return timedelta64(self.value - o.value)
        return NotImplemented


def unit_ns(u):
    t = {'D': DAY, 'h': HOUR, 'm': MIN, 's': SEC, 'ms': MS, 'us': US, 'ns': 1,
         'W': 7 * DAY}
    if u in t:
        return t[u]
    raise Unsupported('unit %r' % (u,))


class timedelta64(Base):
    def __init__(self, v, unit='ns'):
        if isinstance(v, (Timedelta, timedelta64)):
            v = v.value
        if isinstance(v, _dt.timedelta):
            v = td_ns(v)
        self.value = v * unit_ns(unit)

    def astype(self, d):
        t = dtype_of(d)
        if t == 'i8':
            return self.value
        if t == 'm8':
            return self
        raise Unsupported('timedelta64.astype')


def _exact(x):
    if isinstance(x, float):
        if x != int(x):
            raise Unsupported('inexact float duration')
        return int(x)
    return x


class Timedelta(Base):
    def __init__(self, v=None, unit=None, days=0, hours=0, minutes=0,
                 seconds=0, microseconds=0, milliseconds=0, nanoseconds=0,
                 weeks=0):
        if isinstance(v, (Timedelta, timedelta64)):
            self.value = v.value
            return
        if isinstance(v, _dt.timedelta):
            self.value = td_ns(v)
            return
        if isinstance(v, str):
            import re
            m = re.match(r'^\s*(-?\d+)\s*([A-Za-z]+)\s*$', v)
            if not m:
                raise Unsupported('Timedelta(%r)' % v)
            u = {'days': 'D', 'day': 'D', 'D': 'D', 'd': 'D', 'h': 'h', 'hours': 'h', 'hour': 'h', 'H': 'h',
                 'min': 'm', 'minutes': 'm', 'minute': 'm', 'm': 'm', 'T': 'm', 's': 's', 'seconds': 's', 'ns': 'ns'}
            if m.group(2) not in u:
                raise Unsupported('Timedelta(%r)' % v)
            self.value = int(m.group(1)) * unit_ns(u[m.group(2)])
            return
        if v is not None:
            u = {'min': 'm', 'T': 'm', 'H': 'h', 'days': 'D', 'hours': 'h', 'minutes': 'm'}.get(unit, unit)
            self.value = _exact(v * unit_ns(u or 'ns'))
            return
        self.value = (_exact(weeks * 7 * DAY) + _exact(days * DAY) + _exact(hours * HOUR)
                      + _exact(minutes * MIN) + _exact(seconds * SEC)
                      + _exact(milliseconds * MS)
                      + _exact(microseconds * US) + _exact(nanoseconds))

    days = property(lambda s: s.value // DAY)
    seconds = property(lambda s: (s.value % DAY) // SEC)

    def __add__(self, o):
        if isinstance(o, (Timedelta, timedelta64)):
            return Timedelta(self.value + o.value)
        if isinstance(o, _dt.timedelta):
            return Timedelta(self.value + td_ns(o))
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (Timedelta, timedelta64)):
            return Timedelta(self.value - o.value)
        if isinstance(o, _dt.timedelta):
            return Timedelta(self.value - td_ns(o))
        return NotImplemented

    def __neg__(self):
        return Timedelta(-self.value)

    def __mul__(self, o):
        if isinstance(o, (int, SInt)):
            return Timedelta(self.value * o)
        if isinstance(o, float):
            return Timedelta(_exact(self.value * o))
        return NotImplemented

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, Timedelta):
            return self.value // o.value
        return NotImplemented

    def _c(self, o, f):
        if isinstance(o, (Timedelta, timedelta64)):
            return mkbool(f(zi(self.value), zi(o.value)))
        if isinstance(o, _dt.timedelta):
            return mkbool(f(zi(self.value), zi(td_ns(o))))
        return NotImplemented

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._c(o, lambda a, b: a == b)

    def __hash__(self):
        return hash(self.value)


class Offset(Base):
    """Date offset."""

    def apply(self, ts):
        raise Unsupported('offset %s' % type(self).__name__)

    def __neg__(self):
        raise Unsupported('negated offset')

    def __rmul__(self, n):
        raise Unsupported('offset multiple')


# -- indexes --------------------------------------------------------------------


class Index(Base):
    _vc_seq = True
    dt = 'i8'

    def __init__(self, buf, dt='i8'):
        self.buf = buf
        self.dt = dt

    n = property(lambda s: s.buf.n)
    size = property(lambda s: s.buf.n)
    shape = property(lambda s: (s.buf.n,))

    def at(self, k):
        return self.buf.at(k)

    def _slen(self):
        return self.buf.n

    def __len__(self):
        if isinstance(self.buf.n, int):
            return self.buf.n
        return ctx().concretize(self.buf.n)

    def __bool__(self):
        raise ValueError('The truth value of an Index is ambiguous')

    def _elem(self, k):
        return scalar(self.dt, self.buf.at(k))

    def __iter__(self):
        if isinstance(self.buf.n, int):
            return iter([self._elem(z3.IntVal(i)) for i in range(self.buf.n)])
        raise Unsupported('iteration over an index of symbolic length')

    @property
    def values(self):
        return ndarray(self.buf, self.dt)

    def _like(self, buf):
        return Index(buf, self.dt)

    def __getitem__(self, k):
        if isinstance(k, slice):
            r = norm_slice(self.n, k)
            at = self.buf.at
            if r is None:
                n = zi(self.n)
                return self._like(Buf(self.n, lambda i: at(n - 1 - i)))
            lo, m = r
            out = self._like(Buf(mkint(m), lambda i: at(lo + i)))
            out._slice_of = (self, lo)
            return out
        if isinstance(k, (ndarray, Index, Series)):
            return self._like(take_or_mask(self.buf, k))
        if isinstance(k, list):
            return self._like(take_or_mask(self.buf, array(k)))
        if isinstance(k, (int, SInt)):
            return self._elem(norm_pos(self.n, k))
        raise Unsupported('index with %s' % type(k).__name__)

    def __eq__(self, o):
        return compare(self, o, lambda a, b: a == b, 'eq')

    def __ne__(self, o):
        return compare(self, o, lambda a, b: a != b, 'ne')

    def __lt__(self, o):
        return compare(self, o, lambda a, b: a < b, 'lt')

    def __le__(self, o):
        return compare(self, o, lambda a, b: a <= b, 'le')

    def __gt__(self, o):
        return compare(self, o, lambda a, b: a > b, 'gt')

    def __ge__(self, o):
        return compare(self, o, lambda a, b: a >= b, 'ge')

    __hash__ = None

    def copy(self):
        return self._like(Buf(self.n, self.buf.at, self.buf.prov))

    def equals(self, o):
        b = to_buf(o)
        if not ctx().branch(zi(b.n) == zi(self.n)):
            return False
        return mkbool(ctx().forall(0, self.n, lambda k: self.at(k) == b.at(k)))

    @property
    def is_monotonic_increasing(self):
        return mkbool(sorted_fact(self.buf))

    is_monotonic = is_monotonic_increasing

    @property
    def is_unique(self):
        c = ctx()
        at = self.buf.at
        return mkbool(c.forall(0, self.n, lambda i: c.forall(0, i, lambda j: at(i) != at(j))))

    @property
    def empty(self):
        return mkbool(zi(self.n) == 0)

    def take(self, k):
        return self[asarray(k)]

    def tolist(self):
        return list(self)

    def __contains__(self, v):
        return bool(self._contains(v))

    def _contains(self, v):
        at = self.buf.at
        e = coerce(v, self.dt)
        return mkbool(ctx().exists(0, self.n, lambda k: at(k) == e))

    def get_loc(self, v, method=None):
        if method is not None:
            raise Unsupported('get_loc method')
        c = ctx()
        c.use('Index.get_loc')
        at = self.buf.at
        e = coerce(v, self.dt)
        if not c.branch(zb(self._contains(v))):
            raise KeyError('label')
        j = c.int('loc')
        c.assume(z3.And(0 <= j, j < zi(self.n), at(j) == e))
        # uniqueness: a strictly increasing index has one position per label
        u = c.forall(0, self.n, lambda k: z3.Implies(at(k) == e, k == j),
                     pats=lambda k: pat(at(k)))
        if not c.must(u):
            c.oblige('get_loc-needs-unique-index', u)
        else:
            c.assume(u)
        return mkint(j)

    def get_indexer(self, target, method=None):
        if method is not None:
            raise Unsupported('get_indexer method')
        c = ctx()
        c.use('Index.get_indexer')
        tb = to_buf(target)
        at, n, tat, m = self.buf.at, zi(self.n), tb.at, tb.n
        if isinstance(m, int) and isinstance(self.n, int):
            out = []
            for q in range(m):
                e = z3.IntVal(-1)
                for i in range(self.n - 1, -1, -1):
                    e = z3.If(at(z3.IntVal(i)) == tat(z3.IntVal(q)), z3.IntVal(i), e)
                out.append(e)
            return ndarray(Buf(m, rows(m, out)), 'i8')
        gi = c.func('gi')
        q, k = z3.Int(c.fresh('q')), z3.Int(c.fresh('k'))
        inq = z3.And(0 <= q, q < zi(m))
        c.assume(z3.ForAll([q], z3.Implies(inq, z3.And(
            gi(q) >= -1, gi(q) < n,
            z3.Implies(gi(q) >= 0, at(gi(q)) == tat(q)))), patterns=[gi(q)] + pat(tat(q))))
        c.assume(z3.ForAll([q, k], z3.Implies(
            z3.And(inq, 0 <= k, k < n, at(k) == tat(q)), gi(q) == k),
            patterns=[z3.MultiPattern(gi(q), t) for t in pat(at(k))]))
        return ndarray(Buf(m, lambda i: gi(i)), 'i8')

    def searchsorted(self, v, side='left', sorter=None):
        return do_searchsorted(self.buf, v, side, self.dt)

    def slice_indexer(self, start=None, end=None, step=None, kind=None):
        if step is not None:
            raise Unsupported('slice_indexer step')
        ctx().use('Index.slice_indexer')
        lo = 0 if start is None else do_searchsorted(self.buf, start, 'left', self.dt)
        hi = self.n if end is None else do_searchsorted(self.buf, end, 'right', self.dt)
        return slice(lo, hi)

    def slice_locs(self, start=None, end=None, step=None, kind=None):
        s = self.slice_indexer(start, end)
        return s.start, s.stop

    def isin(self, o):
        c = ctx()
        ob = to_buf(o)
        at = self.buf.at
        return ndarray(Buf(self.n, lambda k: c.exists(0, ob.n, lambda j: ob.at(j) == at(k), name='j')), 'b')

    def unique(self):
        """First occurrences, in order."""
        c = ctx()
        at = self.buf.at
        if isinstance(self.n, int):
            b = mask_buf(self.buf, lambda k: z3.And([z3.Implies(
                j < k, at(z3.IntVal(j)) != at(k)) for j in range(self.n)] or [z3.BoolVal(True)]))
            return self._like(b)
        c.use('Index.unique')
        n = zi(self.n)
        cnt = c.int('uniq')
        emb, inv = c.func('uniq_first'), c.func('uniq_pos')
        k, l = z3.Int(c.fresh('k')), z3.Int(c.fresh('l'))
        c.assume(z3.And(0 <= cnt, cnt <= n))
        c.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < cnt), z3.And(
            0 <= emb(k), emb(k) < n, inv(emb(k)) == k)), patterns=[emb(k)]))
        c.assume(z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k < l, l < cnt), z3.And(
            emb(k) < emb(l), at(emb(k)) != at(emb(l)))), patterns=[z3.MultiPattern(emb(k), emb(l))]))
        c.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(
            0 <= inv(k), inv(k) < cnt, emb(inv(k)) <= k, at(emb(inv(k))) == at(k))), patterns=[inv(k)]))
        b = Buf(mkint(cnt), lambda i: at(emb(i)))
        b.prov = ('unique', inv, self.buf)
        return self._like(b)

    def append(self, others):
        if not isinstance(others, (list, tuple)):
            others = [others]
        return self._like(concat_bufs([self.buf] + [to_buf(o) for o in others]))

    def max(self):
        return seq_extreme(self, True)

    def min(self):
        return seq_extreme(self, False)

    def map(self, f):
        raise Unsupported('Index.map')

    def __str__(self):
        return '<index>'

    __repr__ = __str__

    def __format__(self, spec):
        return '<index>'


def concat_bufs(bufs):
    """Concatenation of a fixed number of sequences."""
    n = 0
    offs = []
    for b in bufs:
        offs.append(zi(n))
        n = n + b.n
    ats = [b.at for b in bufs]

    def at(k):
        out = ats[-1](k - offs[-1])
        for j in range(len(ats) - 2, -1, -1):
            out = z3.If(k < offs[j + 1], ats[j](k - offs[j] if j else k), out)
        return out
    if len(bufs) == 1:
        return Buf(bufs[0].n, bufs[0].at, bufs[0].prov)
    b = Buf(n, at)
    b.prov = ('concat', [Buf(x.n, x.at, x.prov) for x in bufs])
    return b


class DatetimeIndex(Index):
    def __init__(self, data=None, tz=None, freq=None, dtype=None, name=None,
                 copy=False, buf=None):
        if isinstance(data, Buf):
            buf = data
        tz = norm_tz(tz)
        self.dt = 'M8'
        self.tz = tz
        if buf is not None:
            self.buf = buf
            return
        if isinstance(data, DatetimeIndex):
            self.buf = Buf(data.buf.n, data.buf.at, data.buf.prov)
            self.tz = data.tz if tz is None else tz
            if tz is not None and data.tz is None and tz is not UTC:
                raise Unsupported('DatetimeIndex(naive, tz=zone)')
            return
        if isinstance(data, Series):
            self.buf = to_buf(data)
            self.tz = data.tz if tz is None else tz
            return
        if isinstance(data, ndarray):
            if data.dt not in ('M8', 'i8'):
                raise Unsupported('DatetimeIndex of %s' % data.dt)
            self.buf = data.buf      # shares memory, as pandas does
            if tz is not None and tz is not UTC:
                raise Unsupported('DatetimeIndex(array, tz=zone)')
            return
        if has_flat(data):
            ix = flat_list_index(data, tz)
            self.buf, self.tz = ix.buf, ix.tz
            return
        if isinstance(data, Index):
            self.buf = to_buf(data)
            return
        if data is None:
            data = []
        data = list(data)
        vals = [to_ts(v) for v in data]
        if vals and tz is None:
            self.tz = vals[0].tz
        self.buf = Buf(len(vals), rows(len(vals), [zi(v.value) for v in vals]))

    tzinfo = property(lambda s: s.tz)

    def _like(self, buf):
        return DatetimeIndex(buf=buf, tz=self.tz)

    def _elem(self, k):
        return maybe_nat_ts(self.buf.at(k), self.tz)

    @property
    def asi8(self):
        return ndarray(Buf(self.n, self.buf.at, self.buf.prov), 'i8')

    def tz_localize(self, tz, *a, **k):
        tz = norm_tz(tz)
        at = self.buf.at
        if self.tz is not None:
            if tz is None:
                otz = self.tz
                return DatetimeIndex(buf=Buf(self.n, lambda k: unlocalize_term(at(k), otz) if otz is not UTC else at(k), self.buf.prov))
            raise TypeError('Already tz-aware, use tz_convert to convert.')
        if tz is None or tz is UTC:
            return DatetimeIndex(buf=Buf(self.n, at, self.buf.prov), tz=tz)
        ctx().use('tz_localize')
        return DatetimeIndex(buf=Buf(self.n, lambda k: localize_term(at(k), tz)), tz=tz)

    def tz_convert(self, tz):
        if self.tz is None:
            raise TypeError('Cannot convert tz-naive timestamps')
        return DatetimeIndex(buf=Buf(self.n, self.buf.at, self.buf.prov), tz=norm_tz(tz))

    def _need_utc_like(self):
        if not (self.tz is None or self.tz is UTC):
            raise Unsupported('calendar fields of a zoned index')

    @property
    def weekday(self):
        self._need_utc_like()
        at = self.buf.at
        return Index(Buf(self.n, lambda k: (at(k) / z3.IntVal(DAY) + 3) % 7), 'i8')

    dayofweek = weekday

    @property
    def year(self):
        self._need_utc_like()
        at = self.buf.at
        c = ctx()
        if isinstance(self.n, int):
            ys = []
            for i in range(self.n):
                y = mkts(mkint(at(z3.IntVal(i))), None).year
                ys.append(zi(y))
            return Index(Buf(self.n, rows(self.n, ys)), 'i8')
        return Index(Buf(self.n, lambda k: YR(at(k) / z3.IntVal(DAY))), 'i8')

    def normalize(self):
        self._need_utc_like()
        at = self.buf.at
        return self._like(Buf(self.n, lambda k: at(k) - at(k) % z3.IntVal(DAY)))

    def _add(self, o, op):
        if isinstance(o, Offset):
            raise Unsupported('index + offset')
        if isinstance(o, (Timestamp, DatetimeIndex)) and op == '-':
            raise Unsupported('index difference')
        r = arith(self, o, op)
        if r.dt != 'M8':
            raise Unsupported('index arithmetic')
        return DatetimeIndex(buf=r.buf, tz=self.tz)

    def __add__(self, o):
        return self._add(o, '+')

    __radd__ = __add__

    def __sub__(self, o):
        return self._add(o, '-')

    def map(self, f):
        if isinstance(self.n, int):
            vals = [f(v) for v in self]
            if all(isinstance(v, (Timestamp, NaTType)) for v in vals):
                return DatetimeIndex(vals, tz=self.tz if not vals else None)
            raise Unsupported('map result')
        return flat_map_index(self, f)

    def union(self, o):
        raise Unsupported('union')

    def to_series(self):
        return Series(data=self, index=self)

    def _contains(self, v):
        if isinstance(v, Timestamp) and (v.tz is None) != (self.tz is None):
            # pandas 1.1 reads a naive key in the index's zone
            v = mkts(v.value, self.tz)
        return Index._contains(self, v)


def to_ts(v):
    if isinstance(v, (Timestamp, NaTType)):
        return v
    return Timestamp(v)


def maybe_nat_ts(e, tz):
    """Element of a datetime column: NaT or a Timestamp."""
    c = ctx()
    e = z3.simplify(e)
    if z3.is_int_value(e):
        if e.as_long() == NAT:
            return NaT
        return mkts(e.as_long(), tz)
    if c.branch(is_nat(e)):
        return NaT
    return mkts(SInt(e), tz)


class Series(Base):
    _vc_seq = True
    _slice_lo = None

    def __init__(self, data=None, index=None, dtype=None, name=None, buf=None,
                 dt=None, tz=None):
        self.tz = norm_tz(tz)
        if buf is not None:
            self.buf, self.dt, self.index = buf, dt, index
            return
        if isinstance(data, (DatetimeIndex, Series)):
            b = to_buf(data)
            self.buf, self.dt, self.tz = Buf(b.n, b.at, b.prov), data.dt, data.tz
        elif isinstance(data, ndarray):
            self.buf, self.dt = Buf(data.n, data.at, data.buf.prov), data.dt
        elif isinstance(data, (list, tuple)) or data is None:
            data = list(data or [])
            t = dtype_of(dtype) if dtype is not None else None
            if dtype == 'datetime64[ns, UTC]':
                self.tz = UTC
            if not data:
                self.buf, self.dt = Buf(0, lambda k: z3.IntVal(0)), t or 'M8'
            else:
                a = array(data)
                self.buf, self.dt = a.buf, t or a.dt
                if isinstance(data[0], Timestamp):
                    self.tz = data[0].tz
        else:
            raise Unsupported('Series(%s)' % type(data).__name__)
        if index is None:
            self.index = Index(Buf(self.buf.n, lambda k: k), 'i8')
        else:
            ix = index if isinstance(index, Index) else DatetimeIndex(index)
            self.index = ix
            if not ctx().branch(zi(ix.n) == zi(self.buf.n)):
                raise ValueError('Length of passed values does not match index')

    @property
    def dt(self):
        d = DtName(self._dt)
        d.s = self
        return d

    @dt.setter
    def dt(self, v):
        self._dt = str(v)

    n = property(lambda s: s.buf.n)
    size = property(lambda s: s.buf.n)
    shape = property(lambda s: (s.buf.n,))
    name = None
    empty = property(lambda s: mkbool(zi(s.n) == 0))

    def at_(self, k):
        return self.buf.at(k)

    def _slen(self):
        return self.buf.n

    def __len__(self):
        if isinstance(self.buf.n, int):
            return self.buf.n
        return ctx().concretize(self.buf.n)

    def _elem(self, k):
        if self.dt == 'M8':
            return maybe_nat_ts(self.buf.at(k), self.tz)
        if self.dt == 'm8':
            return Timedelta(mkint(self.buf.at(k)))
        return scalar(self.dt, self.buf.at(k))

    def __iter__(self):
        if isinstance(self.buf.n, int):
            return iter([self._elem(z3.IntVal(i)) for i in range(self.buf.n)])
        raise Unsupported('iteration over a series of symbolic length')

    @property
    def values(self):
        return ndarray(self.buf, self.dt)

    _values = values
    array = values

    def to_numpy(self):
        return self.values

    def _like(self, arr):
        return Series(buf=Buf(arr.n, arr.buf.at), dt=arr.dt, index=self.index,
                      tz=self.tz if arr.dt == 'M8' else None)

    def _chk(self, o):
        if isinstance(o, Series) and o.index is not self.index:
            if o.index.buf is self.index.buf or same_seq(o.index.buf, self.index.buf):
                return
            raise Unsupported('operation on differently indexed series')

    def __add__(self, o):
        self._chk(o)
        return self._like(arith(self, o, '+'))

    __radd__ = __add__

    def __sub__(self, o):
        self._chk(o)
        return self._like(arith(self, o, '-'))

    def __floordiv__(self, o):
        return self._like(arith(self, o, '//'))

    def __mul__(self, o):
        return self._like(arith(self, o, '*'))

    __rmul__ = __mul__

    def __eq__(self, o):
        return self._like(compare(self, o, lambda a, b: a == b, 'eq'))

    def __ne__(self, o):
        return self._like(compare(self, o, lambda a, b: a != b, 'ne'))

    def __lt__(self, o):
        return self._like(compare(self, o, lambda a, b: a < b, 'lt'))

    def __le__(self, o):
        return self._like(compare(self, o, lambda a, b: a <= b, 'le'))

    def __gt__(self, o):
        return self._like(compare(self, o, lambda a, b: a > b, 'gt'))

    def __ge__(self, o):
        return self._like(compare(self, o, lambda a, b: a >= b, 'ge'))

    __hash__ = None

    def __and__(self, o):
        return self._like(logical(self, o, z3.And))

    def __or__(self, o):
        return self._like(logical(self, o, z3.Or))

    def __invert__(self):
        return self._like(~self.values)

    def isnull(self):
        at = self.buf.at
        return self._like(ndarray(Buf(self.n, lambda k: is_nat(at(k))), 'b'))

    isna = isnull

    def notnull(self):
        return ~self.isnull()

    notna = notnull

    def all(self):
        return self.values.all()

    def any(self):
        return self.values.any()

    def fillna(self, v):
        at = self.buf.at
        if self.dt not in ('M8', 'm8'):
            return self
        e = coerce(v, self.dt)
        return self._like(ndarray(Buf(self.n, lambda k: z3.If(is_nat(at(k)), e, at(k))), self.dt))

    def astype(self, d):
        return self._like(self.values.astype(d))

    def copy(self):
        return self._like(self.values.copy())

    def sum(self):
        a = ndarray(self.buf, self.dt)
        if getattr(self, '_slice_lo', None) is not None:
            a._slice_lo = self._slice_lo
        return seq_sum(a)

    def _slice(self, lo, m):
        at = self.buf.at
        out = Series(buf=Buf(mkint(m), lambda i: at(lo + i)), dt=self.dt, tz=self.tz,
                     index=self.index._like(Buf(mkint(m), (lambda iat: lambda i: iat(lo + i))(self.index.buf.at))))
        out._slice_lo = mkint(lo)
        return out

    def __getitem__(self, k):
        if isinstance(k, slice):
            if _label_slice(k):
                s = self.index.slice_indexer(k.start, k.stop)
                lo, m = norm_slice(self.n, s)
                return self._slice(lo, m)
            lo, m = norm_slice(self.n, k)
            return self._slice(lo, m)
        if isinstance(k, (Series, ndarray)) and k.dt == 'b':
            return self._mask(k)
        if isinstance(k, Timestamp):
            return self._elem(zi(self.index.get_loc(k)))
        if isinstance(k, (int, SInt)):
            return self._elem(norm_pos(self.n, k))
        raise Unsupported('Series[%s]' % type(k).__name__)

    def _mask(self, k):
        kb = to_buf(k)
        if not ctx().branch(zi(kb.n) == zi(self.n)):
            raise IndexError('boolean index did not match')
        at, iat = self.buf.at, self.index.buf.at
        b = mask_buf(Buf(self.n, iat, self.index.buf.prov), kb.at)
        prov = b.prov
        emb = prov[3]
        if emb is None:
            b2 = mask_again(self.buf, kb.at)
        else:
            b2 = Buf(b.n, lambda i: at(emb(i)))
        ix = self.index._like(Buf(b.n, b.at, b.prov))
        out = Series(buf=b2, dt=self.dt, tz=self.tz, index=ix)
        return out

    @property
    def loc(self):
        return _Loc(self)

    @property
    def iloc(self):
        return _ILoc(self)

    @property
    def at(self):
        return _At(self)

    def sort_index(self):
        return sort_series(self)

    def sort_values(self):
        raise Unsupported('sort_values')

    def drop_duplicates(self):
        raise Unsupported('drop_duplicates')

    def map(self, f):
        """pandas calls the mapper on the values as an index when it can."""
        if self.dt != 'M8' or self.tz is None:
            raise Unsupported('Series.map')
        ctx().use('Series.map-on-datetime-values')
        r = f(DatetimeIndex(buf=Buf(self.n, self.buf.at), tz=self.tz))
        if not isinstance(r, (DatetimeIndex, Series)):
            raise Unsupported('Series.map result')
        return Series(buf=Buf(r.buf.n, r.buf.at, r.buf.prov), dt='M8', tz=r.tz, index=self.index)

    @property
    def is_monotonic_increasing(self):
        return mkbool(sorted_fact(self.buf))

    def searchsorted(self, v, side='left', sorter=None):
        return do_searchsorted(self.buf, v, side, self.dt)

    def tolist(self):
        return list(self)

    def max(self):
        return seq_extreme(self, True)

    def min(self):
        return seq_extreme(self, False)

    def __str__(self):
        return '<series>'

    __repr__ = __str__


class _DtAccessor(Base):
    def __init__(self, s):
        self.s = s

    def tz_localize(self, tz, *a, **k):
        s = self.s
        tz = norm_tz(tz)
        if s.tz is not None and tz is not None:
            raise TypeError('Already tz-aware')
        if tz is not None and tz is not UTC:
            raise Unsupported('dt.tz_localize(zone)')
        out = Series(buf=Buf(s.buf.n, s.buf.at, s.buf.prov), dt=s.dt, index=s.index, tz=tz)
        if getattr(s, '_slice_lo', None) is not None:
            out._slice_lo = s._slice_lo
        return out

    def tz_convert(self, tz):
        s = self.s
        return Series(buf=Buf(s.buf.n, s.buf.at), dt=s.dt, index=s.index, tz=norm_tz(tz))


class DtName(str):
    """Series.dt: the dtype name (used by this module) that also offers the
    methods of the pandas .dt accessor (used by the code under test)."""
    s = None

    def tz_localize(self, tz, *a, **k):
        return _DtAccessor(self.s).tz_localize(tz)

    def tz_convert(self, tz):
        return _DtAccessor(self.s).tz_convert(tz)

    @property
    def tz(self):
        return self.s.tz


def same_seq(a, b):
    c = ctx()
    return c.must(z3.And(zi(a.n) == zi(b.n), c.forall(0, a.n, lambda k: a.at(k) == b.at(k))))


def mask_again(buf, m):
    """Concrete-length mask whose decisions were already taken."""
    c = ctx()
    keep = []
    for i in range(buf.n):
        t = z3.simplify(zb(m(z3.IntVal(i))))
        if z3.is_true(t) or (not z3.is_false(t) and c.must(t)):
            keep.append(buf.at(z3.IntVal(i)))
    return Buf(len(keep), rows(len(keep), keep))


def _label_slice(k):
    return isinstance(k.start, (Timestamp, datetime64, str)) or isinstance(k.stop, (Timestamp, datetime64, str))


def sort_series(s):
    """Series.sort_index: a permutation that sorts the index."""
    c = ctx()
    c.use('Series.sort_index')
    n, at, iat = s.n, s.buf.at, s.index.buf.at
    if isinstance(n, int):
        # concrete length: insertion by forking
        items = [(iat(z3.IntVal(i)), at(z3.IntVal(i))) for i in range(n)]
        out = []
        for it in items:
            p = len(out)
            while p > 0 and c.branch(out[p - 1][0] > it[0]):
                p -= 1
            out.insert(p, it)
        return Series(buf=Buf(n, rows(n, [v for _, v in out])), dt=s.dt, tz=s.tz,
                      index=s.index._like(Buf(n, rows(n, [i for i, _ in out]))))
    pi, pinv = c.func('perm'), c.func('perminv')
    k, l = z3.Int(c.fresh('k')), z3.Int(c.fresh('l'))
    n_ = zi(n)
    c.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n_), z3.And(
        0 <= pi(k), pi(k) < n_, pinv(pi(k)) == k)), patterns=[pi(k)]))
    c.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n_), z3.And(
        0 <= pinv(k), pinv(k) < n_, pi(pinv(k)) == k)), patterns=[pinv(k)]))
    c.assume(z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k <= l, l < n_),
             iat(pi(k)) <= iat(pi(l))), patterns=[z3.MultiPattern(pi(k), pi(l))]))
    ib = Buf(n, lambda i: iat(pi(i)))
    ib.prov = ('perm', pi, pinv, s.index.buf.prov)
    return Series(buf=Buf(n, lambda i: at(pi(i))), dt=s.dt, tz=s.tz, index=s.index._like(ib))


class _Loc(Base):
    def __init__(self, o):
        self.o = o

    def __getitem__(self, k):
        o = self.o
        if isinstance(o, DataFrame):
            if isinstance(k, tuple):
                r, col = k
                if isinstance(col, list):
                    if isinstance(r, (Timestamp, str)):
                        row = self[r]
                        return row.loc[col]
                    return self[r][col]
                if isinstance(col, str):
                    return _Loc(o[col])[r]
                raise Unsupported('loc column')
            if isinstance(k, slice):
                s = o.index.slice_indexer(k.start, k.stop)
                lo, m = norm_slice(o.n, s)
                return o._slice(lo, m)
            if isinstance(k, Timestamp):
                return Row(o, zi(o.index.get_loc(k)))
            raise Unsupported('loc row')
        if isinstance(o, Row):
            if isinstance(k, list):
                return RowVals([o[c] for c in k], k)
            return o[k]
        if isinstance(k, slice):
            s = o.index.slice_indexer(k.start, k.stop)
            lo, m = norm_slice(o.n, s)
            return o._slice(lo, m)
        if isinstance(k, (Series, ndarray)) and k.dt == 'b':
            return o._mask(k)
        if isinstance(k, Timestamp):
            return o._elem(zi(o.index.get_loc(k)))
        raise Unsupported('loc')


class RowVals(Base):
    def __init__(self, vals, cols):
        self.vals = vals
        self.cols = cols

    def __iter__(self):
        return iter(self.vals)

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.vals[self.cols.index(k)]
        return self.vals[k]

    @property
    def values(self):
        return self.vals


class _ILoc(Base):
    def __init__(self, o):
        self.o = o

    def __getitem__(self, k):
        o = self.o
        if isinstance(o, DataFrame):
            if isinstance(k, tuple):
                raise Unsupported('iloc 2d')
            if isinstance(k, slice):
                lo, m = norm_slice(o.n, k)
                return o._slice(lo, m)
            return Row(o, norm_pos(o.n, k))
        if isinstance(k, slice):
            lo, m = norm_slice(o.n, k)
            return o._slice(lo, m)
        if isinstance(k, (ndarray, list)):
            raise Unsupported('iloc array')
        return o._elem(norm_pos(o.n, k))


class _At(Base):
    def __init__(self, o):
        self.o = o

    def __getitem__(self, k):
        o = self.o
        if isinstance(o, DataFrame):
            r, col = k
            return o[col]._elem(zi(o.index.get_loc(r)))
        return o._elem(zi(o.index.get_loc(k)))


class Row(Base):
    """One row of a frame, as a series over the columns."""

    def __init__(self, df, pos):
        self.df = df
        self.pos = pos

    @property
    def loc(self):
        return _Loc(self)

    def __getitem__(self, c):
        if isinstance(c, list):
            return RowVals([self[x] for x in c], c)
        if isinstance(c, int):
            c = self.df.cols[c]
        return self.df[c]._elem(self.pos)

    def __getattr__(self, c):
        if c in self.__dict__.get('df').cols:
            return self[c]
        raise Unsupported('Row.%s' % c)

    def __iter__(self):
        return iter([self[c] for c in self.df.cols])

    @property
    def name(self):
        return self.df.index._elem(self.pos)


class DataFrame(Base):
    def __init__(self, data=None, index=None, columns=None, dtype=None,
                 _cols=None):
        if _cols is not None:
            self.__dict__['index'] = index
            self.__dict__['data'] = _cols
            self.__dict__['cols'] = list(_cols)
            return
        if dtype is not None and dtype_of(dtype) != 'M8':
            raise Unsupported('DataFrame dtype')
        if not isinstance(data, dict):
            raise Unsupported('DataFrame(%s)' % type(data).__name__)
        if not isinstance(index, Index):
            raise Unsupported('DataFrame index')
        d = {}
        for name in (columns or list(data)):
            v = data[name]
            if v is None:
                d[name] = Series(buf=Buf(index.n, lambda k: z3.IntVal(NAT)), dt='M8', index=index)
                continue
            b = to_buf(v)
            if not ctx().branch(zi(b.n) == zi(index.n)):
                raise ValueError('array length does not match index length')
            if v.dt not in ('M8',):
                raise Unsupported('column dtype')
            # dtype='datetime64[ns]' drops the zone, keeping UTC instants
            tz = None if dtype is not None else getattr(v, 'tz', None)
            d[name] = Series(buf=Buf(b.n, b.at), dt='M8', index=index, tz=tz)
        self.__dict__['index'] = index
        self.__dict__['data'] = d
        self.__dict__['cols'] = list(d)

    @property
    def n(self):
        return self.index.n

    @property
    def columns(self):
        return list(self.cols)

    @property
    def shape(self):
        return (self.n, len(self.cols))

    def _slen(self):
        return self.n

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        return ctx().concretize(self.n)

    def __getattr__(self, name):
        d = self.__dict__.get('data')
        if d is not None and name in d:
            return d[name]
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('DataFrame.%s' % name)

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.data:
                raise KeyError(k)
            return self.data[k]
        if isinstance(k, list):
            return DataFrame(index=self.index, _cols={c: self.data[c] for c in k})
        if isinstance(k, slice):
            return _Loc(self)[k] if _label_slice(k) else _ILoc(self)[k]
        raise Unsupported('DataFrame[%s]' % type(k).__name__)

    def _slice(self, lo, m):
        cols = {c: s._slice(lo, m) for c, s in self.data.items()}
        ix = self.index
        at = ix.buf.at
        return DataFrame(index=ix._like(Buf(mkint(m), lambda i: at(lo + i))), _cols=cols)

    def copy(self):
        return DataFrame(index=self.index.copy(), _cols={c: s.copy() for c, s in self.data.items()})

    loc = property(lambda s: _Loc(s))
    iloc = property(lambda s: _ILoc(s))
    at = property(lambda s: _At(s))


# -- symbolic lists built by loops over symbolic sequences -------------------------


class FlatList(list):
    """A Python list some of whose entries are FlatMap placeholders: each
    stands for the entries appended by a whole loop."""

    def __getitem__(self, k):
        if not has_flat(self):
            return list.__getitem__(self, k)
        fm = list.__getitem__(self, 0)
        if len(self) == 1 and isinstance(fm, FlatMap) and all(len(e) == 1 for _, e, _ in fm.cases):
            if isinstance(k, int) and k == 0:
                if ctx().branch(zi(fm.count) == 0):
                    raise IndexError('list index out of range')
                return FlatHead(fm)
            if isinstance(k, slice) and k.start == 1 and k.stop is None and k.step is None:
                return FlatTail(fm)
        raise Unsupported('entry of a symbolic list')


class FlatTail(object):
    """All entries of a symbolic list but the first."""

    def __init__(self, fm):
        self.fm = fm


class FlatHead(object):
    """The first entry of a symbolic list of indexes; only for gluing the
    others to it."""

    def __init__(self, fm):
        self.fm = fm

    def append(self, others):
        if not isinstance(others, FlatTail) or others.fm is not self.fm:
            raise Unsupported('append to an entry of a symbolic list')
        tz = set()
        for facts, entries, obs in self.fm.cases:
            for e in entries:
                if not isinstance(e, DatetimeIndex):
                    raise Unsupported('append of %s' % type(e).__name__)
                tz.add(e.tz)
        if len(tz) != 1:
            raise Unsupported('mixed time zones')
        return DatetimeIndex(buf=np_concatenate(self.fm).buf, tz=tz.pop())

    def __getattr__(self, nm):
        raise Unsupported('attribute %s of an entry of a symbolic list' % nm)


class FlatMap(object):
    """for i in range(count): entries(i), with one case per path of the loop
    body; facts are the case's extra assumptions about the generic i."""

    def __init__(self, count, i, cases):
        self.count = count
        self.i = i
        self.cases = cases          # [(facts, [entries], obligations)]


def has_flat(lst):
    return isinstance(lst, (list, tuple)) and any(isinstance(x, FlatMap) for x in lst)


def np_concatenate(parts, axis=0):
    if isinstance(parts, FlatMap):
        parts = [parts]
    if isinstance(parts, (ndarray, Index, Series)):
        raise Unsupported('concatenate of an array')
    parts = list(parts)
    if not parts:
        raise ValueError('need at least one array to concatenate')
    c = ctx()
    if any(isinstance(p, FlatMap) for p in parts):
        if len(parts) != 1:
            raise Unsupported('concatenation of mixed symbolic lists')
        fm = parts[0]
        dts = set()
        for facts, entries, obs in fm.cases:
            for e in entries:
                if not isinstance(e, (ndarray, Index, Series)):
                    raise Unsupported('concatenation of scalars')
                dts.add(e.dt)
        if not dts:
            raise Unsupported('concatenation of nothing')
        if len(dts) != 1:
            raise Unsupported('mixed dtypes')
        if c.branch(zi(fm.count) == 0):
            raise ValueError('need at least one array to concatenate')
        c.use('numpy.concatenate')
        n = c.int('catlen')
        f = c.func('cat')
        c.assume(n >= 0)
        b = Buf(mkint(n), lambda k: f(k), ('flat', fm))
        return ndarray(b, dts.pop())
    arrs = [asarray(p) for p in parts]
    dts = set(a.dt for a in arrs if not (isinstance(a.n, int) and a.n == 0)) or {arrs[0].dt}
    if len(dts) != 1:
        raise Unsupported('mixed dtypes')
    return ndarray(concat_bufs([a.buf for a in arrs]), dts.pop())


def _consts(e, out):
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        out.add(e.decl().name())
    for ch in e.children():
        _consts(ch, out)
    return out


def flat_to_buf(fm):
    """The timestamps produced by a loop, at most one per element: a map
    followed by a selection."""
    c = ctx()
    src = getattr(fm, 'src', None)
    if src is not None:
        return Buf(src.buf.n, src.buf.at, src.buf.prov), src.tz
    known = set()
    for f in c.facts:
        _consts(f, known)
    known.add(fm.i.decl().name())
    tzs, cases = set(), []
    for (_, entries, obs), facts in zip(fm.cases, fm.conds):
        if len(entries) > 1:
            raise Unsupported('loop with several results per element')
        for f in facts:
            if not _consts(f, set()) <= known:
                raise Unsupported('loop with internal choices')
        cond = z3.And(facts) if facts else z3.BoolVal(True)
        val = None
        if entries:
            if not isinstance(entries[0], Timestamp):
                raise Unsupported('loop result %s' % type(entries[0]).__name__)
            tzs.add(entries[0].tz)
            val = zi(entries[0].value)
        cases.append((cond, val))
    if len(tzs) > 1:
        raise Unsupported('loop results with different zones')
    full = [x for x in cases if x[1] is not None]
    tz = tzs.pop() if tzs else None
    if not full:
        return Buf(0, rows(0, [])), tz

    def sub(e, k):
        return z3.substitute(e, (fm.i, zi(k)))

    def at(k):
        out = sub(full[-1][1], k)
        for cond, v in reversed(full[:-1]):
            out = z3.If(sub(cond, k), sub(v, k), out)
        return out
    b = Buf(fm.count, at)
    if len(full) != len(cases):
        keep = z3.Or([x[0] for x in full])
        b = mask_buf(b, lambda k: sub(keep, k))
    return b, tz


def flat_list_index(lst, tz):
    """DatetimeIndex of a list with symbolic parts."""
    bufs, tzs = [], set()
    for x in lst:
        if isinstance(x, FlatMap):
            b, z = flat_to_buf(x)
            bufs.append(b)
            if z is not None:
                tzs.add(z)
        elif isinstance(x, Timestamp):
            bufs.append(Buf(1, rows(1, [zi(x.value)])))
            if x.tz is not None:
                tzs.add(x.tz)
        else:
            raise Unsupported('list of %s' % type(x).__name__)
    if len(tzs) > 1:
        raise Unsupported('mixed zones')
    z = tzs.pop() if tzs else None
    return DatetimeIndex(buf=concat_bufs(bufs), tz=tz or z)


RUN_GENERIC = None


def flat_map_index(ix, f):
    b, tz = flat_to_buf(RUN_GENERIC(ix, lambda e: [f(e)]))
    return DatetimeIndex(buf=b, tz=tz)
