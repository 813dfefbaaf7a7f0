"""Symbolic logic backend for the shared contracts (spec/api.py)."""
import z3

from . import seqs
from .core import NAT, SBool, SInt, Unsupported, ctx, mkbool, mkint, zb, zi
from .seqs import Buf, DatetimeIndex, NaTType, Series, Timestamp, concat_bufs


class SymArr(object):
    """Specification level sequence."""

    def __init__(self, n, f):
        self.n = n
        self.f = f           # z3 Int -> z3 Int

    def __call__(self, k):
        return mkint(self.f(zi(k)))

    def term(self, k):
        return self.f(zi(k))


class SymL(object):
    symbolic = True

    def And(self, *a):
        return mkbool(z3.And([zb(x) for x in a]))

    def Or(self, *a):
        return mkbool(z3.Or([zb(x) for x in a]))

    def Not(self, a):
        return mkbool(z3.Not(zb(a)))

    def Implies(self, a, f):
        return mkbool(z3.Implies(zb(a), zb(f())))

    def Ite(self, c, f, g):
        if isinstance(c, bool):
            return f() if c else g()
        c = zb(c)
        return mkbool(z3.And(z3.Implies(c, zb(f())),
                             z3.Implies(z3.Not(c), zb(g()))))

    def If(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        return mkint(z3.If(zb(c), zi(a), zi(b)))

    def ForAll(self, lo, hi, f):
        return mkbool(ctx().forall(lo, hi, lambda k: zb(f(mkint(k)))))

    def Exists(self, lo, hi, f):
        return mkbool(ctx().exists(lo, hi, lambda k: zb(f(mkint(k)))))

    def max(self, a, b):
        return self.If(mkbool(zi(a) >= zi(b)), a, b)

    def min(self, a, b):
        return self.If(mkbool(zi(a) <= zi(b)), a, b)

    def _rank(self, A, x, strict):
        c = ctx()
        x = zi(x)
        cache = c.__dict__.setdefault('_rank_cache', {})
        key = (A.f, x.sexpr(), strict)
        if key in cache:
            return mkint(cache[key])
        r = c.int('rank')
        n = zi(A.n)
        if strict:
            lo, hi = (lambda k: A.f(k) < x), (lambda k: A.f(k) >= x)
        else:
            lo, hi = (lambda k: A.f(k) <= x), (lambda k: A.f(k) > x)
        # exists and is unique because A is sorted (WF)
        c.assume(z3.And(0 <= r, r <= n,
                        z3.Implies(r > 0, lo(r - 1)), z3.Implies(r < n, hi(r)),
                        c.forall(0, r, lo, pats=lambda k: seqs.pat(A.f(k))),
                        c.forall(r, n, hi, pats=lambda k: seqs.pat(A.f(k)))))
        cache[key] = r
        return mkint(r)

    def lower(self, A, x):
        return self._rank(A, x, True)

    def upper(self, A, x):
        return self._rank(A, x, False)

    def raised(self, out, *names):
        if out[0] != 'raise':
            return False
        mro = [k.__name__ for k in type(out[1]).__mro__]
        return not names or any(n in mro for n in names)

    def ret_ts(self, out, v):
        if out[0] != 'ret' or not isinstance(out[1], Timestamp):
            return False
        if out[1].tz is not seqs.UTC:
            return False
        return mkbool(zi(out[1].value) == zi(v))

    ret_label = ret_ts

    def ret_nat(self, out):
        return out[0] == 'ret' and isinstance(out[1], NaTType)

    def ret_bool(self, out, v):
        if out[0] != 'ret' or not isinstance(out[1], (bool, SBool)):
            return False
        return mkbool(zb(out[1]) == zb(v))

    def ret_int(self, out, v):
        if out[0] != 'ret' or isinstance(out[1], bool) or not isinstance(out[1], (int, SInt)):
            return False
        return mkbool(zi(out[1]) == zi(v))

    def _seq(self, o, n, f):
        at = o.buf.at
        return z3.And(zi(o.n) == zi(n),
                      ctx().forall(0, zi(n), lambda k: at(k) == zi(f(mkint(k)))))

    def ret_seq(self, out, n, f):
        o = out[1]
        if out[0] != 'ret' or not isinstance(o, DatetimeIndex) or o.tz is not seqs.UTC:
            return False
        return mkbool(self._seq(o, n, f))

    def ret_series(self, out, n, lab, val):
        o = out[1]
        if out[0] != 'ret' or not isinstance(o, Series) or o.tz is not seqs.UTC:
            return False
        if not isinstance(o.index, DatetimeIndex):
            return False
        return mkbool(z3.And(self._seq(o, n, val), self._seq(o.index, n, lab)))

    def ret_pair(self, out, f, g):
        if out[0] != 'ret' or not isinstance(out[1], tuple) or len(out[1]) != 2:
            return False
        return self.And(f(('ret', out[1][0])), g(('ret', out[1][1])))

    def increasing(self, X):
        return mkbool(seqs.sorted_fact(Buf(X.n, X.f)))

    def index_to_labels(self, V, X, good, out):
        if out[0] == 'raise':
            return self.And(self.Not(good), self.raised(out, 'ValueError'))
        o = out[1]
        if not isinstance(o, DatetimeIndex) or o.tz is not seqs.UTC:
            return False
        at = o.buf.at

        def one(i):
            return self.Exists(0, V.n, lambda k: self.And(
                V.O(k) <= X(i), X(i) <= V.C(k), mkbool(at(zi(i)) == zi(V.S(k)))))
        inc = self.increasing(X)
        return self.And(inc, mkbool(zi(o.n) == zi(X.n)), self.ForAll(0, X.n, one))

    # -- concatenations over sessions
    def _pieces_equal(self, entries, n, f):
        if not entries:
            return zi(n) == 0
        b = concat_bufs([seqs.to_buf(e) for e in entries])
        return z3.And(zi(b.n) == zi(n),
                      ctx().forall(0, zi(n), lambda j: b.at(j) == zi(f(mkint(j)))))

    def flat_goal(self, o, lo, hi, length, elem):
        """o is the concatenation over i in [lo,hi) of elem(i, 0..length(i)-1).

        Concatenations of equally many, pairwise equal pieces are equal
        (trusted law of concatenation)."""
        c = ctx()
        count = z3.simplify(zi(hi) - zi(lo))
        prov = o.buf.prov
        if c.N is not None:
            bufs = []
            for i in range(c.N):
                inr = z3.And(zi(lo) <= i, i < zi(hi))
                ln = zi(length(i))
                bufs.append(Buf(mkint(z3.If(inr, ln, z3.IntVal(0))),
                                (lambda i: lambda j: zi(elem(i, mkint(j))))(i)))
            e = concat_bufs(bufs)
            return mkbool(z3.And(zi(o.n) == zi(e.n), c.forall(
                0, zi(e.n), lambda k: o.buf.at(k) == e.at(k))))
        if not (isinstance(prov, tuple) and prov[0] == 'flat'):
            if c.must(zi(o.n) == 0):
                return mkbool(count == 0)
            raise Unsupported('result is not a recognised concatenation')
        fm = prov[1]
        goals = [zi(fm.count) == count]
        for facts, entries, obs in fm.cases:
            sess = mkint(zi(lo) + fm.i)
            # ranks introduced by length()/elem() are facts about generic i
            n = length(sess)
            g = self._pieces_equal(entries, n, lambda j: elem(sess, j))
            goals.append(z3.Implies(z3.And(facts) if facts else z3.BoolVal(True), g))
        return mkbool(z3.And(goals))

    def ret_flat(self, out, lo, hi, bounds, M):
        o = out[1]
        if out[0] != 'ret' or not isinstance(o, DatetimeIndex) or o.tz is not seqs.UTC:
            return False

        def length(i):
            b = bounds(i)
            return self.max(b[1] - b[0], 0)
        return self.flat_goal(o, lo, hi, length, lambda i, j: M(bounds(i)[0] + j))

    def ret_flat_minutes(self, out, V):
        from spec import api
        o = out[1]
        if out[0] != 'ret' or not isinstance(o, DatetimeIndex) or o.tz is not seqs.UTC:
            return False
        return self.flat_goal(o, 0, V.n, lambda i: api.n_minutes(self, V, i),
                              lambda i, j: api.minute_of(self, V, i, j))
