"""Concrete logic backend: the contracts of api.py evaluated on real objects
(runs in the project's interpreter).  The symbolic backend is vc/symlogic.py."""
import bisect


class Arr(object):
    """A[k] as a function, with its length."""

    def __init__(self, vals):
        self.vals = list(vals)
        self.n = len(self.vals)

    def __call__(self, k):
        return self.vals[k]


class Concrete(object):
    symbolic = False

    def And(self, *a):
        return all(a)

    def Or(self, *a):
        return any(a)

    def Not(self, a):
        return not a

    def Implies(self, a, f):
        return (not a) or f()

    def Ite(self, c, f, g):
        return f() if c else g()

    def If(self, c, a, b):
        return a if c else b

    def ForAll(self, lo, hi, f):
        return all(f(k) for k in range(lo, hi))

    def Exists(self, lo, hi, f):
        return any(f(k) for k in range(lo, hi))

    def max(self, a, b):
        return max(a, b)

    def min(self, a, b):
        return min(a, b)

    def increasing(self, X):
        return all(a <= b for a, b in zip(X.vals, X.vals[1:]))

    def lower(self, A, x):
        """number of elements < x of the sorted sequence A"""
        return bisect.bisect_left(A.vals, x)

    def upper(self, A, x):
        """number of elements <= x"""
        return bisect.bisect_right(A.vals, x)

    # outcomes: ('ret', value) / ('raise', [class names])
    def raised(self, out, *names):
        if out[0] != 'raise':
            return False
        return not names or any(n in out[1] for n in names)

    def ret_ts(self, out, v):
        return out[0] == 'ret' and out[1] == ('ts', v)

    def ret_label(self, out, v):
        return self.ret_ts(out, v)

    def ret_nat(self, out):
        return out[0] == 'ret' and out[1] == ('nat',)

    def ret_bool(self, out, v):
        return out[0] == 'ret' and out[1] == ('bool', bool(v))

    def ret_int(self, out, v):
        return out[0] == 'ret' and out[1] == ('int', v)

    def ret_seq(self, out, n, f):
        """a UTC datetime index equal to f(0..n-1)"""
        return (out[0] == 'ret' and out[1][0] == 'index'
                and out[1][1] == [f(k) for k in range(n)])

    def ret_series(self, out, n, lab, val):
        return (out[0] == 'ret' and out[1][0] == 'series'
                and out[1][1] == [lab(k) for k in range(n)]
                and out[1][2] == [val(k) for k in range(n)])

    def ret_pair(self, out, f, g):
        if out[0] != 'ret' or out[1][0] != 'pair':
            return False
        return f(('ret', out[1][1])) and g(('ret', out[1][2]))

    def ret_flat(self, out, lo, hi, length, elem):
        """the concatenation over i in [lo,hi) of elem(i, 0..length(i)-1)"""
        exp = [elem(i, j) for i in range(lo, hi) for j in range(length(i))]
        return out[0] == 'ret' and out[1][0] == 'index' and out[1][1] == exp
