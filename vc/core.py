r"""Symbolic execution core of the verifier.

The real functions of the repository are executed by the ordinary Python
interpreter on symbolic values.  Every truth test of a symbolic boolean forks
the execution; the paths are enumerated by re-execution from a decision
prefix.  Each path yields verification conditions

        preconditions  /\  path condition   ==>   postcondition clause

that are discharged by an SMT solver (z3, cvc5 as second opinion) with
quantifiers over unbounded sequences and unbounded integers: nothing in proof
mode is bounded.

"finite" mode (ctx.N = k) executes the same code with sequences of concrete
length; all quantifiers are expanded, so that a failed condition has a
definite model.  It is used only to look for counterexamples.
"""
import builtins
import itertools
import os
import subprocess
import tempfile
import time

import z3

NAT = -9223372036854775808


class Control(BaseException):
    """Engine signals; BaseException so code under test cannot catch them."""


class Unsupported(Control):
    """The code left the supported fragment: the function is not provable."""


class PathEnd(Control):
    """This path is finished (infeasible, or cut by a loop invariant)."""


class Budget(Control):
    pass


CUR = None          # the current Ctx


def ctx():
    if CUR is None:
        raise Unsupported("symbolic operation outside of an exploration")
    return CUR


def is_sym(x):
    return isinstance(x, (SInt, SBool))


def zi(x):
    """python int / SInt / z3 -> z3 Int term"""
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if z3.is_expr(x):
        return x
    raise Unsupported("not an integer: %r" % type(x).__name__)


def zb(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, SInt):
        return x.e != 0
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3.is_expr(x):
        return x
    if isinstance(x, int):
        return z3.BoolVal(bool(x))
    raise Unsupported("not a boolean: %r" % type(x).__name__)


def mkint(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def _num(o):
    return isinstance(o, (int, SInt, SBool))


class SBool(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().branch(self.e)

    def __and__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(z3.And(self.e, zb(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(z3.Or(self.e, zb(o)))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(z3.Xor(self.e, zb(o)))
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(self.e == zb(o))
        if isinstance(o, (int, SInt)):
            return mkbool(zi(self) == zi(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        raise Unsupported("hash of a symbolic boolean")

    def __add__(self, o):
        return mkint(zi(self) + zi(o)) if _num(o) else NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return mkint(zi(self) - zi(o)) if _num(o) else NotImplemented

    def __rsub__(self, o):
        return mkint(zi(o) - zi(self)) if _num(o) else NotImplemented

    def __mul__(self, o):
        return mkint(zi(self) * zi(o)) if _num(o) else NotImplemented

    __rmul__ = __mul__

    def __str__(self):
        return ctx().token(self)

    __repr__ = __str__

    def __format__(self, spec):
        return ctx().token(self)

    def __index__(self):
        return 1 if self else 0

    __int__ = __index__


def _floordiv(a, b):
    # Python floor division; z3 div is Euclidean, equal for positive divisors
    if isinstance(b, int) and b > 0:
        return zi(a) / zi(b)
    if isinstance(b, int) and b < 0:
        return (-zi(a)) / zi(-b)
    raise Unsupported("division by a symbolic value")


class Repeat(object):
    """text * count in a string"""

    def __init__(self, text, count):
        self.text, self.count = text, count


class Formatted(object):
    """a symbolic integer formatted with a format specification"""

    def __init__(self, value, spec):
        self.value, self.spec = value, spec


class SInt(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __add__(self, o):
        return mkint(self.e + zi(o)) if _num(o) else NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return mkint(self.e - zi(o)) if _num(o) else NotImplemented

    def __rsub__(self, o):
        return mkint(zi(o) - self.e) if _num(o) else NotImplemented

    def __mul__(self, o):
        if isinstance(o, (int, SBool)):
            return mkint(self.e * zi(o))
        if isinstance(o, SInt):
            return mkint(self.e * o.e)
        if isinstance(o, str):
            return ctx().token(Repeat(o, self))
        return NotImplemented

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if not _num(o):
            return NotImplemented
        if isinstance(o, int) and o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return mkint(_floordiv(self, o))

    def __mod__(self, o):
        if not _num(o):
            return NotImplemented
        return self - (self // o) * o

    def __rmod__(self, o):
        raise Unsupported("modulo by a symbolic value")

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e < 0, -self.e, self.e))

    def __invert__(self):
        return mkint(-self.e - 1)

    def _cmp(self, o, f):
        if isinstance(o, float) and o == int(o):
            o = int(o)
        if not _num(o):
            return NotImplemented
        return mkbool(f(self.e, zi(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def __hash__(self):
        # small numbers (days of the week) by cases; equality follows the path
        for v in range(8):
            if self == v:
                return hash(v)
        raise Unsupported("hash of a symbolic integer")

    def __index__(self):
        return ctx().concretize(self)

    __int__ = __index__

    def __str__(self):
        return ctx().token(self)

    __repr__ = __str__

    def __format__(self, spec):
        return ctx().token(Formatted(self, spec) if spec else self)

    # numpy scalar protocol bits used on int64 scalars
    def item(self):
        return self

    def astype(self, dtype):
        return self

    def view(self, dtype):
        return self


# --------------------------------------------------------------------------


class Ctx(object):
    """One path of one exploration."""

    counter = itertools.count()

    def __init__(self, prefix, N=None, feas_ms=400, depth=400):
        self.prefix = prefix
        self.trail = []             # [(value, has_alternative)]
        self.facts = []             # assumed formulas (axioms + path cond.)
        self.labels = []
        self.N = N                  # None: proof mode; k: finite mode
        self.names = {}
        self.feas_ms = feas_ms
        self.depth = depth
        self.solver = _mk_solver(feas_ms, finite=N is not None)
        self.tokens = []
        self.decisions = []         # path condition (the branch facts)
        self.obligations = []       # in-path obligations: (name, goal, facts)
        self.ghosts = {}            # registered prefix sums etc.
        self.inputs = {}            # name -> term, for models
        self.assumption_log = []    # trusted contracts used
        self.nocount = False

    # -- naming ------------------------------------------------------------
    def fresh(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return '%s!%d' % (base, n) if n else base

    def int(self, base):
        return z3.Int(self.fresh(base))

    def sint(self, base):
        return SInt(self.int(base))

    def func(self, base, *sorts):
        sorts = sorts or (z3.IntSort(), z3.IntSort())
        return z3.Function(self.fresh(base), *sorts)

    def token(self, v):
        """A placeholder text that stands for a symbolic value in a string."""
        self.tokens.append(v)
        return u'⟦%d⟧' % (len(self.tokens) - 1)

    # -- facts -------------------------------------------------------------
    def assume(self, f, label=None):
        if isinstance(f, bool):
            if f:
                return
            raise PathEnd()
        f = zb(f)
        self.facts.append(f)
        self.solver.add(f)

    def use(self, contract):
        if contract not in self.assumption_log:
            self.assumption_log.append(contract)

    # -- quantifiers -------------------------------------------------------
    def forall(self, lo, hi, f, pats=None, name='k'):
        """for all lo <= k < hi: f(k); expanded in finite mode."""
        lo, hi = zi(lo), zi(hi)
        if self.N is not None:
            rng = self._range(lo, hi)
            if rng is not None:
                return z3.And([z3.Implies(g, f(z3.IntVal(k))) for k, g in rng])
        k = z3.Int(self.fresh('q' + name))
        body = z3.Implies(z3.And(lo <= k, k < hi), f(k))
        if pats:
            ps = pats(k)
            if ps:
                return z3.ForAll([k], body, patterns=ps)
        return z3.ForAll([k], body)

    def exists(self, lo, hi, f, name='k'):
        return z3.Not(self.forall(lo, hi, lambda k: z3.Not(f(k)), name=name))

    def _range(self, lo, hi):
        lo_, hi_ = z3.simplify(lo), z3.simplify(hi)
        if z3.is_int_value(lo_) and z3.is_int_value(hi_):
            return [(k, z3.BoolVal(True))
                    for k in range(lo_.as_long(), hi_.as_long())]
        base = self.quant_bound()
        return [(k, z3.And(lo <= k, k < hi)) for k in range(-1, base)]

    def quant_bound(self):
        return getattr(self, 'qbound', None) or (self.N + 3)

    # -- branching ---------------------------------------------------------
    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.trail)
        if i >= self.depth:
            raise Unsupported("path longer than %d decisions" % self.depth)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trail.append((v, False))
            self.assume(cond if v else z3.Not(cond))
            self.decisions.append(self.facts[-1])
            return v
        STATS['branches'] += 1
        t = self._feasible(cond)
        f = self._feasible(z3.Not(cond))
        if not t and not f:
            raise PathEnd()
        v = t
        self.trail.append((v, t and f))
        self.assume(cond if v else z3.Not(cond))
        self.decisions.append(self.facts[-1])
        return v

    def _feasible(self, c):
        t0 = time.time()
        r = self.solver.check(c)
        STATS['feas_s'] += time.time() - t0
        return r != z3.unsat

    def must(self, c):
        """True if the facts of this path imply c (never a guess)."""
        c = z3.simplify(zb(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        t0 = time.time()
        r = self.solver.check(z3.Not(c))
        STATS['feas_s'] += time.time() - t0
        return r == z3.unsat

    def concretize(self, s):
        """Used when Python insists on a machine integer (range, slicing of a
        real list...).  Finite mode: enumerate values by forking; proof mode:
        only if the facts determine the value."""
        if self.N is None:
            if self.solver.check() == z3.sat:
                m = self.solver.model()
                v = m.eval(s.e, model_completion=True)
                if z3.is_int_value(v) and self.must(s.e == v):
                    return v.as_long()
            raise Unsupported("machine integer needed from a symbolic value")
        for v in range(-1, self.quant_bound() + 1):
            if self.branch(s.e == v):
                return v
        raise Unsupported("value out of finite-mode bound")

    # -- obligations inside a path (callee preconditions, loop invariants) ---
    def oblige(self, name, goal):
        self.obligations.append((name, zb(goal), list(self.facts)))


STATS = {'branches': 0, 'feas_s': 0.0, 'solver_s': 0.0, 'paths': 0,
         'cvc5_s': 0.0}


def take_stats():
    d = dict(STATS)
    for k in STATS:
        STATS[k] = type(STATS[k])(0)
    return d


def _mk_solver(ms, finite=False, seed=0, mbqi=False):
    s = z3.Solver() if finite else z3.SimpleSolver()
    s.set('timeout', int(ms))
    s.set('random_seed', seed)
    if not finite:
        s.set('auto_config', False)
        s.set('mbqi', mbqi)
    return s


def explore(run, N=None, max_paths=4000, deadline=None, feas_ms=400,
            depth=400, qbound=None):
    """Enumerate the paths of run(ctx).  Yields (ctx, result); run returns the
    outcome of the function under verification."""
    global CUR
    stack = [[]]
    n = 0
    while stack:
        if deadline is not None and time.time() > deadline:
            raise Budget("time budget of the exploration exhausted")
        prefix = stack.pop()
        c = Ctx(prefix, N=N, feas_ms=feas_ms, depth=depth)
        c.qbound = qbound
        saved, CUR = CUR, c
        res = None
        ended = False
        try:
            res = run(c)
        except PathEnd:
            ended = True
        finally:
            CUR = saved
        for i in range(len(prefix), len(c.trail)):
            v, alt = c.trail[i]
            if alt:
                stack.append([t[0] for t in c.trail[:i]] + [not v])
        n += 1
        STATS['paths'] += 1
        if n > max_paths:
            raise Budget("more than %d paths" % max_paths)
        CUR = c
        try:
            yield c, (None if ended else res)
        finally:
            CUR = saved


class Result(object):
    """Outcome of one proof obligation."""

    def __init__(self, status, model=None, detail='', wall=0.0, backend='z3'):
        self.status = status      # 'proved' | 'refuted' | 'unknown'
        self.model = model
        self.detail = detail
        self.wall = wall
        self.backend = backend


def split(goal, hyps=()):
    """Conjuncts of a goal: [(hypotheses, goal)]"""
    if z3.is_and(goal):
        out = []
        for g in goal.children():
            out += split(g, hyps)
        return out
    if z3.is_implies(goal):
        a, b = goal.children()
        return split(b, hyps + (a,))
    if z3.is_or(goal) and any(z3.is_and(g) for g in goal.children()) and len(goal.children()) < 6:
        cs = goal.children()
        j = [i for i, g in enumerate(cs) if z3.is_and(g)][-1]
        rest = tuple(z3.Not(g) for i, g in enumerate(cs) if i != j)
        return split(cs[j], hyps + rest)
    return [(hyps, goal)]


CACHE = {}


def prove(facts, goal, finite=False, ms=20000):
    goal = zb(goal)
    if finite:
        return prove_(facts, goal, finite, ms)
    key = (goal.sexpr(), tuple(f.sexpr() for f in facts))
    r = CACHE.get(key)
    if r is None:
        r = prove_(facts, goal, finite, ms)
        CACHE[key] = r
    return r


def prove_(facts, goal, finite, ms):
    t0 = time.time()
    parts = split(goal) if not finite else [((), goal)]
    worst = Result('proved', backend='simplifier')
    for hyps, g in parts:
        r = prove1(list(facts) + list(hyps), g, finite, ms)
        if r.status == 'proved':
            if r.backend != 'simplifier':
                worst.backend = r.backend
            continue
        r.wall = time.time() - t0
        return r
    worst.wall = time.time() - t0
    return worst


def _apps(e, test, seen, out):
    if e.get_id() in seen:
        return
    seen.add(e.get_id())
    if z3.is_quantifier(e):
        _apps(e.body(), test, seen, out)
        return
    if z3.is_app(e):
        if test(e):
            out.append(e)
        for ch in e.children():
            _apps(ch, test, seen, out)


def _has_var(e):
    if z3.is_var(e):
        return True
    return any(_has_var(ch) for ch in e.children())


WITNESS = ()        # names of witness functions k -> whole minutes / days


def div_lemmas(facts, goal):
    """Quotients in the goal that equal a witness of divisibility."""
    divs, seen = [], set()
    _apps(goal, lambda e: e.decl().kind() == z3.Z3_OP_IDIV and not _has_var(e), seen, divs)
    args, seen = [], set()
    _apps(goal, lambda e: e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() == 1
          and not _has_var(e), seen, args)
    points = {}
    for a in args:
        points[a.arg(0).get_id()] = a.arg(0)
    out = []
    s = _mk_solver(700)
    for f in facts:
        s.add(f)
    for d in divs[:8]:
        for p in list(points.values())[:4]:
            for w in WITNESS:
                t = z3.Function(w, z3.IntSort(), z3.IntSort())(p)
                if s.check(d != t) == z3.unsat:
                    out.append(d == t)
                    break
    return out


def prove1(facts, goal, finite=False, ms=20000):
    goal = z3.simplify(zb(goal))
    if z3.is_true(goal):
        return Result('proved', backend='simplifier')
    t0 = time.time()
    if not finite and WITNESS:
        s = _mk_solver(400)
        for f in facts:
            s.add(f)
        s.add(z3.Not(goal))
        if s.check() == z3.unsat:
            STATS['solver_s'] += time.time() - t0
            return Result('proved', wall=time.time() - t0)
        # quotient lemmas are proved from the same facts before use
        facts = list(facts) + div_lemmas(facts, goal)
    plans = [(dict(mbqi=False), ms)] if not finite else [(dict(), ms)]
    if not finite:
        plans = [(dict(mbqi=False), 3000), (dict(mbqi=True), 3000),
                 (dict(mbqi=False, seed=7), ms)]
        plans += [(dict(mbqi=False, seed=i), 3000) for i in (11, 23, 42)]
        plans += [(dict(mbqi=True, seed=5), 6000)]
    last = ''
    for kw, t in plans:
        s = _mk_solver(t, finite=finite, **kw)
        for f in facts:
            s.add(f)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            STATS['solver_s'] += time.time() - t0
            return Result('proved', wall=time.time() - t0)
        if r == z3.sat:
            STATS['solver_s'] += time.time() - t0
            return Result('refuted', model=s.model(), wall=time.time() - t0)
        last = s.reason_unknown()
    STATS['solver_s'] += time.time() - t0
    t1 = time.time()
    r = _cvc5(facts, goal, ms)
    STATS['cvc5_s'] += time.time() - t1
    if r == 'unsat':
        return Result('proved', wall=time.time() - t0, backend='cvc5')
    return Result('unknown', detail=last, wall=time.time() - t0)


def _cvc5(facts, goal, ms):
    s = z3.Solver()
    for f in facts:
        s.add(f)
    s.add(z3.Not(goal))
    txt = '(set-logic ALL)\n' + s.to_smt2()
    import shutil
    exe = shutil.which('cvc5')
    try:
        import cvc5 as c5
    except ImportError:
        c5 = None
    if exe:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run([exe, '--tlimit=%d' % ms, f.name],
                               stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, timeout=ms / 1000 + 5)
            out = p.stdout.decode().split()
            return out[0] if out else 'unknown'
        except subprocess.TimeoutExpired:
            return 'unknown'
        finally:
            os.unlink(f.name)
    if c5 is None:
        return 'unknown'
    try:
        tm = c5.TermManager() if hasattr(c5, 'TermManager') else None
        slv = c5.Solver(tm) if tm is not None else c5.Solver()
        slv.setOption('tlimit-per', str(ms))
        ip = c5.InputParser(slv)
        ip.setStringInput(c5.InputLanguage.SMT_LIB_2_6, txt, 'vc')
        sm = ip.getSymbolManager()
        out = ''
        while True:
            cmd = ip.nextCommand()
            if cmd.isNull():
                break
            out += cmd.invoke(slv, sm)
        out = out.split()
        return out[-1] if out else 'unknown'
    except Exception:
        return 'unknown'
