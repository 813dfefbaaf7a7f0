"""Loads the repository's modules, from the current files of the working tree,
for symbolic execution.

Mechanical steps, the same for every function:
  * numpy, pandas are replaced by the contract models of seqs.py; pytz, toolz,
    six, pyluach are the real packages of the project's environment;
  * builtins len/int/zip/range/enumerate/isinstance/list/sum/... are replaced by
    versions that understand symbolic values;
  * `for` loops and comprehensions are rewritten so that a loop over a sequence
    of symbolic length runs its body once for a generic element (seqs.FlatMap);
    `while` loops with a registered invariant are cut at the invariant;
  * module level statements that fail under the models (tables of holidays) are
    skipped; using a name they would define makes the function "not proved".
Nothing else of the source is changed or dropped.
"""
import ast
import builtins
import datetime
import itertools
import importlib.machinery
import importlib.util
import os
import re
import sys
import types

import z3

from . import core, seqs
from .core import SBool, SInt, Unsupported, ctx, mkbool, mkint, zb, zi

REPO = os.environ.get('VERIF_REPO', '/repo')
SITE = '/opt/venv/lib/pypy3.9/site-packages'
REAL = ('pytz', 'toolz', 'six', 'pyluach')


# -- builtins ---------------------------------------------------------------------


def b_len(x):
    f = getattr(type(x), '_slen', None)
    if f is not None:
        return f(x)
    if isinstance(x, SymRange):
        return x.n
    return builtins.len(x)


def b_int(x=0, *a):
    if isinstance(x, (SInt,)):
        return x
    if isinstance(x, SBool):
        return mkint(zi(x))
    if isinstance(x, seqs.SFloat):
        return x.as_int()
    if isinstance(x, (seqs.timedelta64, seqs.datetime64)):
        return x.value
    return builtins.int(x, *a)


def b_bool(x=False):
    return builtins.bool(x)


class SymRange(object):
    _vc_seq = True

    def __init__(self, lo, hi):
        self.lo = lo
        self.hi = hi
        d = hi - lo
        self.n = mkint(z3.If(zi(d) > 0, zi(d), z3.IntVal(0)))

    def _elem(self, k):
        return mkint(zi(self.lo) + k)

    def __iter__(self):
        raise Unsupported('iteration over a symbolic range')


def b_range(*a):
    if any(isinstance(x, SInt) for x in a):
        if len(a) == 1:
            return SymRange(0, a[0]) if ctx().N is None else builtins.range(a[0].__index__())
        if len(a) == 2:
            if ctx().N is None:
                return SymRange(a[0], a[1])
            return builtins.range(a[0].__index__() if isinstance(a[0], SInt) else a[0],
                                  a[1].__index__() if isinstance(a[1], SInt) else a[1])
        raise Unsupported('range step')
    return builtins.range(*a)


def symlen(x):
    """The symbolic length of an iterable, or None if it is concrete."""
    if getattr(type(x), '_vc_seq', False):
        n = x.n
        if isinstance(n, int):
            return None
        return n
    if isinstance(x, ZipIter):
        return x.n
    return None


class ZipIter(object):
    """zip/enumerate/map over sequences of equal symbolic length."""

    def __init__(self, n, elem):
        self.n = n
        self._e = elem

    def _elem(self, k):
        return self._e(k)

    def __iter__(self):
        raise Unsupported('iteration over a symbolic zip')


def b_zip(*its):
    ns = [symlen(x) for x in its]
    if all(n is None for n in ns):
        return builtins.zip(*its)
    if any(n is None for n in ns):
        raise Unsupported('zip of symbolic and concrete lengths')
    c = ctx()
    n0 = ns[0]
    for n in ns[1:]:
        if not c.must(zi(n) == zi(n0)):
            raise Unsupported('zip of different lengths')
    return ZipIter(n0, lambda k: tuple(x._elem(k) for x in its))


def b_enumerate(x, start=0):
    n = symlen(x)
    if n is None:
        return builtins.enumerate(x, start)
    return ZipIter(n, lambda k: (mkint(k + zi(start)), x._elem(k)))


def b_map(f, *its):
    if all(symlen(x) is None for x in its):
        return builtins.map(f, *its)
    z = b_zip(*its)
    return vc_comp(lambda s: [f(*e) for e in s], z)


def b_isinstance(x, cls):
    f = getattr(builtins.type(x), '_vc_isinstance', None)
    if f is not None:
        return builtins.any(f(x, PLAIN.get(k, k) if callable(k) else k)
                            for k in (cls if isinstance(cls, tuple) else (cls,)))
    if isinstance(x, (SInt, SBool)):
        cs = cls if isinstance(cls, tuple) else (cls,)
        for k in cs:
            if isinstance(x, SInt) and (k is int or k is b_int or k is np_integer or k is np_int64 or getattr(k, '__name__', '') in ('Integral', 'Number', 'integer')):
                return True
            if isinstance(x, SBool) and (k is bool or k is int or k is b_int or k is b_bool):
                return True
        return False
    if isinstance(cls, tuple):
        cls = tuple(PLAIN.get(k, k) if callable(k) else k for k in cls)
    elif callable(cls):
        cls = PLAIN.get(cls, cls)
    return builtins.isinstance(x, cls)


def b_list(x=()):
    if getattr(builtins.type(x), '_vc_copy', False):
        return x
    if isinstance(x, seqs.FlatList):
        return seqs.FlatList(x)
    if isinstance(x, ZipIter) or symlen(x) is not None:
        r = vc_comp(lambda s: [e for e in s], x)
        if isinstance(x, seqs.DatetimeIndex):
            builtins.list.__getitem__(r, 0).src = x
        return r
    if getattr(type(x), '_vc_symset', False):
        return x
    return builtins.list(x)


def b_sum(x, start=0):
    if symlen(x) is not None:
        r = seqs.seq_sum(seqs.asarray(x))
        return r
    return builtins.sum(x, start)


def _ts_extreme(a, k, most):
    """max/min of timestamps without forking; None if not applicable"""
    if k:
        return None
    xs = a
    if all(isinstance(x, seqs.Timestamp) for x in xs) and any(isinstance(x.value, SInt) for x in xs) and all(
            x.tz is xs[0].tz for x in xs):
        v = zi(xs[0].value)
        for x in xs[1:]:
            w = zi(x.value)
            v = z3.If(w > v if most else w < v, w, v)
        return seqs.mkts(mkint(v), xs[0].tz)
    return None


def b_max(*a, **k):
    if len(a) == 1 and symlen(a[0]) is not None:
        return a[0].max()
    if len(a) == 1 and not isinstance(a[0], (dict, str)):
        a = (builtins.list(a[0]),)
    r = _ts_extreme(a[0] if len(a) == 1 else a, k, True) if a and len(a[0] if len(a) == 1 else a) else None
    if r is not None:
        return r
    return builtins.max(*a, **k)


def b_min(*a, **k):
    if len(a) == 1 and symlen(a[0]) is not None:
        return a[0].min()
    if len(a) == 1 and not isinstance(a[0], (dict, str)):
        a = (builtins.list(a[0]),)
    r = _ts_extreme(a[0] if len(a) == 1 else a, k, False) if a and len(a[0] if len(a) == 1 else a) else None
    if r is not None:
        return r
    return builtins.min(*a, **k)


def b_any(x):
    if symlen(x) is not None:
        return seqs.asarray(x).any()
    return builtins.any(x)


def b_all(x):
    if symlen(x) is not None:
        return seqs.asarray(x).all()
    return builtins.all(x)


def b_set(x=()):
    f = getattr(type(x), '_vc_mkset', None)
    if f is not None:
        return f(x)
    return builtins.set(x)


def b_dict(*a, **k):
    if len(a) == 1 and getattr(type(a[0]), '_vc_symdict', False) and not k:
        return a[0].copy()
    return builtins.dict(*a, **k)


def b_print(*a, **k):
    f = k.get('file')
    if getattr(type(f), '_vc_text', False):
        f.write(k.get('sep', ' ').join(builtins.map(str, a)) + k.get('end', '\n'))
        return
    builtins.print(*a, **k)


def b_type(*a):
    if len(a) == 1 and hasattr(builtins.type(a[0]), '_vc_isinstance'):
        raise Unsupported('type of an arbitrary value')
    return builtins.type(*a)


def b_id(x):
    if hasattr(builtins.type(x), '_vc_isinstance'):
        raise Unsupported('id of an arbitrary value')
    return builtins.id(x)


def b_callable(x):
    if hasattr(builtins.type(x), '_vc_isinstance'):
        raise Unsupported('callable of an arbitrary value')
    return builtins.callable(x)


PLAIN = {b_int: int, b_list: list, b_bool: bool, b_set: set, b_dict: dict, b_type: type}

BUILTINS = dict(vars(builtins))
BUILTINS.update(len=b_len, int=b_int, range=b_range, zip=b_zip,
                enumerate=b_enumerate, isinstance=b_isinstance, list=b_list,
                sum=b_sum, max=b_max, min=b_min, map=b_map, any=b_any,
                all=b_all, set=b_set, dict=b_dict, print=b_print,
                type=b_type, id=b_id, callable=b_callable)


# -- loops -------------------------------------------------------------------------


def run_generic(it, body):
    """Run body for a generic element of the symbolic sequence `it`, over all
    of its paths.  Returns the FlatMap (or raises what some element raises)."""
    c = ctx()
    n = symlen(it)
    i = c.int('gi')
    base_facts = len(c.facts)
    cases, raised, conds = [], [], []
    stack = [[]]
    while stack:
        prefix = stack.pop()
        ch = core.Ctx(prefix, N=None, feas_ms=c.feas_ms, depth=c.depth)
        ch.names = c.names
        ch.tokens = c.tokens
        ch.ghosts = c.ghosts
        ch.assumption_log = c.assumption_log
        ch.slices = getattr(c, 'slices', False)
        ch.facts = list(c.facts)
        for f in c.facts:
            ch.solver.add(f)
        nb = len(ch.facts)
        ch.assume(z3.And(0 <= i, i < zi(n)))
        core.CUR = ch
        out, exc, ended = None, None, False
        try:
            out = body(it._elem(i))
        except core.PathEnd:
            ended = True
        except core.Control:
            raise
        except Exception as e:
            exc = e
        finally:
            core.CUR = c
        for j in range(len(prefix), len(ch.trail)):
            v, alt = ch.trail[j]
            if alt:
                stack.append([t[0] for t in ch.trail[:j]] + [not v])
        if ended:
            continue
        delta = ch.facts[nb:]
        if exc is not None:
            raised.append((delta, exc, ch.obligations))
        else:
            cases.append((delta, out, ch.obligations))
            conds.append(list(ch.decisions))
    for delta, exc, obs in raised:
        b = z3.Bool(c.fresh('raises'))
        if c.branch(b):
            for f in delta:
                c.assume(f)
            for o in obs:
                c.obligations.append(o)
            raise exc
    for delta, out, obs in cases:
        c.obligations.extend(obs)
    fm = seqs.FlatMap(n, i, cases)
    fm.conds = conds
    fm.raises = bool(raised)
    return fm


seqs.RUN_GENERIC = run_generic


def sym_chain(*its):
    """itertools.chain"""
    if all(symlen(x) is None and not seqs.has_flat(x) for x in its):
        return itertools.chain(*its)
    out = seqs.FlatList()
    for x in its:
        out.extend(b_list(x))
    return out


sym_chain.from_iterable = itertools.chain.from_iterable


def sym_concatv(*its):
    """toolz.concatv: one sequence of symbolic length and then single rows"""
    if all(symlen(x) is None and not seqs.has_flat(x) for x in its):
        return sys.modules['toolz'].concatv(*its)
    if any(symlen(x) is not None for x in its[1:]) or symlen(its[0]) is None:
        raise Unsupported('concatv')
    first, rest = its[0], [e for x in its[1:] for e in x]
    n = symlen(first)

    def elem(k):
        c = ctx()
        for j, e in enumerate(rest):
            if c.branch(zi(k) == zi(n) + j):
                return e
        return first._elem(k)
    return ZipIter(mkint(zi(n) + len(rest)), elem)


def sym_window(size, it):
    """toolz.sliding_window"""
    n = symlen(it)
    if n is None:
        return sys.modules['toolz'].sliding_window(size, it)
    if not isinstance(size, int):
        raise Unsupported('sliding_window')
    m = zi(n) - (size - 1)
    return ZipIter(mkint(z3.If(m > 0, m, z3.IntVal(0))),
                   lambda k: tuple(it._elem(zi(k) + j) for j in builtins.range(size)))


def sym_toolz():
    real = sys.modules['toolz']
    m = types.ModuleType('toolz')
    m.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith('__')})
    m.concatv, m.sliding_window = sym_concatv, sym_window
    return m


def vc_comp(fn, it):
    n = symlen(it)
    if n is None:
        if seqs.has_flat(it):
            raise Unsupported('loop over a symbolic list')
        return fn(it)
    fm = run_generic(it, lambda e: fn((e,)))
    out = seqs.FlatList()
    out.append(fm)
    return out


def vc_mod(a, b):
    """a % b; text with symbolic integers becomes text with placeholders"""
    if not isinstance(a, str):
        return a % b
    vals = b if isinstance(b, tuple) else (b,)
    if not any(core.is_sym(v) for v in vals):
        return a % b
    vals = builtins.list(vals)

    def sub(m):
        if m.group(0) == '%%':
            return '%'
        flags, width, kind = m.groups()
        v = vals.pop(0)
        if not core.is_sym(v):
            return m.group(0) % (v,)
        if flags or kind not in 'dsi':
            raise Unsupported('format %r' % m.group(0))
        return format(v, '>' + width if width else '')
    out = re.sub(r'%(?:%|([-+0 #]*)(\d*)([a-z]))', sub, a)
    if vals:
        raise TypeError('not all arguments converted during string formatting')
    return out


def vc_issym(it):
    if seqs.has_flat(it):
        raise Unsupported('loop over a symbolic list')
    return symlen(it) is not None


def vc_for(it, body, env):
    """Append-only rule: the only effect of the body is appending to lists."""
    lists = {}
    for k, v in env.items():
        if isinstance(v, list):
            lists[id(v)] = v
    lens = {i: len(v) for i, v in lists.items()}
    target = []

    def once(e, only=None):
        try:
            body(e)
            out = []
            for i, v in lists.items():
                if len(v) > lens[i]:
                    if not any(t is v for t in target):
                        target.append(v)
                    if only is None or v is only:
                        out = v[lens[i]:]
            return out
        finally:
            for i, v in lists.items():
                del v[lens[i]:]
    fm = run_generic(it, once)
    if len(target) == 1:
        target[0].append(fm)
    elif target:
        # one pass for each list: the lists do not depend on each other
        parts = [(v, run_generic(it, lambda e, v=v: once(e, v))) for v in list(target)]
        for v, part in parts:
            v.append(part)


LOOP_INVARIANTS = {}        # (module, function) -> handler


def vc_while(key, env):
    """Cut a while loop: see loops.py.  Returns new values for env names."""
    h = LOOP_INVARIANTS.get(key)
    if h is None:
        return None
    return h


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.func = []
        self.uid = 0

    def visit_FunctionDef(self, node):
        self.func.append(node)
        self.generic_visit(node)
        self.func.pop()
        return node

    def visit_Lambda(self, node):
        self.generic_visit(node)
        return node

    def _comp(self, node, kind):
        self.generic_visit(node)
        g = node.generators[0]
        it = g.iter
        p = '__vc_s%d' % self.uid
        self.uid += 1
        g.iter = ast.Name(p, ast.Load())
        lam = ast.Lambda(
            args=ast.arguments(posonlyargs=[], args=[ast.arg(p)], kwonlyargs=[],
                               kw_defaults=[], defaults=[]),
            body=node)
        return ast.copy_location(ast.Call(
            func=ast.Name('__vc_comp__', ast.Load()), args=[lam, it],
            keywords=[]), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if not isinstance(node.op, ast.Mod):
            return node
        return ast.copy_location(ast.Call(
            func=ast.Name('__vc_mod__', ast.Load()), args=[node.left, node.right], keywords=[]), node)

    def visit_ListComp(self, node):
        if not self.func:
            return node
        return self._comp(node, 'list')

    def visit_For(self, node):
        fn = self.func[-1] if self.func else None
        ok = fn is not None and self._transformable(fn, node)
        self.generic_visit(node)
        if not ok:
            return node
        self.uid += 1
        it, b, x = ('__vc_it%d' % self.uid, '__vc_b%d' % self.uid,
                    '__vc_x%d' % self.uid)
        inner = ast.For(target=node.target,
                        iter=ast.Tuple([ast.Name(x, ast.Load())], ast.Load()),
                        body=node.body, orelse=[], type_comment=None)
        import copy
        fdef = ast.FunctionDef(
            name=b, args=ast.arguments(posonlyargs=[], args=[ast.arg(x)],
                                       kwonlyargs=[], kw_defaults=[],
                                       defaults=[]),
            body=[inner], decorator_list=[], type_params=[])
        call = ast.Expr(ast.Call(
            func=ast.Name('__vc_for__', ast.Load()),
            args=[ast.Name(it, ast.Load()), ast.Name(b, ast.Load()),
                  ast.Call(func=ast.Name('locals', ast.Load()), args=[],
                           keywords=[])], keywords=[]))
        plain = ast.For(target=copy.deepcopy(node.target),
                        iter=ast.Name(it, ast.Load()),
                        body=copy.deepcopy(node.body), orelse=node.orelse,
                        type_comment=None)
        out = [
            ast.Assign([ast.Name(it, ast.Store())], node.iter),
            ast.If(test=ast.Call(func=ast.Name('__vc_issym__', ast.Load()),
                                 args=[ast.Name(it, ast.Load())], keywords=[]),
                   body=[fdef, call], orelse=[plain])]
        for o in out:
            ast.copy_location(o, node)
        return out

    def visit_While(self, node):
        fn = self.func[-1] if self.func else None
        self.generic_visit(node)
        if fn is None:
            return node
        key = (self.mod, fn.name)
        if key not in LOOP_INVARIANTS:
            return node
        stored = sorted(_stored(node))
        # names visible in the loop
        names = sorted(n for n in (_loaded(node) | set(stored))
                       if n in _func_locals(fn))
        self.uid += 1
        h, e = '__vc_h%d' % self.uid, '__vc_e%d' % self.uid

        def dct():
            return ast.Call(func=ast.Name('__vc_env__', ast.Load()), args=[
                ast.Call(func=ast.Name('locals', ast.Load()), args=[], keywords=[]),
                ast.Constant(tuple(names))], keywords=[])
        pre = [ast.Assign([ast.Name(h, ast.Store())], ast.Call(
                   func=ast.Name('__vc_loop__', ast.Load()),
                   args=[ast.Constant(key)], keywords=[])),
               ast.Assign([ast.Name(e, ast.Store())], ast.Call(
                   func=ast.Attribute(ast.Name(h, ast.Load()), 'enter', ast.Load()),
                   args=[dct()], keywords=[]))]
        for n in names:
            pre.append(ast.If(
                test=ast.Compare(ast.Constant(n), [ast.In()], [ast.Name(e, ast.Load())]),
                body=[ast.Assign([ast.Name(n, ast.Store())], ast.Subscript(
                    ast.Name(e, ast.Load()), ast.Constant(n), ast.Load()))], orelse=[]))
        end = ast.Expr(ast.Call(
            func=ast.Attribute(ast.Name(h, ast.Load()), 'end', ast.Load()),
            args=[dct()], keywords=[]))
        node.body = node.body + [end]
        out = pre + [node]
        for o in out:
            ast.copy_location(o, node)
        return out

    def _transformable(self, fn, loop):
        for n in ast.walk(loop):
            if isinstance(n, (ast.Return, ast.Break, ast.Yield, ast.YieldFrom,
                              ast.Await, ast.Nonlocal, ast.Global, ast.While)):
                return False
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                return False
        if loop.orelse:
            return False
        inside = _stored(loop)
        inner_nodes = set(id(n) for n in ast.walk(loop))
        for n in ast.walk(fn):
            if id(n) in inner_nodes:
                continue
            if isinstance(n, ast.Name) and n.id in inside:
                return False
            if isinstance(n, ast.arg) and n.arg in inside:
                return False
        return True


def _stored(node):
    return set(n.id for n in ast.walk(node) if isinstance(n, ast.Name)
               and isinstance(n.ctx, (ast.Store, ast.Del)))


def _loaded(node):
    return set(n.id for n in ast.walk(node) if isinstance(n, ast.Name)
               and isinstance(n.ctx, ast.Load))


def _func_locals(fn):
    """Names local to the function itself (not to its comprehensions)."""
    inner = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.ListComp)):
            inner |= set(id(m) for g in n.generators for m in ast.walk(g.target))
    a = set(x.arg for x in fn.args.args)
    return a | set(n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and id(n) not in inner
                   and isinstance(n.ctx, ast.Store))


# -- numpy / pandas modules -----------------------------------------------------------


class StubModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('%s.%s' % (self.__name__, name))


class np_integer(object):
    pass


class np_int64(np_integer):
    def __new__(cls, x=0):
        if isinstance(x, (int, SInt)):
            return x
        return b_int(x)


def _np_all(x, axis=None):
    if isinstance(x, (list, tuple)):
        if not x:
            return True
        if any(seqs.isseq(v) for v in x):
            x = seqs.Rows([seqs.asarray(v) for v in x])
        else:
            x = seqs.array(list(x))
    if isinstance(x, seqs.Rows):
        if axis != 0:
            raise Unsupported('np.all axis')
        out = x.rows[0]
        for r in x.rows[1:]:
            out = out & r
        return out
    if isinstance(x, (bool, SBool)):
        return x
    return seqs.asarray(x).all()


def _np_any(x, axis=None):
    if isinstance(x, (list, tuple)) and x and any(seqs.isseq(v) for v in x):
        if axis != 0:
            raise Unsupported('np.any axis')
        rs = [seqs.asarray(v) for v in x]
        out = rs[0]
        for r in rs[1:]:
            out = out | r
        return out
    return seqs.asarray(x).any()


def _np_arange(start, stop=None, step=1, dtype=None):
    if stop is None:
        start, stop = 0, start

    def num(v):
        return v.value if isinstance(v, (seqs.datetime64, seqs.timedelta64, seqs.Timestamp, seqs.Timedelta)) else v
    dt = 'M8' if isinstance(start, seqs.datetime64) else 'i8'
    start, stop, step = num(start), num(stop), num(step)
    if not isinstance(step, int) or step <= 0:
        raise Unsupported('arange step')
    a, b = zi(start), zi(stop)
    n = z3.If(b > a, (b - a + (step - 1)) / z3.IntVal(step), z3.IntVal(0))
    ctx().use('numpy.arange')
    return seqs.ndarray(seqs.Buf(mkint(n), lambda k: a + k * step), dt)


def _np_where(m, a=None, b=None):
    if a is None:
        return (seqs.flatnonzero(m),)
    m = seqs.asarray(m)
    da, db = seqs.elem_dt_any(a), seqs.elem_dt_any(b)
    if isinstance(a, seqs.NaTType):
        da = db
    fa, fb, fm = seqs._at(a, da), seqs._at(b, db), m.buf.at
    for x in (a, b):
        if seqs.isseq(x):
            seqs._align(m, x)
    return seqs.ndarray(seqs.Buf(m.n, lambda k: z3.If(fm(k), fa(k), fb(k))), da)


def _np_minmax(mx):
    def f(a, b):
        if seqs.isseq(a) or seqs.isseq(b):
            return seqs.elementwise(
                seqs.asarray(a) if seqs.isseq(a) else a,
                b, (lambda x, y: z3.If(x >= y, x, y)) if mx else (lambda x, y: z3.If(x <= y, x, y)),
                seqs.elem_dt_any(a if seqs.isseq(a) else b))
        return builtins.max(a, b) if mx else builtins.min(a, b)
    return f


def _np_clip(x, lo, hi):
    if seqs.isseq(x):
        return _np_minmax(False)(_np_minmax(True)(x, lo), hi)
    return builtins.min(builtins.max(x, lo), hi)


def _np_searchsorted(a, v, side='left', sorter=None):
    if isinstance(a, (list, tuple)):
        a = seqs.array(a)
    return a.searchsorted(v, side=side)


def make_numpy():
    m = StubModule('numpy')
    m.ndarray = seqs.ndarray
    m.array, m.asarray = seqs.array, seqs.asarray
    m.int64, m.integer = np_int64, np_integer
    m.intp = m.int_ = np_int64
    m.bool_ = bool
    m.datetime64, m.timedelta64 = seqs.datetime64, seqs.timedelta64
    m.searchsorted = _np_searchsorted
    m.arange, m.where = _np_arange, _np_where
    m.concatenate = m.hstack = seqs.np_concatenate
    m.all, m.any = _np_all, _np_any
    m.flatnonzero = seqs.flatnonzero
    m.nonzero = lambda a: (seqs.flatnonzero(a),)
    m.argmax = lambda a: _argmax(a)
    m.equal = lambda a, b: a == b
    m.not_equal = lambda a, b: a != b
    m.less = lambda a, b: a < b
    m.less_equal = lambda a, b: a <= b
    m.greater = lambda a, b: a > b
    m.greater_equal = lambda a, b: a >= b
    m.logical_and = lambda a, b: a & b
    m.logical_or = lambda a, b: a | b
    m.logical_not = lambda a: ~a
    m.isnat = lambda a: (seqs.ndarray(seqs.Buf(a.n, lambda k: seqs.is_nat(a.at(k))), 'b')
                         if seqs.isseq(a) else mkbool(seqs.is_nat(zi(a.value))))
    m.maximum, m.minimum, m.clip = _np_minmax(True), _np_minmax(False), _np_clip
    m.count_nonzero = lambda a: seqs.asarray(a).sum()
    m.sum = lambda a, axis=None: a.sum()
    m.max = m.amax = lambda a: a.max() if seqs.isseq(a) and not isinstance(a, list) else builtins.max(a)
    m.min = m.amin = lambda a: a.min() if seqs.isseq(a) and not isinstance(a, list) else builtins.min(a)
    m.iinfo = _iinfo
    m.diff = lambda a: a[1:] - a[:-1]
    m.append = lambda a, b: seqs.np_concatenate([a, b if seqs.isseq(b) else [b]])
    m.empty = lambda n, dtype=None: seqs.ndarray(seqs.Buf(0, lambda k: z3.IntVal(0)), seqs.dtype_of(dtype) or 'f8') if n == 0 else _unsup('np.empty')
    m.inf = float('inf')
    m.nan = float('nan')
    return m


def _unsup(w):
    raise Unsupported(w)


def _argmax(a):
    a = seqs.asarray(a)
    if a.dt != 'b':
        raise Unsupported('argmax')
    c = ctx()
    at = a.buf.at
    if c.branch(c.exists(0, a.n, at)):
        j = c.int('amx')
        c.assume(z3.And(0 <= j, j < zi(a.n), at(j), c.forall(0, j, lambda k: z3.Not(at(k)))))
        return mkint(j)
    return 0


class _iinfo(object):
    def __init__(self, t):
        self.min, self.max = -2**63, 2**63 - 1


def _isnull(x):
    if isinstance(x, seqs.NaTType) or x is None:
        return True
    if isinstance(x, (seqs.Timestamp, int, SInt, str)):
        return False
    if isinstance(x, seqs.Series):
        return x.isnull()
    if isinstance(x, (seqs.ndarray, seqs.Index)):
        at = x.buf.at
        if x.dt not in ('M8', 'm8'):
            return seqs.ndarray(seqs.Buf(x.n, lambda k: z3.BoolVal(False)), 'b')
        return seqs.ndarray(seqs.Buf(x.n, lambda k: seqs.is_nat(at(k))), 'b')
    if isinstance(x, (seqs.datetime64, seqs.timedelta64)):
        return mkbool(seqs.is_nat(zi(x.value)))
    raise Unsupported('isnull(%s)' % type(x).__name__)


def _notnull(x):
    r = _isnull(x)
    return (not r) if isinstance(r, bool) else ~r


def _to_datetime(x, utc=None, errors=None, format=None, unit=None):
    tz = seqs.UTC if utc else None
    if seqs.has_flat(x):
        return seqs.flat_list_index(x, tz)
    if isinstance(x, seqs.DatetimeIndex):
        if tz is not None:
            return seqs.DatetimeIndex(buf=seqs.Buf(x.n, x.buf.at, x.buf.prov), tz=tz)
        return x
    if isinstance(x, (seqs.ndarray, seqs.Index, seqs.Series)):
        return seqs.DatetimeIndex(x, tz=tz)
    if isinstance(x, (list, tuple)):
        return seqs.DatetimeIndex(list(x), tz=tz)
    if isinstance(x, str):
        return seqs.Timestamp(x, tz=tz)
    if isinstance(x, seqs.Timestamp):
        return x
    if isinstance(x, (set, builtins.map)):
        return seqs.DatetimeIndex(list(x), tz=tz)
    raise Unsupported('to_datetime(%s)' % type(x).__name__)


def _pd_concat(parts):
    parts = list(parts)
    if not parts:
        raise ValueError('No objects to concatenate')
    if any(isinstance(p, seqs.FlatMap) for p in parts):
        raise Unsupported('concat of a symbolic list')
    if not all(isinstance(p, seqs.Series) for p in parts):
        raise Unsupported('concat')
    ctx().use('pandas.concat')
    s0 = parts[0]
    return seqs.Series(buf=seqs.concat_bufs([p.buf for p in parts]), dt=s0.dt, tz=s0.tz,
                       index=s0.index._like(seqs.concat_bufs([p.index.buf for p in parts])))


DATE_RANGE = None           # hook: symbolic calendars install their contract


def _date_range(start=None, end=None, periods=None, freq=None, tz=None,
                closed=None, **kw):
    if DATE_RANGE is None:
        raise Unsupported('date_range')
    return DATE_RANGE(start, end, periods, freq, tz, closed)


class CustomBusinessDay(seqs.Offset):
    def __init__(self, n=1, normalize=False, weekmask='Mon Tue Wed Thu Fri',
                 holidays=None, calendar=None, offset=None):
        self.weekmask = weekmask
        self.holidays = holidays
        self.calendar = calendar
        self.n_ = n


class Holiday(object):
    def __init__(self, name, year=None, month=None, day=None, offset=None,
                 observance=None, start_date=None, end_date=None,
                 days_of_week=None):
        self.__dict__.update({k: v for k, v in locals().items() if k != 'self'})


class AbstractHolidayCalendar(object):
    rules = []

    def __init__(self, name=None, rules=None):
        if rules is not None:
            self.rules = rules

    def holidays(self, start=None, end=None, return_name=False):
        raise Unsupported('holidays()')


class Day(seqs.Offset):
    def __init__(self, n=1):
        self.n_ = n

    def apply(self, ts):
        return seqs.mkts(ts.value + self.n_ * seqs.DAY, ts.tz)

    def __neg__(self):
        return Day(-self.n_)

    def __rmul__(self, k):
        return Day(k * self.n_)

    __mul__ = __rmul__


class OpaqueOffset(seqs.Offset):
    def __init__(self, *a, **k):
        self.a, self.k = a, k

    def __neg__(self):
        return self

    def __rmul__(self, n):
        return self

    __mul__ = __rmul__


class DateOffset(OpaqueOffset):
    """pandas.DateOffset (dateutil.relativedelta) with years= and weekday=."""
    WD = dict(zip(('MO', 'TU', 'WE', 'TH', 'FR', 'SA', 'SU'), range(7)))

    def apply(self, ts):
        if self.a or set(self.k) - set(('years', 'days', 'weekday')):
            raise Unsupported('DateOffset')
        ctx().use('pandas.DateOffset')
        days = ts._days()
        rest = ts.value - days * seqs.DAY
        yy = self.k.get('years', 0)
        if core.is_sym(yy) or yy:
            y, m, d = ts.year + yy, ts.month, ts.day
            if m == 2 and d == 29 and not (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)):
                d = 28
            days = seqs.days_from_civil(y, m, 1) + d - 1
        days = days + self.k.get('days', 0)
        wd = self.k.get('weekday')
        if wd is not None:
            if isinstance(wd, tuple):
                t, n = self.WD[wd[0]], wd[1]
            else:                       # dateutil's own weekday object
                t, n = wd.weekday, wd.n or 1
            if not isinstance(n, int):
                raise Unsupported('DateOffset weekday')
            w = (days + 3) % 7
            days = days + ((t - w) % 7 + 7 * (n - 1) if n > 0 else -((w - t) % 7) + 7 * (n + 1))
        return seqs.mkts(days * seqs.DAY + rest, ts.tz)


# the pandas observance functions (trusted: pandas.tseries.holiday, re-stated from
# its documentation and cross-checked against the real ones in vc/libcheck.py)
def _obs(table):
    def f(dt):
        d = dt.weekday()
        for wd, off in table.items():
            if d == wd:
                return dt + seqs._dt.timedelta(off)
        return dt
    return f


def make_pandas():
    m = StubModule('pandas')
    m.Timestamp, m.Timedelta, m.NaT = seqs.Timestamp, seqs.Timedelta, seqs.NaT
    m.DatetimeIndex, m.Series, m.DataFrame, m.Index = (
        seqs.DatetimeIndex, seqs.Series, seqs.DataFrame, seqs.Index)
    m.isnull = m.isna = _isnull
    m.notnull = m.notna = _notnull
    m.to_datetime = _to_datetime
    m.concat = _pd_concat
    m.date_range = _date_range
    m.DateOffset = DateOffset
    m.testing = StubModule('pandas.testing')
    ts = StubModule('pandas.tseries')
    hol = StubModule('pandas.tseries.holiday')
    off = StubModule('pandas.tseries.offsets')
    hol.Holiday, hol.AbstractHolidayCalendar = Holiday, AbstractHolidayCalendar
    hol.DateOffset = DateOffset
    hol.sunday_to_monday = _obs({6: 1})
    hol.weekend_to_monday = _obs({6: 1, 5: 2})
    hol.next_monday = _obs({5: 2, 6: 1})
    hol.previous_friday = _obs({5: -1, 6: -2})
    hol.nearest_workday = _obs({5: -1, 6: 1})
    hol.next_monday_or_tuesday = _obs({5: 2, 6: 2, 0: 1})
    hol.before_nearest_workday = None
    hol.previous_workday = _obs({0: -3, 6: -2, 1: -1, 2: -1, 3: -1, 4: -1, 5: -1})
    hol.next_workday = _obs({4: 3, 5: 2, 0: 1, 1: 1, 2: 1, 3: 1, 6: 1})
    for nm in ('GoodFriday', 'EasterMonday', 'USLaborDay', 'USPresidentsDay',
               'USThanksgivingDay', 'USMartinLutherKingJr', 'USMemorialDay',
               'USColumbusDay'):
        setattr(hol, nm, Holiday(nm))
    for nm in ('MO', 'TU', 'WE', 'TH', 'FR', 'SA', 'SU'):
        setattr(hol, nm, (lambda nm: lambda n=1: (nm, n))(nm))
    off.CustomBusinessDay, off.Day = CustomBusinessDay, Day
    for nm in ('Easter', 'LastWeekOfMonth', 'WeekOfMonth',
               'MonthBegin', 'MonthEnd', 'BDay', 'Week'):
        setattr(off, nm, type(nm, (OpaqueOffset,), {}))
    off.DateOffset = DateOffset
    hol.Easter = off.Easter
    hol.Day = Day
    m.tseries, ts.holiday, ts.offsets = ts, hol, off
    m.offsets = off
    m.read_csv = lambda *a, **k: _unsup('read_csv')
    return m, ts, hol, off


# -- importer ------------------------------------------------------------------------


class Poison(object):
    """Stands for a module level name that could not be computed."""

    def __init__(self, name, why):
        object.__setattr__(self, '_n', (name, why))

    def _die(self, *a, **k):
        raise Unsupported('module level name %s (%s)' % self._n)
    __getattr__ = __call__ = __iter__ = __len__ = __getitem__ = __add__ = \
        __radd__ = __sub__ = __contains__ = __eq__ = __bool__ = _die
    __hash__ = object.__hash__


class DummyModule(types.ModuleType):
    """Stands for an exchange module that is not under verification."""

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        t = type(str(name), (), {'__module__': self.__name__})
        setattr(self, name, t)
        return t


class SymTimedelta(datetime.timedelta):
    """datetime.timedelta; with symbolic arguments a Timedelta term."""

    def __new__(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        vals = (days, seconds, minutes, hours, weeks)
        if any(core.is_sym(v) for v in vals):
            if microseconds or milliseconds:
                raise Unsupported('timedelta')
            return seqs.Timedelta(days=days + 7 * weeks, hours=hours, minutes=minutes, seconds=seconds)
        return datetime.timedelta(days, seconds, microseconds, milliseconds, minutes, hours, weeks)


SYM_DATETIME = types.ModuleType('datetime')
SYM_DATETIME.__dict__.update(datetime.__dict__)
SYM_DATETIME.timedelta = SymTimedelta
SYM_ITERTOOLS = types.ModuleType('itertools')
SYM_ITERTOOLS.__dict__.update(itertools.__dict__)
SYM_ITERTOOLS.chain = sym_chain


class World(object):
    """One loaded copy of the repository's package under the models."""

    def __init__(self, real_exchanges=()):
        self.real_exchanges = set(real_exchanges)
        self.mods = {}
        self.skipped = {}
        self._env()

    def _env(self):
        load_real()
        import pytz
        seqs.UTC = pytz.UTC
        self.np = make_numpy()
        self.pd, ts, hol, off = make_pandas()
        self.extra = {'numpy': self.np, 'pandas': self.pd,
                      'pandas.tseries': ts, 'pandas.tseries.holiday': hol,
                      'pandas.tseries.offsets': off,
                      'pandas.testing': self.pd.testing}
        pkg = types.ModuleType('trading_calendars')
        pkg.__path__ = [os.path.join(REPO, 'trading_calendars')]
        world = self

        def pkg_getattr(name):
            if name == 'TradingCalendar':
                return world.load('trading_calendars.trading_calendar').TradingCalendar
            if name.startswith('__'):
                raise AttributeError(name)
            raise Unsupported('trading_calendars.%s' % name)
        pkg.__getattr__ = pkg_getattr
        self.mods['trading_calendars'] = pkg
        sub = types.ModuleType('trading_calendars.utils')
        sub.__path__ = [os.path.join(REPO, 'trading_calendars', 'utils')]
        self.mods['trading_calendars.utils'] = sub

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals['__package__'].split('.')
            base = base[:len(base) - (level - 1)]
            name = '.'.join(base + ([name] if name else []))
        top = name.split('.')[0]
        if name in self.extra or top in ('numpy', 'pandas'):
            if name not in self.extra:
                raise Unsupported('import ' + name)
            if fromlist:
                return self.extra[name]
            return self.extra[top]
        if top == 'trading_calendars':
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    sub = name + '.' + f
                    if self._path(sub) and not hasattr_safe(m, f):
                        setattr(m, f, self.load(sub))
                return m
            return self.mods['trading_calendars']
        if name == 'datetime':
            return SYM_DATETIME
        if name == 'itertools':
            return SYM_ITERTOOLS
        if name == 'toolz' and 'toolz' in sys.modules:
            return sym_toolz()
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def _path(self, name):
        p = os.path.join(REPO, *name.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py'
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = self._path(name)
        if path is None:
            if os.path.isdir(os.path.join(REPO, *name.split('.'))):
                m = types.ModuleType(name)
                m.__path__ = [os.path.join(REPO, *name.split('.'))]
                self.mods[name] = m
                return m
            raise ImportError(name)
        short = name.split('.')[-1]
        if short.startswith('exchange_calendar_') and short not in self.real_exchanges:
            m = DummyModule(name)
            self.mods[name] = m
            return m
        return self.load_file(name, path)

    def load_file(self, name, path):
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name.rsplit('.', 1)[0]
        bi = dict(BUILTINS)
        bi['__import__'] = self._import
        d = m.__dict__
        d['__builtins__'] = bi
        d['__vc_comp__'] = vc_comp
        d['__vc_for__'] = vc_for
        d['__vc_mod__'] = vc_mod
        d['__vc_issym__'] = vc_issym
        d['__vc_env__'] = lambda loc, names: {n: loc[n] for n in names if n in loc}
        d['__vc_loop__'] = lambda key: LOOP_INVARIANTS[tuple(key)]()
        self.mods[name] = m
        with open(path, encoding='utf8') as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = Instrument(name).visit(tree)
        ast.fix_missing_locations(tree)
        saved = core.CUR
        if core.CUR is None:
            core.CUR = core.Ctx([])
        try:
            for st in tree.body:
                code = compile(ast.Module([st], []), path, 'exec')
                try:
                    exec(code, d)
                except (Unsupported, Exception) as e:
                    why = '%s: %s' % (type(e).__name__, e)
                    self.skipped.setdefault(name, []).append((st.lineno, why))
                    for n in _defined(st):
                        d[n] = Poison(n, why)
        finally:
            core.CUR = saved
        return m


def hasattr_safe(m, f):
    return f in m.__dict__ or (isinstance(m, DummyModule))


def _defined(st):
    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        return [st.name]
    if isinstance(st, (ast.Import, ast.ImportFrom)):
        return [(a.asname or a.name).split('.')[0] for a in st.names]
    return list(_stored(st))


_loaded_real = False


def load_real():
    """Make the project's own pure-Python dependencies importable."""
    global _loaded_real
    if _loaded_real:
        return
    for name in REAL:
        if name in sys.modules:
            continue
        p = os.path.join(SITE, name, '__init__.py')
        one = os.path.join(SITE, name + '.py')
        if os.path.exists(p):
            spec = importlib.util.spec_from_file_location(
                name, p, submodule_search_locations=[os.path.join(SITE, name)])
        elif os.path.exists(one):
            spec = importlib.util.spec_from_file_location(name, one)
        else:
            continue
        mod = importlib.util.module_from_spec(spec)
        sys.modules[name] = mod
        spec.loader.exec_module(mod)
    _loaded_real = True
