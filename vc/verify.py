"""Generates and discharges the obligations of one contract."""
import time
import traceback

import z3

from spec import api
from . import core, loader, seqs, symcal
from .core import NAT, Budget, PathEnd, SBool, SInt, Unsupported, ctx, mkint, zb, zi
from .symlogic import SymArr, SymL


class Args(object):
    pass


class Obligation(object):
    def __init__(self, name, result, extra=None):
        self.name = name
        self.status = result.status
        self.backend = result.backend
        self.wall = result.wall
        self.detail = result.detail
        self.model = result.model
        self.extra = extra


class Report(object):
    """Outcome of the verification of one function."""

    def __init__(self, func):
        self.func = func
        self.obligations = []
        self.paths = 0
        self.unsupported = None
        self.error = None
        self.contracts_used = set()
        self.wall = 0.0
        self.cex = None             # concrete counterexample (dict)
        self.vacuous = False
        self.outcomes = {}

    @property
    def proved(self):
        return (self.unsupported is None and self.error is None and self.obligations
                and not self.vacuous
                and all(o.status == 'proved' for o in self.obligations))

    def failed(self):
        return [o for o in self.obligations if o.status != 'proved']


LIM = 2 ** 61


def instant(c, name):
    v = z3.Int(name)
    c.assume(z3.And(-LIM < v, v < LIM))
    c.inputs[name] = v
    return v


def make_args(c, contract, variant):
    """(python arguments, specification arguments)"""
    a, py = Args(), []
    for name, kind in contract.args:
        if kind in (api.INSTANT, api.SESSION):
            v = SInt(instant(c, 'arg_' + name))
            setattr(a, name, v)
            py.append(v if variant.get('nanos') and kind == api.INSTANT
                      else seqs.mkts(v, seqs.UTC))
        elif kind == api.COUNT:
            v = SInt(instant(c, 'arg_' + name))
            if c.N is not None:
                c.assume(z3.And(v.e <= 9, v.e >= -9))
            setattr(a, name, v)
            py.append(v)
        elif kind == api.FLAG:
            b = z3.Bool('arg_' + name)
            c.inputs['arg_' + name] = b
            setattr(a, name, SBool(b))
            py.append(SBool(b))
        elif kind == api.DIRECTION:
            setattr(a, name, variant['direction'])
            py.append(variant['direction'])
        elif kind == api.INDEX:
            f = z3.Function('arg_' + name, z3.IntSort(), z3.IntSort())
            m = z3.Int('arg_%s_len' % name)
            c.inputs['arg_%s_len' % name] = m
            n = SInt(m)
            if c.N is not None:
                n = 2
                c.assume(m == 2)
                for k in range(2):
                    c.inputs['arg_%s_%d' % (name, k)] = f(z3.IntVal(k))
            c.assume(z3.And(m >= 0, m < LIM))
            c.assume(c.forall(0, n, lambda k: z3.And(-LIM < f(k), f(k) < LIM),
                              pats=lambda k: [f(k)]))
            setattr(a, name, SymArr(n, f))
            py.append(seqs.DatetimeIndex(buf=seqs.Buf(n, lambda k: f(k)), tz=seqs.UTC))
    return py, a


def variants(contract):
    kinds = [k for _, k in contract.args]
    out = [{}]
    if api.DIRECTION in kinds:
        out = [{'direction': d} for d in api.DIRECTIONS]
    if contract.name in ('is_open_on_minute', 'minute_to_session_label'):
        out = out + [dict(v, nanos=True) for v in out]
    if contract.exec_only:
        out = out + [FUTURES]
    return out


FUTURES = {'cls': ('trading_calendars.us_futures_calendar', 'QuantopianUSFuturesCalendar'),
           'exec': (25 * api.HOUR // 2, -api.HOUR)}


def vname(contract, variant):
    t = contract.name
    if 'direction' in variant:
        t += '[%s]' % variant['direction']
    if variant.get('nanos'):
        t += '[nanoseconds]'
    if variant.get('cls'):
        t += '[%s]' % variant['cls'][1]
    return t


ENGINE_NAMES = ('SInt', 'SBool', 'SFloat', 'FlatMap', 'FlatList', 'Sym')


def call(f):
    try:
        return ('ret', f())
    except core.Control:
        raise
    except RecursionError:
        raise Unsupported('recursion')
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        # an AttributeError/NameError raised inside the models is a gap of the
        # model, not behaviour of the code
        if tb and '/vc/' in tb[-1].filename and isinstance(
                e, (AttributeError, NameError, z3.Z3Exception, NotImplementedError, AssertionError)):
            raise Unsupported('model: %s: %s' % (type(e).__name__, e))
        if tb and '/vc/' in tb[-1].filename and isinstance(e, TypeError) and 'tz' not in str(e):
            raise Unsupported('model: %s' % e)
        if isinstance(e, TypeError) and any(w in str(e) for w in ENGINE_NAMES):
            raise Unsupported('model: %s' % e)
        if isinstance(e, (z3.Z3Exception,)):
            raise Unsupported('model: %s' % e)
        return ('raise', e)


def run_contract(world, contract, variant, N=None, setup=None, post=None):
    """The function executed for each path."""
    L = SymL()

    def run(c):
        cal, V = symcal.build(c, world, N=N, cls_path=variant.get('cls'), short=contract.needs_minutes)
        if variant.get('exec'):
            V.exec_open, V.exec_close = variant['exec']
        if contract.needs_minutes:
            symcal.attach_minutes(c, cal, V, L)
        symcal.arbitrary_cache(c, cal, V, L)
        py, a = make_args(c, contract, variant)
        before = symcal.snapshot(cal)
        if contract.kind == 'property':
            out = call(lambda: getattr(cal, contract.name))
        else:
            out = call(lambda: getattr(cal, contract.name)(*py))
        goal = contract.post(L, V, a, out)
        frame = symcal.frame_goal(c, cal, before, V, L)
        return out, goal, frame
    return run


def verify(world, contract, variant, deadline=None, ms=20000):
    rep = Report(vname(contract, variant))
    t0 = time.time()
    run = run_contract(world, contract, variant)
    try:
        for c, res in core.explore(run, deadline=deadline):
            if res is None:
                for nm, g, facts in c.obligations:
                    rep.obligations.append(Obligation(
                        '%s/%s' % (rep.func, nm), core.prove(facts, g, ms=ms)))
                continue
            rep.paths += 1
            out, goal, frame = res
            k = 'raise ' + type(out[1]).__name__ if out[0] == 'raise' else 'return'
            rep.outcomes[k] = rep.outcomes.get(k, 0) + 1
            for nm, g, facts in c.obligations:
                rep.obligations.append(Obligation(
                    '%s/path%d/%s' % (rep.func, rep.paths, nm), core.prove(facts, g, ms=ms)))
            nm = '%s/path%d/%s' % (rep.func, rep.paths, 'postcondition')
            rep.obligations.append(Obligation(nm, core.prove(c.facts, goal, ms=ms)))
            if frame is not None:
                rep.obligations.append(Obligation(
                    '%s/path%d/frame' % (rep.func, rep.paths), core.prove(c.facts, frame, ms=ms)))
            rep.contracts_used.update(c.assumption_log)
    except Unsupported as e:
        rep.unsupported = str(e)
    except Budget as e:
        rep.unsupported = 'budget: %s' % e
    rep.wall = time.time() - t0
    return rep


def reachable(world, contract, variant):
    """Vacuity guard: the precondition and some path are satisfiable."""
    run = run_contract(world, contract, variant, N=2)
    n = 0
    try:
        for c, res in core.explore(run, N=2, qbound=11 if contract.needs_minutes else 5,
                                   feas_ms=3000, deadline=time.time() + 60):
            n += 1
            if res is not None and c.solver.check() == z3.sat:
                return True
            if n > 50:
                break
    except (Unsupported, Budget):
        # not executable in finite mode: fall back to the calendar alone
        c = core.Ctx([], N=2)
        core.CUR = c
        try:
            symcal.prepare(c, world, True, 2)
            return c.solver.check() == z3.sat
        finally:
            core.CUR = None
    return False
