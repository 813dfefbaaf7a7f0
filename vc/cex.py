"""Counterexample search: the same code and contract with 1..3 sessions and all
quantifiers expanded, so that a failed condition has a definite model."""
import time

import z3

from spec import api
from . import core, symcal
from .core import Budget, Unsupported, zb
from .verify import run_contract


def val(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_true(v) or z3.is_false(v):
        return z3.is_true(v)
    return None


def extract(m, c, contract, variant, N):
    fn = lambda nm: z3.Function(nm, z3.IntSort(), z3.IntSort())
    out = {}
    for r in ('S', 'O', 'BS', 'BE', 'C'):
        out[r] = [val(m, fn(r)(z3.IntVal(k))) for k in range(N)]
    args = []
    for name, kind in contract.args:
        if kind == api.DIRECTION:
            args.append(variant['direction'])
        elif kind == api.INDEX:
            args.append([val(m, c.inputs['arg_%s_%d' % (name, k)]) for k in range(2)])
        else:
            args.append(val(m, c.inputs['arg_' + name]))
    memo = c.inputs.get('memo_instant') if c is not None else None
    return dict(calendar=dict(kind='synthetic', open_offset=0, **out), op=contract.name,
                args=args, nanos=bool(variant.get('nanos')),
                before=val(m, memo) if memo is not None else None)


def search(world, contract, variant, budget=60, limit=4):
    """Candidate counterexamples, to be replayed on the real code."""
    out = []
    end = time.time() + budget
    notes = []
    if variant.get('cls'):
        return out, ['no finite search for this class']
    if contract.name == 'all_minutes':
        try:
            for m in symcal.minute_models(world):
                out.append(extract(m, None, contract, variant, 1))
        except (Unsupported, Budget) as e:
            notes.append('pieces: %s' % e)
        if out:
            return out[:limit], notes
    for N in (1, 2, 3):
        try:
            run = run_contract(world, contract, variant, N=N)
            q = N * 4 + 3 if contract.needs_minutes else N + 3
            for c, res in core.explore(run, N=N, deadline=end, qbound=q, feas_ms=3000):
                goals = [(g, facts) for _, g, facts in c.obligations]
                if res is not None:
                    _, goal, frame = res
                    goals.append((zb(goal), c.facts))
                    if frame is not None:
                        goals.append((zb(frame), c.facts))
                for g, facts in goals:
                    r = core.prove(facts, g, finite=True, ms=5000)
                    if r.status == 'refuted':
                        out.append(extract(r.model, c, contract, variant, N))
                if len(out) >= limit:
                    return out, notes
        except (Unsupported, Budget) as e:
            notes.append('N=%d: %s' % (N, e))
        if out:
            break
        if time.time() > end:
            break
    return out, notes
