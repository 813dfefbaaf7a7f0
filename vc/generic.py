"""Contracts of plain functions: run(c) executes the real function on symbolic
inputs and returns (outcome, [(name, goal)])."""
import time

from . import core
from .core import Budget, Unsupported
from .verify import Obligation, Report


def verify(key, run, ms=15000, deadline=None, finite=False, feas_ms=400):
    rep = Report(key)
    t0 = time.time()
    try:
        for c, res in core.explore(run, deadline=deadline, feas_ms=feas_ms):
            pre = []
            if res is not None:
                rep.paths += 1
                out, pre = res
                k = out[0] if out[0] == 'ret' else 'raise ' + type(out[1]).__name__
                rep.outcomes[k] = rep.outcomes.get(k, 0) + 1
            for nm, g in pre:
                rep.obligations.append(Obligation(
                    '%s/path%d/%s' % (key, rep.paths, nm),
                    core.prove(c.facts, g, ms=ms, finite=finite)))
            for nm, g, facts in c.obligations:
                rep.obligations.append(Obligation(
                    '%s/path%d/%s' % (key, rep.paths, nm),
                    core.prove(facts, g, ms=ms, finite=finite)))
            rep.contracts_used.update(c.assumption_log)
    except Unsupported as e:
        rep.unsupported = str(e)
    except Budget as e:
        rep.unsupported = 'budget: %s' % e
    rep.wall = time.time() - t0
    return rep


def search(run_n, sizes, decode, budget=40, limit=3, ms=8000):
    """Definite counter-models in finite mode: decode(c, value) -> candidate."""
    out = []
    end = time.time() + budget
    for N in sizes:
        try:
            for c, res in core.explore(run_n(N), N=N, deadline=end, qbound=8, feas_ms=3000):
                if res is None:
                    continue
                for nm, g in res[1]:
                    r = core.prove(c.facts, g, finite=True, ms=ms)
                    if r.status == 'refuted':
                        def value(t):
                            v = r.model.eval(t, model_completion=True)
                            return v.as_long() if hasattr(v, 'as_long') else v
                        d = decode(c, value, N)
                        d['goal'] = nm
                        out.append(d)
                        break
                if len(out) >= limit:
                    return out
        except (Unsupported, Budget):
            pass
        if out:
            break
    return out
