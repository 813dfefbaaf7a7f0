"""Validation of the numpy/pandas contract models against the real libraries.

Every operation in real/libcases.py is executed with the real libraries on sampled inputs
and with the contract models on the same inputs.  The models must allow exactly the real
outcome:
  * finite mode (quantifiers expanded): some path allows it, no path allows another one;
  * proof mode (the axioms used by the proofs): no path whose axioms contradict it.
"""
import os
import random
import types
import ast

import z3

from . import core, loader, seqs
from .core import NAT, Unsupported, zb, zi

M = 60 * 10**9
ABSTRACT = ('ix_zone',)     # the zone's offset is a free function in the models
DAY = 1440 * M


def samples(rng, n):
    out = []
    for _ in range(n):
        base = rng.randrange(-20000, 30000) * DAY
        at = lambda: base + rng.randrange(8) * M
        ln = rng.randrange(5)
        xs = sorted(rng.sample(range(8), ln))
        xs = [base + v * M for v in xs]
        k = rng.randrange(4)
        zs = [at() for _ in range(k)]
        m = rng.randrange(ln + 1)
        x = dict(xs=xs, ys=sorted(at() for _ in range(rng.randrange(3))), zs=zs,
                 ws=[rng.choice([z, at()]) for z in zs],
                 v=rng.choice(xs + [at()]) if rng.random() < .7 else at() + rng.randrange(-3, 4),
                 w=at(), u=at(), i=rng.randrange(-6, 6), j=rng.randrange(-6, 6),
                 pos=[rng.randrange(-ln, ln) for _ in range(2)] if ln else [],
                 upos=rng.sample(range(ln), m), n=rng.randrange(0, 5),
                 day=base, days=[base + rng.randrange(400) * DAY for _ in range(k)])
        x['uvals'] = [at() for _ in range(m)]
        x['vals'] = [t + rng.randrange(0, 500) * M for t in xs]
        x['nats'] = [rng.choice([NAT, t + rng.randrange(0, 500) * M]) for t in xs]
        x['flags'] = [rng.randrange(2) for _ in xs]
        x['dz'] = rng.sample([base + v * M for v in range(8)], k)
        out.append(x)
    return out


class K(object):
    """The input constructors of libcases.py for the models; `sym` makes lengths and
    values free variables that are constrained to the inputs."""

    def __init__(self, sym):
        self.sym = sym

    def buf(self, v):
        vals = [zi(e) for e in v]
        if not self.sym:
            return seqs.Buf(len(vals), seqs.rows(len(vals), vals))
        c = core.ctx()
        f, n = c.func('in'), c.int('n')
        c.assume(n == len(vals))
        for i, e in enumerate(vals):
            c.assume(f(i) == e)
        return seqs.Buf(core.SInt(n), lambda k: f(k))

    def arr(self, v):
        return seqs.ndarray(self.buf(v), 'i8')

    def dti(self, v):
        return seqs.DatetimeIndex(buf=self.buf(v), tz=seqs.UTC)

    def naive(self, v):
        return seqs.DatetimeIndex(buf=self.buf(v))

    def ts(self, v, tz='UTC'):
        if self.sym:
            c = core.ctx()
            t = c.int('t')
            c.assume(t == v)
            v = core.SInt(t)
        return seqs.mkts(v, seqs.UTC if tz else None)

    def ser(self, ix, v):
        return seqs.Series(self.dti(v), index=self.dti(ix))

    def frame(self, ix, a, b):
        return seqs.DataFrame(index=self.dti(ix), columns=['a', 'b'],
                              data=dict(a=self.dti(a), b=self.dti(b)), dtype='datetime64[ns]')


def seq_is(n, at, vals, conv):
    return z3.And([zi(n) == len(vals)] + [at(z3.IntVal(i)) == conv(e) for i, e in enumerate(vals)])


def matches(out, real):
    """The formula 'the model's outcome is the real one', False, or None if not comparable."""
    kind, v = out
    if kind == 'raise' or real[0] == 'raise':
        if kind != 'raise' or real[0] != 'raise':
            return False
        # the model may raise the base class that callers catch
        return real[1][0] == type(v).__name__ or type(v).__name__ in real[1]
    if real[0] == 'nat':
        return isinstance(v, seqs.NaTType)
    if real[0] == 'b':
        return zb(v) == z3.BoolVal(real[1]) if isinstance(v, (bool, core.SBool)) else False
    if real[0] == 'i':
        if isinstance(v, seqs.SumTerm):
            return None
        return zi(v) == real[1] if isinstance(v, (int, core.SInt)) else False
    if real[0] == 't':
        if not isinstance(v, seqs.Timestamp) or (v.tz is not None) != real[2]:
            return False
        return zi(v.value) == real[1]
    if real[0] == 'B':
        return seq_is(v.n, v.at, real[1], z3.BoolVal) if v.dt == 'b' else False
    if real[0] == 'I':
        return seq_is(v.n, v.at, real[1], z3.IntVal)
    if real[0] == 'D':
        if not isinstance(v, seqs.DatetimeIndex) or (v.tz is not None) != real[2]:
            return False
        return seq_is(v.n, v.at, real[1], z3.IntVal)
    if real[0] == 'S':
        if not isinstance(v, seqs.Series):
            return False
        return z3.And(seq_is(v.index.n, v.index.at, real[1], z3.IntVal),
                      seq_is(v.buf.n, v.at_, real[2], z3.IntVal))
    return None


def load_cases(world):
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'real', 'libcases.py')
    return world.load_file('libcases', path)


def one(mod, world, name, x, real, sym):
    """'' if the model agrees, otherwise what is wrong."""
    def run(c):
        try:
            return ('ret', getattr(mod, name)(world.np, world.pd, K(sym), x))
        except Exception as e:
            return ('raise', e)
    allowed = False
    paths = 0
    try:
        for c, res in core.explore(run, N=None if sym else 8, qbound=9, feas_ms=3000):
            if res is None:
                continue
            s = core._mk_solver(3000, finite=not sym)
            s.add(c.facts)
            if s.check() == z3.unsat:
                continue
            paths += 1
            m = matches(res, real)
            if m is None:
                return 'not comparable'
            m = z3.BoolVal(m) if isinstance(m, bool) else m
            s.push()
            s.add(m)
            r = s.check()
            s.pop()
            if r == z3.unsat:
                if not sym:
                    return 'another outcome: %s' % describe(s, res)
                continue
            allowed = True
            if not sym and name not in ABSTRACT:
                s.add(z3.Not(m))
                if s.check() != z3.unsat:
                    return 'also allows another outcome: %s' % describe(s, res)
    except Unsupported as e:
        return 'unsupported: %s' % e
    return '' if allowed else 'the real outcome is excluded (%d paths)' % paths


def describe(s, res):
    kind, v = res
    if kind == 'raise':
        return '%s: %s' % (type(v).__name__, v)
    s.check()
    m = s.model()
    if hasattr(v, 'n') and hasattr(v, 'at'):
        n = m.eval(zi(v.n), model_completion=True).as_long()
        return [str(m.eval(v.at(z3.IntVal(i)), model_completion=True)) for i in range(min(n, 8))]
    return str(v if not hasattr(v, 'value') else v.value)


def main(argv):
    from .driver import real
    per = int(argv[0]) if argv else 25
    only = argv[1:]
    world = loader.World()
    mod = load_cases(world)
    rng = random.Random(1)
    cases = [(n, x) for n in mod.names() if not only or n in only for x in samples(rng, per)]
    r = real(dict(job='library', cases=cases), 600)
    if not r['ok']:
        print(r['error'])
        return 2
    bad, unsup = {}, {}
    for (n, x), out in zip(cases, r['results']):
        for sym in (False, True):
            w = one(mod, world, n, x, out, sym)
            if w.startswith('unsupported') or w == 'not comparable':
                unsup.setdefault((n, sym), []).append(w)
            elif w:
                bad.setdefault((n, sym), []).append((w, out, x))
    for (n, sym), l in sorted(bad.items()):
        print('DIFFERS %s %s (%d): %s\n   real %s\n   input %s' % (
            n, 'proof mode' if sym else 'finite mode', len(l), l[0][0], l[0][1], l[0][2]))
    for (n, sym), l in sorted(unsup.items()):
        print('outside the models: %s %s (%d of %d): %s' % (n, 'proof mode' if sym else 'finite mode', len(l), per, l[0]))
    print('%d operations, %d inputs each, %d differ' % (len(set(n for n, _ in cases)), per, len(bad)))
    return 1 if bad else 0
