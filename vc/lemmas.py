"""Lemmas about the list of minutes, proved on every run.

Trusted law of concatenation: if M is the concatenation of the pieces P(0) ..
P(n-1) with lengths cnt(i), then with off(0) = 0 and off(i+1) = off(i) + cnt(i)
    len(M) = off(n),   M[off(i) + j] = P(i)[j]   (0 <= j < cnt(i)),
and every position of M is off(i) + j for some i and such j.
Everything that the queries use about M is derived from it here."""
import z3

from spec import api
from . import core
from .core import NAT, SInt, mkint, zi
from .symcal import View, wf
from .symlogic import SymArr, SymL


def obligations():
    """[(name, facts, goal)]"""
    out = []
    L = SymL()
    c = core.Ctx([])
    core.CUR = c
    try:
        fn = lambda nm: z3.Function(nm, z3.IntSort(), z3.IntSort())
        S, O, BS, BE, C = fn('S'), fn('O'), fn('BS'), fn('BE'), fn('C')
        n = SInt(z3.Int('n'))
        wf(c, n, S, O, BS, BE, C)
        V = View()
        V.n = n
        V.S, V.O, V.BS, V.BE, V.C = (SymArr(n, f) for f in (S, O, BS, BE, C))
        i, j, i2, j2, m = z3.Ints('i j i2 j2 m')
        cnt = fn('cnt')
        P = z3.Function('P', z3.IntSort(), z3.IntSort(), z3.IntSort())
        off = fn('off')
        rng = lambda x: z3.And(0 <= x, x < zi(n))
        facts = list(c.facts)
        defs = []
        for x in (i, i2):
            defs.append(z3.Implies(rng(x), cnt(x) == zi(api.n_minutes(L, V, SInt(x)))))
        pdef = lambda x, y: P(x, y) == zi(api.minute_of(L, V, SInt(x), SInt(y)))
        inp = lambda x, y: z3.And(rng(x), 0 <= y, y < cnt(x))
        out.append(('pieces-are-not-empty', facts + defs,
                    z3.Implies(rng(i), cnt(i) >= 2)))
        out.append(('a-piece-increases', facts + defs + [pdef(i, j), pdef(i, j2)],
                    z3.Implies(z3.And(inp(i, j), inp(i, j2), j < j2), P(i, j) < P(i, j2))))
        out.append(('a-piece-starts-at-the-open', facts + defs + [pdef(i, z3.IntVal(0))],
                    z3.Implies(rng(i), P(i, 0) == O(i))))
        last = cnt(i) - 1
        out.append(('a-piece-ends-at-the-close', facts + defs + [pdef(i, last)],
                    z3.Implies(rng(i), P(i, last) == C(i))))
        out.append(('a-piece-lies-between-open-and-close', facts + defs + [pdef(i, j)],
                    z3.Implies(inp(i, j), z3.And(O(i) <= P(i, j), P(i, j) <= C(i)))))
        # offsets: induction on k for off(i) < off(i + 1 + k)
        k = z3.Int('k')
        pos = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zi(n)), z3.And(
            off(j + 1) == off(j) + cnt(j), cnt(j) >= 1)), patterns=[off(j)])
        out.append(('offsets-increase/base', [pos], z3.Implies(rng(i), off(i) < off(i + 1))))
        out.append(('offsets-increase/step', [pos, off(i) < off(i + 1 + k), k >= 0],
                    z3.Implies(z3.And(0 <= i, i + 1 + k < zi(n)), off(i) < off(i + 2 + k))))
        incr = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j <= zi(n)), off(i) < off(j)),
                         patterns=[z3.MultiPattern(off(i), off(j))])
        # from here on the facts proved above are hypotheses
        piece = [z3.Implies(z3.And(inp(i, j), inp(i, j2), j < j2), P(i, j) < P(i, j2)),
                 z3.Implies(inp(i, j), z3.And(O(i) <= P(i, j), P(i, j) <= C(i))),
                 z3.Implies(inp(i2, j2), z3.And(O(i2) <= P(i2, j2), P(i2, j2) <= C(i2)))]
        out.append(('minutes-increase', facts + piece + [pos, incr,
                    inp(i, j), inp(i2, j2), off(i) + j < off(i2) + j2,
                    off(i2 + 1) == off(i2) + cnt(i2), off(i + 1) == off(i) + cnt(i),
                    z3.Implies(i == i2, P(i2, j2) == P(i, j2)),
                    z3.Implies(i2 < i, z3.Or(i2 + 1 == i, off(i2 + 1) < off(i)))],
                    P(i, j) < P(i2, j2)))
        # sums: sum over [lo, lo+k) of cnt equals off(lo+k) - off(lo)
        lo = z3.Int('lo')
        sm, f = fn('sum'), fn('f')
        sdef = [sm(0) == 0, sm(k + 1) == sm(k) + f(k), f(k) == cnt(lo + k)]
        out.append(('sum-of-counts/base', [sm(0) == 0], sm(0) == off(lo) - off(lo)))
        out.append(('sum-of-counts/step', sdef + [k >= 0, 0 <= lo, lo + k < zi(n), pos,
                    sm(k) == off(lo + k) - off(lo)],
                    sm(k + 1) == off(lo + k + 1) - off(lo)))
    finally:
        core.CUR = None
    return out


def run():
    """[(name, Result)]"""
    out = []
    for name, facts, goal in obligations():
        core.CUR = core.Ctx([])
        try:
            out.append(('minute-list-lemma/' + name, core.prove(facts, goal, ms=20000)))
        finally:
            core.CUR = None
    return out
