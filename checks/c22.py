"""C22: two occasionally binding constraints"""
import itertools

import numpy as np

from mc import lin, occ

ID = 'C22'
LEVEL = 'exploration'
TECHNIQUE = ('bounded exhaustive enumeration of models, pairs of constraints and shock sequences '
             'on the real solver; the oracle solves every sequence of the four regimes up to the '
             'horizon by brute force and keeps the consistent ones')
RULE = ('2- and ring-coupled 3-variable lead/lag structures, linear and not, x declaration orders '
        'x steady states x pairs of equations changed x alternative equations x pairs of '
        'conditions written in 5 ways; for each, every shock sequence over {-2, -1, 1, 2} (one '
        'period) and {-1.5, 1.5} (two periods; three in the thorough tier), from 2 starting '
        'points, simultaneous and one-at-a-time updating; all 4^horizon sequences of regimes are '
        'solved; the constraints in the other order, and one constraint that never binds, against '
        'the one-constraint solution; outcome = (conditions, sequence of regimes found)')
ASSUMPTIONS = [
    'paths and conditions are in deviations from the steady state of the reference regime, and '
    'all regimes are linearised there',
    'when several sequences are consistent any of them is right; sequences decided by ties '
    'closer than 1e-8 may go either way',
    'a warning may stand in for a solution only where guess-and-verify on the regimes does not '
    'settle, whichever way of updating is asked for',
]
CHUNK = 2


def conditions(j, v, w):
    """pairs of conditions on v, the variable whose equation changes"""
    C = occ.Cond
    return [
        (C({v: 1}, '<', -.5), C({w: 1}, '>', -.1)),
        (C({v: 1}, '>', .4), C({w: 1}, '<', .3)),
        (C({w: 1}, '<=', -.6), C({w: 1}, '>', -.6)),
        (C({v: 1, w: .5}, '<', -.6), C({v: 1, w: .5}, '>=', -.6)),
        (C({v: 1}, '>', 500), C({v: 1}, '<=', 500)),
        (C({v: 1}, '>=', .7), C({v: 1, w: 1}, '<', .1)),
    ][j]


SIGN = [-.5, .4, -.5, -.5, .5, .5]
PAIRS = [(0, 1), (3, 5), (1, 0), (5, 3), (0, 0), (4, 0), (2, 1), (1, 4), (3, 1), (2, 5),
         (3, 4), (0, 4), (5, 4)]


def cases(tier):
    deep = tier == 'thorough'
    k = 0
    for order in (1, 2):
        for i, m in enumerate(lin.models(tier, order, step=2 if order == 1 else 5)):
            n = len(m[0])
            if n == 1 or m[2] == 'none' or m[4] not in ('eye', 'var', 'corr', 'cov'):
                continue
            for p, q in itertools.permutations(range(n), 2):
                k += 1
                if not deep and k % 5:
                    continue
                for c in range(3 if deep else 1):
                    yield [m, [p, q], [occ.ALTS[(k // 5 + 3 * c) % 8], occ.ALTS[(k // 3 + c) % 8]],
                           (k // 5 + c) % len(PAIRS), k, deep]


def prepare(m, eqs, alts, pair):
    s, S = lin.make(m)
    R = lin.reference(s)
    if isinstance(R, str):
        return R
    regimes, conds, ex = [s], [], []
    new = {}
    for b, (eq, alt) in enumerate(zip(eqs, alts)):
        v = lin.space.NAMES[eq]
        i, j = m[7].index(eq), s.endog.index(v)
        c = PAIRS[pair][b]
        new[b] = (i, occ.alternative(alt, s, j, SIGN[c]))
        conds.append(conditions(c, v, s.endog[(j + 1) % len(s.endog)]))
    for bits in ((0,), (1,), (0, 1)):
        t = s.permuted()
        t.eqs = list(s.eqs)
        for b in bits:
            t.eqs[new[b][0]] = new[b][1]
        if not any({-1, 1} & a for a in t.appearances().values()):
            return 'static alternative'
        regimes.append(t)
        ex.append({new[b][0]: t.eq_str(new[b][0]) for b in bits})
    return s, regimes, conds, ex, R


def run(case, ctx):
    m, eqs, alts, pair, k, deep = case
    got = prepare(m, eqs, alts, pair)
    if isinstance(got, str):
        ctx.outcome(got, trivial=True)
        return
    s, regimes, conds, ex, (P, Q) = got
    prob = occ.Problem(regimes, conds)
    s.params = {'bnd': .25}
    md = s.build()
    con = [[x.text(occ.FORMS[(k + b) % 5], s.params) for x in c] for b, c in enumerate(conds)]
    n, ms = len(s.endog), len(s.stoch)
    T = 6 if deep else 5
    x1 = np.round(.4 * np.cos(np.arange(n) + k), 2)
    jobs = [(s.stoch[0], 0, [a], x0, T, False) for a in (-2., -1., 1., 2.) for x0 in (None, x1)]
    for z in itertools.product((-1.5, 1.5), repeat=2):
        jobs.append((None, 0, list(z), None, T, False))
        jobs.append((None, 0, list(z), x1, T, True))
    if ms > 1:
        names = [s.stoch[-1], s.stoch[0]]
        for a, b in itertools.product((-1.5, 1.), repeat=2):
            jobs.append((names, [ms - 1, 0], [[a, b], [b, -a]], None, T, False))
    jobs.append((None, 0, [-1., 0, 1.5, 0, 0, 0][:T], None, None, False))
    if deep:
        for z in itertools.product((-1.5, 0., 1.5), repeat=3):
            jobs.append((None, 0, list(z), None, T, False))
    real = occ.regimes_of(md, ex)
    swapped = [real[0], real[2], real[1], real[3]]
    one = occ.regimes_of(md, ex[0])
    never = max(abs(c[0].bound) for c in conds[1:]) > 100
    for q, (exog, pos, shocks, x0, periods, rest) in enumerate(jobs):
        kw = dict(constraint=con, exprs=ex, shocks=shocks)
        if exog is not None:
            kw['exog'] = exog
        if x0 is not None:
            kw['init'] = x0.copy()
        if periods is not None:
            kw['periods'] = periods
        if rest:
            kw['restrained'] = True
        given = np.array(shocks, dtype=float)
        sol, warned = occ.solve(md, None if (q + k) % 6 == 0 else real, **kw)
        ctx.step()
        what = dict(constraint=con, exprs=ex, model=s.text(), shocked=exog, start=x0,
                    horizon=periods, restrained=rest)
        r = occ.judge(ctx, prob, sol, given, pos, x0, periods, warned, **what)
        ctx.outcome((pair, r))
        clean = not any('converge' in w or 'increase' in w for w in warned)
        if q % 3 == 0 and not rest:
            # the other order of constraints
            kw2 = dict(kw, constraint=con[::-1], exprs=[ex[1], ex[0], ex[2]])
            alt, w2 = occ.solve(md, None if (q + k) % 6 == 3 else swapped, **kw2)
            if clean:
                ctx.check(not w2, 'reports depend on the order of constraints', got=w2,
                          shocks=shocks, **what)
                ctx.close(np.asarray(alt.paths), np.asarray(sol.paths),
                          'path depends on the order of constraints', 1e-7, shocks=shocks, **what)
        if never and q % 3 == 1 and not rest:
            kw3 = dict(kw, constraint=con[0], exprs=ex[0])
            alt, w3 = occ.solve(md, None if (q + k) % 6 == 4 else one, **kw3)
            if clean and not w3:
                ctx.close(np.asarray(sol.paths), np.asarray(alt.paths),
                          'a constraint that never binds changes the path', 1e-7, shocks=shocks,
                          **what)
            ctx.check(clean == (not w3), 'a constraint that never binds changes what is reported',
                      got=warned, expected=w3, shocks=shocks, **what)
    ctx.tally(True)
