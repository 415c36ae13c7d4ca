"""C21: one occasionally binding constraint"""
import itertools
from unittest import mock

import numpy as np

from mc import lin, occ, ref

ID = 'C21'
LEVEL = 'exploration'
TECHNIQUE = ('bounded exhaustive enumeration of models, alternative regimes, constraints, shock '
             'sequences and starting points on the real solver; the oracle solves every sequence '
             'of regimes up to the horizon by brute force and keeps the consistent ones')
RULE = ('1-, 2- and ring-coupled 3-variable lead/lag structures, linear and not, x declaration '
        'orders x steady states x which equation changes x 8 alternative equations x 6 pairs of '
        'conditions, each written in one of 5 ways; for each, every shock sequence over '
        '{-2, -1, 1, 2} (one period) and {-1.5, 0, 2} (two periods, and three in the thorough '
        'tier) with and without periods to spare, from 2 starting points, and for one or several '
        'shocks, and designed draws when a number or shape is given instead of shocks; all 2^horizon sequences of regimes are solved; outcome = (alternative, '
        'conditions, sequence of regimes found)')
ASSUMPTIONS = [
    'paths and conditions are in deviations from the steady state of the reference regime, and '
    'all regimes are linearised there',
    'when several sequences are consistent any of them is right; sequences decided by ties '
    'closer than 1e-8 may go either way',
    'a warning may stand in for a solution only where guess-and-verify on the regimes does not '
    'settle',
]
CHUNK = 2


def conditions(j, v, w, op=None):
    C = occ.Cond
    return [
        (C({v: 1}, '<', -.5), C({w: 1}, '>', -.1)),
        (C({v: 1}, '>', .4), C({w: 1}, '<', .3)),
        (C({w: 1}, '<=', -.3), C({w: 1}, '>', -.3)),
        (C({v: 1, w: .5} if v != w else {v: 1.5}, '<', -.6),
         C({v: 1, w: .5} if v != w else {v: 1.5}, '>=', -.6)),
        (C({v: 1}, '<', -500), C({v: 1}, '>=', -500)),
        (C({v: 1}, '>=', .2), C({v: 1, w: 1} if v != w else {v: 2}, '<', .1)),
    ][j]


SIGN = [-1, 1, -1, -1, -1, 1]
NCOND = 6


def cases(tier):
    deep = tier == 'thorough'
    k = 0
    for order in (1, 2):
        for i, m in enumerate(lin.models(tier, order, step=2 if order == 1 else 5)):
            st = m[0]
            n = len(st)
            if m[2] == 'none' or m[4] not in ('eye', 'var', 'corr', 'cov'):
                continue
            for eq in range(n):
                k += 1
                if deep:
                    alts = [occ.ALTS[(k + a) % len(occ.ALTS)] for a in (0, 3, 5)]
                    conds = [(k // 2 + c) % NCOND for c in (0, 1, 3)]
                elif n == 1:
                    alts, conds = occ.ALTS[k % 4::4], range(NCOND)
                else:
                    if k % 2:
                        continue
                    alts, conds = [occ.ALTS[(k // 2) % len(occ.ALTS)]], [(k // 5) % NCOND]
                for a in alts:
                    for c in conds:
                        yield [m, eq, a, c, k, deep]


def prepare(m, eq, alt, c, op=None):
    """(reference Spec, equation number, alternative Spec, conditions), or None"""
    s, S = lin.make(m)
    R = lin.reference(s)
    if isinstance(R, str):
        return R
    # the equation changed is the one of variable `eq` in the structure
    v = lin.space.NAMES[eq]
    i = m[7].index(eq)
    j = s.endog.index(v)
    bound = SIGN[c] * (.5 if c != 1 else .4)
    t = s.permuted()
    t.eqs = list(s.eqs)
    t.eqs[i] = occ.alternative(alt, s, j, bound)
    if not any({-1, 1} & a for a in t.appearances().values()):
        return 'static alternative'
    return s, i, t, conditions(c, v, s.endog[(j + 1) % len(s.endog)]), R


def run(case, ctx):
    m, eq, alt, c, k, deep = case
    got = prepare(m, eq, alt, c)
    if isinstance(got, str):
        ctx.outcome(got, trivial=True)
        return
    s, i, t, cond, (P, Q) = got
    prob = occ.Problem([s, t], [cond])
    s.params = {'bnd': .25}
    md = s.build()
    form = occ.FORMS[k % 5]
    con = [x.text(form, s.params) for x in cond]
    if k % 2:
        con = tuple(con)
    ex = {i: t.eq_str(i)}
    if k % 7 == 0:
        ex = [ex]
    n, ms = len(s.endog), len(s.stoch)
    T = 8 if deep else 7
    inits = [None, np.round(.4 * np.cos(np.arange(n) + k), 2)]
    jobs = []
    for a in (-2., -1., 1., 2.):
        for x0 in inits:
            jobs.append((None, 0, [a], x0, T))
    for z in itertools.product((-1.5, 0., 2.), repeat=2):
        jobs.append((None, 0, list(z), None, T))
    # several shocks at once, in any order, and one that is not the first
    if ms > 1:
        other = s.stoch[-1]
        jobs += [(other, ms - 1, [a, .5], inits[1], T) for a in (-2., 1.5)]
        names = [s.stoch[-1], s.stoch[0]]
        for a, b in itertools.product((-1.5, 1.), repeat=2):
            jobs.append((names, [ms - 1, 0], [[a, b], [b, -a]], None, T))
    else:
        jobs.append(([s.stoch[0]], [0], [[-1.5], [1.]], None, T))
        jobs.append((s.stoch[0], 0, [[-1.5], [1.]], None, T))
    # no periods to spare
    jobs.append((s.stoch[0], 0, [-1., 0, .5, 0, 1.5, 0, 0, 0][:T], None, None))
    if deep:
        for z in itertools.product((-1.5, 0., 2.), repeat=3):
            jobs.append((None, 0, list(z), inits[1], T))
    regimes = occ.regimes_of(md, ex)
    for q, (exog, pos, shocks, x0, periods) in enumerate(jobs):
        kw = dict(constraint=con, exprs=ex, shocks=shocks)
        if exog is not None:
            kw['exog'] = exog
        if x0 is not None:
            kw['init'] = x0
        if periods is not None:
            kw['periods'] = periods
        given = np.array(shocks, dtype=float)
        keep = None if x0 is None else x0.copy()
        sol, warned = occ.solve(md, None if (q + k) % 6 == 0 else regimes, **kw)
        ctx.step()
        if keep is not None:
            ctx.check((keep == x0).all(), 'the starting point was changed')
        what = dict(constraint=con, exprs={i: t.eq_str(i)}, model=s.text(), shocked=exog, start=x0,
                    horizon=periods)
        r = occ.judge(ctx, prob, sol, given, pos, x0, periods, warned, **what)
        # a path that never binds is the linear one
        x, last, ok = [], np.zeros(n) if x0 is None else x0, True
        for u in (occ.innovations(ms, pos, g) for g in given):
            last = P @ last + Q @ u
            x.append(last)
            y = last
            for _ in range(T + 1):
                ok &= bool(cond[0].margin(y, s.endog) < -occ.TIE)
                y = P @ y
        if ok:
            for _ in range((periods or len(given)) - len(given)):
                last = P @ last
                x.append(last)
            ctx.check(not warned, 'a warning where the constraint never binds', got=warned, **what)
            ctx.close(np.asarray(sol.paths), np.array(x), 'path that never binds', 1e-7,
                      shocks=shocks, **what)
            ctx.outcome((alt, c, 'linear'))
        else:
            ctx.outcome((alt, c, r))
    if k % 3 == 0 or n == 1:
        drawn(md, s, con, ex, T, ctx, what)
    ctx.tally(True)


def drawn(md, s, con, ex, T, ctx, what):
    """shocks that are drawn: the path is the one that belongs to the shocks reported"""
    ms = len(s.stoch)
    shapes = [(2, None), ((2,), s.stoch[-1])] + [((2, ms), list(s.stoch))] * (ms > 1)
    for shape, exog in shapes:
        for z in ((-1.5, 2.), (2., -1.)):
            sizes = []

            def normal(loc=0., scale=1., size=None):
                sizes.append(size)
                return loc + scale * np.resize(z, () if size is None else size)
            kw = dict(constraint=con, exprs=ex, periods=T)
            if exog is not None:
                kw['exog'] = exog
            with mock.patch('numpy.random.normal', normal):
                a, wa = occ.solve(md, shocks=shape, **kw)
            ctx.step()
            u = np.array(a.shocks, dtype=float)
            if len(sizes) == 1:
                want = np.resize(z, shape)
                ctx.close(u[:2], want, 'shocks drawn', 1e-12, asked=shape, **what)
            ctx.check(not u[2:].any(), 'shocks after those drawn', got=u, asked=shape, **what)
            b, wb = occ.solve(md, shocks=u[:2].copy(), **kw)
            ctx.check(wa == wb, 'warnings with drawn shocks', got=wa, want=wb, **what)
            ctx.close(np.asarray(a.paths), np.asarray(b.paths), 'path with drawn shocks', 1e-9,
                      shocks=u, asked=shape, **what)
            ctx.outcome(('drawn', len(np.shape(u))))
