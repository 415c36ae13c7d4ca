"""C37: units of measurement do not matter"""
import numpy as np

from mc import access, lin, ref
from mc.sym import N, B

ID = 'C37'
LEVEL = 'exploration'
TECHNIQUE = ('bounded exhaustive exploration of the implementation: every model of a bounded space '
             'in every system of units of a list, each answer compared with that of the same '
             'model in the original units')
RULE = ('every 1- and 2-variable lead/lag incidence structure, ring-coupled 3-variable ones and '
        'some of 6 and 8 variables x shock layouts x covariances x steady states, at both orders, '
        'written in 2 of 11 systems of units (thorough: all, and more structures) - variables, shocks and equations, all of '
        'them or some, 10 to 100000 times larger or smaller: steady states, '
        'decision rules, paths of given shocks, responses, means, covariances, correlations and '
        'decompositions are those of the original model in the other units; outcome = (order, '
        'units, shocks, variables)')
ASSUMPTIONS = [
    'the original model is right (other checks): here the two are compared',
    'steady states are given as starting values (solvers stop at an absolute tolerance)',
    'variables differ by a factor of 10000 at the first order, and 100 at the second',
    'shocks that are given are in standard deviations',
    'models that are determinate in the original units, not nearly a unit root, ill-conditioned '
    'or very strongly curved',
]
CHUNK = 12

# scale of variable j, of shock j, of equation j
UNITS = {
    'large': lambda j: (1e4, 1., 1.),
    'small': lambda j: (1e-4, 1., 1.),
    'shocks large': lambda j: (1., 1e4, 1.),
    'shocks small': lambda j: (1., 1e-5, 1.),
    'all small': lambda j: (1e-4, 1e-4, 1.),
    'equations': lambda j: (1., 1., (1e3, 1e-3, 1.)[j % 3]),
    'mixed': lambda j: ((1e2, 1e-2, 1.)[j % 3], (1e-3, 10., 1e3)[j % 3], 1.),
    'tiny': lambda j: (1e-5, 1e-5, 1.),
    'huge': lambda j: (1e5, 1e5, 1.),
    'mixed too': lambda j: ((1., 1e3, 1e-2)[j % 3], (1., 1e-4)[j % 2], (1e-2, 1.)[j % 2]),
    'first': lambda j: ((1e3, 1.)[j > 0], (1., 1e-4)[j > 0], 1.),
}


def rescaled(s, S, sx, se, sq):
    """the Spec of the same model, in which every variable is `sx` times the old one, ..."""
    of = {**dict(zip(s.endog, sx)), **dict(zip(s.stoch, se))}
    f = lambda v: B('/', v, N(of[v[1]])) if of[v[1]] != 1 else v
    eqs = []
    for (l, r), q in zip(s.eqs, sq):
        l, r = lin.subst(l, of, f), lin.subst(r, of, f)
        eqs.append((l, r) if q == 1 else (B('*', N(q), l), B('*', N(q), r)))
    out = ref.Spec(s.endog, s.stoch, eqs, s.params, None,
                   {k: v * of[k] for k, v in s.init.items()},
                   {k: v * of[k] for k, v in s.ss.items()})
    return out


def build(s, S):
    from pynare import Model
    m = len(s.stoch)
    shocks = {e: {'variance': float(S[j, j])} for j, e in enumerate(s.stoch)}
    for j in range(m):
        for i in range(j):
            if S[i, j]:
                shocks[s.stoch[j]].update(other=s.stoch[i], cov=float(S[i, j]))
    return Model(endog=s.endog, stoch=s.stoch, params={}, shocks=shocks, initial=dict(s.init),
                 exprs=[s.eq_str(k) for k in range(len(s.eqs))])


def answers(md, order, given, unit):
    """everything, in the original units"""
    sx, se = unit
    md.solve(order=order)
    out = {'steady state': np.asarray(md.ss.values) / sx}
    P, Q = access.full_first(md)
    out['decision rules (states)'] = P / sx[:, None] * sx
    out['decision rules (shocks)'] = Q / sx[:, None] * se
    if order == 2:
        for k, v in zip(('xx', 'xu', 'uu', 'ss'), access.full_second(md)):
            v = np.asarray(v) / sx.reshape((-1,) + (1,) * (np.ndim(v) - 1))
            if k == 'xx':
                v = v * sx[:, None] * sx
            elif k == 'xu':
                v = v * sx[:, None] * se
            elif k == 'uu':
                v = v * se[:, None] * se
            out['second order ' + k] = v
    st = md.stats
    out['covariances'] = np.asarray(st.cov()) / np.outer(sx, sx)
    out['variances'] = np.asarray(st.var()) / sx**2
    out['autocovariances'] = np.asarray(st.autocov(p=2)) / np.outer(sx, sx)
    out['means'] = np.asarray(st.mean()) / sx
    with np.errstate(all='ignore'):
        out['correlations'] = np.asarray(st.corr())
        out['autocorrelations'] = np.asarray(st.autocorr(p=2))
        if len(se):
            out['shares'] = np.asarray(st.var_decomp())
    if len(se) and (order == 2 or len(md.state_vars)):
        # (simulations of purely forward-looking models at order 1 are not implemented)
        out['path'] = np.asarray(md.simulate(given).paths) / sx
        for e in md.stoch.names:
            out['response to ' + e] = np.asarray(md.impulse_response(str(e), 6).impulse) / sx
    return out


def cases(tier):
    for order in (1, 2):
        ms = list(lin.models(tier, order, step=3 if order == 1 else 6))
        ms += list(lin.large(tier, order, 6 if order == 1 else 12))
        for i, m in enumerate(ms):
            yield [order, m, 11 if tier == 'thorough' else 2, i]


def run(case, ctx):
    order, mcase, k, i = case
    s, S = lin.make(mcase)
    R = lin.reference(s)
    if isinstance(R, str):
        ctx.outcome((R,), trivial=True)
        return
    P, Q = R
    if np.abs(np.linalg.eigvals(P)).max() > .98 or max(abs(P).max(), abs(Q).max(initial=0)) > 100:
        ctx.outcome(('nearly a unit root',), trivial=True)
        return
    n, m = len(s.endog), len(s.stoch)
    given = np.cos(np.arange(5 * m) + 1.).reshape(5, m)
    one = np.ones(n), np.ones(m)
    want = answers(build(s, S), order, given, one)
    if max(abs(w).max(initial=0) for q, w in want.items() if 'second' in q or q == 'means') > 20:
        ctx.outcome(('strongly curved',), trivial=True)
        return
    var = want['variances']
    pos = var > 1e-8 * (1 + var.max(initial=0))
    both = pos[:, None] & pos
    names = list(UNITS) if k == 11 else [list(UNITS)[(i + 4 * j) % 11] for j in range(k)]
    for name in names:
        u = np.array([UNITS[name](j) for j in range(max(n, m))])
        sx, se, sq = u[:n, 0], u[:m, 1], u[:n, 2]
        if order == 2 and len(set(sx)) > 1:
            # (the rounding errors of the second order grow with the squares of the ratios)
            sx = 10. ** np.round(np.log10(sx) / 2)
        t = rescaled(s, S, sx, se, sq)
        got = answers(build(t, S * np.outer(se, se)), order, given, (sx, se))
        ctx.step()
        ctx.outcome((order, name, m, n))
        for q, w in want.items():
            g = got[q]
            if not ctx.check(g.shape == w.shape, q + ': shape', units=name, got=g.shape,
                             expected=w.shape, text=s.text()):
                continue
            if q == 'shares':
                g, w = g[pos], w[pos]
            elif 'correlations' in q:
                keep = np.broadcast_to(both if w.shape[-2:] == both.shape else pos, w.shape)
                g, w = g[keep], w[keep]
            if q[:4] in ('path', 'resp'):
                # (paths of the second order may explode)
                t = np.argmax(np.append(np.abs(w).max(axis=1) > 1e3, True))
                g, w = g[:t], w[:t]
            ctx.close(g, w, q + ' in other units', 1e-6 if order == 1 else 1e-5, units=name, text=s.text())
