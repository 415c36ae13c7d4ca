"""C16: theoretical moments are those of the solved process"""
import numpy as np

from mc import lin, ref

ID = 'C16'
LEVEL = 'exploration'
RULE = ('every 1- and 2-variable lead/lag incidence structure and ring-coupled 3-variable ones '
        '(and some of 6 and 8, thorough 5 to 11, variables) '
        'x shock layouts x covariances (with singular ones) x steady states x declaration and '
        'equation orders x order 1 and 2 x every moment function (module function and '
        'Model.stats) x numbers of lags {1, 3, 5, 13}; outcome = (order, states, shocks, '
        'variables, any zero-variance variable)')
ASSUMPTIONS = [
    'second-order models: covariances are those of the first-order terms, means the pruned ones',
    'autocovariance i of variables (j, k) is Cov(y_j(t+i+1), y_k(t)), as the code defines it',
    'correlations are judged for variables with a non-zero variance',
]
CHUNK = 12

LAGS = 13


def cases(tier):
    for order in (1, 2):
        for i, m in enumerate(lin.models(tier, order)):
            yield [order, m, ['presolved', 'lazy', 'twice'][i % 3]]
        for i, m in enumerate(lin.large(tier, order, 2 if order == 1 else 3)):
            yield [order, m, ['presolved', 'lazy', 'twice'][i % 3]]


def moments(order, ss, P, Q, S, second=None):
    V = ref.lyapunov(P, Q @ S @ Q.T)
    mean = ss.copy()
    if order == 2:
        Gxx, Gxu, Guu, Gss = second
        c = .5 * (np.einsum('ijk,jk->i', Gxx, V) + np.einsum('ijk,jk->i', Guu, S) + Gss)
        mean = ss + np.linalg.solve(np.eye(len(ss)) - P, c)
    acv = []
    A = V
    for i in range(LAGS):
        A = P @ A
        acv.append(A)
    return mean, V, np.array(acv)


def run(case, ctx):
    from pynare.stats import moments as mm
    order, mcase, how = case
    s, S = lin.make(mcase)
    R = lin.reference(s)
    if isinstance(R, str):
        ctx.outcome((R,), trivial=True)
        return
    P, Q = R
    if np.abs(np.linalg.eigvals(P)).max() > .995:
        ctx.outcome(('nearly a unit root',), trivial=True)
        return
    n, m = len(s.endog), len(s.stoch)
    ss = lin.ss_vector(s)
    second = None
    if order == 2:
        second = ref.second_order(s, P, Q, S)
        if max(np.abs(g).max(initial=0) for g in second) > 1e5:
            ctx.outcome(('illconditioned',), trivial=True)
            return
    mean, V, acv = moments(order, ss, P, Q, S, second)
    md = s.build()
    k = len(md.state_vars)
    sd = np.sqrt(np.diag(V))
    pos = sd > 1e-6 * (1 + sd.max(initial=0))
    ctx.outcome((order, k, m, n, bool((~pos).any())))
    if how != 'lazy':
        md.solve(order=order)
    if how == 'twice':
        md.solve(order=3 - order) if k and m else None
        md.solve(order=order)

    tol = 1e-6
    sc = np.outer(sd, sd)
    ok = np.outer(pos, pos)
    with np.errstate(all='ignore'):
        C = np.where(ok, V / sc, 0)
        AC = np.where(ok, acv / sc, 0)

    st = md.stats
    if how == 'lazy':
        # each of them, asked before anything else (this one solves at the default order, two)
        first = {name: getattr(mm, name)(s.build()) for name in
                 ('mean', 'cov', 'var', 'std', 'corr', 'autocov', 'autocorr')}
        ctx.close(first['mean'], mean, 'mean, first', tol, text=s.text())
        ctx.close(first['cov'], V, 'cov, first', tol, text=s.text())
        ctx.close(first['var'], np.diag(V), 'var, first', tol, text=s.text())
        ctx.close(np.asarray(first['std'])**2, np.diag(V), 'std squared, first', tol, text=s.text())
        ctx.close(first['autocov'], acv[:5], 'autocov, first', tol, text=s.text())
        ctx.close(np.where(ok, first['corr'], 0), C, 'corr, first', 1e-5, text=s.text())
        ctx.close(np.where(ok, first['autocorr'], 0), AC[:5], 'autocorr, first', 1e-5, text=s.text())
    for src, f in (('stats', lambda name, **kw: getattr(st, name)(**kw)),
                   ('function', lambda name, **kw: getattr(mm, name)(md, **kw))):
        ctx.close(f('mean'), mean, f'mean ({src})', tol, text=s.text())
        ctx.close(f('cov'), V, f'cov ({src})', tol, text=s.text())
        ctx.close(f('var'), np.diag(V), f'var ({src})', tol, text=s.text())
        ctx.close(f('std')**2, np.diag(V), f'std squared ({src})', tol, text=s.text())
        got = np.asarray(f('corr'))
        if ctx.check(got.shape == C.shape, f'corr: shape ({src})', got=got.shape):
            ctx.close(np.where(ok, got, 0), C, f'corr ({src})', 1e-5, text=s.text())
        for p in (1, 3, 5, LAGS):
            ctx.close(f('autocov', p=p), acv[:p], f'autocov ({src})', tol, text=s.text(), p=p)
            got = np.asarray(f('autocorr', p=p))
            if ctx.check(got.shape == AC[:p].shape, f'autocorr: shape ({src})', got=got.shape):
                ctx.close(np.where(ok, got, 0), AC[:p], f'autocorr ({src})', 1e-5,
                          text=s.text())
        ctx.close(f('autocov'), acv[:5], f'autocov, default lags ({src})', tol, text=s.text())
        got = np.asarray(f('autocorr'))
        ctx.check(got.shape == AC[:5].shape, f'autocorr, default lags ({src})', got=got.shape)
    ctx.check(md.solution_order == order or how == 'lazy', 'solution order after the moments',
              got=md.solution_order)
