"""C18: statistics of simulated paths are the sample statistics"""
import itertools

import numpy as np

from mc import lin

ID = 'C18'
LEVEL = 'exploration'
RULE = ('every path of 1 or 2 variables over {0, 1, 3} up to the stated length (and of 3 '
        'variables over {0, 1}), installed as a simulation of a model in each declaration '
        'order, and real simulated paths of first- and second-order models, x every number of '
        'dropped periods and of lags up to beyond the length; paths of 60 to 700 periods with some '
        'numbers of lags and dropped periods; outcome = (variables, length, '
        'drop, lags, constant series)')
ASSUMPTIONS = [
    'autocorrelation k: mean over the available pairs of products of deviations from the mean '
    'of the kept periods, over the (population) variance of the kept periods',
    'statistics of constant series are undefined and not judged; as many lags or dropped '
    'periods as there are may give undefined values or an error',
]
CHUNK = 16


def cases(tier):
    deep = tier == 'thorough'
    for T in range(1, 7 if deep else 6):
        yield ['one', T]
    for T in range(1, 5 if deep else 4):
        for first in itertools.product((0, 1, 3), repeat=T):
            yield ['two', T, list(first)]
    for T in (2, 3):
        for first in itertools.product((0, 1), repeat=T):
            yield ['three', T, list(first)]
    for T in (60, 260, 700):
        for perm in ([0, 1], [1, 0]):
            yield ['long', T, perm]
    for order in (1, 2):
        for i, m in enumerate(lin.models(tier, order, step=4)):
            if i % 3 == 0 and m[2] != 'none':
                yield ['model', order, m]


def stats(x, lags):
    """sums written out, variable by variable"""
    T, n = x.shape
    mean = [sum(x[t, i] for t in range(T)) / T for i in range(n)]
    d = [[x[t, i] - mean[i] for i in range(n)] for t in range(T)]
    cov = np.array([[sum(d[t][i] * d[t][j] for t in range(T)) / T for j in range(n)]
                    for i in range(n)])
    acf = np.full((n, lags), np.nan)
    for i in range(n):
        for k in range(1, lags + 1):
            if T > k and cov[i, i] > 0:
                acf[i, k - 1] = sum(d[t][i] * d[t - k][i] for t in range(k, T)) \
                    / (T - k) / cov[i, i]
    return cov, acf


def judge(ctx, sim, x, names, what, deep=True, drops=None, lags=None):
    T, n = x.shape
    before = x.copy()
    for drop in (range(T + 3) if drops is None else drops):
        kept = x[drop:]
        if drop > T:
            ctx.raises(ValueError, lambda: sim.corr(drop=drop), what + ': drop too many',
                       drop=drop, T=T)
            ctx.raises(ValueError, lambda: sim.autocorr(1, drop), what + ': drop too many',
                       drop=drop, T=T)
            continue
        if drop == T:
            continue
        cov, _ = stats(kept, 0)
        sd = np.sqrt(np.diag(cov))
        pos = sd > 1e-9 * (1 + np.abs(kept).max())
        ok = np.outer(pos, pos)
        with np.errstate(all='ignore'):
            want = np.where(ok, cov / np.outer(sd, sd), 0)
        df = sim.corr(drop=drop) if drop else sim.corr()
        ctx.check(list(df.index) == names and list(df.columns) == names,
                  what + ': labels of corr', got=(list(df.index), list(df.columns)))
        got = df.to_numpy()
        if ctx.check(got.shape == want.shape, what + ': shape of corr', got=got.shape):
            ctx.close(np.where(ok, got, 0), want, what + ': corr', 1e-7, path=kept, drop=drop)
        ctx.tally(bool(pos.any()))
        N = len(kept)
        for p in (lags if lags else list(range(1, N + 3)) if N <= 6 or deep
                  else [1, 2, 5, N - 1, N + 1]):
            if p > N:
                ctx.raises(ValueError, lambda: sim.autocorr(p, drop),
                           what + ': too many lags', p=p, N=N)
                continue
            if p == N:
                continue
            _, acf = stats(kept, p)
            df = sim.autocorr(p=p, drop=drop) if drop or p % 2 else sim.autocorr(p=p)
            ctx.check(list(df.index) == names, what + ': labels of autocorr',
                      got=list(df.index))
            got = df.to_numpy()
            if ctx.check(got.shape == acf.shape, what + ': shape of autocorr', got=got.shape):
                ok1 = pos[:, None] & ~np.isnan(acf)
                ctx.close(np.where(ok1, got, 0), np.where(ok1, acf, 0),
                          what + ': autocorr', 1e-7, path=kept, p=p, drop=drop)
            ctx.tally(bool(pos.any()))
        if N > 5:
            df = sim.autocorr(drop=drop)
            ctx.check(df.shape == (n, 5), what + ': default number of lags', got=df.shape)
    for bad in (-1, -3):
        ctx.raises(ValueError, lambda: sim.corr(drop=bad), what + ': negative drop')
    ctx.check(np.array_equal(sim.paths, before), what + ': the path was modified')


def model(n, perm):
    s = lin.make([[[1, [0] * (n - 1)]] * n, 'small', 'each', None, 'eye', 'zero', perm,
                  list(range(n))])[0]
    return s, s.build()


def run(case, ctx):
    from pynare.simul import LinearSimulation
    kind = case[0]
    if kind == 'model':
        s, S = lin.make(case[2])
        R = lin.reference(s)
        if isinstance(R, str):
            ctx.outcome((R,), trivial=True)
            return
        md = s.build()
        md.solve(order=case[1])
        m, n = len(s.stoch), len(s.endog)
        sh = np.array([[((5 * t + 3 * j) % 11 - 5) * .06 for j in range(m)] for t in range(12)])
        try:
            sim = md.simulate(sh, init=lin.ss_vector(s))
        except NotImplementedError:
            return
        x = np.array(sim.paths)
        if not np.isfinite(x).all() or np.abs(x).max() > 1e3:
            ctx.outcome(('explosive path',), trivial=True)
            return
        judge(ctx, sim, x, list(s.endog), 'simulated path', deep=False)
        ctx.outcome((kind, case[1], n, m))
        return
    if kind == 'long':
        _, T, perm = case
        s, md = model(2, perm)
        x = np.array([[((7 * t + t * t // 5) % 23 - 9) * .2 + t % 3,
                       ((11 * t) % 37) * .1 + (2. if t > T // 2 else 0.)] for t in range(T)])
        judge(ctx, LinearSimulation(md, 1, x, np.zeros((T, len(s.stoch)))), x.copy(),
              list(s.endog), 'long path', drops=(0, 1, 7, T // 2, T - 40, T - 3, T + 1),
              lags=(1, 12, 30, 55, T - 50, T + 1))
        ctx.outcome((kind, T, tuple(perm)))
        return
    n = {'one': 1, 'two': 2, 'three': 3}[kind]
    perms = {1: [[0]], 2: [[0, 1], [1, 0]], 3: [[1, 2, 0]]}[n]
    T = case[1]
    for perm in perms:
        s, md = model(n, perm)
        alpha = (0., 1.) if n == 3 else (0., 1., 3.)
        free = T * n - len(case[2]) if n > 1 else T
        for rest in itertools.product(alpha, repeat=free):
            x = np.array(([float(v) for v in case[2]] if n > 1 else []) + list(rest))
            x = x.reshape(n, T).T.copy()
            judge(ctx, LinearSimulation(md, 1, x, np.zeros((T, len(s.stoch)))), x.copy(),
                  list(s.endog), 'path')
        ctx.outcome((kind, T, tuple(perm)))
