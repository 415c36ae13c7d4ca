"""C14: simulated paths follow the solved decision rules"""
import itertools
from unittest import mock

import numpy as np

from mc import lin, ref

ID = 'C14'
LEVEL = 'exploration'
RULE = ('every 1-variable and 2-variable lead/lag incidence structure and ring-coupled '
        '3-variable ones, and some of 6 and 8 (thorough 5 to 11) variables x shock layouts x covariances (identity, variances, standard errors, '
        'correlated, singular) x steady states x declaration orders x order 1 and 2; for each '
        'model every shock sequence over {0, 1, -1.5} up to the stated length, shocks of up to 300 and of 1e-6, every initial '
        'value of a set, drawn shocks with designed noise, and every way of asking; paths of up to 2600 periods '
        'of a persistent model whose expansion is exact; '
        'outcome = (order, states, shocks, variables)')
ASSUMPTIONS = [
    'the last row of given shocks is not used: row t moves period t+1',
    'models without shocks and purely forward models may instead raise NotImplementedError',
    'drawn shocks: judged by the covariance of the draws when the noise is designed, if '
    'numpy.random.normal is the source of noise, and by the path following from the reported '
    'shocks in any case',
]
CHUNK = 6


def cases(tier):
    deep = tier == 'thorough'
    for order in (1, 2):
        for i, m in enumerate(lin.models(tier, order, step=2 if order == 1 else 3)):
            yield [order, m, (3 if deep or i % 16 == 0 else 2)]
        for m in lin.large(tier, order, 4 if order == 1 else 7):
            yield [order, m, 2]
        for T in (130, 450, 1100, 2600):
            for init in (None, 'zero', 'one'):
                yield ['long', order, T, init]


def long_model():
    from pynare import Model
    return Model(endog=['w', 'x', 'z'], stoch=['e'], initial={'w': 3, 'x': 2, 'z': 3},
                 shocks={'e': {'variance': .25}},
                 exprs=['x - 2 = 0.995*(x(-1) - 2) + e', 'z = x + 0.5*x(-1)',
                        'w = 3 + 0.1*(x - 2)^2'])


def long_path(order, shocks, init):
    """the path of `long_model`, whose expansion is exact"""
    out = np.zeros((len(shocks), 3))
    out[0] = init
    for t in range(1, len(shocks)):
        h = out[t - 1, 1] - 2
        x = .995 * h + .5 * shocks[t - 1, 0]
        out[t] = 3 + (.1 * x ** 2 if order == 2 else 0), 2 + x, 2 + x + .5 * (2 + h)
    return out


def run_long(case, ctx):
    _, order, T, init = case
    md = long_model()
    md.solve(order=order)
    start = {None: np.array([3., 2, 3]), 'zero': np.zeros(3), 'one': np.array([0., 2, -1])}[init]
    sh = np.array([[((5 * t) % 11 - 5.2) * .3] for t in range(T)])
    sim = md.simulate(sh.copy(), init=None if init is None else start)
    ctx.check(sim.periods == T and sim.paths.shape == (T, 3), 'long path: periods')
    ctx.close(np.asarray(sim.paths), long_path(order, sh, start), 'long path', 1e-6)
    sim = md.simulate(periods=T, init=None if init is None else start)
    ctx.check(sim.periods == T and sim.paths.shape == (T, 3), 'long drawn path: periods')
    ctx.close(np.asarray(sim.paths), long_path(order, np.asarray(sim.shocks) / .5, start),
              'long drawn path', 1e-5)
    ctx.tally()
    ctx.outcome(('long', order, T))


def path(order, ss, G, U, shocks, init):
    P, Q = G[0], G[1]
    u = shocks @ U
    out = np.zeros((len(shocks), len(ss)))
    out[0] = ss if init is None else init
    for t in range(1, len(shocks)):
        x, e = out[t - 1] - ss, u[t - 1]
        d = P @ x + Q @ e
        if order == 2:
            Gxx, Gxu, Guu, Gss = G[2:]
            d = d + .5 * np.einsum('ijk,j,k->i', Gxx, x, x) \
                + np.einsum('ijk,j,k->i', Gxu, x, e) \
                + .5 * np.einsum('ijk,j,k->i', Guu, e, e) + .5 * Gss
        out[t] = ss + d
    return out


def sequences(k):
    if k <= 4:
        yield from itertools.product((0., 1., -1.5), repeat=k)
        return
    # one or two shocks at a time
    for i, j in itertools.combinations_with_replacement(range(k), 2):
        for a in (1., -1.5):
            seq = np.zeros(k)
            seq[i], seq[j] = 1., a
            yield tuple(seq)


def tame(want, limit=1e4):
    """number of leading rows before the path explodes"""
    with np.errstate(all='ignore'):
        bad = ~(np.abs(want).max(axis=1, initial=0) < limit)
    return int(np.argmax(bad)) if bad.any() else len(want)


def run(case, ctx):
    from pynare import simulate
    if case[0] == 'long':
        return run_long(case, ctx)
    order, mcase, depth = case
    s, S = lin.make(mcase)
    R = lin.reference(s)
    if isinstance(R, str):
        ctx.outcome((R,), trivial=True)
        return
    P, Q = R
    n, m = len(s.endog), len(s.stoch)
    ss = lin.ss_vector(s)
    G = (P, Q)
    if order == 2:
        G = G + ref.second_order(s, P, Q, S)
        if max(np.abs(g).max(initial=0) for g in G) > 300:
            ctx.outcome(('illconditioned',), trivial=True)
            return
    U = lin.upper_cholesky(S)
    md = s.build()
    k = len(md.state_vars)
    md.solve(order=order)

    rng = np.array([[.3, -.7, 1.1], [-.4, .2, .6]])
    if n > 3:
        rng = .6 * np.cos(1.7 * np.arange(2 * n).reshape(2, n))
    inits = [None, ss.copy(), ss + rng[0, :n], ss + rng[1, :n]]
    zero = np.zeros((4, m))
    design = np.array([[((3 * t + 2 * j) % 7 - 3) * .35 for j in range(m)] for t in range(5)])

    def ask(shocks, init, how='method', **kw):
        sh = None if shocks is None else shocks.copy()
        i0 = None if init is None else init.copy()
        if how == 'method':
            sim = md.simulate(shocks=sh, init=i0, **kw)
        else:
            sim = simulate(md, shocks=sh, init=i0, **kw)
        if shocks is not None:
            ctx.check(np.array_equal(sh, shocks), 'the shocks given were modified')
        if init is not None:
            ctx.check(np.array_equal(i0, init), 'the initial values given were modified')
        return sim

    def judge(sim, shocks, init, what):
        want = path(order, ss, G, U, shocks, init)
        T = tame(want)
        ctx.check(np.shape(sim.paths) == want.shape, what + ': shape')
        ctx.close(np.asarray(sim.paths)[:T], want[:T], what, 1e-6, shocks=shocks, init=init,
                  text=s.text())
        ctx.close(np.asarray(sim.shocks), shocks @ U, what + ': reported shocks', 1e-8,
                  text=s.text())
        ctx.check(sim.periods == len(shocks), what + ': periods', got=sim.periods)
        ctx.check(sim.order == order, what + ': order', got=sim.order)

    try:
        ask(zero, None)
    except NotImplementedError:
        if m == 0 or k == 0:
            ctx.outcome((order, k, m, n, 'unsupported'))
            return
        raise
    ctx.outcome((order, k, m, n))

    # every sequence of shocks (the last row is not used)
    depth = min(depth, 3) if m <= 1 else depth - 1
    for seq in sequences(m * depth):
        sh = np.vstack((np.array(seq).reshape(depth, m), zero[:2]))
        judge(ask(sh, None), sh, None, 'path of given shocks')
        ctx.tally(any(seq))
    # shocks far from one
    for far in (40., -300., 1e-6):
        sh = np.vstack((far * design[:2], zero[:1]))
        judge(ask(sh, None), sh, None, 'path of large or small shocks')
        ctx.tally()
    # initial values, lengths, ways of asking
    for init in inits:
        for how in ('method', 'function'):
            for T in (1, 2, 5):
                judge(ask(design[:T], init, how), design[:T], init,
                      f'path from initial values ({how})')
                ctx.tally()
        judge(ask(zero, init), zero, init, 'path without shocks')
        ctx.tally()
    if m == 1:
        judge(ask(design[:, 0], None), design, None, 'path of a vector of shocks')
        ctx.tally()
    # asking for an order; number of periods is ignored when shocks are given
    judge(ask(design, None, order=order, periods=3), design, None, 'path with periods given')
    ctx.check(md.solution_order == order, 'order of the solution after a simulation',
              got=md.solution_order)
    other = 3 - order if m and k else order
    sim = ask(design, None, order=other)
    ctx.check(sim.order == other and md.solution_order == other,
              'requested order not used', got=(sim.order, md.solution_order))
    if other == 1:
        ctx.close(np.asarray(sim.paths), path(1, ss, G, U, design, None),
                  'path at requested order 1', 1e-6, text=s.text())
    judge(ask(design, None, order=order), design, None, 'path at requested order')
    ctx.tally()
    ctx.tally()
    # drawn shocks, with noise whose second moment is the identity
    T = 2 * max(m, 1)
    H = np.sqrt(T) * np.linalg.qr(np.cos(np.outer(np.arange(T) + .5, np.arange(T) + 1)))[0][:, :m]
    called = []

    def normal(loc=0.0, scale=1.0, size=None):
        called.append(size)
        if tuple(np.atleast_1d(size)) == (T, m):
            return loc + scale * H
        raise AssertionError(f'unexpected draw of size {size}')

    for init in inits[1:3]:
        del called[:]
        with mock.patch('numpy.random.normal', normal):
            sim = ask(None, init, periods=T)
        got = np.asarray(sim.shocks)
        if ctx.check(got.shape == (T, m) and sim.paths.shape == (T, n),
                     'drawn paths: periods', got=(got.shape, sim.paths.shape)):
            if called:
                ctx.close(got.T @ got / T, S, 'covariance of the drawn shocks', 1e-8,
                          text=s.text())
            want = path(order, ss, G, np.eye(m), got, init)
            t = tame(want)
            ctx.close(np.asarray(sim.paths)[:t], want[:t], 'path of drawn shocks', 1e-6,
                      text=s.text())
        ctx.tally()
    sim = ask(None, None)
    ctx.check(sim.periods == 20, 'default number of periods of Model.simulate',
              got=sim.periods)
    sim = ask(None, None, 'function')
    ctx.check(sim.periods == 200, 'default number of periods of simulate', got=sim.periods)
    # a wrong number of shocks is an error, not a path
    if m >= 1:
        ctx.raises((ValueError, IndexError), lambda: ask(np.zeros((3, m + 1)), None),
                   'shocks of a wrong number of variables')
    ctx.raises((ValueError, IndexError, TypeError), lambda: ask(zero, np.zeros(n + 1)),
               'initial values of a wrong number of variables')
    ctx.raises(ValueError, lambda: ask(zero, None, order=3), 'order 3')
