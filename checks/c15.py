"""C15: impulse responses are the deviations caused by one shock"""
import itertools

import numpy as np

from mc import lin, ref
from checks.c14 import long_model, long_path, path, tame

ID = 'C15'
LEVEL = 'exploration'
RULE = ('the model space of C14 x every shock by name, as a list and by default, and every pair of shocks together '
        'x sizes {1, 0, -2, 0.5, 25} x lengths {1, 2, 6, 20} x '
        'order 1 and 2; sizes up to 1e7 and lengths up to 900 of a persistent model whose expansion '
        'is exact; outcome = (order, states, shocks, variables)')
ASSUMPTIONS = [
    'the disturbance is to one Cholesky-orthogonalised shock, as in simulations',
    'models without shocks have no impulse response (any error); purely forward models may '
    'raise NotImplementedError',
]
CHUNK = 8


def cases(tier):
    for order in (1, 2):
        for m in lin.models(tier, order, step=1 if order == 1 else 2):
            yield [order, m]
        for m in lin.large(tier, order, 2 if order == 1 else 4):
            yield [order, m]
        for T in (90, 300, 900):
            for size in (1, -3, 1e4, -1e-4, 1e7):
                yield ['long', order, T, size]


def run_long(case, ctx):
    from pynare import impulse_response
    _, order, T, size = case
    md = long_model()
    md.solve(order=order)
    sh = np.zeros((T, 1))
    sh[0] = size
    ss = np.array([3., 2, 3])
    want = (long_path(order, sh, ss) - ss) / size ** order
    for how in ('method', 'function'):
        r = md.impulse_response('e', T, size) if how == 'method' else \
            impulse_response(md, 'e', T, size)
        ctx.check(r.periods == T and r.impulse.shape == (T, 3), 'long response: periods')
        tol = 1e-7 * (1 + 1e-3 / abs(size) ** order)
        ctx.close(np.asarray(r.impulse) / size ** order, want, 'long response', tol)
        ctx.tally()
    ctx.outcome(('long', order, T, size))


def run(case, ctx):
    from pynare import impulse_response
    if case[0] == 'long':
        return run_long(case, ctx)
    order, mcase = case
    s, S = lin.make(mcase)
    R = lin.reference(s)
    if isinstance(R, str):
        ctx.outcome((R,), trivial=True)
        return
    P, Q = R
    n, m = len(s.endog), len(s.stoch)
    ss = lin.ss_vector(s)
    G = (P, Q)
    if order == 2:
        G = G + ref.second_order(s, P, Q, S)
        if max(np.abs(g).max(initial=0) for g in G) > 300:
            ctx.outcome(('illconditioned',), trivial=True)
            return
    U = lin.upper_cholesky(S)
    md = s.build()
    k = len(md.state_vars)
    if order == 2 or len(str(mcase)) % 2:
        md.solve(order=order)
    try:
        md.impulse_response()
    except NotImplementedError:
        if k == 0 or m == 0:
            ctx.outcome((order, k, m, n, 'unsupported'))
            return
        raise
    except (IndexError, ValueError, KeyError):
        if m == 0:
            ctx.outcome((order, k, m, n, 'no shock'))
            return
        raise
    ctx.outcome((order, k, m, n))

    def want(js, size, T):
        sh = np.zeros((T, m))
        sh[0, js] = size
        return path(order, ss, G, U, sh, None) - ss

    def judge(r, js, size, T, what):
        ctx.tally(size != 0)
        w = want(js, size, T)
        t = tame(w)
        ctx.check(np.shape(r.impulse) == w.shape, what + ': shape')
        ctx.close(np.asarray(r.impulse)[:t], w[:t], what, 1e-6, text=s.text(), size=size,
                  shock=js)
        ctx.check(r.size == size and r.periods == T, what + ': size and periods',
                  got=(r.size, r.periods))
        if order == 1 and size not in (0, 1) and np.size(js) == 1:
            ctx.close(np.asarray(r.impulse), size * np.asarray(one[js if not isinstance(js, list) else js[0]].impulse)[:T],
                      what + ': proportional to the size', 1e-7)

    one = {}
    for j, e in enumerate(s.stoch):
        one[j] = md.impulse_response(e)
        judge(one[j], j, 1, 20, 'response to a shock, defaults')
        ctx.check(one[j].exog == e, 'name of the shock', got=one[j].exog)
        for size in (0, -2, .5, 25):
            judge(md.impulse_response(e, size=size), j, size, 20, 'response to a shock')
        for T in (1, 2, 6):
            r = impulse_response(md, exog=e, periods=T, size=1)
            judge(r, j, 1, T, 'response to a shock, function')
        judge(md.impulse_response([e], 6, -2), [j], -2, 6, 'response to a list of one shock')
    # several shocks, disturbed together
    for js in itertools.permutations(range(m), 2):
        names = [s.stoch[j] for j in js]
        judge(md.impulse_response(names, 6, 2), list(js), 2, 6, 'response to two shocks')
        judge(impulse_response(md, names), list(js), 1, 20, 'response to two shocks, function')
    if m > 2:
        judge(md.impulse_response(list(s.stoch), 3), list(range(m)), 1, 3,
              'response to all shocks')
    if 0 in one:
        judge(md.impulse_response(), 0, 1, 20, 'default shock')
        judge(impulse_response(md), 0, 1, 20, 'default shock, function')
        judge(impulse_response(md, s.stoch[-1]), m - 1, 1, 20, 'defaults of the function')
        judge(md.impulse_response(periods=3, size=2), 0, 2, 3, 'default shock of a size')
    # names which are not shocks
    for bad in (s.endog[0], 'nope', '', s.endog[-1]):
        ctx.raises((KeyError, ValueError), lambda: md.impulse_response(bad),
                   'response to something that is not a shock', name=bad)
