"""C17: variance decompositions split the variance exactly"""
import itertools

import numpy as np

from mc import lin, ref

ID = 'C17'
LEVEL = 'exploration'
RULE = ('every 1- and 2-variable lead/lag incidence structure and ring-coupled 3-variable ones '
        'x shock layouts x covariances (with singular ones) x declaration and equation orders x '
        'order 1 and 2 x every selection of variables and of shocks: none, each name, every '
        'list of distinct names in every order, repeated names, unknown names; '
        'outcome = (order, states, shocks, variables, any zero-variance variable)')
ASSUMPTIONS = [
    'shocks are orthogonalised by the lower Cholesky factor of their covariance',
    'shares of variables without variance are undefined and not judged',
    'models without shocks: no shares, or any error',
]
CHUNK = 12


def cases(tier):
    for order in (1, 2):
        for i, m in enumerate(lin.models(tier, order, step=1 if order == 1 else 3)):
            yield [order, m]
        for m in lin.large(tier, order, 2 if order == 1 else 4):
            yield [order, m]


def selections(names):
    """every list of distinct names in every order, and one with a repetition"""
    out = [None]
    out += list(names)
    if len(names) > 4:
        # in pairs, and all of them in some orders
        out += [list(p) for p in itertools.permutations(names, 2)]
        out += [list(names), list(names[::-1]), list(names[1::2]) + list(names[::2])]
    else:
        for r in range(1, len(names) + 1):
            out += [list(p) for p in itertools.permutations(names, r)]
    out.append(tuple(reversed(names)))
    out.append([names[-1], names[0], names[-1]])
    return out


def index(sel, names):
    if sel is None:
        return list(range(len(names)))
    if isinstance(sel, str):
        sel = [sel]
    return [names.index(x) for x in sel]


def run(case, ctx):
    from pynare.stats.var import var_decomp
    order, mcase = case
    s, S = lin.make(mcase)
    R = lin.reference(s)
    if isinstance(R, str):
        ctx.outcome((R,), trivial=True)
        return
    P, Q = R
    if np.abs(np.linalg.eigvals(P)).max() > .995:
        ctx.outcome(('nearly a unit root',), trivial=True)
        return
    n, m = len(s.endog), len(s.stoch)
    L = lin.upper_cholesky(S).T
    parts = np.array([np.diag(ref.lyapunov(P, np.outer(Q @ L[:, j], Q @ L[:, j])))
                      for j in range(m)]).reshape(m, n).T
    total = parts.sum(axis=1)
    pos = total > 1e-10 * (1 + total.max(initial=0))
    md = s.build()
    k = len(md.state_vars)
    if order == 2 or len(str(mcase)) % 2:
        md.solve(order=order)
    ctx.outcome((order, k, m, n, bool((~pos).any())))
    if m == 0:
        try:
            got = np.asarray(md.stats.var_decomp())
        except Exception:
            return
        ctx.check(got.size == 0, 'shares without any shock', got=got)
        return
    with np.errstate(all='ignore'):
        shares = np.where(pos[:, None], parts / total[:, None], np.nan)

    def judge(got, ei, si, what, **kw):
        want = shares[np.ix_(ei, si)]
        got = np.asarray(got)
        if ctx.check(got.shape == want.shape, what + ': shape', got=got.shape,
                     expected=want.shape, **kw):
            keep = ~np.isnan(want)
            ctx.close(np.where(keep, got, 0), np.where(keep, want, 0), what, 1e-6,
                      text=s.text(), **kw)
        ctx.tally()

    full = np.asarray(md.stats.var_decomp())
    judge(full, list(range(n)), list(range(m)), 'shares')
    judge(var_decomp(md), list(range(n)), list(range(m)), 'shares, function')
    if full.shape == (n, m):
        f = full[pos]
        ctx.check((f >= -1e-9).all() and (f <= 1 + 1e-9).all(), 'shares out of [0, 1]', got=f)
        ctx.close(f.sum(axis=1), np.ones(pos.sum()), 'shares do not sum to one', 1e-8)
        # the variance of the moments is the one which is split
        ctx.close(np.asarray(md.stats.var()), total, 'variance of the moments', 1e-6)
    es, us = selections(s.endog), selections(s.stoch)
    for a, e in enumerate(es):
        for b, u in enumerate(us):
            # every pair of selections of which one is short; the others with all orders
            if n == 3 and a > 4 and b > 2 and (a + b) % 3:
                continue
            kw = {}
            if e is not None or (a + b) % 2:
                kw['endog'] = e
            if u is not None or (a + b) % 2:
                kw['stoch'] = u
            judge(md.stats.var_decomp(**kw), index(e, s.endog), index(u, s.stoch),
                  'selected shares', endog=e, stoch=u)
    judge(md.stats.var_decomp(endog=np.array(s.endog)), list(range(n)), list(range(m)),
          'array of names')
    judge(md.stats.var_decomp(stoch=md.stoch.names), list(range(n)), list(range(m)),
          'array of names')
    for bad in ('nope', s.stoch[0], ['nope'], [s.endog[0], 'nope'], [s.stoch[0]]):
        ctx.raises((KeyError, ValueError), lambda: md.stats.var_decomp(endog=bad),
                   'unknown variable', name=bad)
        ctx.raises((KeyError, ValueError), lambda: md.stats.var_decomp(endog=bad, stoch=s.stoch[0]),
                   'unknown variable with a shock', name=bad)
    for bad in ('nope', s.endog[0], ['nope'], [s.stoch[0], 'nope'], [s.endog[0]]):
        ctx.raises((KeyError, ValueError), lambda: md.stats.var_decomp(stoch=bad),
                   'unknown shock', name=bad)
        ctx.raises((KeyError, ValueError), lambda: md.stats.var_decomp(endog=s.endog[0], stoch=bad),
                   'unknown shock with a variable', name=bad)
