"""C30: observed models, and the data that go with them"""
import functools
import itertools
import warnings

import numpy as np

from mc.access import shocks_of
from mc import lin, observe
from mc.sym import B, N, P, V, ev, leaves, mul, render

ID = 'C30'
LEVEL = 'exploration'
RULE = ('1-, 2- and ring-coupled 3-variable lead/lag structures x shock layouts x covariances x '
        'steady states x declaration and equation orders, linear and not, as built or with '
        'parameters, equations or variances changed, x every ordered set of up to 2 (thorough: '
        '3) of 8 observation equations (levels, sums, differences, leads, lags, products, with '
        'constants, parameters and local definitions); the observed model is compared with a model '
        'built of the same variables and equations in everything it answers, and its solution '
        'with the one computed from the solution of the model alone; afterwards either is edited '
        'and the other must stay as it was; data: every order of the columns of up to 4 observed '
        'variables, as every kind of table, each number of columns, unknown, missing and repeated '
        'names; outcome = (observation equations, states, shocks)')
ASSUMPTIONS = [
    'observation equations do not depend on shocks or on other observed variables (as documented)',
    'a table without column names has its columns in the order of the observed variables',
    'the filters themselves, and solutions of observed models with other names than that of the '
    'one example they are written for, are unfinished in pynare and not judged',
]
CHUNK = 4


def observations(s):
    """formulas of the model's variables, by a name"""
    v = s.endog[0]
    w = s.endog[-1]
    c = lambda x: N(float(s.ss.get(x, 0.)))
    return {
        'level': V(v),
        'sum': B('+', V(w), mul(N(.5), V(v))),
        'difference': B('-', V(w), V(w, -1)),
        'lead': B('+', mul(N(2), V(v, 1)), N(.25)),
        'lag': B('-', mul(P('k'), V(v, -1)), V(w)),
        'local': B('+', mul(P('loc'), V(w)), P('k')),
        'square': B('*', B('-', V(v), N(.3)), B('+', V(w), N(1.))),
        'ratio': B('/', B('+', V(w), mul(N(.4), V(v))), B('+', N(7.), B('*', V(v), V(v)))),
    }


KINDS = ['level', 'sum', 'difference', 'lead', 'lag', 'local', 'square', 'ratio']
PREP = ['text', 'direct', 'variance', 'param', 'equation']


def sets(n):
    for k in range(1, n + 1):
        yield from itertools.permutations(KINDS, k)


def cases(tier):
    deep = tier == 'thorough'
    allsets = list(sets(3 if deep else 2))
    j = 0
    for order in (1, 2):
        for i, m in enumerate(lin.models('quick', order, step=2 if deep else 12)):
            n = 4 if deep else 1
            for _ in range(n):
                yield ['model', m, list(allsets[j % len(allsets)]), PREP[(j // 3) % 5]]
                j += 1
    for kinds in allsets:
        for p in (PREP if deep else PREP[len(kinds) % 5:][:1] + PREP[j % 5:][:1]):
            j += 1
            yield ['model', [[[1, [1]], [3, [4]]], 'small', 'both', None, 'corr', 'mixed',
                             [1, 0], [0, 1]], list(kinds), p]
    for n in range(1, 5):
        for obs in itertools.permutations(('oa', 'ob', 'oc', 'o'), n):
            yield ['data', list(obs), deep or n < 3]
    yield ['none']


def run(case, ctx):
    globals()['run_' + case[0]](case, ctx)


def bounds(s):
    """terminal and historical values: some variables', all of them different"""
    term = {v: .125 * (i + 3) for i, v in enumerate(s.endog)}
    hist = {v: -.25 * (i + 1) for i, v in enumerate(s.endog) if i != 1}
    return term, hist


def build(s, how):
    """a model with a parameter k and a local parameter loc; the content it ends up with"""
    from pynare import Model
    from pynare.parsing import read_model
    content = dict(k=1.5, loc=.75, var=None, eqs=[s.eq_str(i) for i in range(len(s.eqs))])
    text = s.text().replace('model;', '')
    head, _, tail = s.text().partition('model;\n')
    term, hist = bounds(s)
    tail += ''.join('\n%s; %s end;\n' % (b, ' '.join('%s = %r;' % x for x in d.items()))
                    for b, d in (('endval', term), ('histval', hist)))
    text = head + 'parameters k;\nk = 1.5;\nmodel;\n # loc = k/2;\n' + tail
    md = Model.from_outline(read_model(text, 'dynare'))
    if how == 'direct':
        md = Model(endog=list(s.endog), stoch=list(s.stoch), params={'k': 1.5},
                   local_params={'loc': 'k/2'}, exprs=content['eqs'], initial=dict(s.init),
                   terminal=term, historical=hist, shocks=shocks_of(md))
    elif how == 'variance' and s.stoch:
        md.stoch[0].variance = 2.25
        content['var'] = 2.25
        md.update()
    elif how == 'param':
        md.params['k'] = -.5
        content.update(k=-.5, loc=-.25)
        md.update()
    elif how == 'equation':
        # the same equation in another way
        content['eqs'][0] = '0 = ' + s.eq_str(0).replace(' = ', ' - (') + ')'
        md.exprs[0] = content['eqs'][0]
        md.update()
    return md, content


def run_model(case, ctx):
    from pynare import Model
    from pynare.core.solve import FirstOrderSolution
    from pynare.stats.observation import ObservedModel
    _, m, kinds, how = case
    s, S = lin.make(m)
    R = lin.reference(s)
    if isinstance(R, str):
        ctx.outcome(R, trivial=True)
        return
    md, content = build(s, how)
    if content['var'] is not None:
        c = content['var'] / S[0, 0] if S[0, 0] else None
        if c is None or m[4] in ('cov', 'corr', 'perfect'):
            S = np.array(md.sigma)
        else:
            S = S.copy()
            S[0, 0] = content['var']
    obs = observations(s)
    names = ['o_' + k for k in kinds]
    given = {o: render(obs[k]) for o, k in zip(names, kinds)}
    kept = dict(given)
    before = [observe.ask(md, p) for p in WHOLE]
    om = ObservedModel(md, given)
    what = dict(model=s.text(), observed=kept, built=how)
    ctx.check(given == kept, 'the observation equations given were changed', got=given, **what)
    ctx.check(list(om.obs.names) == names, 'observed variables', got=list(om.obs.names), **what)
    ctx.check(list(om.endog.names) == s.endog + names, 'variables',
              got=list(om.endog.names), expected=s.endog + names, **what)
    ctx.check(list(om.stoch.names if len(om.stoch) else []) == s.stoch, 'shocks', **what)
    ctx.check(len(om.exprs) == len(s.eqs) + len(kinds), 'number of equations', **what)
    term, hist = bounds(s)
    for attr, b in (('terminal', term), ('historical', hist), ('initial', s.init)):
        got = dict(zip(om.endog.names, np.asarray(getattr(om, attr), dtype=float)))
        own = np.asarray(getattr(md, attr), dtype=float)
        for v, o in zip(s.endog, own):
            w = float(b.get(v, o))
            ctx.check(w == got[v] or (np.isnan(w) and np.isnan(got[v])), attr + ' value',
                      variable=v, got=got[v], expected=w, **what)
    # a model of the same content
    fresh = Model(endog=s.endog + names, stoch=list(s.stoch), params={'k': content['k']},
                  local_params={'loc': 'k/2'},
                  exprs=content['eqs'] + [f'{o} = {e}' for o, e in kept.items()],
                  initial=dict(s.init), terminal=term, historical=hist,
                  shocks=shocks_of(md))
    if content['var'] is not None:
        fresh.stoch[0].variance = content['var']
        fresh.update()
    for p in WHOLE:
        observe.compare(ctx, observe.ask(om, p), observe.ask(fresh, p),
                        'observed model: ' + p, **what)
    if how != 'variance' or m[4] not in ('cov', 'corr', 'perfect'):
        ctx.close(np.asarray(om.sigma, dtype=float).reshape(S.shape), S, 'covariance of shocks',
                  1e-9, **what)
    # its equations, from the solution of the model alone
    ss = {v: float(x) for v, x in zip(s.endog, np.asarray(md.ss.values, dtype=float))}
    par = {'k': content['k'], 'loc': content['loc']}
    env = {(v, k): ss[v] for v in s.endog for k in (-1, 0, 1)}
    want = [ss[v] for v in s.endog] + [ev(obs[k], par, env) for k in kinds]
    own = np.asarray(om.ss.values, dtype=float)
    n = len(s.endog)
    there = np.abs(own[:n] - want[:n]).max() < (1e-2 if m[3] is None else 1e-3)
    if not there:
        # nonlinear equations may have several steady states: this is one of them
        env = {(v, k): x for v, x in zip(s.endog, own) for k in (-1, 0, 1)}
        want = list(own[:n]) + [ev(obs[k], par, env) for k in kinds]
        full = {**env, **{(e, 0): 0. for e in s.stoch}}
        res = [ev(l, par, full) - ev(r, par, full) for l, r in s.eqs]
        ctx.close(res, [0.] * n, 'steady state: equations', 1e-3, **what)
    ctx.close(own, want, 'steady state', 2e-2, **what)
    if not there:
        ctx.outcome('another steady state', trivial=True)
        return
    Pm, Q = R
    rows = []
    env = {(v, k): float(s.ss.get(v, 0.)) for v in s.endog for k in (-1, 0, 1)}
    from mc.sym import diff
    for k in kinds:
        C = np.zeros((3, n))
        for v, lag in leaves(obs[k]):
            C[lag + 1, s.endog.index(v)] = ev(diff(obs[k], (v, lag)), par, env)
        rows.append((C[0] + C[1] @ Pm + C[2] @ Pm @ Pm, C[1] @ Q + C[2] @ Pm @ Q))
    try:
        sol = FirstOrderSolution(om).solve()
    except Exception as e:
        ctx.fail('the first-order solution of an observed model', error=repr(e), **what)
        return
    idx = om.indexes
    N_, M = n + len(kinds), len(s.stoch)
    dr = np.asarray(idx.dr_order)
    st = dr[np.asarray(idx.dr.state)]
    gy = np.asarray(sol.gy, dtype=float).reshape(N_, len(st))
    gu = np.asarray(sol.gu, dtype=float).reshape(N_, M)
    P2, Q2 = np.zeros((N_, N_)), np.zeros((N_, M))
    P2[np.ix_(dr, st)] = gy
    Q2[dr] = gu
    P0, Q0 = np.zeros((N_, N_)), np.zeros((N_, M))
    P0[:n, :n] = Pm
    Q0[:n] = Q
    for i, (a, b) in enumerate(rows):
        P0[n + i, :n] = a
        Q0[n + i] = b
    tol = 5e-3 if m[3] or {'square', 'ratio'} & set(kinds) else 1e-6
    ctx.close(P2, P0, 'decision rule of states', tol, **what)
    ctx.close(Q2, Q0, 'decision rule of shocks', tol, **what)
    ctx.outcome((tuple(kinds), len(st), M))
    # neither follows the other
    for p, b in zip(WHOLE, before):
        observe.compare(ctx, observe.ask(md, p), b, 'the model, after it was observed: ' + p, **what)
    was = [observe.ask(om, p) for p in WHOLE]
    md.params['k'] = 4.
    md.exprs[0] = '3*(' + s.eq_str(0).replace(' = ', ' - (') + ')) = 0'
    if s.stoch:
        md.stoch[0].variance = 7.
    md.update()
    om.update()
    for p, b in zip(WHOLE, was):
        observe.compare(ctx, observe.ask(om, p), b, 'an observed model follows its model: ' + p,
                        **what)
    now = [observe.ask(md, p) for p in WHOLE]
    om.params['k'] = 2.
    om.exprs[0] = s.eq_str(0).replace(' = ', ' - (') + ')'
    if s.stoch:
        om.stoch[0].variance = 5.
    om.update()
    md.update()
    for p, b in zip(WHOLE, now):
        observe.compare(ctx, observe.ask(md, p), b, 'a model follows its observed model: ' + p,
                        **what)
    scope = om.model_scope
    ctx.check(abs(scope['loc'] - 1.) < 1e-12, 'local parameter of the observed model',
              got=scope['loc'], expected=1., **what)
    ctx.tally(True)


WHOLE = ['basic', 'ss', 'ss residual', 'steady jacobian', 'dynamic residual', 'jacobian', 'hessian',
         'eigenvalues']


@functools.lru_cache(maxsize=None)
def base():
    from pynare import Model
    return Model(endog=['x', 'y'], stoch=['e'], params={'a': .5},
                 exprs=['x = a*x(-1) + e', 'y = 0.3*y(-1) + x'])


FORMULAS = {'oa': 'x + 1', 'ob': 'y - y(-1)', 'oc': 'x - 2*y', 'o': 'y'}


def run_data(case, ctx):
    import pandas as pd
    from pynare.stats import KalmanFilter, filter_model
    from pynare.stats.filters import ModelFilter
    from pynare.stats.observation import ObservedModel
    _, obs, full = case
    n = len(obs)
    eqs = {o: FORMULAS[o] for o in obs}
    om = ObservedModel(base(), eqs)
    rows = 3
    col = {o: 10. * (j + 1) + np.arange(rows) for j, o in enumerate(FORMULAS)}
    want = np.column_stack([col[o] for o in obs])
    makers = {
        'observed model': lambda d: ModelFilter(om, d),
        'model and equations': lambda d: ModelFilter(base(), d, eqs),
        'kalman': lambda d: KalmanFilter(om, d),
        'filter_model': lambda d: filter_model(base(), d, eqs),
        'filter_model, kind': lambda d: filter_model(om, d, kind='kalman'),
    }

    def judge(how, d, table, **detail):
        f = makers[how](d)
        ctx.step()
        what = dict(observed=obs, table=table, made=how, **detail)
        got = np.asarray(f.data, dtype=float)
        ctx.check(got.shape == want.shape, 'shape of the data', got=got.shape,
                  expected=want.shape, **what)
        ctx.check(got.shape != want.shape or np.array_equal(got, want),
                  'data of the observed variables', got=got, expected=want, **what)
        ctx.check(list(f.obs.names) == obs, 'names of the data', got=list(f.obs.names), **what)
        ctx.outcome((n, table))

    idx = {'default': None, 'dates': pd.date_range('2000-01-01', periods=rows),
           'backwards': [5, 3, 1], 'repeated': ['a', 'a', 'b']}
    for h, how in enumerate(makers):
        for k, p in enumerate(itertools.permutations(range(n))):
            if not full and k and (k + h) % 4:
                continue
            for i, ix in list(idx.items()) if full else [list(idx.items())[(k // 4 + h) % 4]]:
                d = pd.DataFrame({obs[j]: col[obs[j]] for j in p}, index=ix)
                kept = d.copy()
                judge(how, d, 'frame', order=[obs[j] for j in p], index=i)
                ctx.check(d.equals(kept), 'the data given were changed', observed=obs)
        judge(how, want.copy(), 'array')
        judge(how, want.tolist(), 'list')
        judge(how, tuple(map(tuple, want)), 'tuple')
        judge(how, np.asfortranarray(want), 'array by columns')
        if n == 1:
            judge(how, pd.Series(col[obs[0]], name=obs[0]), 'series')
        # tables that do not fit
        others = [o for o in FORMULAS if o not in obs]
        bad = {'too few': want[:, 1:], 'too many': np.column_stack((want, want[:, :1])),
               'frame, too few': pd.DataFrame({o: col[o] for o in obs[1:]}),
               'frame, unknown name': pd.DataFrame({'zz' if o == obs[0] else o: col[o] for o in obs}),
               'frame, name of a variable': pd.DataFrame({'y' if o == obs[-1] else o: col[o]
                                                          for o in obs}),
               'frame, one more': pd.DataFrame({**{o: col[o] for o in obs}, 'x': col['o']})}
        if n > 1:
            bad['frame, repeated'] = pd.DataFrame(want, columns=[obs[0]] * 2 + obs[2:])
        if others:
            bad['frame, other'] = pd.DataFrame({(others[0] if o == obs[0] else o): col[o]
                                                for o in obs})
        for name, d in bad.items():
            ctx.raises(Exception, lambda: makers[how](d), 'data that do not fit', table=name,
                       observed=obs, made=how)
    # equations given twice
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        f = ModelFilter(om, want, {'o': 'x'})
    ctx.check(list(f.obs.names) == obs, 'observed variables', got=list(f.obs.names), expected=obs)
    ctx.check(bool(w), 'equations that were ignored were not mentioned', observed=obs)
    ctx.tally(True)


def run_none(case, ctx):
    from pynare.stats import KalmanFilter, filter_model
    from pynare.stats.observation import ObservedModel
    ctx.raises(Exception, lambda: ObservedModel(base()), 'no observation equations')
    ctx.raises(Exception, lambda: ObservedModel(base(), {}), 'no observation equations')
    ctx.raises(Exception, lambda: filter_model(base(), np.zeros((2, 1))), 'no observation equations')
    ctx.raises(NotImplementedError, lambda: filter_model(base(), np.zeros((2, 1)), {'o': 'x'},
                                                         kind='particle'), 'unknown filter')
    ctx.raises(NotImplementedError, lambda: KalmanFilter(base(), np.zeros((2, 1)), {'o': 'x'},
                                                         init='flat'), 'unknown initialization')
    ctx.raises(Exception, lambda: ObservedModel(base(), {'o': 'x + '}), 'malformed equation')
    ctx.outcome('refused')
