"""C23: queries and solves do not depend on what was asked before"""
import functools
import itertools

import numpy as np

from mc import observe

ID = 'C23'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of query histories: the abstract state is the order of '
             'the stored solution, every history up to a depth is replayed on the '
             'implementation, and every answer compared with the one a fresh model gives in the '
             'same abstract state')
RULE = ('all sequences of 2 and a fixed seventh of those of 3 (thorough: all of 3, and a fixed part '
        'of 4) of 24 queries - '
        'solves of both orders and of a binding constraint, simulations with and without an '
        'order, draws, impulse responses, moments, decompositions, summaries, derivatives, state '
        'space, steady states - on 4 models; every answer of every history is compared, and '
        'what was handed out earlier is looked at again at the end; states = (model, order of '
        'the stored solution), transitions = queries made, traces = histories replayed')
ASSUMPTIONS = [
    'as documented, simulations and responses for which no order is given use the stored '
    'solution, and one of the default order is stored if there is none',
    'after a binding constraint is solved, simulations and responses with no order given may '
    'raise NotImplementedError, as documented',
]
CHUNK = 2

MODELS = {
    'two shocks': dict(
        endog=['x', 'y', 'z'], stoch=['e', 'u'], params={'a': .5, 'b': 'a/2', 'c': .2},
        local_params={'l': 'a*0.4'},
        shocks={'e': {'variance': .5}, 'u': {'variance': 2., 'other': 'e', 'corr': .5}},
        initial={'x': .1},
        exprs=['x = a*x(-1) + c*y(+1) + e', 'y = b*y(-1) + l*x + 0.5*u + 0.1*x^2',
               'z = x + 0.3*z(+1)']),
    'one state': dict(
        endog=['y', 'x'], stoch=['e'], params={'a': .5}, local_params={},
        shocks={}, initial={'x': 1, 'y': 1},
        exprs=['x - 1 = a*(x(-1) - 1) + e', 'log(y) = 0.4*log(y(+1)) + 0.2*(x - 1)']),
    'two states': dict(
        endog=['p', 'k'], stoch=['e'], params={'a': .6, 'c': .3}, local_params={'m': 'a*c'},
        shocks={'e': {'variance': .04}}, initial={},
        exprs=['p = 0.4*p(+1) + m*p(-1) - 0.2*k + e', 'k = a*k(-1) + c*p + 0.2*k(-1)*e']),
    'explosive': dict(
        endog=['x', 'y'], stoch=['e'], params={'a': 2.}, local_params={}, shocks={}, initial={},
        exprs=['x = a*x(-1) + e', 'y = 0.5*y(-1) + x']),
}


def build(name):
    from pynare import Model
    m = MODELS[name]
    return Model(**{k: dict(v) if isinstance(v, dict) else list(v) for k, v in m.items()})


def given(md):
    return np.linspace(-1, 1, 4 * len(md.stoch)).reshape(4, -1)


def sim(md, order):
    r = md.simulate(given(md), order=order)
    return [np.array(r.paths), np.array(r.shocks)]


def response(md, *a, **kw):
    return np.array(md.impulse_response(*a, **kw).impulse)


def summary(s):
    return s.splitlines()


def binding(md):
    ex = md.exprs.exprs_str[0].split('=')[0] + '= 0.1'
    v = md.endog.names[0]
    sol = md.solve(constraint=(f'{v} > 0.4', f'{v} < 0.2'), exprs={0: ex},
                   shocks=[.3, -.2], periods=5)
    return [np.array(sol.paths), np.array(sol.shocks)]


def draw(md):
    np.random.seed(3)
    return np.array(md.simulate(periods=3).paths)


P = observe.PARTS
# query -> (what it does, order stored afterwards: number, 'same', or 'default')
QUERIES = {
    'solve 1': (P['solve 1'], 1),
    'solve 2': (P['solve 2'], 2),
    'binding': (binding, 'occ'),
    'simulate': (lambda md: sim(md, 0), 'default'),
    'simulate 1': (lambda md: sim(md, 1), 1),
    'simulate 2': (lambda md: sim(md, 2), 2),
    'draw': (draw, 'default'),
    'response': (lambda md: response(md, periods=4), 'default'),
    'other response': (lambda md: response(md, md.stoch.names[-1], 3, -2), 'default'),
    'mean': (P['mean'], 'default'),
    'cov': (lambda md: [np.array(md.stats.cov(), dtype=float),
                        np.array(md.stats.std(), dtype=float)], 'default'),
    'corr': (lambda md: [np.array(md.stats.corr(), dtype=float),
                         np.array(md.stats.var(), dtype=float)], 'default'),
    'autocov': (P['autocov'], 'default'),
    'autocorr': (lambda md: np.array(md.stats.autocorr(p=3), dtype=float), 'default'),
    'decomp': (lambda md: np.array(md.stats.var_decomp(), dtype=float), 'default'),
    'model summary': (lambda md: summary(str(md.summary())), 'same'),
    'solution summary': (lambda md: summary(str(md.solution.summary())), 'default'),
    'stats summary': (lambda md: summary(str(md.stats.summary())), 'default'),
    'derivatives': (lambda md: [np.array(md.jacobian.array), np.array(md.hessian.array),
                                np.array(md.steady_repr.jacobian.array)], 'same'),
    'state space': (lambda md: [observe.eigs(md)] + [np.array(a) for a in
                                                     md.statespace.kalman_transition]
                    + [np.array(md.statespace.sigma)], 'default'),
    'first order': (P['first order'], 'default'),
    'order': (P['order'], 'same'),
    'steady': (lambda md: [np.array(md.ss.values), np.array(md.ss.compute())], 'same'),
    'copy': (lambda md: observe.basic(md.copy()), 'same'),
}
REACH = {None: [], 1: ['solve 1'], 2: ['solve 2'], 'occ': ['binding']}


def ask(md, q):
    try:
        return 'ok', QUERIES[q][0](md)
    except Exception as e:
        return 'error', e


@functools.lru_cache(maxsize=None)
def fresh(name, state, q):
    """the answer, and the orders that may be stored afterwards"""
    if state == 'occ':
        # a binding solution is one more stored thing: all but what uses it are as ever
        a, new = fresh(name, None, q)
        return a, {'occ' if n is None else n for n in new} | \
            ({'occ'} if QUERIES[q][1] == 'default' else set())
    md = build(name)
    for r in REACH[state]:
        ask(md, r)
    a = ask(md, q)
    new = QUERIES[q][1]
    if a[0] == 'error' or new == 'same':
        return a, {state}
    if new == 'default':
        return a, {state or 2}
    return a, {new}


USES = {'simulate', 'draw', 'response', 'other response', 'solution summary'}


def replay(ctx, name, hist):
    md = build(name)
    state, held = None, []
    for k, q in enumerate(hist):
        a = ask(md, q)
        ctx.step()
        if state == 'occ' and q in USES:
            # the stored solution is not a linear one
            if q == 'solution summary':
                continue
            ctx.check(a[0] == 'error' and isinstance(a[1], NotImplementedError)
                      or observe.same(a[1], fresh(name, 2, q)[0][1]),
                      'after a binding solution', got=a, history=hist)
            continue
        want, new = fresh(name, state, q)
        observe.compare(ctx, a, want, f'an answer depends on earlier queries: {q}',
                        history=hist[:k + 1], state=state)
        o = md.solution_order
        if o is None and 'occ' in new:
            o = 'occ'
        ctx.check(o in new, 'order of the stored solution', got=o, expected=new,
                  history=hist[:k + 1])
        state = o
        ctx.state((name, str(state)))
        if a[0] == 'ok':
            held.append((q, a[1], want[1]))
    for q, got, want in held:
        ctx.check(observe.same(got, want), 'what was handed out earlier changed', query=q,
                  history=hist, got=got, expected=want)
    ctx.trace()
    return state


def cases(tier):
    names = list(QUERIES)
    for name in MODELS:
        for i, a in enumerate(names):
            for j, b in enumerate(names):
                yield [name, a, b, 0 if tier == 'quick' else 2 if (i + j) % 3 == 0 else 1]


def run(case, ctx):
    name, a, b, level = case
    names = list(QUERIES)
    k = names.index(a) + 5 * names.index(b)
    for i, c in enumerate(names):
        if level == 0 and (i + k) % 7:
            continue
        ctx.outcome((a, str(replay(ctx, name, [a, b, c]))))
        if level == 2:
            for j, d in enumerate(names):
                if (i + j + k) % 6 == 0:
                    ctx.outcome((a, str(replay(ctx, name, [a, b, c, d]))))
    ctx.tally(True)
