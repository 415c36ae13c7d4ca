"""C19: an edited model equals one built afresh with the same content"""
import functools
import itertools

import numpy as np

from mc import observe

ID = 'C19'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of edit histories: all sequences of edits up to a depth '
             'with a query at every point; the model state is the content, and every history is '
             'replayed on the implementation and compared with a model built afresh')
RULE = ('all sequences of up to 2 edits, and a fixed 23rd part of those of 3 (all of them in the '
        'thorough tier), of 26 kinds - parameters, '
        'dependent and local parameters, equations replaced, reordered, given leads or lags, '
        'made ill-formed and repaired, new variables and equations in either order, one or five at a time, new shocks '
        'with moments, variances and starting values changed - from 2 models, with queries of 6 kinds before every edit (all '
        'combinations for single edits, in the thorough tier for pairs); states = '
        'different contents, transitions = edits applied, traces = histories replayed')
ASSUMPTIONS = [
    'after direct changes of params / exprs the model is updated, as the API asks; the add_* '
    'methods need no update',
    'histories in which an edit is not applicable (e.g. the variable is already there) are '
    'other histories with a shorter length and are skipped',
]
CHUNK = 4

ROOTS = {
    'a': dict(endog=['x', 'y'], stoch=['e'], params={'a': .5, 'b': 'a/2', 'c': .2},
              locals={'l': 'a*0.4'}, shocks={}, initial={},
              exprs=['x = a*x(-1) + c*y(+1) + e', 'y = b*y(-1) + l*x + 0.1*x^2']),
    'b': dict(endog=['x', 'y'], stoch=['e'], params={'a': .5, 'b': 'a/2', 'c': .2},
              locals={'l': 'a*0.4'}, shocks={'e': {'variance': .25}}, initial={'x': 1},
              exprs=['x - 1 = a*(x(-1) - 1) + c*y + e', 'y = b*y(+1) + l*(x(-1) - 1)^2']),
}


# an edit: content -> new content (None if not applicable), and what is done to the model
def _param(k, v):
    def f(c):
        return dict(c, params={**c['params'], k: v})
    return f


def _expr(i, s, needs=()):
    def f(c):
        if len(c['exprs']) <= i or any(n not in c['stoch'] + c['endog'] for n in needs):
            return None
        ex = list(c['exprs'])
        ex[i] = s
        return dict(c, exprs=ex)
    return f


def _endog(name, init=None):
    def f(c):
        if name in c['endog']:
            return None
        ini = {**c['initial'], name: init} if init is not None else c['initial']
        return dict(c, endog=c['endog'] + [name], initial=ini)
    return f


def _add_expr(s, needs=()):
    def f(c):
        if s in c['exprs'] or any(n not in c['stoch'] + c['endog'] for n in needs):
            return None
        return dict(c, exprs=c['exprs'] + [s])
    return f


def _both(f, g):
    return lambda c: None if f(c) is None else g(f(c))


def _stoch(name, d=None):
    def f(c):
        if name in c['stoch']:
            return None
        sh = {**c['shocks'], name: d} if d is not None else c['shocks']
        return dict(c, stoch=c['stoch'] + [name], shocks=sh)
    return f


def _swap(c):
    ex = list(c['exprs'])
    ex[0], ex[1] = ex[1], ex[0]
    return dict(c, exprs=ex)


def do_expr(i, s):
    def g(md):
        md.exprs[i] = s
        md.update()
    return g


def do_param(k, v):
    def g(md):
        md.params[k] = v
        md.update()
    return g


def _variance(name, v):
    return lambda c: dict(c, shocks={**c['shocks'], name: {**c['shocks'].get(name, {}),
                                                           'variance': v}})


def do_variance(name, v):
    def g(md):
        md.stoch[md.stoch.get_loc(name)].variance = v
        md.update()
    return g


def do_initial(name, v):
    def g(md):
        md.endog[md.endog.get_loc(name)].initial = v
        md.update()
    return g


def do_swap(md):
    md.exprs[0], md.exprs[1] = md.exprs[1], md.exprs[0]
    md.update()


def seq(*fs):
    def g(md):
        for f in fs:
            f(md)
    return g


Z = 'z = 0.3*z(-1) + 0.2*x + c*y'
W = 'w = 0.4*w(+1) + 0.2*x'
MANY = ['p', 'q', 'r', 's', 'f']
MANY_EX = [f'{v} = 0.{k + 1}*{v}(-1) + 0.{9 - k}*x + {k + 1}*{w}'
           for k, (v, w) in enumerate(zip(MANY, ['e', 'e4', 'e3', 'e2', 'e1']))]


def _many(c):
    if 'p' in c['endog']:
        return None
    return dict(c, endog=c['endog'] + MANY, exprs=c['exprs'] + MANY_EX,
                stoch=c['stoch'] + ['e1', 'e2', 'e3', 'e4'])


def do_many(md):
    md.add_endog(MANY)
    md.add_stoch(['e1', 'e2', 'e3', 'e4'])
    md.add_exprs(MANY_EX)


EDITS = {
    'a=.7 add': (_param('a', .7), lambda md: md.add_params(a=.7)),
    'a=-.3 set': (_param('a', -.3), do_param('a', -.3)),
    'a=0 add': (_param('a', 0), lambda md: md.add_params(a=0)),
    'b=c/2 set': (lambda c: None if isinstance(c['params']['c'], str) else
                  dict(c, params={**c['params'], 'b': 'c/2'}), do_param('b', 'c/2')),
    'c=b*.5+.1 add': (lambda c: None if c['params']['b'] == 'c/2' else
                      dict(c, params={**c['params'], 'c': 'b*0.5 + 0.1'}),
                      lambda md: md.add_params(c='b*0.5 + 0.1')),
    'expr0 lag of y': (_expr(0, 'x = a*x(-1) + c*y(-1) + e'),
                       do_expr(0, 'x = a*x(-1) + c*y(-1) + e')),
    'expr1 lead': (_expr(1, 'y = b*y(+1) + l*x + 0.2*x*e'),
                   do_expr(1, 'y = b*y(+1) + l*x + 0.2*x*e')),
    'expr1 static': (_expr(1, 'y = l*x(-1) + b'), do_expr(1, 'y = l*x(-1) + b')),
    'expr1 u': (_expr(1, 'y = b*y(-1) + 0.5*u + l*u*x', ['u']),
                do_expr(1, 'y = b*y(-1) + 0.5*u + l*u*x')),
    'expr0 deep lag': (_expr(0, 'x = a*x(-2) + e'), do_expr(0, 'x = a*x(-2) + e')),
    'expr1 explosive': (_expr(1, 'y = 3*y(-1) + x'), do_expr(1, 'y = 3*y(-1) + x')),
    'swap': (_swap, do_swap),
    'pop and append': (lambda c: dict(c, exprs=c['exprs'][1:] + c['exprs'][:1]),
                       lambda md: seq(lambda m: m.add_exprs(m.exprs.pop(0)))(md)),
    'z': (_both(_endog('z'), _add_expr(Z)),
          seq(lambda md: md.add_endog('z'), lambda md: md.add_exprs(Z))),
    'z expr first': (_both(_endog('z', 1.5), _add_expr(Z)),
                     seq(lambda md: md.add_exprs([Z]), lambda md: md.add_endog('z', initial=1.5))),
    'z only': (_endog('z'), lambda md: md.add_endog('z')),
    'z expr': (_add_expr(Z, ['z']), lambda md: md.add_exprs(Z)),
    'z and w': (_both(_both(_endog('z'), _endog('w')), _both(_add_expr(Z), _add_expr(W))),
                seq(lambda md: md.add_endog(['z', 'w']), lambda md: md.add_exprs([Z, W]))),
    'many': (_many, do_many),
    'u': (_stoch('u'), lambda md: md.add_stoch('u')),
    'u variance': (_stoch('u', {'variance': 2.}), lambda md: md.add_stoch('u', variance=2.)),
    'u corr': (_stoch('u', {'variance': 2., 'other': 'e', 'corr': .5}),
               lambda md: md.add_stoch(['u'], variance=2., other='e', corr=.5)),
    'u, v iterator': (_both(_stoch('u', {'variance': 2.}), _stoch('v', {'variance': 2.})),
                      lambda md: md.add_stoch(iter(['u', 'v']), variance=2.)),
    'e variance': (_variance('e', 3.), do_variance('e', 3.)),
    'e variance 0': (_variance('e', 0.), do_variance('e', 0.)),
    'x initial': (lambda c: dict(c, initial={**c['initial'], 'x': .4}),
                  do_initial('x', .4)),
    'v none': (_stoch('v', {'variance': 0.}), lambda md: md.add_stoch('v', variance=0.)),
    'v cov': (_stoch('v', {'other': 'e', 'cov': .1}),
              lambda md: md.add_stoch('v', other='e', cov=.1)),
}

QUERIES = {
    'none': [],
    'solve 1': ['solve 1'],
    'solve 2': ['solve 2'],
    'stats': ['cov', 'decomp'],
    'derivatives': ['ss', 'jacobian', 'hessian', 'steady jacobian', 'eigenvalues'],
    'path': ['path', 'response'],
}


def cases(tier):
    for root in ROOTS:
        for e1 in EDITS:
            for e2 in [None] + list(EDITS):
                if tier == 'thorough':
                    for q0 in QUERIES:
                        yield [root, q0, e1, e2, True]
                else:
                    yield [root, None, e1, e2, False]


def build(c):
    from pynare import Model
    return Model(endog=list(c['endog']), stoch=list(c['stoch']), params=dict(c['params']),
                 exprs=list(c['exprs']), local_params=dict(c['locals']),
                 shocks={k: dict(v) for k, v in c['shocks'].items()},
                 initial=dict(c['initial']))


PARTS = ['basic', 'ss residual', 'dynamic residual', 'ss', 'steady jacobian', 'jacobian',
         'hessian', 'eigenvalues', 'order', 'first order', 'cov', 'autocov', 'mean', 'decomp',
         'response', 'path', 'solve 1', 'solve 2', 'order']


@functools.lru_cache(maxsize=None)
def _fresh(key):
    import json
    c = json.loads(key)
    try:
        md = build(c)
    except Exception as e:
        return e
    return [observe.ask(md, p) for p in PARTS]


def fresh(c):
    import json
    return _fresh(json.dumps(c))


def apply(md, e):
    """an edit may fail at once only if the model it makes is ill-formed"""
    try:
        EDITS[e][1](md)
        return None
    except Exception as x:
        return x


def replay(ctx, root, hist):
    """hist: [(query, edit)...]; compares the edited model with a fresh one"""
    c = ROOTS[root]
    for q, e in hist:
        c = EDITS[e][0](c)
        if c is None:
            return None
    md = build(ROOTS[root])
    c = ROOTS[root]
    for q, e in hist:
        for part in QUERIES[q]:
            observe.ask(md, part)
        c = EDITS[e][0](c)
        err = apply(md, e)
        ctx.step()
        if err is not None and not isinstance(fresh(c), Exception):
            ctx.fail('a valid edit was rejected', edit=e, history=hist, error=repr(err))
            return None
    want = fresh(c)
    ctx.state(str(c))
    ctx.trace()
    if isinstance(want, Exception):
        for part in ('basic', 'jacobian', 'first order', 'solve 1', 'path', 'cov', 'jacobian'):
            got = observe.ask(md, part)
            ctx.check(got[0] == 'error', 'an ill-formed model answers', part=part, got=got[1],
                      history=hist, expected=repr(want))
        ctx.tally(False)
        return 'ill-formed'
    good = 0
    for part, w in zip(PARTS, want):
        good += w[0] == 'ok'
        observe.compare(ctx, observe.ask(md, part), w, f'edited and fresh models differ: {part}',
                        history=hist)
    ctx.tally(True)
    return 'solved' if want[PARTS.index('first order')][0] == 'ok' else 'not determinate'


def run(case, ctx):
    root, q, e1, e2, deep = case
    names, qs = list(EDITS), list(QUERIES)
    c1 = EDITS[e1][0](ROOTS[root])
    if c1 is None:
        ctx.outcome('not applicable', trivial=True)
        return
    if e2 is None:
        for q0 in qs:
            ctx.outcome((1, replay(ctx, root, [(q0, e1)])))
        return
    c2 = EDITS[e2][0](c1)
    if c2 is None:
        ctx.outcome('not applicable', trivial=True)
        return
    k = names.index(e1) * 7 + names.index(e2) * 3
    # a query before each of two edits: all pairs, or pairs that cover every query both times
    for q0, q1 in ([(q, b) for b in qs] if deep else
                   [(qs[(k // 2) % 6], qs[k % 6]), (qs[(k + 2) % 6], qs[1 + k % 2])]):
        ctx.outcome((2, replay(ctx, root, [(q0, e1), (q1, e2)])))
    # a third edit
    for j, e3 in enumerate(names):
        if EDITS[e3][0](c2) is None:
            continue
        if deep:
            pairs = [(q1, qs[(j + i) % 6]) for i, q1 in enumerate(qs)]
        elif (j + k) % 23 == 0:
            q = qs[(j + k // 23) % 6]
            pairs = [(qs[(k + j // 5) % 6], qs[(k // 3 + j) % 6])]
        else:
            continue
        for q1, q2 in pairs:
            ctx.outcome((3, replay(ctx, root, [(q, e1), (q1, e2), (q2, e3)])))
