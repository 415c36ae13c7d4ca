"""C34: an interrupted query leaves the model as good as before"""
import functools
import os
import tempfile

import numpy as np

from mc import crash, observe
from checks import c23

ID = 'C34'
LEVEL = 'model_checking'
TECHNIQUE = ('fault enumeration: the implementation is stopped (KeyboardInterrupt, MemoryError) at '
             'every distinct point of a query, in a forked child so that each point is reached '
             'from the same history; the object graph left behind is the state, and in every '
             'distinct one a panel of queries is answered and compared with never-interrupted '
             'models')
RULE = ('every distinct point (line of pynare, with the functions leading there) of 30 runs of '
        'queries (thorough: all 24 queries in all situations) - solves, binding constraints, simulations, responses, moments, '
        'decompositions, summaries, derivatives, copies - on models that were fresh, solved, or '
        'edited before (values, new variables, shocks and equations, with and without a stored '
        'solution), and of reading a file, stopped there by an interrupt or by exhausted '
        'memory; each distinct state left behind answers 17 queries as a never-interrupted model '
        'would, in which the query was made or was not; states = distinct object graphs (with '
        'what modules, classes and functions of pynare keep), transitions = points stopped at')
ASSUMPTIONS = [
    'a stop comes between two lines of pynare, and everything below a line is done or undone '
    'with it',
    'points with the same line and the same set of functions on the stack leave the same behind; '
    'the first one is stopped at (the second one too in some of the cases and in the thorough '
    'tier, the third for derivatives and steady states)',
    'edits that are interrupted themselves are not judged',
]
CHUNK = 1

PANEL = ['order', 'basic', 'simulate', 'cov', 'state space', 'derivatives', 'mean',
         'first order', 'solve 1', 'simulate', 'decomp', 'solve 2', 'response', 'steady', 'copy',
         'model summary', 'order']


def edit(md):
    md.add_params(a=.45)


def add(md):
    md.add_endog('w', initial=.2)
    md.add_stoch('nu', variance=.3)
    md.add_exprs('w = 0.4*w(-1) + 0.2*%s + nu' % md.endog.names[0])


PRIORS = {
    'fresh': lambda md: None,
    'solved 1': lambda md: md.solve(order=1),
    'solved 2': lambda md: md.solve(order=2),
    'edited': edit,
    'solved, edited': lambda md: (md.solve(order=1), edit(md)),
    'solved, added': lambda md: (md.solve(order=2), add(md)),
}

QUERIES = dict(c23.QUERIES)
QUERIES['update'] = (lambda md: md.update(), 'same')
QUERIES['hessian'] = (lambda md: np.array(md.hessian.array), 'same')
MORE = ('hessian', 'steady', 'state space')
QUERIES['basic'] = (observe.basic, 'same')

TEXT = '''
var y, x; varexo e; parameters a b;
a = 0.5; b = a/2;
model;
  # c = a*b;
  y = a*y(-1) + c*x(+1) + e;   // one
  x = b*x(-1) - 0.2*y^2;
end;
initval; y = 0.1; end;
shocks; var e; stderr 0.3; end;
'''
OTHER = '''
var p, q, r; varexo u v; parameters d; d = 0.7;
model; p = d*p(-1) + u; q = 0.1*q(+1) + p; r = exp(v) - 1 + q(-1); end;
shocks; var u; stderr 2; var u, v = 0.1; end;
'''


def make(name, prior):
    md = c23.build(name)
    PRIORS[prior](md)
    return md


def ask(md, q):
    try:
        return 'ok', QUERIES[q][0](md)
    except Exception as e:
        return 'error', e


def panel(md):
    return [ask(md, q) for q in PANEL]


def equal(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'error':
        return type(a[1]) is type(b[1])
    return observe.same(a[1], b[1])


def differing(got, *expected):
    """the first question whose answer is none of the expected ones, for the closest of them"""
    best = None
    for e in expected:
        bad = [i for i, (g, x) in enumerate(zip(got, e)) if not equal(g, x)]
        if not bad:
            return None
        if best is None or len(bad) < len(best[0]):
            best = bad, e
    i = best[0][0]
    return PANEL[i], repr(got[i])[:300], repr(best[1][i])[:300]


@functools.lru_cache(maxsize=8)
def expected(name, prior, q):
    before = panel(make(name, prior))
    md = make(name, prior)
    ask(md, q)
    return before, panel(md)


# ---- reading

def read(text):
    from pynare import Model
    from pynare.parsing import read_model
    return observe.basic(Model.from_outline(read_model(text, "dynare"), "dynare"))


def read_panel():
    return [('ok', read(OTHER)), ('ok', read(TEXT))]


# (model, what was done before, query, every how many points)
QUICK = [('one state', 'solved, added', 'order', 1), ('one state', 'solved, edited', 'response', 2),
         ('two shocks', 'solved, edited', 'solve 2', 4), ('one state', 'edited', 'update', 2)] + \
    [('one state', 'fresh', q, 1) for q in ('solve 1', 'solve 2', 'simulate 1', 'cov', 'response')] + \
    [('one state', 'solved 1', q, 1) for q in ('solve 2', 'simulate', 'autocov', 'decomp', 'mean',
                                              'stats summary', 'model summary', 'state space')] + \
    [('one state', 'solved 2', q, 1) for q in ('solve 1', 'simulate 1', 'solution summary',
                                              'derivatives', 'steady')] + \
    [('one state', 'solved 2', 'copy', 3), ('one state', 'solved 1', 'binding', 6),
     ('two shocks', 'fresh', 'decomp', 3), ('one state', 'fresh', 'derivatives', 1),
     ('explosive', 'fresh', 'solve 1', 1), ('two states', 'fresh', 'hessian', 1)]


def cases(tier):
    out = [('read', 3 if tier == 'quick' else 1, err) for err in ('interrupt', 'memory')]
    if tier == 'quick':
        out += [c + (('interrupt', 'memory')[i % 2 if i > 2 else i > 1],)
                for i, c in enumerate(QUICK)]
    else:
        for name in c23.MODELS:
            for prior in PRIORS:
                for q in QUERIES:
                    for err in ('interrupt', 'memory'):
                        out.append((name, prior, q, 2, err))
    return out


ERRORS = {'interrupt': KeyboardInterrupt, 'memory': MemoryError}


def run(case, ctx):
    case = tuple(case)
    err = ERRORS[case[-1]]

    def at(k):
        raise err('stopped')

    if case[0] == 'read':
        exp = read_panel()
        known = {crash.global_content()}
        op, states = (lambda: read(TEXT)), known

        def look():
            h = crash.global_content()
            return h, (None if h in known else read_panel())

        def judge(got):
            return None if observe.same(got, exp) else ('reading', repr(got)[:300],
                                                        repr(exp)[:300])
    else:
        name, prior, q = case[:3]
        exp = expected(name, prior, q)
        md = make(name, prior)
        known = set()

        def op():
            return QUERIES[q][0](md)

        def look():
            h = crash.content([md, crash.global_content()])
            return h, (None if h in known else panel(md))

        def judge(got):
            return differing(got, *exp)

    def after(result, k):
        h, got = look()
        bad = judge(got) if got is not None else None
        kind = result[0] if result[0] == 'ok' else type(result[1]).__name__
        return {'state': h, 'bad': bad, 'ended': kind}

    def seen(found):
        if 'state' in found and found['bad'] is None:
            known.add(found['state'])

    visits = 3 if case[0] != 'read' and case[2] in MORE else 2 if case[-2] == 2 else 1
    result, found = crash.explore(op, at, after, every=case[-2], seen=seen,
                                  visits=visits)
    if case[0] != 'read' and result[0] == 'error' and not isinstance(result[1], Exception):
        raise result[1]
    for k, where, f in found:
        ctx.step()
        if 'harness' in f or 'died' in f:
            raise RuntimeError(f'point {k} at {where}: {f}')
        ctx.state((case[:-2], f['state']))
        ctx.outcome((case[-1], f['ended']))
        ctx.check(f['bad'] is None, 'after a query was stopped, a later answer differs from that '
                  'of a model never stopped', stopped=where, point=k,
                  asked=f['bad'] and f['bad'][0], got=f['bad'] and f['bad'][1],
                  expected=f['bad'] and f['bad'][2])
    ctx.trace()
    ctx.tally(bool(found))
