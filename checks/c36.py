"""C36: operations that are refused change nothing"""
import functools

import numpy as np

from checks import c23, c34

ID = 'C36'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of histories with refused operations: every operation that '
             'cannot be carried out x every situation x what is done before and after it, replayed '
             'on the implementation and compared with the history without it')
RULE = ('{n} operations with something wrong with them - parameters that are circular, malformed, '
        'unknown or of no type, alone and among good ones; equations malformed or out of range, '
        'alone and among good ones; names, attributes and options that do not exist; orders, '
        'shocks, initial values, lags, constraints and regimes that do not fit - x 4 models x 6 '
        'situations (fresh, solved at either order, edited before) x what follows (nothing, a '
        'good edit, another such operation); every one that is refused leaves a model that '
        'answers 17 queries, and prints, as without it; states = (model, situation), '
        'transitions = operations, traces = histories')
ASSUMPTIONS = [
    'an operation is refused if it raises; what is accepted is not judged here',
    'a refused query may have solved the model (at the order it would have)',
]
CHUNK = 16


def regime(**kw):
    def f(md):
        x = md.endog.names[0]
        args = dict(constraint=[f'{x} > 1', f'{x} < 1'], exprs={0: f'{x} = 0'},
                    shocks=np.array([1.]))
        args.update({k: v(x) if callable(v) else v for k, v in kw.items()})
        return md.solve(**args)
    return f


def n(md):
    return str(md.endog.names[0])


def iadd(md, xs):
    ex = md.exprs
    ex += xs


# things done to a model, which have something wrong with them
BAD = {
    'circular': lambda md: md.add_params(a='zz', zz='a*2'),
    'self': lambda md: md.add_params(a='a + 1'),
    'unknown': lambda md: md.add_params(a='nope*2'),
    'malformed': lambda md: md.add_params(a='2 +* 3'),
    'malformed second': lambda md: md.add_params(a=.3, zz='2 +'),
    'malformed first': lambda md: md.add_params(zz='2 +', a=.3),
    'unknown third': lambda md: md.add_params(a=.3, zz=1, yy='nope'),
    'none': lambda md: md.add_params(a=.31, zz=None),
    'a list': lambda md: md.add_params(a=[1, 2]),
    'empty text': lambda md: md.add_params(a=''),
    'item': lambda md: md.params.__setitem__('a', '2 +'),
    'items': lambda md: md.params.update({'a': .3, 'zz': '2 +'}),
    'items as pairs': lambda md: md.params.update([('a', .3), ('zz', 'nope')]),
    'default': lambda md: md.params.setdefault('zz', '2 +'),
    'used': lambda md: md.params.__delitem__('nope'),
    'pop': lambda md: md.params.pop('nope'),
    'local': lambda md: md.local_params.__setitem__('m', '2 +'),
    'locals': lambda md: md.local_params.update({'m': 2, 'l': 3, 'k': '(2'}),
    'equation': lambda md: md.add_exprs(n(md) + ' = 2 +'),
    'second equation': lambda md: md.add_exprs([n(md) + ' = 2', n(md) + ' = (']),
    'equations iterated': lambda md: md.add_exprs(t for t in [n(md) + ' = 2', '2 = = 2']),
    'no equation': lambda md: md.add_exprs(3),
    'no equations': lambda md: md.add_exprs([n(md) + ' = 3', None]),
    'append': lambda md: md.exprs.append(n(md) + ' = 2 3'),
    'extend': lambda md: md.exprs.extend([n(md) + ' = 2', '']),
    'insert': lambda md: md.exprs.insert(0, n(md) + ' = *2'),
    'insert at a name': lambda md: md.exprs.insert('x', n(md) + ' = 2'),
    'set': lambda md: md.exprs.__setitem__(0, n(md) + ' = (1'),
    'set number': lambda md: md.exprs.__setitem__(0, 3),
    'set far': lambda md: md.exprs.__setitem__(9, n(md) + ' = 1'),
    'set slice': lambda md: md.exprs.__setitem__(slice(0, 2), [n(md) + ' = 1', n(md) + ' = 1)']),
    'set slice short': lambda md: md.exprs.__setitem__(slice(0, 2, 1), 5),
    'set stride': lambda md: md.exprs.__setitem__(slice(None, None, -1), [n(md) + ' = 1']),
    'iadd': lambda md: iadd(md, [n(md) + ' = 1', ')']),
    'delete': lambda md: md.exprs.__delitem__(9),
    'pop far': lambda md: md.exprs.pop(9),
    'remove': lambda md: md.exprs.remove('nope = 1'),
    'endog number': lambda md: md.add_endog(3),
    'endog numbers': lambda md: md.add_endog(['w', 3]),
    'endog attribute': lambda md: md.add_endog('w', nope=3),
    'stoch number': lambda md: md.add_stoch(['nu', 3]),
    'stoch attribute': lambda md: md.add_stoch('nu', nope=3),
    'stoch attributes': lambda md: md.add_stoch(['nu', 'mu'], shocks={'nu': {'variance': 2},
                                                                      'mu': {'nope': 2}}),
    'solve 3': lambda md: md.solve(order=3),
    'solve -1': lambda md: md.solve(order=-1),
    'solve a name': lambda md: md.solve(order='x'),
    'half a constraint': lambda md: md.solve(constraint=['x > 0']),
    'no regimes': regime(exprs={}),
    'constraint on nothing': regime(constraint=['nope > 1', 'nope < 1']),
    'malformed constraint': regime(constraint=['1 > ', '1 < 2']),
    'malformed regime': regime(exprs={0: 'x = ('}),
    'second regime malformed': regime(
        exprs=lambda x: [{0: f'{x} = 0'}, {1: f'{x} = ('}, {}],
        constraint=lambda x: [(f'{x} > 1', f'{x} < 1'), (f'{x} > 2', f'{x} < 2')]),
    'regime of two': regime(exprs=lambda x: {0: f'{x} = 0', 1: f'{x} = ('}),
    'regime of far': regime(exprs=lambda x: {0: f'{x} = 0', 9: f'{x} = 0'}),
    'regime far': regime(exprs={9: 'x = 0'}),
    'regime without periods': regime(periods=-3),
    'shock of nothing': regime(exog='nope'),
    'start too long': regime(init=np.ones(9)),
    'shocks too wide': lambda md: md.simulate(np.ones((4, 7))),
    'start': lambda md: md.simulate(np.ones((4, len(md.stoch))), init=np.ones(9)),
    'start at 1': lambda md: md.simulate(np.ones((4, len(md.stoch))), init=np.ones(9), order=1),
    'shocks too wide at 2': lambda md: md.simulate(np.ones((4, 7)), order=2),
    'simulate 5': lambda md: md.simulate(order=5),
    'simulate a name': lambda md: md.simulate('abc'),
    'simulate before': lambda md: md.simulate(periods=-4),
    'drop': lambda md: md.simulate(np.ones((4, len(md.stoch)))).mean(drop=9),
    'response to nothing': lambda md: md.impulse_response('nope'),
    'response to some': lambda md: md.impulse_response(['e', 'nope']),
    'response before': lambda md: md.impulse_response('e', periods=-2),
    'response of a name': lambda md: md.impulse_response('e', size='a'),
    'decompose nothing': lambda md: md.stats.var_decomp(endog=['nope']),
    'decompose by nothing': lambda md: md.stats.var_decomp(stoch='nope'),
    'lags': lambda md: md.stats.autocov(p=-1),
    'lags by name': lambda md: md.stats.autocorr(p='a'),
    'method': lambda md: md.ss.compute(method='nope'),
    'method unfinished': lambda md: md.ss.compute(method=0),
    'method option': lambda md: md.ss.compute(nope=3),
    'find': lambda md: md.endog.get_loc('nope'),
    'find some': lambda md: md.endog.get_loc([n(md), 'nope']),
    'dynamic length': lambda md: md.dynamic_repr([1.]),
    'static length': lambda md: md.steady_repr([1.]),
    'summary option': lambda md: md.summary(nope=3),
    'solution summary': lambda md: str(md.solution.summary(sig='a')),
    'covariances': lambda md: setattr(md, 'sigma', 3),
    'solution': lambda md: setattr(md, 'solution', 3),
    'plot': lambda md: md.impulse_response('e').plot(['nope']),
}
RULE = RULE.format(n=len(BAD))
SOLVES = ('simulate', 'start', 'shocks', 'drop', 'response', 'decompose', 'lags', 'solution',
          'plot', 'no regimes', 'constraint', 'malformed constraint', 'regime', 'shock of',
          'half', 'second regime', 'malformed regime')


def shown(md):
    return [str(md.exprs), str(md.params), str(md.local_params), repr(md.stoch), repr(md.endog),
            bool(md.name)]


GOOD = {
    None: lambda md: None,
    'param': lambda md: md.add_params(a=.41),
    'equation': lambda md: (md.add_endog('w', initial=.1),
                            md.add_exprs(f'w = 0.3*w(-1) + {n(md)}')),
    'shock': lambda md: md.add_stoch('nu', variance=.5),
    'update': lambda md: md.update(),
}


def situation(name, prior, good=None, solved=None):
    md = c34.make(name, prior)
    GOOD[good](md)
    if solved:
        md.solve(order=solved)
    return md


@functools.lru_cache(maxsize=64)
def expected(name, prior, good, solved):
    """what is answered without the operation, or when it did nothing but solve the model"""
    try:
        md = situation(name, prior, None, solved)
    except Exception:
        return None
    GOOD[good](md)
    answers = c34.panel(md)
    # after the questions, the parameters written in terms of others are up to date
    return shown(md), answers


def cases(tier):
    names = list(BAD)
    for i, name in enumerate(c23.MODELS):
        for j, prior in enumerate(c34.PRIORS):
            if name == 'explosive' and prior.startswith('solved'):
                continue    # it has no solution
            for k, bad in enumerate(BAD):
                goods = list(GOOD)
                yield [name, prior, [bad], None]
                if tier == 'quick':
                    yield [name, prior, [bad], goods[1 + (i + j + k) % 4]]
                    if (i + j + k) % 3 == 0:
                        yield [name, prior, [bad, names[(k * 7 + i + j) % len(names)]], None]
                else:
                    for g in goods[1:]:
                        yield [name, prior, [bad], g]
                    for other in names:
                        yield [name, prior, [bad, other], goods[(i + j + k) % 5]]


def run(case, ctx):
    name, prior, bads, good = case
    md = c34.make(name, prior)
    ctx.state((name, prior))
    refused = []
    for b in bads:
        try:
            BAD[b](md)
        except Exception as e:
            refused.append(type(e).__name__)
        else:
            # accepted, so there is nothing to compare with
            ctx.outcome('accepted', trivial=True)
            return
        ctx.step()
    GOOD[good](md)
    solving = any(b.startswith(SOLVES) for b in bads)
    panel = c34.panel(md)
    got = shown(md)
    printed, answers = expected(name, prior, good, None)
    bad = c34.differing(panel, answers)
    for solved in (2, 1) if solving else ():
        also = expected(name, prior, good, solved) if bad else None
        if also and not c34.differing(panel, also[1]):
            bad = None
    ctx.check(bad is None, 'a refused operation changed a later answer', refused=refused,
              asked=bad and bad[0], got=bad and bad[1], expected=bad and bad[2])
    ctx.check(got == printed, 'what is printed after a refused operation', got=got,
              expected=printed, refused=refused)
    ctx.trace()
    ctx.outcome(tuple(refused))
