"""C20: models never share state with copies, other models or callers"""
import functools
import json

import numpy as np

from mc import observe

ID = 'C20'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of histories of several live models: all sequences of '
             'building, copying, editing, changing the inputs and querying up to a depth; the '
             'model state is the content of each model and of the inputs, and every history is '
             'replayed on the implementation')
RULE = ('all sequences of up to 2 steps, and a fixed tenth of those of 3 (in the thorough tier '
        'all of those, and a fixed part of those of 4), after a first model is built, of: building another from the same inputs, from an outline, or with '
        'default arguments; copying any live model; making regimes of it; '
        '14 kinds of edits of any live model; 11 kinds of changes to the inputs; 4 kinds of '
        'queries - at most 3 models live; after every history each live model must answer as one '
        'built afresh from its own content, and the inputs must be what the caller made them; '
        'states = different worlds, transitions = steps taken, traces = histories replayed')
ASSUMPTIONS = [
    'a model answers for what the inputs were when it was built',
    'changes made directly to params, exprs or variables are followed by update(), as the API asks',
]
CHUNK = 2

LIMIT = 3           # live models


def first_inputs():
    return dict(
        endog=['x', 'y'], stoch=['e', 'u'],
        params={'a': .5, 'b': 'a/2', 'c': .2}, locals={'l': 'a*0.4'},
        shocks={'e': {'variance': .5}, 'u': {'variance': 2., 'other': ['e'], 'corr': [.5]}},
        initial={'x': 1.}, terminal={'y': 0., 'x': .5}, historical={'y': 0.},
        exprs=['x = a*x(-1) + c*y(+1) + e', 'y = b*y(-1) + l*x + 0.5*u'])


def dup(c):
    return json.loads(json.dumps(c))


def put(c, *path):
    """content with the value at a path replaced"""
    c = dup(c)
    d = c
    for k in path[:-2]:
        d = d[k]
    d[path[-2]] = path[-1]
    return c


def more(c, name, expr, var=None, kind='endog'):
    c = dup(c)
    c[kind] = c[kind] + [name]
    if expr:
        c['exprs'] = c['exprs'] + [expr]
    if var:
        c['shocks'][name] = var
    return c


EX0 = 'x = a*x(-1) + c*y(-1) + e'
EX1 = 'y = b*y(+1) + l*x + 0.2*u'
Z = 'z = 0.3*z(-1) + 0.2*x + c*y'


def has(c, n):
    return n in c['endog'] + c['stoch']


def upd(f):
    def g(md):
        f(md)
        md.update()
    return g


def setparam(md, k, v):
    md.params[k] = v


def setlocal(md, k, v):
    md.local_params[k] = v


def at(exprs, s):
    # where the equation of the same variable is now
    return [e.split()[0] for e in exprs].index(s.split()[0])


def var(vs, n):
    return vs[vs.get_loc(n)]


def corr(md):
    var(md.stoch, 'u').corr[0] = -.4


def other(md):
    var(md.stoch, 'u').other.append('w')
    var(md.stoch, 'u').corr.append(.25)


def history(md):
    var(md.endog, 'x').historical = 0.
    var(md.endog, 'y').terminal = 1.5


def addz(md):
    md.add_endog('z', initial=.4)
    md.add_exprs(Z)


def swapped(c):
    c = dup(c)
    c['exprs'] = [c['exprs'][1], c['exprs'][0]] + c['exprs'][2:]
    return c


def swap(md):
    md.exprs.insert(1, md.exprs.pop(0))


EDITS = {
    'param': (lambda c: put(c, 'params', 'a', -.3), upd(lambda md: setparam(md, 'a', -.3))),
    'dependent': (lambda c: put(c, 'params', 'c', 'a*0.5'), lambda md: md.add_params(c='a*0.5')),
    'local': (lambda c: put(c, 'locals', 'l', 'c'), upd(lambda md: setlocal(md, 'l', 'c'))),
    'expr 0': (lambda c: put(c, 'exprs', at(c['exprs'], EX0), EX0), EX0),
    'expr 1': (lambda c: put(c, 'exprs', at(c['exprs'], EX1), EX1), EX1),
    'swap': (swapped, upd(swap)),
    'endog': (lambda c: None if has(c, 'z') else
              put(more(c, 'z', Z), 'initial', 'z', .4), addz),
    'stoch': (lambda c: None if has(c, 'w') else
              more(c, 'w', None, {'variance': .3}, 'stoch'),
              lambda md: md.add_stoch('w', variance=.3)),
    'initial': (lambda c: put(c, 'initial', 'y', 2500.),
                lambda md: setattr(var(md.endog, 'y'), 'initial', 2500.)),
    'history': (lambda c: put(put(c, 'historical', 'x', 0.), 'terminal', 'y', 1.5), history),
    'variance': (lambda c: put(c, 'shocks', 'e', 'variance', 3.),
                 upd(lambda md: setattr(var(md.stoch, 'e'), 'variance', 3.))),
    'zero': (lambda c: put(c, 'shocks', 'e', 'variance', 0.),
             upd(lambda md: setattr(var(md.stoch, 'e'), 'variance', 0.))),
    'corr': (lambda c: put(c, 'shocks', 'u', 'corr', 0, -.4), upd(corr)),
    'other': (lambda c: None if not has(c, 'w') or len(c['shocks']['u']['corr']) > 1 else
              put(put(c, 'shocks', 'u', 'other', ['e', 'w']), 'shocks', 'u', 'corr',
                  c['shocks']['u']['corr'] + [.25]), upd(other)),
}

# what a caller may do to the inputs; each is done in place
INPUTS = {
    'param': lambda c: c['params'].__setitem__('a', .7),
    'dependent': lambda c: c['params'].__setitem__('b', 'c*2'),
    'local': lambda c: c['locals'].__setitem__('l', 'b'),
    'expr': lambda c: c['exprs'].__setitem__(1, EX1),
    'endog': lambda c: None if has(c, 'q') else (c['endog'].append('q'),
                                                 c['exprs'].append('q = 0.2*q(-1) + x')),
    'reverse': lambda c: (c['endog'].reverse(), c['stoch'].reverse()),
    'variance': lambda c: c['shocks']['e'].__setitem__('variance', 4.),
    'corr': lambda c: c['shocks']['u']['corr'].__setitem__(0, .1),
    'shock': lambda c: c['shocks'].__setitem__('e', {'variance': .1}),
    'initial': lambda c: c['initial'].update(x=.3, y=.7),
    'history': lambda c: (c['historical'].update(x=0.), c['terminal'].pop('x', None)),
}

ASKS = ['solve 2', 'path', 'decomp', 'ss']

PARTS = ['basic', 'ss residual', 'dynamic residual', 'first order']


def make(c):
    """hands the very objects to the model"""
    from pynare import Model
    return Model(endog=c['endog'], stoch=c['stoch'], params=c['params'], exprs=c['exprs'],
                 local_params=c['locals'], shocks=c['shocks'], initial=c['initial'],
                 terminal=c['terminal'], historical=c['historical'])


def empty():
    from pynare import Model
    md = Model()
    md.add_params(a=.5)
    md.add_endog('x')
    md.add_stoch('e', variance=.5)
    md.add_exprs('x = a*x(-1) + e')
    return md


EMPTY = dict(endog=['x'], stoch=['e'], params={'a': .5}, locals={}, exprs=['x = a*x(-1) + e'],
             shocks={'e': {'variance': .5}}, initial={}, terminal={}, historical={})


def valid(e, c):
    """the content an edit makes, or None if it does not apply"""
    if 'y' not in c['endog'] and e not in ('param', 'stoch', 'variance', 'zero'):
        return None
    return EDITS[e][0](c)


# a world: inputs (content) and contents of live models
def moves(w):
    n = len(w['models'])
    if n < LIMIT:
        yield ['build']
        yield ['empty']
        yield ['modelexprs']
        for i in range(n):
            yield ['copy', i]
            if 'y' in w['models'][i]['endog']:
                yield ['regime dict', i]
                yield ['regime list', i]
    for i in range(n):
        for e in EDITS:
            if valid(e, w['models'][i]) is not None:
                yield ['edit', i, e]
        for q in ASKS:
            yield ['ask', i, q]
    for e in INPUTS:
        if e != 'endog' or not has(w['inputs'], 'q'):
            yield ['input', e]


def after(w, m):
    """the world after a move, by the property alone"""
    ms, kind = list(w['models']), m[0]
    if kind in ('build', 'modelexprs'):
        ms.append(dup(w['inputs']))
    elif kind == 'empty':
        ms.append(dup(EMPTY))
    elif kind == 'copy':
        ms.append(dup(ms[m[1]]))
    elif kind in ('regime dict', 'regime list'):
        # the baseline regime is a model of its own too, but one is enough to keep
        c = ms[m[1]]
        ms.append(put(c, 'exprs', at(c['exprs'], EX0), EX0))
    elif kind == 'edit':
        ms[m[1]] = valid(m[2], ms[m[1]])
    elif kind == 'input':
        inp = dup(w['inputs'])
        INPUTS[m[1]](inp)
        return dict(w, inputs=inp)
    return dict(w, models=ms)


def do(real, m, ctx, hist, w):
    """the same on the implementation; real: dict of inputs and models"""
    from pynare.regimes import RegimeSwitchingModel
    kind = m[0]
    c = w['models'][m[1]] if kind in ('regime dict', 'regime list', 'edit') else None
    ctx.step()
    if kind == 'build':
        real['models'].append(make(real['inputs']))
    elif kind == 'modelexprs':
        # the parsed expressions of another model
        inp = real['inputs']
        if 'parsed' not in real or real['parsed'][0] != inp['exprs']:
            from pynare.core.expressions import ModelExprs
            real['parsed'] = (list(inp['exprs']), ModelExprs(inp['exprs']))
        real['models'].append(make(dict(inp, exprs=real['parsed'][1])))
    elif kind == 'empty':
        real['models'].append(empty())
    elif kind == 'copy':
        real['models'].append(real['models'][m[1]].copy())
    elif kind == 'regime dict':
        ex = {at(c['exprs'], EX0): EX0}
        keep = dict(ex)
        rs = RegimeSwitchingModel(real['models'][m[1]], ex)
        ctx.check(ex == keep, 'regimes changed their expressions', history=hist)
        real['models'].append(rs[1])
        ctx.check(len(rs) == 2, 'number of regimes', got=len(rs), history=hist)
        ctx.check(rs.name == real['models'][m[1]].name, 'name of a regime model', got=rs.name)
        ctx.raises(ValueError, lambda: RegimeSwitchingModel(real['models'][m[1]]),
                   'regimes without any expressions')
        real['regimes'].append((rs[0], real['models'][m[1]], c))
    elif kind == 'regime list':
        rs = RegimeSwitchingModel(real['models'][m[1]], [{at(c['exprs'], EX0): EX0}])
        real['models'].append(rs[1])
        ctx.check(len(rs) == 2, 'number of regimes', got=len(rs), history=hist)
        ctx.check(rs.name == real['models'][m[1]].name, 'name of a regime model', got=rs.name)
        ctx.raises(ValueError, lambda: RegimeSwitchingModel(real['models'][m[1]]),
                   'regimes without any expressions')
        real['regimes'].append((rs[0], real['models'][m[1]], c))
    elif kind == 'edit':
        how, md = EDITS[m[2]][1], real['models'][m[1]]
        if isinstance(how, str):
            md.exprs[at(c['exprs'], how)] = how
            md.update()
        else:
            how(md)
    elif kind == 'ask':
        observe.ask(real['models'][m[1]], m[2])
    elif kind == 'input':
        INPUTS[m[1]](real['inputs'])


@functools.lru_cache(maxsize=200000)
def _fresh(key):
    md = make(json.loads(key))
    return [observe.ask(md, p) for p in PARTS]


def replay(ctx, hist):
    w = dict(inputs=dup(first_inputs()), models=[dup(first_inputs())])
    inp = first_inputs()
    real = dict(inputs=inp, models=[make(inp)], regimes=[])
    for m in hist:
        do(real, m, ctx, hist, w)
        w = after(w, m)
    ctx.trace()
    ctx.state(json.dumps(w, sort_keys=True))
    ctx.check(real['inputs'] == w['inputs'], "the caller's inputs changed", history=hist,
              got=real['inputs'], expected=w['inputs'])
    for k, (md, c) in enumerate(zip(real['models'], w['models'])):
        for part, want in zip(PARTS, _fresh(json.dumps(c))):
            observe.compare(ctx, observe.ask(md, part), want,
                            f'a model is not what its own content says: {part}',
                            history=hist, model=k)
    for base, origin, c in real['regimes']:
        for part, want in zip(PARTS, _fresh(json.dumps(c))):
            observe.compare(ctx, observe.ask(base, part), want,
                            f'the baseline regime changed: {part}', history=hist)
    ctx.check(len({id(m) for m in real['models']}) == len(real['models']),
              'two models are the same object', history=hist)
    return len(w['models'])


def start():
    return dict(inputs=dup(first_inputs()), models=[dup(first_inputs())])


def cases(tier):
    for m in moves(start()):
        yield [[m], tier == 'thorough']
        for m2 in moves(after(start(), m)):
            yield [[m, m2], tier == 'thorough']


def case_number(hist):
    firsts = list(moves(start()))
    i = firsts.index(hist[0])
    return 3 * i + list(moves(after(start(), hist[0]))).index(hist[1])


def run(case, ctx):
    hist, deep = case
    w = start()
    for m in hist:
        w = after(w, m)
    ctx.outcome((len(hist), replay(ctx, hist)))
    if len(hist) < 2:
        return
    k = case_number(hist)
    for j, m in enumerate(moves(w)):
        if deep or (j + k) % 10 == 0:
            ctx.outcome((3, replay(ctx, hist + [m])))
        if deep and (j + k) % 12 == 0:
            for i, m2 in enumerate(moves(after(w, m))):
                if (i + j + k) % 12 == 0:
                    ctx.outcome((4, replay(ctx, hist + [m, m2])))
    ctx.tally(True)
