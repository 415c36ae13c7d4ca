"""C31: what is printed of the parts of a model is what they hold"""
import itertools
import math
import re

from mc.access import creator

ID = 'C31'
LEVEL = 'exploration'
RULE = ('calibrations of up to 3 (thorough: 4) parameters over values from tiny to infinite, '
        'negative, not a number, integers, formulas of each other, and names of different '
        'lengths, as first made and after every one of their edits; shocks with every variance '
        'and every list of up to 3 correlations or covariances; variables with every combination '
        'of boundary values; arrays of up to 4 variables, sliced, reordered and joined; models '
        'after all sequences of 3 (thorough: 4) edits and solves, with what they were asked for; '
        'constraints of 1 to 4 pairs of conditions; outcome = (kind, number of things shown)')
ASSUMPTIONS = [
    'layout is free: a part is read back by looking for `name = value`, `name=value` and names '
    'in order',
    'calibrations are printed to six decimals',
]
CHUNK = 16

INF, NAN = float('inf'), float('nan')
NUMS = [0, 0., -0., 1, -1, .5, -12.25, 1e-9, -1e-7, 99999.5, 1e12, -123456789.125, INF, -INF, NAN, True]
FORMULAS = ['2*a', 'a/3 - 1', '-a']
NAMES = ['a', 'bb', 'long_name', 'z9']


def cases(tier):
    deep = tier == 'thorough'
    yield ['calib', []]
    for v in NUMS:
        yield ['calib', [v]]
        for w in NUMS + FORMULAS:
            yield ['calib', [v, w]]
    mid = [0, -12.25, 1e-9, 1e12, INF, NAN]
    for vs in itertools.product(mid, mid + FORMULAS[:2], NUMS + FORMULAS):
        yield ['calib', list(vs)]
    if deep:
        for vs in itertools.product(mid, mid + FORMULAS[:2], mid + FORMULAS[2:], mid + ['bb + a']):
            yield ['calib', list(vs)]
    vals = [0, 0., .5, -1, 1e-8]
    for var in (None, 0, 0., 1, 2.5):
        yield ['stoch', var, []]
        for n in range(1, 4):
            kinds = [('corr', v) for v in vals] + [('cov', v) for v in vals]
            if n > 1:
                kinds = kinds[:3:2] + kinds[7:10:2] + [('both', .25)]
            for c in itertools.product(kinds, repeat=n):
                yield ['stoch', var, [list(x) for x in c]]
    for b in itertools.product((None, 0, 0., -1.5, 3), repeat=3):
        yield ['endog', list(b)]
    for p in (None, [1], [1, 2, 5]):
        for v in (None, [0.], [1., -2., .5]):
            yield ['determ', p, v]
    for n in range(0, 5):
        for p in itertools.permutations(range(4), n):
            for vt in ('endog', 'stoch'):
                yield ['array', list(p), vt]
    for name in ('', 'growth'):
        for h in itertools.product(range(len(EDITS)), repeat=4 if deep else 3):
            yield ['model', name, list(h)]
    conds = [['x > 1', 'x < 0'], ['y - x > a', 'y <= 0.5'], ['x + e > 0', 'y < x'], ['x >= 2*y', 'x > 0']]
    for n in range(1, 5):
        for p in itertools.permutations(range(4), n):
            yield ['constraint', [conds[i] for i in p], n == 1 and p[0] % 2 == 0]


def run(case, ctx):
    globals()['run_' + case[0]](*case[1:], ctx=ctx)


def shown(text):
    """`name = number` pairs in order"""
    return [(k, float(v)) for k, v in
            re.findall(r'([A-Za-z_]\w*)\s*=\s*([-+]?(?:inf|nan|[\d.]+(?:e[-+]?\d+)?))', text)]


def same(a, b):
    if math.isnan(b):
        return math.isnan(a)
    if math.isinf(b):
        return a == b
    return abs(a - b) <= 5.1e-7 + 1e-12 * abs(b)


def value(vs):
    """the values, formulas solved by hand; None where none exists"""
    out = {}
    for k, v in zip(NAMES, vs):
        if isinstance(v, str):
            a = float(out['a'])
            v = {'2*a': lambda: 2 * a, 'a/3 - 1': lambda: a / 3 - 1, '-a': lambda: -a,
                 'bb + a': lambda: float(out['bb']) + a}[v]()
        out[k] = v
    return out


def judge_calib(mc, want, ctx, **what):
    ctx.step()
    got = shown(str(mc))
    ctx.check([k for k, _ in got] == list(want), 'names printed', got=[k for k, _ in got],
              expected=list(want), text=str(mc), **what)
    ctx.check(len(got) != len(want) or all(same(x, float(want[k])) for k, x in got),
              'values printed', expected=want, text=str(mc), **what)
    lines = [l for l in str(mc).split('\n') if '=' in l]
    ctx.check(len({len(l) for l in lines}) <= 1 and len({l.index('=') for l in lines}) <= 1,
              'columns do not line up', text=str(mc), **what)
    ctx.check(re.search(r'\b%d\b' % len(want), repr(mc)) is not None, 'number of parameters',
              got=repr(mc), expected=len(want), **what)


def run_calib(vs, ctx):
    from pynare.core.variables import ModelCalibration
    defs = dict(zip(NAMES, vs))
    want = value(vs)
    mc = ModelCalibration(defs)
    judge_calib(mc, want, ctx, made=defs)
    ctx.outcome(('calib', len(vs)))
    # after every edit
    for v in (0., 1e7, 'formula') if len(vs) < 3 else (1e7,):
        for k in list(want) + ['new']:
            mc = ModelCalibration(defs)
            str(mc)
            nvs = dict(defs)
            nvs[k] = '-a' if v == 'formula' else v
            if v == 'formula' and (k == 'a' or 'a' not in defs):
                continue
            mc[k] = nvs[k]
            w = value([nvs[n] for n in NAMES if n in nvs])
            if 'new' in nvs:
                w['new'] = -float(w['a']) if v == 'formula' else v
            judge_calib(mc, w, ctx, made=defs, then=f'{k} = {nvs[k]}')
    for k in want:
        if k == 'a' and any(isinstance(v, str) for v in vs) or \
                k == 'bb' and 'bb + a' in [v for v in vs if isinstance(v, str)]:
            continue
        mc = ModelCalibration(defs)
        str(mc)
        del mc[k]
        judge_calib(mc, {n: x for n, x in want.items() if n != k}, ctx, made=defs, then=f'del {k}')
    mc = ModelCalibration(defs)
    mc.clear()
    judge_calib(mc, {}, ctx, made=defs, then='clear')


def run_stoch(var, com, ctx):
    from pynare.core.variables import StochVar
    others = ['u', 'v', 'w'][:len(com)]
    corr = [v if k in ('corr', 'both') else None for k, v in com]
    cov = [v * 2 if k == 'both' else v if k == 'cov' else None for k, v in com]
    if not com:
        s = StochVar('e', variance=var)
    elif len(com) == 1:
        s = StochVar('e', 'u', var, corr=corr[0], cov=cov[0])
    else:
        s = StochVar('e', others, var, corr=corr, cov=cov)
    text = repr(s)
    got = re.findall(r'(corr|cov)\((\w+), (\w+)\)\s*=\s*([^,)]+)', text)
    want = []
    for o, a, b in zip(others, corr, cov):
        want += [('corr', 'e', o, a)] if a is not None else []
        want += [('cov', 'e', o, b)] if b is not None else []
    ctx.check([(a, b, c) for a, b, c, _ in got] == [w[:3] for w in want], 'comoments shown',
              got=text, expected=want)
    ctx.check(len(got) != len(want) or all(float(g[3]) == w[3] for g, w in zip(got, want)),
              'values of comoments shown', got=text, expected=want)
    m = re.search(r'variance\s*=\s*([^,)]+)', text)
    ctx.check(m is not None and (m[1] == 'None' if var is None else float(m[1]) == var),
              'variance shown', got=text, expected=var)
    ctx.check(str(s) == 'e', 'name', got=str(s))
    ctx.outcome(('stoch', len(want)))


def run_endog(b, ctx):
    from pynare.core.variables import EndogVar
    names = ['initial', 'terminal', 'historical']
    x = EndogVar('x', **dict(zip(names, b)))
    want = {n: getattr(x, n) for n in names if getattr(x, n) is not None}
    for n, v in zip(names, b):
        ctx.check(want.get(n) == v or v is None and (n != 'initial' or want.get(n) in (0, None)),
                  'boundary value', name=n, given=v, got=want.get(n))
    ctx.check(dict(shown(repr(x))) == want and re.search(r'\bx\b', repr(x)), 'boundary values shown',
              got=repr(x), expected=want)
    ctx.check(str(x) == 'x', 'name', got=str(x))
    ctx.outcome(('endog', len(want)))


def run_determ(p, v, ctx):
    from pynare.core.variables import DetermVar
    text = repr(DetermVar('d', periods=p, values=v))
    ctx.check(str(p) in text and str(v) in text and re.search(r'\bd\b', text), 'what is shown', got=text,
              periods=p, values=v)
    ctx.outcome(('determ', 2))


def words(text):
    m = re.search(r'\[(.*?)\]', text)
    return re.findall(r'\w+', m[1] if m else text)


def run_array(p, vt, ctx):
    from pynare.core.variables import VarArray
    base = ['x', 'y_2', 'xx', 'k']
    a = creator(vt)(base)
    got = a[p] if p else a[:0]
    want = [base[i] for i in p]
    ctx.check(words(str(got)) == want and (vt in str(got) or not p), 'names of an array',
              got=str(got), expected=want)
    ctx.check(vt in repr(got) or not p, 'kind of an array', got=repr(got))
    if p:
        got = VarArray([*a[p[:1]], *a[p[1:]]])
        ctx.check(words(str(got)) == want, 'names of a joined array', got=str(got), expected=want)
        for lo, hi in itertools.combinations(range(5), 2):
            ctx.step()
            g = a[p][lo:hi]
            ctx.check(words(str(g)) == want[lo:hi], 'names of a slice', got=str(g), expected=want[lo:hi])
    ctx.outcome(('array', len(p)))


EDITS = ['param', 'more', 'endog', 'stoch', 'solve 1', 'solve 2', 'forward', 'wide']


def numbers(text):
    return [int(x) for x in re.findall(r'(?<![\w.])\d+(?![\w.])', text)]


def run_model(name, hist, ctx):
    from pynare import Model
    m = Model(endog=['x', 'y'], stoch=['e'], params={'a': .5}, name=name,
              exprs=['x = a*x(-1) + e', 'y = 0.3*y(-1) + x'])
    par, eqs = {'a': .5}, ['x = a*x(-1) + e', 'y = 0.3*y(-1) + x']
    endog, stoch, fwd, order = ['x', 'y'], ['e'], 0, None
    text0 = None
    for i, h in enumerate(hist + [None]):
        ctx.step()
        what = dict(edits=[EDITS[j] for j in hist[:i]], name=name)
        ctx.check((name in repr(m)) if name else numbers(repr(m)) == [len(endog)], 'model', got=repr(m),
                  expected=len(endog), **what)
        ctx.check(words(str(m.endog)) == endog, 'variables', got=str(m.endog), expected=endog, **what)
        ctx.check(words(str(m.stoch)) == stoch, 'shocks', got=str(m.stoch), expected=stoch, **what)
        judge_calib(m.params, par, ctx, **what)
        ctx.check(numbers(repr(m.exprs)) == [len(eqs)], 'number of equations', got=repr(m.exprs),
                  expected=len(eqs), **what)
        got = [l.strip() for l in str(m.exprs).split('\n') if '=' in l]
        ctx.check([g.replace(' ', '') for g in got] == [e.replace(' ', '') for e in eqs],
                  'equations', got=got, expected=eqs, **what)
        ctx.check(numbers(repr(m.indexes)) == [len(endog), len(stoch)], 'indexes', got=repr(m.indexes),
                  expected=[len(endog), len(stoch)], **what)
        ctx.check(numbers(repr(m.steady_repr)) == [len(endog), len(eqs)], 'static model',
                  got=repr(m.steady_repr), **what)
        ctx.check(numbers(repr(m.dynamic_repr)) == [len(endog), len(eqs)], 'dynamic model',
                  got=repr(m.dynamic_repr), **what)
        ctx.check(numbers(repr(m.jacobian))[0] == len(eqs), 'jacobian', got=repr(m.jacobian), **what)
        if order:
            ctx.check(numbers(repr(m.solution)) == [order], 'order of the solution',
                      got=repr(m.solution), expected=order, **what)
            n = 5 + i
            ctx.check(numbers(repr(m.simulate(periods=n, order=order))) == [order, n], 'simulation',
                      got=repr(m.simulate(periods=n, order=order)), expected=[order, n], **what)
            r = m.impulse_response('e')
            ctx.check(dict(shown(repr(r))) == {'periods': r.impulse.shape[0], 'size': r.size},
                      'impulse responses', got=repr(r), **what)
        text = repr(m.statespace)
        if name:
            ctx.check(name in text, 'state space', got=text, **what)
        else:
            ctx.check(numbers(text) == [fwd], 'explosive eigenvalues', got=text, expected=fwd, **what)
        if h is None:
            break
        k = EDITS[h]
        if k == 'param':
            par['a'] = round(par['a'] - .125, 3)
            m.params['a'] = par['a']
            m.update()
        elif k == 'more':
            n = f'p{len(par)}'
            m.add_params(**{n: 1e5 * len(par)})
            par[n] = 1e5 * len(par)
        elif k == 'endog':
            n = f'z{len(endog)}'
            m.add_endog([n])
            e = f'{n} = 0.25*{n}(-1) + {endog[-1]}'
            m.add_exprs([e])
            endog.append(n); eqs.append(e)
        elif k == 'stoch':
            n = f'u{len(stoch)}'
            m.add_stoch([n])
            e = eqs[0] + f' + {n}'
            m.exprs[0] = e
            stoch.append(n); eqs[0] = e
        elif k == 'forward':
            n = f'f{len(endog)}'
            m.add_endog([n])
            e = f'{n} = 0.5*{n}(+1) + y'
            m.add_exprs([e])
            endog.append(n); eqs.append(e)
            fwd += 1
        elif k == 'wide':
            m.params['a'] = par['a'] = 0
        elif k.startswith('solve'):
            order = int(k[-1])
            m.solve(order)
        if not k.startswith('solve'):
            m.update()
            order = None
    ctx.outcome(('model', len(endog), len(stoch), len(par)))


def run_constraint(conds, flat, ctx):
    from pynare.core.solve.binding import Constraint
    c = Constraint(conds[0] if flat else conds, ['x', 'y'], {'a': 1.}, ['e'])
    text = str(c)
    at = -1
    for pair in conds:
        for s in pair:
            nxt = text.find(s, at + 1)
            ctx.check(nxt > at, 'conditions shown in order', got=text, expected=conds)
            at = nxt
    ctx.check(numbers(repr(c)) == [len(conds)], 'number of conditions', got=repr(c), expected=len(conds))
    ctx.outcome(('constraint', len(conds)))
