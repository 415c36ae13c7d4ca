"""C01: expressions have the value ordinary arithmetic gives them"""
import math

from mc import exprs
from mc.sym import N, P, V, ev, FN, leaves

ID = 'C01'
LEVEL = 'exploration'
RULE = ('every token string up to a length over operators, parentheses, functions, numbers, '
        'parameters and variables with lags and leads that is an expression or equation, '
        'evaluated through the expression evaluator, through parameter assignments, boundary '
        'values and shock moments of a model file, and through the steady and dynamic residuals '
        'of a model; plus every function and number literal on a grid; non-trivial: the '
        'reference value is finite and real')
ASSUMPTIONS = ['reference precedence-climbing parser and IEEE arithmetic',
               'exponentiation groups to the right (documented in the parser)']
CHUNK = 2

A = 3.0


def value(e, par, var):
    try:
        v = ev(e, par, var)
    except (ZeroDivisionError, OverflowError, ValueError):
        return None
    if isinstance(v, complex) or not math.isfinite(v) or abs(v) > 1e15:
        return None
    return float(v)


def foldable(e, par):
    """every part without variables (shocks are zero at rest) has a finite real value"""
    if all(v == ('e', 0) for v in leaves(e)):
        return value(e, par, {('e', 0): 0.0}) is not None
    return all(foldable(x, par) for x in e[1:] if isinstance(x, tuple))


def same(a, b):
    return abs(a - b) <= 1e-9 * (1 + abs(b))


ALPHA = ['a', '2', '+', '-', '*', '/', '^', '(', ')']
SMALL = ['a', '2', '-', '/', '^', '(', ')']
OPS = ['a', '-', '*', '/', '^', '+']
# model equations: variables at three dates, parameter, shock
EQ = ['x', 'x(-1)', 'x(+1)', 'p', '2', '+', '-', '*', '/', '^', '(', ')', '=', 'e']
EQS = ['x', 'x(+1)', '-', '/', '^', '(', ')', '=']


def cases(tier):
    deep = tier == 'thorough'
    for p in ALPHA:
        for q in ALPHA:
            yield ['eval', ALPHA, p + ' ' + q, 4]
    for p in SMALL:
        for q in SMALL:
            yield ['eval', SMALL, p + ' ' + q, 6 if deep else 5]
    for p in OPS:
        for q in OPS:
            yield ['eval', OPS, p + ' ' + q, 6 if deep else 5]
    if deep:
        for p in ALPHA:
            for q in ALPHA:
                for r in ALPHA:
                    yield ['eval', ALPHA, ' '.join((p, q, r)), 4]
    for p in EQ:
        for q in EQ:
            yield ['model', EQ, p + ' ' + q, 4 if deep else 3]
    for p in EQS:
        for q in EQS:
            yield ['model', EQS, p + ' ' + q, 5 if deep else 4]
    for p in ALPHA:
        for q in ALPHA:
            yield ['file', ALPHA, p + ' ' + q, 4 if deep else 3]
    for f in exprs.FUNCS:
        yield ['func', f]
    for f in exprs.FUNCS:
        yield ['funcmodel', f]
    yield ['numbers']
    yield ['compare']
    yield ['python']
    yield ['long']


NAMES = {'a': P('a'), '2': N(2)}
ENAMES = {'x': V('x'), 'x(-1)': V('x', -1), 'x(+1)': V('x', 1), 'p': P('p'), '2': N(2),
          'e': V('e')}


def tails(case):
    alphabet, pre, n = case[1], tuple(case[2].split()), case[3]
    if pre[1] == alphabet[0]:
        yield pre[:1]
    yield pre
    for t in exprs.strings(alphabet, n):
        yield pre + t


def run(case, ctx):
    globals()['run_' + case[0]](case, ctx)


def run_eval(case, ctx):
    from pynare.parsing import evaluate
    n = 0
    for toks in tails(case):
        e = exprs.parse(toks, NAMES)
        if e is None:
            continue
        want = value(e, {'a': A}, {})
        ctx.tally(want is not None)
        if want is None:
            continue
        n += 1
        s = ''.join(toks)
        got = evaluate(s, {'a': A})
        if not same(got, want):
            ctx.fail('wrong value', text=s, got=got, expected=want)
            return
    ctx.outcome(('evaluated', n > 0))


def run_model(case, ctx):
    """equations in groups: steady and dynamic residuals"""
    names = ENAMES
    par = {'p': 1.5}
    good = []
    for toks in tails(case):
        if toks.count('=') > 1:
            continue
        e = exprs.parse_equation(toks, names)
        # a number divided by zero has no value, whatever the rest of the equation is
        if e is not None and foldable(e[0], par) and foldable(e[1], par):
            good.append((''.join(toks), e))
    group = 60
    st = {('x', k): 2.5 for k in (-1, 0, 1)}
    st[('e', 0)] = 0.0
    dy = {('x', -1): 2.5, ('x', 0): 0.75, ('x', 1): 3.5, ('e', 0): -1.25}
    for k in range(0, len(good), group):
        part = good[k:k + group]
        check_model(ctx, part, par, st, dy)
        if ctx.problems:
            return
    ctx.outcome(('model', len(good) > 0))


def check_model(ctx, part, par, st, dy):
    import numpy as np
    from pynare import Model
    from pynare.parsing import read_model
    vals = []
    for s, (l, r) in part:
        w = []
        for env in (st, dy):
            a, b = value(l, par, env), value(r, par, env)
            w.append(None if a is None or b is None else a - b)
        vals.append(w)
        ctx.tally(w[0] is not None or w[1] is not None)
    texts = [s for s, _ in part]
    keep = 'x(-1) + x + x(+1) + e = 0'
    built = {'strings': Model(endog=['x'], stoch=['e'], params=dict(par), exprs=texts + [keep])}
    src = ('var x; varexo e; parameters p; p = 1.5; model; '
           + ' '.join(s + ';' for s in texts + [keep]) + ' end; shocks; end;')
    built['file'] = Model.from_outline(read_model(src, 'dynare'))
    for how, md in built.items():
        # every equation on its own, where it is defined
        S = [f for f in np.atleast_1d(md.steady_repr(np.array([2.5])))]
        D = [f for f in np.atleast_1d(md.dynamic_repr(np.array([2.5, 0.75, 3.5, -1.25])))]
        for i, s in enumerate(texts):
            for name, got, want in (('steady', S[i], vals[i][0]), ('dynamic', D[i], vals[i][1])):
                if want is not None and not same(got, want):
                    ctx.fail(f'wrong {name} residual ({how})', equation=s, got=got,
                             expected=want)
                    return


def run_file(case, ctx):
    """parameter assignments, boundary values and shock moments of a model file"""
    from pynare.parsing import read_model
    from pynare import Model
    good = []
    for toks in tails(case):
        e = exprs.parse(toks, NAMES)
        if e is None:
            continue
        w = value(e, {'a': A}, {})
        ctx.tally(w is not None)
        if w is not None:
            good.append((''.join(toks), w))
    n = 0
    for k in range(0, len(good), 12):
        part = good[k:k + 12]
        m = len(part)
        ps = [f'q{i}' for i in range(m)]
        xs = [f'x{i}' for i in range(m)]
        es = [f'e{i}' for i in range(m)]
        src = [f"var {' '.join(xs)};", f"varexo {' '.join(es)};",
               f"parameters a {' '.join(ps)};", 'a = 3;']
        src += [f'{q} = {s};' for q, (s, _) in zip(ps, part)]
        src += ['model;'] + [f'{x} = {q}*{x}(-1) + {e};' for x, q, e in zip(xs, ps, es)] + ['end;']
        src += ['initval;'] + [f'{x} = {s};' for x, (s, _) in zip(xs, part)] + ['end;']
        src += ['shocks;'] + [f'var {e} = {s};' for e, (s, _) in zip(es, part)] + ['end;']
        o = read_model('\n'.join(src), 'dynare')
        md = Model.from_outline(o)
        S = md.sigma
        for i, (s, w) in enumerate(part):
            n += 1
            if not same(md.params[ps[i]], w):
                ctx.fail('wrong parameter value', text=s, got=md.params[ps[i]], expected=w)
            elif not same(md.initial[i], w):
                ctx.fail('wrong initial value', text=s, got=md.initial[i], expected=w)
            elif not same(S[i, i], w):
                ctx.fail('wrong variance', text=s, got=S[i, i], expected=w)
            else:
                continue
            return
    ctx.outcome(('file', n > 0))


GRID = [-2.5, -1.0, -0.9, -0.3, 0.0, 0.2, 0.5, 1.0, 1.7, 3.0]


def run_func(case, ctx):
    from pynare.parsing import evaluate
    f = case[1]
    for x in GRID:
        for form, arg in (('{f}(a)', lambda x: x), ('{f}(-a)', lambda x: -x),
                          ('-{f}(a+1)', lambda x: x + 1), ('{f}((a))^2', lambda x: x),
                          ('2*{f}(a*2/4)+1', lambda x: x * 2 / 4),
                          ('{f}({f}(a))', None), ('{f}(exp(a)-1)', lambda x: math.exp(x) - 1)):
            s = form.format(f=f)
            try:
                if arg is None:
                    v = FN[f](FN[f](x))
                else:
                    v = FN[f](arg(x))
                    v = {'-': lambda v: -v, '2': lambda v: 2 * v + 1}.get(
                        form[0], (lambda v: v ** 2) if form.endswith('^2') else (lambda v: v))(v)
            except (ValueError, OverflowError, ZeroDivisionError):
                ctx.tally(False)
                continue
            ctx.tally(True)
            got = evaluate(s, {'a': x})
            if not ctx.check(same(float(got), v), 'wrong value', text=s, a=x, got=got, expected=v):
                return
    ctx.outcome(('function', f))


def run_funcmodel(case, ctx):
    import numpy as np
    from pynare import Model
    f = case[1]
    eqs = ['x = 0.5*x(-1) + 0.25 + e', f'y = {f}(x(-1)) + {f}(p*x)', f'z = -{f}(x(+1)/2)*p',
           f'w = 1 - {f}({f}(x(-1))/3 + 0.4)^2']
    g = FN[f]
    md = Model(endog=['x', 'y', 'z', 'w'], stoch=['e'], params={'p': 0.4}, exprs=eqs,
               initial={'x': 0.5, 'y': g(.5) + g(.2), 'z': -g(.25) * .4,
                        'w': 1 - g(g(.5) / 3 + .4) ** 2})
    for a in GRID:
        for b in (0.3, 1.2, -0.2):
            try:
                want = [b - .5 * a - .25 - .1, .7 - g(a) - g(.4 * b), .8 + g(-a / 2) * .4,
                        .9 - 1 + g(g(a) / 3 + .4) ** 2]
                rest = [b - .5 * b - .25, .7 - g(b) - g(.4 * b), .8 + g(b / 2) * .4,
                        .9 - 1 + g(g(b) / 3 + .4) ** 2]
            except (ValueError, OverflowError, ZeroDivisionError):
                ctx.tally(False)
                continue
            ctx.tally(True)
            for how, got, ref in (
                    ('dynamic', md.dynamic_repr(np.array([a, b, .7, .8, .9, -a, .1])), want),
                    ('steady', md.steady_repr(np.array([b, .7, .8, .9])), rest)):
                for i in range(4):
                    if not ctx.check(same(got[i], ref[i]), f'wrong {how} residual',
                                     equation=eqs[i], x_1=a, x=b, got=got[i], expected=ref[i]):
                        return
    ctx.outcome(('function in a model', f))


LITS = ['0', '1', '7', '10', '42', '007', '0.5', '.5', '5.', '1.50', '0.000001', '123456789',
        '3.141592653589793', '0.1', '100.001', '00.25', '99999.5']


def run_numbers(case, ctx):
    from pynare.parsing import evaluate, read_model
    from pynare import Model
    for s in LITS:
        for pre, f in (('', lambda v: v), ('-', lambda v: -v), ('+', lambda v: v),
                       ('2*', lambda v: 2 * v), ('1-', lambda v: 1 - v), ('(', lambda v: v)):
            t = pre + s + (')' if pre == '(' else '')
            ctx.tally()
            got = evaluate(t, {})
            if not ctx.check(same(got, f(float(s))), 'wrong number', text=t, got=got):
                return
    src = ('var x; varexo e; parameters ' + ' '.join(f'p{i}' for i in range(len(LITS))) + ';'
           + ''.join(f'p{i}={s};' for i, s in enumerate(LITS))
           + 'model; x = 0.5*x(-1)+e; end; shocks; end;')
    md = Model.from_outline(read_model(src, 'dynare'))
    for i, s in enumerate(LITS):
        ctx.tally()
        ctx.check(md.params[f'p{i}'] == float(s), 'wrong number in a file', text=s,
                  got=md.params[f'p{i}'])
    ctx.outcome('numbers')


def run_compare(case, ctx):
    from pynare.parsing import evaluate
    import operator as o
    ops = {'<': o.lt, '<=': o.le, '>': o.gt, '>=': o.ge, '==': o.eq}
    sides = [('a', lambda a: a), ('-a', lambda a: -a), ('2*a-1', lambda a: 2 * a - 1),
             ('a^2', lambda a: a * a), ('1', lambda a: 1.0), ('(a+1)', lambda a: a + 1)]
    for s, f in ops.items():
        for l, lf in sides:
            for r, rf in sides:
                for a in (-2.0, -1.0, 0.0, 0.5, 1.0, 2.0):
                    ctx.tally()
                    for sp in ('', ' '):
                        t = l + sp + s + sp + r
                        got = evaluate(t, {'a': a})
                        if not ctx.check(bool(got) == f(lf(a), rf(a)), 'wrong comparison',
                                         text=t, a=a, got=got):
                            return
    ctx.outcome('comparisons')


def run_python(case, ctx):
    """the alternative exponent sign"""
    from pynare.parsing import evaluate
    for toks in exprs.strings(['a', '2', '-', '*', '^', '(', ')'], 6):
        e = exprs.parse(toks, NAMES)
        if e is None or '^' not in toks:
            continue
        want = value(e, {'a': A}, {})
        ctx.tally(want is not None)
        if want is None:
            continue
        s = ''.join('**' if t == '^' else t for t in toks)
        got = evaluate(s, {'a': A}, exp='python')
        if not ctx.check(same(got, want), 'wrong value (python exponents)', text=s, got=got,
                         expected=want):
            return
    ctx.outcome('python exponents')


def run_long(case, ctx):
    """deep nesting and long chains"""
    from pynare.parsing import evaluate
    for n in (10, 25, 40):
        for s, w in (('(' * n + '2' + ')' * n, 2.0), ('-' * n + '2', 2.0 * (-1) ** n),
                     ('-'.join(['1'] * n), 2.0 - n), ('/'.join(['2'] * n), 2.0 ** (2 - n)),
                     ('exp(' * 3 + 'log(' * 3 + '20' + ')' * 6, 20.0),
                     ('1-(' * n + '1' + ')' * n, 1.0 if n % 2 == 0 else 0.0),
                     ('*'.join(['2', '3', '1'] * (n // 3)), 6.0 ** (n // 3)),
                     ('2^1' * 1 + '^1' * n, 2.0)):
            ctx.tally()
            got = evaluate(s, {})
            ctx.check(same(got, w), 'wrong value', text=s, got=got, expected=w)
    ctx.outcome('long')
