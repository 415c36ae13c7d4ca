"""C09: the steady state solves the static model"""
import itertools

import numpy as np

from mc import space
from mc.sym import N, V, B, F, P, mul, ev, leaves

ID = 'C09'
LEVEL = 'exploration'
RULE = ('static systems from every incidence structure of 2-variable models and ring-coupled '
        '3-variable ones (and some of 5 to 7 variables), with linear, quadratic, log, exp, power and parameterised terms, known '
        'steady states of several signs and sizes, every combination of starting values '
        'below, at or above the solution in each variable, in every declaration and equation '
        'order; every solver and way of naming it; residual functions at the corners of a grid '
        'of points; several solutions, each reached from its own neighbourhood, also far from zero; steady-state objects that compute again after '
        'every sequence of up to three changes of parameters; outcome = '
        '(form, variables, conditioning class, solver)')
ASSUMPTIONS = ['smallest singular value of the static jacobian at the solution and at the '
               'starting values at least 0.15, Newton iterations from the starting values '
               'converge to the solution',
               'solvers minimise the sum of squares; residuals below 1e-3 count as zero']
CHUNK = 8

FORMS = ['lin', 'quad', 'exp', 'log', 'pow', 'par']
SSV = {'a': {'x': 0.8, 'y': 1.3, 'z': 0.5}, 'b': {'x': -0.6, 'y': 2.0, 'z': -1.1},
       'c': {'x': 0, 'y': 0.4, 'z': 0}}
PAR = {'alpha': 0.36, 'beta': 1.7}
TOL = 1e-3


def cases(tier):
    deep = tier == 'thorough'
    k = 0
    P2, P3 = space.perms(2), space.perms(3)
    for own in (1, 2, 3):
        for form in FORMS:
            for ss in SSV:
                for d in (-1, 0, 1):
                    yield ['sys', [[own, []]], form, ss, [d], [0], [0], k % 4]
                    k += 1
    starts = list(itertools.product((-1, 0, 1), repeat=2))
    for st in space.structures(2):
        if not space.dynamic(st):
            continue
        for form in (FORMS if deep else (FORMS[k % 6],)):
            for d in (starts if deep else (starts[k % 9], starts[(k * 4 + 1) % 9])):
                yield ['sys', st, form, 'abc'[k % 3], list(d), list(P2[k % 2]),
                       list(P2[(k // 2) % 2]), k % 4]
                k += 1
    for st in space.ring_structures(3, (0, 1, 3), (0, 1, 6) if deep else (0, 5)):
        if not space.dynamic(st):
            continue
        d = [(-1, 0, 1)[(k // 3 ** i) % 3] for i in range(3)]
        yield ['sys', st, FORMS[k % 6], 'abc'[k % 3], d, list(P3[k % 6]),
               list(P3[(k // 6) % 6]), k % 4]
        k += 1
    # all orders of declarations and equations of some systems
    for form in FORMS:
        for p in P3:
            for q in P3:
                yield ['sys', [[1, [2, 0]], [2, [4, 1]], [3, [0, 2]]], form, 'a', [1, -1, 0],
                       list(p), list(q), 0]
    for i, st in enumerate(space.large_structures((5, 6, 7) if deep else (5, 6), (1, 2, 0, 4, 3))):
        if not deep and i % 4:
            continue
        n, j = len(st), i // (1 if deep else 4)
        yield ['sys', st, FORMS[j % 6], 'abc'[j // 6 % 3],
               [(-1, 0, 1)[(j // 3 + m) % 3] for m in range(n)],
               space.large_perm(n, j), space.large_perm(n, j // 4 + 1), j % 4]
    yield ['several']
    yield ['several far']
    yield ['huge']
    yield ['again']
    yield ['solvers']
    yield ['boundary']


def build_spec(st, form, ss, p, q):
    s = space.structure_spec([(o, tuple(c)) for o, c in st], 'small', 'each')
    vals = list(SSV[ss].values())
    ssv = {v: vals[space.NAMES.index(v) % 3] for v in s.endog}
    env = {(v, k): float(ssv[v]) for v in s.endog for k in (-1, 0, 1)}
    env.update({(v, 0): 0.0 for v in s.stoch})
    eqs = []
    s.params = dict(PAR) if form == 'par' else {}
    for i, (l, r) in enumerate(s.eqs):
        lv = sorted(x for x in leaves(r) if x[0] in s.endog)
        for j, (nm, k) in enumerate(lv):
            t = V(nm, k)
            c = N(.1 + .05 * ((i + j) % 3))
            if form == 'quad':
                r = B('+', r, mul(c, t, V(*lv[-1])))
            elif form == 'exp':
                r = B('-', r, mul(c, F('exp', t)))
            elif form == 'log':
                r = B('+', r, mul(c, F('log', B('+', N(4), t))))
            elif form == 'pow':
                r = B('+', r, mul(c, B('^', B('+', N(3), t), N(1.5))))
            elif form == 'par':
                r = B('-', r, B('*', P('alpha' if j % 2 else 'beta'), mul(c, t)))
        if form in ('exp', 'quad') and i < len(s.stoch):
            # a shock that multiplies an endogenous variable: gone in the steady state
            r = B('+', r, mul(V(s.stoch[i]), V(s.endog[0], 0)))
        gap = ev(l, s.params, env) - ev(r, s.params, env)
        eqs.append((l, B('+', r, N(round(gap, 12)))))
    s.eqs, s.ss = eqs, ssv
    return s.permuted(endog=p, eqs=q)


def newton(s, x0):
    """Newton iterations on the static system; None unless they settle"""
    x = np.array(x0, dtype=float)
    for _ in range(60):
        ss = dict(zip(s.endog, map(float, x)))
        try:
            r = s.residuals(ss)
            J = sum(s.jac_full(ss)[:3])
        except (ValueError, ZeroDivisionError, TypeError):
            return None
        if np.linalg.svd(J, compute_uv=False)[-1] < .15:
            return None
        d = np.linalg.solve(J, -r)
        x = x + d
        if np.abs(d).max() < 1e-12:
            return x
    return None


def run(case, ctx):
    globals()['run_' + case[0].replace(' ', '_')](case, ctx)


def residual_grid(s, md, ctx):
    """the static functions at the corners of a box around the solution"""
    n = len(s.endog)
    corners = itertools.product((-.3, .2), repeat=n) if n < 5 else \
        [[-.3 if i == j or (i + j) % 3 == 0 else .2 for i in range(n)] for j in range(n)]
    for d in corners:
        x = np.array([s.ss[v] for v in s.endog]) + d
        try:
            want = s.residuals(dict(zip(s.endog, map(float, x))))
        except (ValueError, ZeroDivisionError):
            continue
        if any(isinstance(w, complex) for w in want):
            continue
        if not ctx.close(md.steady_repr(x), want, 'static functions', 1e-10, at=x,
                         text=s.text()):
            return


def run_sys(case, ctx):
    from pynare.errors import ModelIdentificationError
    _, st, form, ss, d, p, q, how = case
    s = build_spec(st, form, ss, p, q)
    step = dict(zip(space.NAMES, d))
    start = {v: round(s.ss[v] + .15 * step[v], 6) for v in s.endog}
    s.init = dict(sorted(start.items(), reverse=how % 2 == 1))
    x0 = [start[v] for v in s.endog]
    want = newton(s, x0)
    truth = np.array([s.ss[v] for v in s.endog], dtype=float)
    if want is None or np.abs(want - truth).max() > 1e-6:
        ctx.outcome((form, 'not regular'), trivial=True)
        return
    # values close to the solution that are not needed are not given
    if how == 2:
        s.init = {k: v for k, v in s.init.items() if v != 0}
    try:
        md = s.build() if how != 3 else s.build_direct()
    except (ModelIdentificationError, np.linalg.LinAlgError):
        ctx.outcome((form, 'static block singular'), trivial=True)
        return
    text = s.text()
    ctx.outcome((form, len(s.endog), how))
    ctx.close(md.initial, x0, 'starting values', 1e-12, text=text)
    got = np.asarray(md.ss.values, dtype=float)
    if not ctx.check(got.shape == truth.shape, 'shape of the steady state', got=got, text=text):
        return
    r = s.residuals(dict(zip(s.endog, map(float, got))))
    ctx.check(np.abs(r).max() < TOL, 'static residuals are not zero', got=got, residuals=r,
              text=text)
    ctx.close(got, truth, 'steady state', 5e-3, text=text)
    ctx.close(md.steady_repr(got), r, 'static functions', 1e-10, text=text)
    residual_grid(s, md, ctx)


def run_several(case, ctx):
    """each of several solutions from its own neighbourhood"""
    from pynare import Model
    for a in (1.0, 1.5, 2.0):
        for b in (1.0, -1.0, 2.0):
            for sa in (1, -1):
                for sb in (1, -1):
                    for da in (-.2, .1, .25):
                        for order in (0, 1):
                            # x^2 = a^2,  y^2 = x^2*b^2
                            names = ['x', 'y'] if order == 0 else ['y', 'x']
                            ex = [f'x^2 = {a * a} + 0.1*(x - x(-1)) + e',
                                  f'y*y(+1) = x^2*{b * b}']
                            x, y = sa * a, sb * abs(a * b)
                            md = Model(endog=names, stoch=['e'], exprs=ex[::1 - 2 * order],
                                       initial={'y': y - da / 2, 'x': x + da})
                            got = dict(zip(names, md.ss.values))
                            ctx.tally()
                            ctx.close([got['x'], got['y']], [x, y],
                                      'not the solution next to the starting values', 5e-3,
                                      ab=(a, b), start=dict(zip(names, md.initial)))
    ctx.outcome('several solutions')


def run_huge(case, ctx):
    """steady states of very different sizes"""
    from pynare import Model
    for k in range(2, 8):
        for sign in (1, -1):
            big = sign * 2.5 * 10 ** k
            for ex in ([f'x = 0.5*x(-1) + ({big / 2}) + e', 'y = 0.5*y(-1) + 0.5*x/({:.1f})'.format(big)],
                       [f'x = 0.5*x(+1) + 0.5*({big}) + e', 'y = x/({:.1f})'.format(big)]):
                for start in (1, .9)[:2 if k < 7 else 1]:
                    md = Model(endog=['x', 'y'], stoch=['e'], exprs=ex,
                               initial={'x': start * big, 'y': start})
                    got = md.ss.values
                    ctx.tally()
                    ctx.check(abs(got[0] / big - 1) < 1e-2 and abs(got[1] - 1) < 1e-2, 'steady state',
                              got=got, expected=[big, 1], start=start)
                    res = np.asarray(md.steady_repr([big, 1.]), dtype=float)
                    ctx.check(np.abs(res).max() <= 1e-9 * abs(big), 'equations at the steady state',
                              got=res, exprs=ex)
                    res = np.asarray(md.steady_repr([2 * big, 1.]), dtype=float)
                    ctx.check(np.abs(res).max() > .4, 'equations off the steady state', got=res,
                              exprs=ex)
    ctx.outcome('huge')


def run_several_far(case, ctx):
    """the same with solutions far from zero"""
    from pynare import Model
    for c in (7.5, -8., 60., -60., 150., -150., 1200., -1200.):
        for s in (1, -1):
            for d in (-.1, .12):
                for order in (0, 1):
                    names = ['x', 'y'] if order == 0 else ['y', 'x']
                    # (x - c)^2 = 1.5^2 next to c + 1.5*s,   y = 2*c - x + ...
                    ex = [f'(x - {c})^2 = 2.25 + 0.1*(x - x(-1)) + e'.replace('- -', '+ '),
                          f'y = 0.5*y(+1) - 0.5*({c}) + 0.25*(x - {c})'.replace('- -', '+ ')]
                    x = c + 1.5 * s
                    y = -c + .5 * (x - c)
                    md = Model(endog=names, stoch=['e'], exprs=ex[::1 - 2 * order],
                               initial={'y': y - d / 2, 'x': x + d})
                    for method in (None, 'nelder-mead')[:2 if abs(c) < 10 else 1]:
                        got = dict(zip(names, md.ss.compute(method)))
                        ctx.tally()
                        ctx.close([got['x'], got['y']], [x, y], 'not the solution next to the '
                                  'starting values, far from zero', 5e-3, method=method,
                                  exprs=ex, start=dict(zip(names, md.initial)))
    ctx.outcome('several solutions far from zero')


def run_solvers(case, ctx):
    from pynare import Model
    from pynare.core.steady import SteadyState
    ex = ['x = 0.5*x(-1) + 0.2*y + 0.3 + e', 'y = 0.4*y(+1) + log(1 + x^2) - 0.1*u*y']
    s = None
    for init in ({'x': .6, 'y': .3}, {'x': 1, 'y': .9}, {'x': .8, 'y': 0.5}):
        for order in (['x', 'y'], ['y', 'x']):
            md = Model(endog=order, stoch=['e', 'u'], exprs=ex, initial=init)
            ref = dict(zip(order, md.ss.values))
            for method in (None, 8, 8.0, '', 'nelder-mead'):
                for kw in ({}, {'tol': 1e-9}, {'options': {'maxiter': 5000}}):
                    st = SteadyState(md) if kw else md.ss
                    got = st.compute(method=method, **kw) if kw or method != '' \
                        else st.compute(method)
                    ctx.tally()
                    ctx.check(np.abs(md.steady_repr(got)).max() < TOL, 'residuals',
                              method=method, got=got)
                    ctx.close(got, [ref[v] for v in order], 'depends on the solver', 5e-3,
                              method=method, options=kw)
                    ctx.check(st.values is not None and np.array_equal(st.values, got)
                              and np.array_equal(st.results.x, got),
                              'results differ from the values computed', method=method)
            # solvers that aren't available
            for bad in ('no such', 99, 0):
                ctx.raises(Exception, lambda: md.ss.compute(method=bad), 'unknown solver',
                           method=bad)
            # the covariance of the shocks has no effect
            for shocks in ({'e': {'variance': 4}}, {'u': {'variance': .01},
                                                    'e': {'variance': 9}}):
                other = Model(endog=order, stoch=['e', 'u'], exprs=ex, initial=init,
                              shocks=shocks)
                ctx.close(other.ss.values, md.ss.values, 'depends on the shocks', 1e-12)
            # fewer shocks: the one multiplying y dropped
            other = Model(endog=order, stoch=['e'],
                          exprs=[ex[0], ex[1].replace(' - 0.1*u*y', '')], initial=init)
            ctx.close(other.ss.values, md.ss.values, 'depends on the shocks', 5e-3)
    ctx.outcome('solvers')


def run_again(case, ctx):
    """computing again: after each sequence of changes, what the model is now"""
    from pynare import Model
    from pynare.core.steady import SteadyState
    edits = {'a1': ('alpha', .5), 'a2': ('alpha', .2), 'b1': ('beta', 2.5)}
    for n in (1, 2, 3):
        for seq in itertools.product(edits, repeat=n):
            for which in ('held', 'held, values first', 'own'):
                md = Model(endog=['x', 'y'], stoch=['e'], params={'alpha': .3, 'beta': 1},
                           exprs=['x = 0.5*x(-1) + alpha*y(+1) + beta + e',
                                  'y = 0.4*y(+1) + alpha*x + 0.3'],
                           initial={'x': 2, 'y': 1})
                st = SteadyState(md) if which == 'own' else md.ss
                if which == 'held, values first':
                    st.values
                par = {'alpha': .3, 'beta': 1}
                for i, name in enumerate(seq):
                    k, v = edits[name]
                    par[k] = v
                    md.add_params(**{k: v})
                    a, b = par['alpha'], par['beta']
                    want = np.linalg.solve([[.5, -a], [-a, .6]], [b, .3])
                    got = st.compute() if i % 2 == 0 else st.compute(method='nelder-mead')
                    ctx.tally()
                    ctx.close(got, want, 'computed again', 5e-3, after=seq[:i + 1], on=which)
                    ctx.check(np.array_equal(st.values, got)
                              and np.array_equal(st.results.x, got),
                              'what is kept differs from what was computed last',
                              after=seq[:i + 1], on=which, got=st.values, want=got)
    ctx.outcome('again')


def run_boundary(case, ctx):
    """which block gives the starting values"""
    from pynare import Model
    from pynare.parsing import read_model
    head = 'var x, y; varexo e; model; x^2 = 4 + 0.1*(x - x(-1)) + e; y = 0.5*y(-1) + x; end;\n'
    blocks = {'i': ('initval', 'x = 1.5; y = 2;'), 'I': ('initval', 'x = -1.5; y = -2;'),
              'x': ('initval', 'x = -1.5;'), 'y': ('initval', 'y = 1;'),
              't': ('endval', 'x = 7; y = 8;'), 'T': ('endval', 'x = -7;'),
              'h': ('histval', 'x(0) = 3; y(0) = 9;')}
    for combo in ('i', 'I', 'x', 'it', 'ti', 'xT', 'Tx', 'Ih', 'hI', 'ith', 'hti', 'xh', 'xt'):
        text = head + ''.join(f'{n};\n{b}\nend;\n' for n, b in (blocks[c] for c in combo))
        if 'h' in combo:
            try:
                read_model(text, 'dynare')
            except Exception:
                text = text.replace('(0)', '')
        md = Model.from_outline(read_model(text, 'dynare'))
        start = blocks['i' if 'i' in combo else 'I' if 'I' in combo else 'x'][1]
        want = {'x': 0.0, 'y': 0.0}
        for part in start.split(';')[:-1]:
            k, v = part.split('=')
            want[k.strip()] = float(v)
        ctx.close(md.initial, [want['x'], want['y']], 'starting values', 1e-12, text=text)
        x = 2 if want['x'] > 0 else -2
        ctx.close(md.ss.values, [x, 2 * x], 'steady state', 5e-3, text=text)
        ctx.tally()
    ctx.outcome('boundary')
