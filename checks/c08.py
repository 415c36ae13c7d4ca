"""C08: derivative matrices are the exact derivatives of the equations"""
import itertools
import math

import numpy as np

from mc import space
from mc.ref import Spec
from mc.sym import N, V, B, F, P, NEG, mul, ev, diff, leaves, render, FN

ID = 'C08'
LEVEL = 'exploration'
RULE = ('(a) every expression tree of the shapes leaf, f(leaf), -leaf, a op b, f(a op b), '
        'f(a) op b, a op f(b), f(g(a)), (a op b) op c, a op (b op c) over 5 operators, 14 functions '
        'and leaves at t-1, t, t+1, shocks, parameters and numbers, four at a time in '
        'models of four equations with non-zero steady state; (b) every incidence structure '
        'of 2-variable models and ring-coupled 3-variable ones with products of all pairs of leaves, and models of 6 and 9 (thorough 5 to 12) equations, x declaration '
        'orders x equation orders x shock layouts x starting values at or off the steady state; derivatives as small as 1e-12 and a model of 15 equations (thorough 22); values and first and second derivatives at '
        'the steady state against symbolic differentiation; outcome = (shape, kinds of '
        'non-zero derivatives)')
ASSUMPTIONS = ['expressions are twice differentiable at the steady state',
               'derivatives are taken at the steady state the model reports (whether it is one is '
               'the question of C09)']
CHUNK = 8

NAMES = ['x', 'y', 'z', 'w']
SS = {'x': 0.4, 'y': 0.7, 'z': 1.3, 'w': 0.25}
PARAMS = {'alpha': 0.36, 'n': 2}
LEAVES = [V('x', -1), V('x', 0), V('y', 1), V('z', 0), V('e', 0), P('alpha'), N(2)]
FEW = [V('x', -1), V('y', 1), V('y', 0), V('e', 0), P('alpha')]
OPS = ['+', '-', '*', '/', '^']


def trees(tier):
    deep = tier == 'thorough'
    yield from LEAVES
    for a in LEAVES:
        yield NEG(a)
        for f in FN:
            yield F(f, a)
            if a[0] == 'var':
                for g in FN:
                    yield F(g, F(f, a))
    for o in OPS:
        for a in LEAVES:
            for b in LEAVES:
                yield B(o, a, b)
    some = LEAVES if deep else FEW
    for f in FN:
        for o in OPS:
            for a in some:
                for b in some:
                    if a[0] == b[0] == 'par':
                        continue
                    yield F(f, B(o, a, b))
                    yield B(o, F(f, a), b)
                    yield B(o, a, F(f, b))
    three = LEAVES if deep else FEW[:4] + [N(2)]
    for o in OPS:
        for o2 in OPS:
            for a, b, c in itertools.product(three, repeat=3):
                yield B(o, B(o2, a, b), c)
                yield B(o, a, B(o2, b, c))
                if deep:
                    yield NEG(B(o, NEG(B(o2, a, b)), c))


def risky(e, env):
    """is some operation not twice differentiable (or badly scaled) here?"""
    if e[0] in ('num', 'par', 'var'):
        return False
    if e[0] == 'neg':
        return risky(e[1], env)
    if e[0] == 'fn':
        if risky(e[2], env):
            return True
        v = ev(e[2], PARAMS, env)
        if abs(v) > 20:
            return True
        if e[1] in ('abs', 'sign') and abs(v) < 1e-3:
            return True
        if e[1] in ('log', 'ln', 'log10', 'sqrt') and v < 1e-3:
            return True
        if e[1] in ('asin', 'acos') and abs(v) > .99:
            return True
        return e[1] == 'tan' and abs(math.cos(v)) < .05
    if risky(e[2], env) or risky(e[3], env):
        return True
    a, b = ev(e[2], PARAMS, env), ev(e[3], PARAMS, env)
    if e[1] == '/':
        return abs(b) < 1e-3
    if e[1] == '^':
        if leaves(e[3]):
            return a < 1e-3 or abs(b) > 8
        if abs(a) < 1e-3:
            return b not in (2, 3)
        return abs(b) > 8 or (a < 0 and b != int(b))
    return False


def usable(e, env):
    try:
        if risky(e, env):
            return False
        v = ev(e, PARAMS, env)
    except (ZeroDivisionError, ValueError, OverflowError, TypeError):
        return False
    return isinstance(v, float) and math.isfinite(v) and abs(v) < 50


def base_env():
    env = {(n, k): SS[n] for n in NAMES for k in (-1, 0, 1)}
    env.update({('e', 0): 0.0, ('u', 0): 0.0})
    return env


def cases(tier):
    deep = tier == 'thorough'
    env = base_env()
    group = []
    k = 0
    for t in trees(tier):
        if not usable(t, env):
            continue
        group.append(t)
        if len(group) == 4:
            yield ['trees', group, k % 24, (k // 5) % 24, k % 3]
            group = []
            k += 1
    if group:
        yield ['trees', (group * 4)[:4], 0, 0, 0]
    P2, P3 = space.perms(2), space.perms(3)
    for st in space.structures(2):
        if not space.dynamic(st):
            continue
        for sh in (('each', 'one', 'both', 'none', 'last') if deep
                   else (('each', 'one', 'both', 'none', 'last')[k % 5],)):
            yield ['struct', st, sh, list(P2[k % 2]), list(P2[(k // 2) % 2]), k % 4]
            k += 1
    for st in space.ring_structures(3, (0, 1, 2, 3), (0, 1, 4, 7) if deep else (0, 5)):
        if not space.dynamic(st):
            continue
        yield ['struct', st, ('each', 'one', 'both', 'none')[k % 4], list(P3[k % 6]),
               list(P3[(k // 6) % 6]), k % 4]
        k += 1
    for k in range(2, 15 if deep else 13):
        for when in (-1, 0, 1):
            yield ['small', k, when, k % 4]
    yield ['many', 15, 0]
    if deep:
        yield ['many', 22, 1]
    # more equations
    for i, st in enumerate(space.large_structures((5, 6, 7, 9, 12) if deep else (6, 9),
                                                  (1, 2, 0, 4, 3))):
        if not deep and i % 5:
            continue
        n, j = len(st), i // (1 if deep else 5)
        yield ['struct', st, ('each', 'one', 'both', 'none', 'last')[j % 5],
               space.large_perm(n, j), space.large_perm(n, j // 4 + 1), j % 4]


def tup(e):
    return tuple(tup(x) if isinstance(x, (list, tuple)) else x for x in e)


def spec(case):
    if case[0] == 'trees':
        _, group, p, q, sh = case
        stoch = [['e'], ['e', 'u'], ['u', 'e']][sh]
        env = base_env()
        eqs = []
        for i, t in enumerate(tup(group)):
            v = NAMES[i]
            r = B('+', mul(N(.3), V(v, -1)), t)
            l = V(v, 0) if i % 2 else mul(N(1.7), V(v, 0))
            gap = ev(l, PARAMS, env) - ev(r, PARAMS, env)
            eqs.append((l, B('+', r, N(gap))))
        # keep every shock and name in the model
        for i in (0, 1):
            l, r = eqs[i]
            if i < len(stoch):
                r = B('+', r, mul(N(.7), V(stoch[i])))
            eqs[i] = (l, r)
        l, r = eqs[3]
        eqs[3] = (l, B('+', r, B('-', mul(N(.2), V('z')), N(.2 * SS['z']))))
        s = Spec(NAMES, stoch, eqs, PARAMS, None, SS, SS)
        perms = space.perms(4)
        return s.permuted(endog=perms[p], eqs=perms[q])
    _, st, sh, p, q, how = case
    s = space.structure_spec([(o, tuple(c)) for o, c in st], 'small', sh)
    vals = list(SS.values())
    ss = {v: vals[space.NAMES.index(v) % 4] for v in s.endog}
    env = {(v, k): x for v, x in ss.items() for k in (-1, 0, 1)}
    env.update({(v, 0): 0.0 for v in s.stoch})
    eqs = []
    for i, (l, r) in enumerate(s.eqs):
        lv = sorted(leaves(l) | leaves(r))
        k = 0
        for a in range(len(lv)):
            for b in range(a, len(lv)):
                c = round(0.11 + 0.07 * ((3 * k + i) % 5), 3)
                r = B('+' if k % 3 else '-', r, mul(N(c), V(*lv[a]), V(*lv[b])))
                k += 1
        r = B('-', r, N(ev(r, {}, env) - ev(l, {}, env)))
        eqs.append((l, r))
    s.eqs, s.ss, s.init = eqs, ss, ss
    if how % 3 == 2:
        # found from other starting values
        s.init = {v: round(x * (1.04 if i % 2 else .97), 4)
                  for i, (v, x) in enumerate(ss.items())}
    return s.permuted(endog=p, eqs=q)


def run_small(case, ctx):
    """derivatives as small as 10^-k, each compared by itself"""
    _, k, when, how = case
    c = float('1e-%d' % k)
    r = B('+', B('+', mul(N(.5), V('x', -1)), mul(P('c') if how % 2 else N(c), V('y', when))),
          B('+', mul(N(3 * c), B('^', V('x'), N(2))), V('e')))
    s = Spec(['x', 'y'], ['e'], [(V('x'), r), (V('y'), B('+', mul(N(.3), V('y', -1)),
                                                         mul(N(7 * c), V('e'))))],
             {'c': c}, None, {'x': 0, 'y': 0}, {'x': 0, 'y': 0})
    md = s.build() if how > 1 else s.build_direct()
    ss = dict(zip(s.endog, np.asarray(md.ss.values, dtype=float)))
    endog, shocks = s.columns()
    cols = endog + shocks
    env = s.env(ss)
    n = len(cols)
    got = np.asarray(md.jacobian.array, dtype=float)
    hess = np.asarray(md.hessian.array, dtype=float).reshape(2, n, n)
    for i, (l, r) in enumerate(s.eqs):
        for a, va in enumerate(cols):
            d = diff(B('-', l, r), va)
            want = ev(d, s.params, env)
            ctx.check(abs(got[i, a] - want) <= 1e-7 * abs(want), 'small derivative',
                      got=got[i, a], expected=want, of=i, by=va, text=s.text())
            for b, vb in enumerate(cols):
                want = ev(diff(d, vb), s.params, env)
                ctx.check(abs(hess[i, a, b] - want) <= 1e-7 * abs(want),
                          'small second derivative', got=hess[i, a, b], expected=want, of=i,
                          by=[va, vb], text=s.text())
    ctx.outcome(('small', when, how))


def run_many(case, ctx):
    """many equations, with few variables in each"""
    _, n, how = case
    names = ['v%d' % i for i in range(n)]
    eqs = []
    for i, v in enumerate(names):
        w, u = names[(i * 5 + 2) % n], names[(i * 3 + 1) % n]
        r = B('+', mul(N(.3), V(v, -1)), mul(N(.01 * (i + 1)), mul(V(w, (i % 3) - 1), V(u))))
        eqs.append((V(v), B('+', r, mul(V('e'), B('+', N(1), V(v, -1)))) if i % 4 == 0 else r))
    zero = {v: 0 for v in names}
    s = Spec(names, ['e'], eqs, {}, None, zero, zero)
    md = s.build_direct() if how else s.build()
    endog, shocks = s.columns()
    cols = endog + shocks
    env = s.env(dict(zip(names, np.asarray(md.ss.values, dtype=float))))
    m = len(cols)
    J, H = np.zeros((n, m)), np.zeros((n, m, m))
    for i, (l, r) in enumerate(eqs):
        f = B('-', l, r)
        lv = leaves(f)
        for a, va in enumerate(cols):
            if va in lv:
                d = diff(f, va)
                J[i, a] = ev(d, {}, env)
                for b, vb in enumerate(cols):
                    if vb in lv:
                        H[i, a, b] = ev(diff(d, vb), {}, env)
    ctx.close(md.jacobian.array, J, 'dynamic jacobian', 1e-8, text=s.text())
    ctx.close(md.hessian.array, H.reshape(n, m * m), 'hessian', 1e-8, text=s.text())
    ctx.outcome(('many', n))


def run(case, ctx):
    if case[0] == 'small':
        return run_small(case, ctx)
    if case[0] == 'many':
        return run_many(case, ctx)
    from pynare.errors import ModelIdentificationError
    s = spec(case)
    try:
        md = s.build() if case[-1] % 2 != 1 else s.build_direct()
    except (ModelIdentificationError, np.linalg.LinAlgError):
        ctx.outcome('static block singular', trivial=True)
        return
    ss = dict(zip(s.endog, np.asarray(md.ss.values, dtype=float)))
    if s.init == s.ss:
        ctx.close([ss[v] for v in s.endog], [s.ss[v] for v in s.endog],
                  'exact starting values moved', 1e-4)
    endog, shocks = s.columns()
    cols = endog + shocks
    env = s.env(ss)
    n = len(cols)
    J = np.zeros((len(s.eqs), n))
    H = np.zeros((len(s.eqs), n, n))
    S = np.zeros((len(s.eqs), len(s.endog)))
    for i, (l, r) in enumerate(s.eqs):
        f = B('-', l, r)
        lv = leaves(f)
        for a, va in enumerate(cols):
            if va not in lv:
                continue
            d = diff(f, va)
            J[i, a] = ev(d, s.params, env)
            if va[0] in s.endog:
                S[i, s.endog.index(va[0])] += J[i, a]
            for b in range(a, n):
                if cols[b] in lv:
                    H[i, a, b] = H[i, b, a] = ev(diff(d, cols[b]), s.params, env)
    ctx.outcome((case[0], bool(np.abs(H).max() > 0), len(s.stoch),
                 tuple(sorted({(x[1], y[1]) for i in range(len(s.eqs))
                               for a, x in enumerate(endog) for b, y in enumerate(endog)
                               if a <= b and H[i, a, b]}))))
    text = s.text()
    scale = max(1, np.abs(H).max())
    ctx.close(md.jacobian.array, J, 'dynamic jacobian', 1e-8, text=text, columns=cols)
    ctx.close(md.steady_repr.jacobian.array, S, 'steady-state jacobian', 1e-8, text=text)
    ctx.close(md.ss.jacobian.array, S, 'steady-state jacobian', 1e-8, text=text)
    got = np.asarray(md.hessian.array, dtype=float)
    ctx.close(got, H.reshape(len(s.eqs), n * n), 'hessian', 1e-8, text=text, columns=cols)
    # the function that was differentiated, away from the steady state
    pt = np.array([env[c] for c in cols]) + .01 * np.arange(1, n + 1) / n
    at = dict(zip(cols, map(float, pt)))
    want = [ev(l, s.params, at) - ev(r, s.params, at) for l, r in s.eqs]
    ctx.close(md.dynamic_repr(pt), want, 'dynamic function', 1e-10, text=text)
    if s.stoch:
        at.update({c: 0.0 for c in shocks})
        want = [ev(l, s.params, at) - ev(r, s.params, at) for l, r in s.eqs]
        ctx.close(md.dynamic_repr(pt[:len(endog)]), want, 'dynamic function without shocks',
                  1e-10, text=text)
