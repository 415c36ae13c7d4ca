"""C11: Blanchard-Kahn verdicts"""
import itertools
import re

import numpy as np

from mc import space, ref
from mc.sym import V, N, B, mul, add
from mc.ref import Spec
from mc.access import full_first

ID = 'C11'
LEVEL = 'exploration'
RULE = ('every lead/lag incidence structure of 2-variable linear models (and ring-coupled '
        '3-variable ones) x coefficient tables chosen so that too many, too few and the '
        'right number of roots are explosive x solution order; blocks of up to 2 (thorough: 3) '
        'predetermined and forward-looking variables each with every mixture of stable and explosive '
        'roots, mixed in three ways, coupled or not; static blocks; outcome = (reference '
        'determinacy, order, verdict)')
ASSUMPTIONS = [
    'no generalized eigenvalue within 1e-6 of the unit circle, except that some models have '
    'roots of modulus one, which are not explosive; rank deficiency exact or absent',
    'every endogenous variable appears at the current date, at least one with a lead or lag',
]
CHUNK = 16


def cases(tier):
    deep = tier == 'thorough'
    for own in (1, 2, 3):
        for table in space.TABLES:
            for order in (1, 2):
                yield [[[own, []]], table, 'each', order]
    k = 0
    for st in space.structures(2):
        if not space.dynamic(st):
            continue
        for table in space.TABLES:
            if not deep and table == 'small' and k % 4:
                k += 1
                continue
            for order in ((1, 2) if deep else (1 + (k % 8 == 0),)):
                yield [st, table, ('each', 'one', 'both')[k % 3], order]
            k += 1
    own = (0, 1, 2, 3)
    cross = (0, 1, 2, 4) if deep else (0, 4)
    for st in space.ring_structures(3, own, cross):
        if not space.dynamic(st):
            continue
        for table in ('bigfwd', 'biglag', 'mixed', 'complex'):
            if deep or k % 2:
                yield [st, table, ('each', 'one', 'both')[k % 3], 1]
            k += 1
    for st in space.large_structures((4, 5, 6, 7, 9) if deep else (6, 7), (0, 1, 2, 4)):
        for table in ('bigfwd', 'biglag', 'mixed', 'complex'):
            if deep or k % 2:
                yield [st, table, ('each', 'one', 'both')[k % 3], 1]
            k += 1
    # roots of modulus one, which are not explosive
    for table in space.UNIT:
        for own in (1, 2, 3):
            yield [[[own, []]], table, 'each', 1]
        for st in space.structures(2):
            if space.dynamic(st):
                k += 1
                if deep or k % 2:
                    yield [st, table, ('each', 'one', 'both')[k % 3], 1 + (k % 5 == 0)]
    # predetermined and forward-looking blocks with any mixture of stable and explosive roots
    back, forw = (.5, -1.8, 2.), (.4, 1.7, -2.5)
    for nb in ((1, 2, 3) if deep else (1, 2)):
        for nf in ((1, 2, 3) if deep else (1, 2)):
            for a in itertools.combinations_with_replacement(back, nb):
                for f in itertools.combinations_with_replacement(forw, nf):
                    for mix in (0, 1, 2):
                        for g in (0, 1, 2):
                            for static in (0, 1, 2):
                                k += 1
                                if deep or (nb + nf < 4 or k % 2):
                                    yield ['blocks', a, f, mix, g, static, k % 4]
    # static blocks: y (and z) never appear with a lead or lag; rank deficient ones
    for a in (0, 1, 2):
        for b in (0, 1, -0.5):
            for c in (0, 1, 2):
                for d in (1, -0.5):
                    yield ['static', a, b, c, d]


def run(case, ctx):
    if case[0] == 'static':
        return run_static(case, ctx)
    if case[0] == 'blocks':
        s, known = blocks(*case[1:])
        return judge(s, 1 + (case[-1] == 3), 1., known, ctx)
    st, table, sh, order = case
    s = space.structure_spec([(o, tuple(c)) for o, c in st], table, sh)
    judge(s, order, 1 + 1e-4 if table in space.UNIT else 1., None, ctx)


MIX = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]],
       [[1, .3, -.2], [0, 1, .7], [0, 0, 1]],
       [[1, .3, -.2], [-.7, 1, .4], [.2, -.6, 1]]]


def blocks(a, f, mix, g, static, perm):
    """
    T x = a (T x(-1)) + e and S y(+1) = f (S y) + g (x + ...), for mixing matrices T and S; the
    verdict is known: as many explosive roots as forward-looking variables, all of them in
    the second block; static variables driven by shocks alone do not matter
    """
    nb, nf = len(a), len(f)
    xs, ys = [f'x{i}' for i in range(nb)], [f'y{i}' for i in range(nf)]
    M = MIX[mix]

    def row(i, names, lag=0):
        ts = [V(v, lag) if c == 1 else mul(N(c), V(v, lag))
              for c, v in zip(M[i], names) if c]
        return add(*ts)
    eqs = [(row(i, xs), B('+', mul(N(r), row(i, xs, -1)), mul(N(1 + i), V('e'))))
           for i, r in enumerate(a)]
    for i, r in enumerate(f):
        rhs = mul(N(r), row(i, ys))
        if g:
            rhs = add(rhs, *[mul(N(.3 / g * (j + 1 + i)), V(v)) for j, v in enumerate(xs)])
        eqs.append((row(i, ys, 1), rhs))
    zs = [f'z{i}' for i in range(static)]
    for i, z in enumerate(zs):
        eqs[i] = (eqs[i][0], add(eqs[i][1], mul(N(.2), V(z))))
        eqs.append((V(z), add(mul(N(3 - i), V('e')), *[mul(N(.7), V(w)) for w in zs[:i]])))
    endog = ys + xs + zs if perm % 2 else zs + xs + ys
    if perm > 1:
        endog, eqs = endog[::-1], eqs[1:] + eqs[:1]
    n = sum(abs(r) > 1 for r in a + f)
    stable = all(abs(r) > 1 for r in f)
    known = 'indeterminate' if n < nf else 'explosive' if n > nf else 'ok' if stable else 'rank'
    return Spec(endog, ['e'], eqs), known


def judge(s, order, crit, known, ctx):
    from pynare.errors import ModelIdentificationError
    jac = s.jac_full()
    det = ref.determinacy(*jac[:3], crit)
    if known:
        assert det == known, (det, known, s.text())
    if det in ('edge', 'singular'):
        ctx.outcome((det,), trivial=True)
        return

    def go():
        md = s.build_direct()
        return md, md.solve(order=order)
    if det == 'ok':
        R = ref.stable_solution(*jac, crit)
        if R is None:
            ctx.outcome(('illconditioned',), trivial=True)
            return
        try:
            md, sol = go()
        except ModelIdentificationError as e:
            ctx.fail('a model with a unique stable solution was rejected', error=str(e),
                     text=s.text())
            return
        ctx.outcome((det, order, 'solved'))
        try:
            md.statespace.verify()
        except ModelIdentificationError as e:
            ctx.fail('verification contradicts the solver', error=str(e), text=s.text())
    else:
        e = ctx.raises(ModelIdentificationError, go,
                       f'{det} model not reported as a Blanchard-Kahn failure', text=s.text())
        if e is not None:
            ctx.outcome((det, order, str(e)[:60]))
            word = 'rank' if det == 'rank' else 'order'
            ctx.check(word in str(e), f'{det} model reported as another failure', msg=str(e),
                      text=s.text())
            if word == 'order':
                # counts of the reduced pencil; the roots of the full one are as many more
                n = len(s.endog)
                nf = sum(1 in a for a in s.appearances().values())
                want = [nf + n - ref.qz_counts(*jac[:3], crit)[0], nf]
                got = [int(x) for x in re.findall(r'(?<![\w(])\d+(?![\w)])', str(e))]
                ctx.check(got == want, 'numbers of explosive roots and of forward-looking '
                          'variables', msg=str(e), want=want, text=s.text())
            again(s, det, order, word, ctx)


def again(s, det, order, word, ctx):
    """the verdict is the same however often, and whatever, is asked"""
    from pynare.errors import ModelIdentificationError
    asks = {'solve': lambda md: md.solve(order=order),
            'verify': lambda md: md.statespace.verify(),
            'other order': lambda md: md.solve(order=3 - order),
            'simulate': lambda md: md.simulate(periods=3),
            'mean': lambda md: md.stats.mean(),
            'solution': lambda md: md.solution}
    for first in ('solve', 'verify', 'simulate'):
        md = s.build_direct()
        for what in [first] + list(asks):
            e = ctx.raises(ModelIdentificationError, lambda: asks[what](md),
                           f'{det} model not rejected when asked again', text=s.text(),
                           history=[first, '...', what])
            if e is not None:
                ctx.check(word in str(e), f'{det} model reported as another failure when '
                          'asked again', msg=str(e), text=s.text())


def run_static(case, ctx):
    """x is an AR(1); the static block  a y + b z = x,  c y + d z = 0.5 x + e"""
    from pynare import Model
    from pynare.errors import ModelIdentificationError
    _, a, b, c, d = case
    x, y, z = V('x'), V('y'), V('z')
    eqs = [(x, B('+', mul(N(.5), V('x', -1)), V('e'))),
           (add(mul(N(a), y), mul(N(b), z)), x),
           (add(mul(N(c), y), mul(N(d), z)), add(mul(N(.5), x), V('e')))]
    s = Spec(['x', 'y', 'z'], ['e'], eqs)
    singular = abs(a * d - b * c) < 1e-12

    def go():
        md = s.build_direct()
        return md, md.solve(order=1)
    if singular:
        e = ctx.raises(ModelIdentificationError, go,
                       'rank-deficient static block not reported', text=s.text())
        if e is not None:
            r = np.linalg.matrix_rank(np.array([[a, b], [c, d]]))
            ctx.outcome(('static singular', int(r)))
            ctx.check(f'rank {r}' in str(e) and '2 static' in str(e),
                      'wrong rank reported', msg=str(e), rank=r)
    else:
        md, sol = go()
        P, Q = full_first(md, sol)
        r = ref.first_order_residual(*s.jac_full(), P, Q)
        ctx.outcome(('static ok',))
        ctx.check(r < 1e-8, 'equations not solved', residual=r)
