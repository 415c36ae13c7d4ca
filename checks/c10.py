"""C10: the first-order solution solves the linearised model and is stable"""
import numpy as np

from mc import space, ref
from mc.access import full_first

ID = 'C10'
LEVEL = 'exploration'
RULE = ('every lead/lag incidence structure of 1- and 2-variable linear models, and of '
        '3-variable models with ring coupling, repeated patterns of 6 to 12 variables, x coefficient tables x shock layouts x '
        'declaration orders x equation orders; outcome = (determinacy, number of states, '
        'number of shocks, builder, unit roots); only models with a unique stable solution are '
        'compared')
ASSUMPTIONS = [
    'every endogenous variable appears at the current date, at least one with a lead or lag',
    'no eigenvalue within 1e-6 of the unit circle, except that some models have roots of '
    'modulus one, which are not explosive (as the solver and its documentation have it)',
    'reference solution: stable invariant subspace of the companion pencil (scipy ordqz)',
]
CHUNK = 16


def cases(tier):
    deep = tier == 'thorough'
    # one variable
    for own in (1, 2, 3):
        for table in space.TABLES:
            for sh in ('each', 'none', 'both'):
                yield ['s', [[own, []]], table, sh, [0], [0], 'text']
    # two variables: every structure
    tables = list(space.TABLES) if deep else ['small', 'mixed']
    k = 0
    for st in space.structures(2):
        if not space.dynamic(st):
            continue
        for table in tables:
            shs = ('each', 'one', 'both', 'none', 'last')
            for sh in (shs if deep else shs[k % 5:k % 5 + 1]):
                for p in space.perms(2):
                    q = [[0, 1], [1, 0]][k % 2]
                    yield ['s', st, table, sh, list(p), q,
                           'text' if k % 3 else 'direct']
                    k += 1
    # three variables
    own = (0, 1, 2, 3)
    cross = range(8) if deep else (0, 1, 2, 4)
    P3 = space.perms(3)
    for st in space.ring_structures(3, own, cross):
        if not space.dynamic(st):
            continue
        p, q = P3[k % 6], P3[(k // 6) % 6]
        yield ['s', st, 'small' if k % 7 else 'mixed', ('each', 'one', 'both', 'last')[k % 4],
               list(p), list(q), 'text' if k % 3 else 'direct']
        k += 1
    # all declaration orders of some
    for st in space.ring_structures(3, (0, 1, 2, 3), (0, 3)):
        if not space.dynamic(st):
            continue
        for p in P3:
            yield ['s', st, 'small', 'each', list(p), [0, 1, 2], 'text']
    for st in space.large_structures((4, 5, 6, 7, 9, 12) if deep else (6, 9), (0, 1, 2, 4)):
        n = len(st)
        for table in list(space.TABLES) if deep else [('small', 'mixed', 'small', 'complex')[k % 4]]:
            yield ['s', st, table, ('each', 'one', 'both', 'last')[k // 3 % 4],
                   space.large_perm(n, k), space.large_perm(n, k // 4 + 1),
                   'text' if k % 3 else 'direct']
            k += 1
    # roots of modulus one, which are not explosive
    for table in space.UNIT:
        for own in (1, 2, 3):
            yield ['s', [[own, []]], table, 'each', [0], [0], 'text']
        for st in space.structures(2):
            if not space.dynamic(st):
                continue
            k += 1
            for p in space.perms(2) if deep else [space.perms(2)[k % 2]]:
                yield ['s', st, table, ('each', 'one', 'both')[k % 3], list(p),
                       [[0, 1], [1, 0]][k // 2 % 2], 'text' if k % 3 else 'direct']
        for st in space.ring_structures(3, (1, 2, 3), (0, 1, 4) if deep else (0, 2)):
            if not space.dynamic(st):
                continue
            k += 1
            yield ['s', st, table, 'each', list(P3[k % 6]), list(P3[k // 6 % 6]), 'text']


def build(case):
    _, st, table, sh, p, q, how = case
    s = space.structure_spec([(o, tuple(c)) for o, c in st], table, sh)
    s = s.permuted(endog=p, eqs=q)
    if how == 'text':
        s.shocks = []
    return s, how


def run(case, ctx):
    s, how = build(case)
    jac = s.jac_full()
    crit = 1 + 1e-4 if case[2] in space.UNIT else 1.
    det = ref.determinacy(*jac[:3], crit)
    if det != 'ok':
        ctx.outcome((det,), trivial=True)
        return
    R = ref.stable_solution(*jac, crit)
    if R is None:
        ctx.outcome(('illconditioned',), trivial=True)
        return
    md = s.build() if how == 'text' else s.build_direct()
    sol = md.solve(order=1)
    P, Q = full_first(md, sol)
    roots = np.abs(np.linalg.eigvals(R[0]))
    ctx.outcome((det, len(md.state_vars), len(s.stoch), how,
                 int(np.sum(np.abs(roots - 1) < 1e-6))))
    r = ref.first_order_residual(*jac, P, Q)
    ctx.check(r < 1e-8, 'linearised equations not solved', residual=r, P=P, Q=Q, text=s.text())
    if np.isfinite(P).all():
        rad = np.abs(np.linalg.eigvals(P)).max(initial=0)
        ctx.check(rad < 1 or (crit > 1 and rad < 1 + 1e-5), 'solution is not stable', radius=rad, text=s.text())
    ctx.close(P, R[0], 'state response differs from the stable solution', 1e-7, text=s.text())
    ctx.close(Q, R[1], 'shock response differs from the stable solution', 1e-7, text=s.text())
