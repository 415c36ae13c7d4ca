"""C12: the second-order solution solves the second-order expansion of the model"""
import numpy as np

from mc import space, ref, lin
from mc.sym import N, V, B, F, mul, leaves
from mc.access import full_first, full_second

ID = 'C12'
LEVEL = 'exploration'
RULE = ('every lead/lag incidence structure of 1- and 2-variable models (and ring-coupled '
        '3-variable ones, and repeated patterns of 6 and 8 (thorough 11) variables) with quadratic terms: every single pair of variables of an equation, '
        'all pairs at once, exp/log forms, lead*lag products across variables x shock layouts '
        'x shock covariances x declaration and equation orders; outcome = (nonlinearity, '
        'states, shocks, which of the four arrays are non-zero)')
ASSUMPTIONS = [
    'every endogenous variable appears at the current date, at least one with a lead or lag',
    'unique stable first-order solution; steady state at the origin',
    'reference: vectorised linear systems from exact symbolic derivatives',
]
CHUNK = 8

SIGMAS = {
    'eye': [],
    'var': ['var {0} = 0.25'],
    'se': ['var {0}; stderr 0.3'],
    'corr': ['var {0}; stderr 0.5', 'var {1} = 2', 'corr {0}, {1} = -0.6'],
    'cov': ['var {0} = 0.5', 'var {0}, {1} = 0.2'],
}


def sigma(name, m):
    S = np.eye(m)
    if name == 'var':
        S[0, 0] = .25
    elif name == 'se':
        S[0, 0] = .09
    elif name == 'corr':
        S[0, 0], S[1, 1] = .25, 2
        S[0, 1] = S[1, 0] = -.6 * .5 * np.sqrt(2)
    elif name == 'cov':
        S[0, 0] = .5
        S[0, 1] = S[1, 0] = .2
    return S


def nonlinear(s, form):
    """the Spec with second-order terms added"""
    eqs = []
    for i, (l, r) in enumerate(s.eqs):
        lv = sorted(leaves(l) | leaves(r))
        if form == 'all':
            k = 0
            for a in range(len(lv)):
                for b in range(a, len(lv)):
                    c = round(0.11 + 0.07 * ((3 * k + i) % 5), 3)
                    r = B('+' if k % 3 else '-', r, mul(N(c), V(*lv[a]), V(*lv[b])))
                    k += 1
        elif form == 'exp':
            # log-linear form: every variable enters through exp
            r = B('-', F('exp', r), N(1))
            l = B('+', l, mul(N(.3), l, l))
        elif form == 'log':
            r = F('log', B('+', N(1), r))
        elif form == 'div':
            r = B('/', r, B('+', N(1), mul(N(.5), V(*lv[-1]))))
        elif form[0] == 'pair':
            if i == form[1]:
                a, b = form[2], form[3]
                if b < len(lv):
                    r = B('+', r, mul(N(.7), V(*lv[a]), V(*lv[b])))
        elif form == 'cross':
            # products of every lead with every lag / shock of the whole model
            al = sorted(set().union(*[leaves(x) | leaves(y) for x, y in s.eqs]))
            k = 0
            for a in al:
                for b in al:
                    if a[1] > b[1] or (a[1] == b[1] and a < b):
                        if (k + i) % 2 == 0:
                            r = B('+', r, mul(N(round(.05 + .04 * (k % 4), 3)), V(*a), V(*b)))
                        k += 1
        eqs.append((l, r))
    s.eqs = eqs
    return s


def cases(tier):
    deep = tier == 'thorough'
    for own in (1, 2, 3):
        for table in ('small', 'bigfwd', 'mixed'):
            for sh in ('each', 'none', 'both'):
                for form in ('all', 'exp', 'log', 'div'):
                    sg = ['eye', 'var', 'se', 'eye'] if sh == 'each' else ['eye']
                    sg = ['corr', 'cov', 'var'] if sh == 'both' else sg
                    for g in sg:
                        yield [[[own, []]], table, sh, form, g, [0], [0]]
                for a in range(4):
                    for b in range(a, 4):
                        yield [[[own, []]], table, sh, ['pair', 0, a, b], 'eye', [0], [0]]
    forms = ['all', 'exp', 'cross', 'log', 'div']
    k = 0
    for st in space.structures(2):
        if not space.dynamic(st):
            continue
        for form in (forms if deep else forms[k % 5:k % 5 + 1]):
            for table in (('small', 'mixed', 'complex') if deep else ('small',)):
                sh = ('each', 'one', 'both', 'none', 'last')[(k // 5) % 5]
                g = 'eye'
                if sh in ('each', 'both'):
                    g = ('eye', 'corr', 'cov', 'var')[(k // 3) % 4]
                elif sh != 'none':
                    g = ('eye', 'var', 'se')[(k // 3) % 3]
                yield [st, table, sh, form, g, [[0, 1], [1, 0]][k % 2],
                       [[0, 1], [1, 0]][(k // 2) % 2]]
            k += 1
    # every single pair of variables, on a few structures
    base = [((1, (2,)), (2, (1,))), ((3, (6,)), (1, (3,))), ((0, (1,)), (3, (4,)))]
    for st in (base if deep else base[:2]):
        for eq in (0, 1):
            for a in range(6):
                for b in range(a, 6):
                    for p in space.perms(2):
                        yield [st, 'small', 'each', ['pair', eq, a, b], 'corr', list(p), [0, 1]]
    P3 = space.perms(3)
    own, cross = (0, 1, 2, 3), ((0, 1, 2, 4) if deep else (0, 5))
    for st in space.ring_structures(3, own, cross):
        if not space.dynamic(st):
            continue
        if deep or k % 2:
            yield [st, 'small', ('each', 'one', 'both')[k % 3], forms[k % 3],
                   'corr' if k % 3 != 1 else 'var', list(P3[k % 6]), list(P3[(k // 6) % 6])]
        k += 1
    # larger ones
    for m in lin.large(tier, 2, 2):
        yield [m[0], m[1], m[2], m[3], m[4] if m[4] in SIGMAS else 'corr', m[6], m[7]]


def run(case, ctx):
    st, table, sh, form, g, p, q = case
    s = space.structure_spec([(o, tuple(c)) for o, c in st], table, sh)
    s = nonlinear(s, form).permuted(endog=p, eqs=q)
    s.shocks = [x.format(*s.stoch) for x in SIGMAS[g]]
    jac = s.jac_full()
    if ref.determinacy(*jac[:3]) != 'ok':
        ctx.outcome(('not determinate',), trivial=True)
        return
    R = ref.stable_solution(*jac)
    if R is None:
        ctx.outcome(('illconditioned',), trivial=True)
        return
    P, Q = R
    S = sigma(g, len(s.stoch))
    want = ref.second_order(s, P, Q, S)
    scale = max([1] + [np.abs(w).max(initial=0) for w in want])
    if scale > 1e6:
        ctx.outcome(('illconditioned',), trivial=True)
        return
    md = s.build()
    sol = md.solve(order=2)
    got = full_second(md, sol)
    nm = form if isinstance(form, str) else 'pair'
    ctx.outcome((nm, len(md.state_vars), len(s.stoch),
                 tuple(bool(np.abs(w).max(initial=0) > 1e-12) for w in want)),
                trivial=scale == 1 and all(np.abs(w).max(initial=0) < 1e-12 for w in want))
    P1, Q1 = full_first(md, sol.lower_solution)
    ctx.close(P1, P, 'first-order part: states', 1e-7)
    ctx.close(Q1, Q, 'first-order part: shocks', 1e-7)
    for name, a, b in zip(('state x state', 'state x shock', 'shock x shock', 'risk'),
                          got, want):
        ctx.close(a, b, f'second-order {name} term', 1e-6 * max(1, scale), text=s.text())
