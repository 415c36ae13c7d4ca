"""
the bounded space of solved models shared by the checks of what is computed from a
solution (simulations, impulse responses, moments, decompositions, summaries)

A model is a JSON-able list [structure, table, shock layout, nonlinear form or None,
covariance, steady state, declaration order, equation order].
"""
import numpy as np

from . import ref, space
from .sym import N, V, B, F, mul, leaves

SIGMAS = {
    'eye': [],
    'var': ['var {0} = 0.25'],
    'se': ['var {0}; stderr 0.3'],
    'small': ['var {0}; stderr 0.007'],
    'zero': ['var {0} = 0'],
    'corr': ['var {0}; stderr 0.5', 'var {1} = 2', 'corr {0}, {1} = -0.6'],
    'cov': ['var {0} = 0.5', 'var {0}, {1} = 0.2'],
    'perfect': ['var {0} = 4', 'corr {0}, {1} = 1'],
    'zero2': ['var {1}; stderr 0', 'var {0} = 3'],
}


def sigma(name, m):
    S = np.eye(m)
    if name == 'var':
        S[0, 0] = .25
    elif name == 'se':
        S[0, 0] = .09
    elif name == 'small':
        S[0, 0] = .007**2
    elif name == 'zero':
        S[0, 0] = 0
    elif name == 'corr':
        S[0, 0], S[1, 1] = .25, 2
        S[0, 1] = S[1, 0] = -.6 * .5 * np.sqrt(2)
    elif name == 'cov':
        S[0, 0] = .5
        S[0, 1] = S[1, 0] = .2
    elif name == 'perfect':
        S[0, 0] = 4
        S[0, 1] = S[1, 0] = 2
    elif name == 'zero2':
        S[0, 0], S[1, 1] = 3, 0
    return S


def upper_cholesky(S):
    """the upper triangular U with U'U = S, for a positive semi-definite S"""
    n = len(S)
    R = S.copy()
    U = np.zeros((n, n))
    for k in range(n):
        if R[k, k] > 1e-14:
            U[k, k:] = R[k, k:] / np.sqrt(R[k, k])
            R = R - np.outer(U[k], U[k])
    return U


def subst(e, names, f):
    """`e` with every variable of `names` replaced by f(variable)"""
    k = e[0]
    if k == 'var':
        return f(e) if e[1] in names else e
    if k == 'bin':
        return ('bin', e[1], subst(e[2], names, f), subst(e[3], names, f))
    if k == 'neg':
        return ('neg', subst(e[1], names, f))
    if k == 'fn':
        return ('fn', e[1], subst(e[2], names, f))
    return e


def shifted(s, values):
    """the same model around the steady state `values` (by position)"""
    ss = {v: c for v, c in zip(s.endog, values)}
    f = lambda e: B('-', e, N(ss[e[1]])) if ss[e[1]] else e
    s.eqs = [(subst(l, ss, f), subst(r, ss, f)) for l, r in s.eqs]
    s.ss = dict(ss)
    s.init = dict(ss)
    return s


STEADY = {'zero': (0, 0, 0), 'one': (1, -2, 0.5), 'mixed': (0, 3, 0.25)}


def nonlinear(s, form):
    """the Spec with second-order terms added"""
    eqs = []
    for i, (l, r) in enumerate(s.eqs):
        lv = sorted(leaves(l) | leaves(r))
        if form == 'all':
            k = 0
            for a in range(len(lv)):
                for b in range(a, len(lv)):
                    c = round(0.11 + 0.07 * ((3 * k + i) % 5), 3)
                    r = B('+' if k % 3 else '-', r, mul(N(c), V(*lv[a]), V(*lv[b])))
                    k += 1
        elif form == 'exp':
            r = B('-', F('exp', r), N(1))
            l = B('+', l, mul(N(.3), l, l))
        elif form == 'cross':
            al = sorted(set().union(*[leaves(x) | leaves(y) for x, y in s.eqs]))
            k = 0
            for a in al:
                for b in al:
                    if a[1] > b[1] or (a[1] == b[1] and a < b):
                        if (k + i) % 2 == 0:
                            r = B('+', r, mul(N(round(.05 + .04 * (k % 4), 3)), V(*a), V(*b)))
                        k += 1
        eqs.append((l, r))
    s.eqs = eqs
    return s


def models(tier, order=1, three=True, step=1):
    """the bounded space of models; order 2 adds nonlinear terms"""
    deep = tier == 'thorough'
    forms = ['all', 'exp', 'cross'] if order == 2 else [None]
    sgs = {'each1': ['eye', 'var', 'se', 'small', 'zero'], 'none': ['eye'],
           'both': ['corr', 'cov', 'perfect', 'zero2', 'eye']}
    steadies = list(STEADY)
    k = 0
    for own in (1, 2, 3):
        for table in ('small', 'bigfwd', 'mixed'):
            for form in forms:
                for sh in ('each', 'none', 'both'):
                    for g in sgs['each1' if sh == 'each' else sh]:
                        k += 1
                        yield [[[own, []]], table, sh, form, g, steadies[k % 3], [0], [0]]
    P2 = [[0, 1], [1, 0]]
    for st in space.structures(2):
        if not space.dynamic(st):
            continue
        k += 1
        if step > 1 and k % step and not deep:
            continue
        for form in (forms if deep else [forms[(k // 3) % len(forms)]]):
            for table in (('small', 'mixed', 'complex') if deep else ('small',)):
                sh = ('each', 'one', 'both', 'each', 'last', 'both', 'none')[(k // 5) % 7]
                if sh in ('each', 'both'):
                    g = ('corr', 'cov', 'eye', 'perfect', 'corr', 'zero2')[(k // 2) % 6]
                elif sh == 'none':
                    g = 'eye'
                else:
                    g = ('eye', 'var', 'se', 'small')[(k // 2) % 4]
                yield [st, table, sh, form, g, steadies[k % 3],
                       P2[k % 2], P2[(k // 2) % 2]]
    if not three:
        return
    P3 = [list(p) for p in space.perms(3)]
    own, cross = (0, 1, 2, 3), ((0, 1, 2, 4) if deep else (0, 5))
    for st in space.ring_structures(3, own, cross):
        if not space.dynamic(st):
            continue
        k += 1
        if not deep and (k % (2 * step) or (order == 2 and k % 3)):
            continue
        yield [st, 'small', ('each', 'one', 'both')[k % 3], forms[(k // 3) % len(forms)],
               ('corr', 'var', 'cov')[k % 3], steadies[(k // 2) % 3],
               P3[k % 6], P3[(k // 6) % 6]]


def large(tier, order=1, step=1):
    """larger models, whose equations involve neighbours only"""
    deep = tier == 'thorough'
    sizes = (5, 6, 7, 8, 11) if deep else (6, 8)
    steadies = list(STEADY)
    for k, st in enumerate(space.large_structures(sizes, (0, 1, 2, 4))):
        if not deep and k % step:
            continue
        n, j = len(st), k // (1 if deep else step)
        sh = ('each', 'one', 'both', 'last')[j % 4]
        if order == 2 and n > 6 and (sh == 'each' or st[0][0] == st[1][0] == 3):
            continue
        yield [st, ('small', 'mixed', 'small', 'complex')[j // 2 % 4], sh,
               (None if order == 1 else ('all', 'exp')[j % 2]),
               ('corr', 'cov', 'perfect')[j // 4 % 3] if sh in ('each', 'both') else 'var',
               steadies[j % 3], space.large_perm(n, j), space.large_perm(n, j // 4 + 1)]


def make(case):
    """(Spec, shock covariance) of a model"""
    st, table, sh, form, g, steady, p, q = case
    s = space.structure_spec([(o, tuple(c)) for o, c in st], table, sh)
    if form:
        s = nonlinear(s, form)
    vals = (STEADY[steady] * len(s.endog))[:len(s.endog)]
    if any(vals):
        s = shifted(s, vals)
    s = s.permuted(endog=p, eqs=q)
    s.shocks = [x.format(*s.stoch) for x in SIGMAS[g]]
    return s, sigma(g, len(s.stoch))


def reference(s):
    """(P, Q), or a string saying why the model is outside the space"""
    jac = s.jac_full()
    if ref.determinacy(*jac[:3]) != 'ok':
        return 'not determinate'
    R = ref.stable_solution(*jac)
    if R is None or max(np.abs(x).max(initial=0) for x in R) > 1e5:
        return 'illconditioned'
    return R


def ss_vector(s):
    return np.array([float(s.ss.get(v, 0.)) for v in s.endog])
