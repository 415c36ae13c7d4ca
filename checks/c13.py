"""C13: the shock covariance matrix is the one declared"""
import itertools

import numpy as np

ID = 'C13'
LEVEL = 'exploration'
RULE = ('every set of shock statements over 1, 2 and 3 shocks: no, var or stderr statement for '
        'each shock (zero included), no, covariance or correlation statement for each pair, named in either '
        'order, in every order of the statements up to 4 of them (cyclic orders and reversals '
        'beyond), x declaration orders, given as text or as a dictionary (lists or '
        'scalars), plus 4 shocks with every graph of related pairs; outcome = (shocks, kinds '
        'of statements)')
ASSUMPTIONS = ['every shock has at most one variance statement and every pair at most one '
               'statement']
CHUNK = 40

NAMES = ['e', 'u', 'v', 'w']
VAR = [0.25, 4.0, 0.09, 2.25]
MOM = {('e', 'u'): 0.3, ('e', 'v'): -0.2, ('u', 'v'): 0.15, ('e', 'w'): 0.05,
       ('u', 'w'): -0.1, ('v', 'w'): 0.25}
KINDS = [None, 'var', 'se', 'zero']
PAIRS = [None, 'cov', 'corr', 'vcov', 'vcorr']


def cases(tier):
    deep = tier == 'thorough'
    for k in KINDS:
        yield ['text', 1, [k], [], 0, 0]
        yield ['dict', 1, [k], [], 0, 0]
    k = 0
    for kinds in itertools.product(KINDS, repeat=2):
        for pr in PAIRS:
            n = sum(x is not None for x in (*kinds, pr))
            for o in range([1, 1, 2, 6][n]):
                for d in (0, 1):
                    yield ['text', 2, kinds, [pr], o, d]
                    if o == 0:
                        yield ['dict', 2, kinds, [pr], 0, d]
                        yield ['dict', 2, kinds, [pr], 1, d]
    for kinds in itertools.product(KINDS[:3] if not deep else KINDS, repeat=3):
        for prs in itertools.product(PAIRS, repeat=3):
            n = sum(x is not None for x in (*kinds, *prs))
            if deep:
                orders = range([1, 1, 2, 6, 24, 12, 12][n])
            else:
                orders = {k % [1, 1, 2, 6, 24, 12, 12][n]}
            for o in orders:
                yield ['text', 3, kinds, prs, o, k % 6]
                k += 1
            if deep or k % 4 == 0:
                yield ['dict', 3, kinds, prs, k % 2, k % 6]
            k += 1
    for mask in range(64):
        for kind in ('cov', 'corr', 'mix', 'vmix'):
            prs = []
            for b in range(6):
                if not mask >> b & 1:
                    prs.append(None)
                else:
                    prs.append({'mix': ('cov', 'vcorr')[b % 2],
                                'vmix': ('corr', 'vcov')[b % 2]}.get(kind, kind))
            yield ['text', 4, [KINDS[(mask + i) % 3] for i in range(4)], prs, mask % 5, mask % 24]
            yield ['dict', 4, [KINDS[(mask + i) % 3] for i in range(4)], prs, mask % 2, mask % 24]


def expected(names, kinds, prs, order):
    m = len(names)
    S = np.eye(m)
    base = NAMES[:m]
    for i, k in enumerate(kinds):
        if k is not None:
            S[i, i] = 0.0 if k == 'zero' else VAR[i]
    for (i, j), p in zip(itertools.combinations(range(m), 2), prs):
        if p is None:
            continue
        v = MOM[base[i], base[j]]
        if p.endswith('corr'):
            v *= np.sqrt(S[i, i] * S[j, j])
        S[i, j] = S[j, i] = v
    ix = [base.index(n) for n in names]
    return S[np.ix_(ix, ix)]


def statements(m, kinds, prs):
    base = NAMES[:m]
    out = []
    for i, k in enumerate(kinds):
        if k == 'var':
            out.append(f'var {base[i]} = {VAR[i]};')
        elif k == 'zero':
            out.append(f'var {base[i]} = 0;')
        elif k == 'se':
            out.append(f'var {base[i]}; stderr {VAR[i] ** .5};')
    for (i, j), p in zip(itertools.combinations(range(m), 2), prs):
        if p is None:
            continue
        a, b = base[i], base[j]
        if p[0] == 'v':
            a, b = b, a
        out.append(f"{'var' if p.endswith('cov') else 'corr'} {a}, {b} = "
                   f"{MOM[base[i], base[j]]};")
    return out


def arranged(st, o):
    n = len(st)
    if n <= 4:
        ps = list(itertools.permutations(range(n)))
    else:
        ps = []
        for r in range(n):
            c = [(r + i) % n for i in range(n)]
            ps.extend((c, c[::-1]))
    return [st[i] for i in ps[o % len(ps)]]


def as_dict(m, kinds, prs, scalar):
    base = NAMES[:m]
    out = {}
    for i, k in enumerate(kinds):
        if k is not None:
            out.setdefault(base[i], {})['variance'] = 0 if k == 'zero' else VAR[i]
    rel = {}
    for (i, j), p in zip(itertools.combinations(range(m), 2), prs):
        if p is None:
            continue
        a, b = base[i], base[j]
        if p[0] == 'v':
            a, b = b, a
        rel.setdefault(a, []).append((b, 'cov' if p.endswith('cov') else 'corr',
                                      MOM[base[i], base[j]]))
    for a, lst in rel.items():
        d = out.setdefault(a, {})
        if len(lst) == 1 and scalar:
            d['other'] = lst[0][0]
            d[lst[0][1]] = lst[0][2]
        else:
            d['other'] = [x[0] for x in lst]
            d['corr'] = [x[2] if x[1] == 'corr' else None for x in lst]
            d['cov'] = [x[2] if x[1] == 'cov' else None for x in lst]
    return out


def run(case, ctx):
    from pynare import Model
    from pynare.parsing import read_model
    how, m, kinds, prs, o, d = case
    perms = list(itertools.permutations(range(m)))
    names = [NAMES[i] for i in perms[d % len(perms)]]
    eq = 'x = 0.5*x(-1) + ' + ' + '.join(NAMES[:m])
    if how == 'text':
        st = arranged(statements(m, kinds, prs), o)
        text = (f"var x; varexo {', '.join(names)};\nmodel; {eq}; end;\nshocks;\n"
                + '\n'.join(st) + '\nend;\n')
        md = Model.from_outline(read_model(text, 'dynare'))
    else:
        sh = as_dict(m, kinds, prs, o)
        text = repr(sh)
        md = Model(endog=['x'], stoch=names, exprs=[eq], shocks=sh)
    ctx.outcome((m, tuple(sorted({str(k) for k in (*kinds, *prs)}))))
    want = expected(names, kinds, prs, o)
    ctx.close(md.sigma, want, 'shock covariance', 1e-12, text=text, order=names)
    S = np.asarray(md.sigma)
    ctx.check(np.array_equal(S, S.T), 'not symmetric', got=S, text=text)
    ctx.check(list(md.stoch.names) == names, 'order of the shocks', got=list(md.stoch.names))
    before = S.copy()
    md.update()
    ctx.close(md.sigma, before, 'covariance after an update', 1e-15, text=text)
