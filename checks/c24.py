"""C24: summaries print the numbers they are labelled with"""
import itertools
import re

import numpy as np

from mc import lin, ref, space
from checks.c16 import moments

ID = 'C24'
LEVEL = 'exploration'
RULE = ('every 1- and 2-variable lead/lag incidence structure, ring-coupled 3-variable ones and '
        '4-variable ones in all 24 declaration orders x shock layouts x covariances x steady '
        'states x order 1 and 2, short and long names, tiny and huge values: the solution, the '
        'statistics and the model summary x numbers of digits {default, 0, 2, 4, 9} x thresholds '
        '{default, 0, 2, -3} x paddings x selections of blocks (one, several, every toggle) x '
        'numbers of lags {1, 3, 5} x parameter selections; every printed table is read back '
        'and compared with an independent solution, row by row; outcome = (summary, order, '
        'states, shocks, variables, rows left out)')
ASSUMPTIONS = [
    'second-order coefficients are those of the products as printed: both orders of a product '
    'of two different states (or shocks) are listed, each with half of their joint coefficient',
    'rows in which every number is smaller than the threshold may be left out, and only those',
    'column p = k of the autocorrelations is that of lag k',
]
CHUNK = 12

LONG = ['consumption_of_households', 'k', 'labour', 'Output_gap_2']
NUM = r'[-+]?(?:\d+\.?\d*|inf|nan)'


def cases(tier):
    deep = tier == 'thorough'
    for order in (1, 2):
        for i, m in enumerate(lin.models(tier, order, step=1 if order == 1 else 3)):
            yield ['model', order, m, i]
        for i, m in enumerate(lin.large(tier, order, 3 if order == 1 else 7)):
            yield ['model', order, m, i]
    rings = [[[1, [1, 0, 0]], [3, [0, 4, 0]], [1, [0, 0, 2]], [2, [1, 0, 0]]],
             [[1, [1, 0, 0]], [1, [0, 1, 0]], [1, [0, 0, 1]], [1, [2, 0, 0]]],
             [[0, [2, 0, 0]], [1, [0, 4, 0]], [3, [0, 0, 1]], [2, [0, 0, 5]]]]
    k = 0
    for st in rings:
        for p in itertools.permutations(range(4)):
            for order in (1, 2):
                k += 1
                if order == 2 and not deep and k % 3:
                    continue
                yield ['model', order,
                       [st, 'small', ('each', 'both', 'one')[k % 3],
                        ('cross' if k % 2 else 'exp') if order == 2 else None,
                        ('corr', 'cov', 'var')[k % 3], ('zero', 'one', 'mixed')[k % 3],
                        list(p), [0, 1, 2, 3]], k]
    for order in (1, 2):
        for scale in (1, 1e-9, 3e7):
            for n in (1, 2, 3, 4):
                for sh in ('each', 'both'):
                    yield ['long', order, scale, n, sh]
    for vals in ([], [0], [0, 0], [1e-4], [1e-12], [-3, 2], [123456.75, -1], [0, 1e9], [.5, 10]):
        for eq in (0, 1):
            yield ['params', vals, eq]


def parse(text):
    """
    a printed table: column names, {label: [values]}, and problems; rows end in as many
    numbers as there are columns
    """
    cols, rows, bad = None, {}, []
    for line in text:
        if not line.strip() or line.strip() == '+':
            continue
        if cols is None:
            cols = re.split(r'\s{2,}', line.strip())
            continue
        toks = line.split()
        k = len(cols)
        vals, lab = toks[len(toks) - k:], ' '.join(toks[:len(toks) - k])
        if len(vals) != k or not all(re.fullmatch(NUM, v) for v in vals):
            bad.append(f'row {line!r}')
            continue
        if lab in rows:
            bad.append(f'{lab!r} is listed twice')
        rows[lab] = [float(v) for v in vals]
    return cols, rows, bad


def near(got, want, sig):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return False
    w = np.where(np.isfinite(want), want, 0)
    g = np.where(np.isfinite(want), got, 0)
    tol = .5 * 10.**-sig * (1 + 1e-9) + 1e-7 * np.maximum(1, np.abs(w))
    return bool(np.all(np.abs(w - g) <= tol))


def table(ctx, text, cols, want, sig, what, cut=None, undefined=(), **detail):
    """
    `want`: {label: values}; rows entirely below `cut` may be missing. `undefined` are
    labels of rows which are not judged
    """
    got, rows, bad = parse(text)
    ctx.check(not bad, what + ': unreadable', bad=bad[:3], text=text, **detail)
    ctx.check(got == list(cols), what + ': columns', got=got, want=list(cols), text=text,
              **detail)
    left = 0
    for lab, vals in want.items():
        if lab in undefined:
            continue
        if lab not in rows:
            small = cut is not None and np.all(np.abs(vals) < cut * (1 + 1e-6) + 1e-9)
            left += 1
            ctx.check(small, what + ': row left out', label=lab, values=list(vals), text=text,
                      **detail)
        else:
            ctx.check(near(rows[lab], vals, sig), what + ': values', label=lab,
                      got=rows[lab], want=[float(v) for v in vals], text=text, **detail)
    extra = [r for r in rows if r not in want]
    ctx.check(not extra, what + ': unknown rows', rows=extra, text=text, **detail)
    return left


def run(case, ctx):
    return {'model': run_model, 'long': run_long, 'params': run_params}[case[0]](case, ctx)


def run_model(case, ctx):
    _, order, mcase, i = case
    s, S = lin.make(mcase)
    judge(ctx, s, S, order, i)


def run_long(case, ctx):
    _, order, scale, n, sh = case
    st = [[1, [2] + [0] * (n - 2)] if n > 1 else [1, []]] * n
    s = space.structure_spec([(o, tuple(c)) for o, c in st], 'small', sh, names=LONG[:n])
    if order == 2:
        s = lin.nonlinear(s, 'all')
    s = lin.shifted(s, [3 * scale, 0, -scale][:n] if order == 1 else [0] * n)
    s.shocks = [f'var {s.stoch[0]} = {scale!r}' if scale == 3e7 else
                f'var {s.stoch[0]} = {scale:.12f}'] if scale != 1 else []
    if scale == 3e7:
        s.shocks = [f'var {s.stoch[0]} = 30000000']
    S = np.eye(len(s.stoch))
    S[0, 0] = float(s.shocks[0].split('=')[1]) if s.shocks else 1
    judge(ctx, s, S, order, n)


def body(text, head):
    """lines after the heading"""
    lines = text.split('\n')
    return lines[1:], lines[0]


def judge(ctx, s, S, order, i):
    R = lin.reference(s)
    if isinstance(R, str):
        ctx.outcome((R,), trivial=True)
        return
    P, Q = R
    n, m = len(s.endog), len(s.stoch)
    ss = lin.ss_vector(s)
    second = None
    if order == 2:
        second = ref.second_order(s, P, Q, S)
        if max(np.abs(g).max(initial=0) for g in second) > 1e5:
            ctx.outcome(('illconditioned',), trivial=True)
            return
    app = s.appearances()
    states = [v for v in s.endog if -1 in app[v]]
    md = s.build()
    sol = md.solve(order=order)
    text = s.text()

    pos = {v: j for j, v in enumerate(s.endog)}
    want = {'steady': ss}
    for v in states:
        want[f'{v}(-1)'] = P[:, pos[v]]
    for j, e in enumerate(s.stoch):
        want[e] = Q[:, j]
    if order == 2:
        Gxx, Gxu, Guu, Gss = second
        for a, b in itertools.product(states, repeat=2):
            want[f'{a}(-1), {b}(-1)'] = .5 * Gxx[:, pos[a], pos[b]]
        for a in states:
            for j, e in enumerate(s.stoch):
                want[f'{a}(-1), {e}'] = Gxu[:, pos[a], j]
        for (j, a), (l, b) in itertools.product(enumerate(s.stoch), repeat=2):
            want[f'{a}, {b}'] = .5 * Guu[:, j, l]
        want['del2'] = .5 * Gss

    left = 0
    opts = [{}]
    opts += [{'sig': d} for d in (0, 2, 4, 9)]
    opts += [{'thresh': t} for t in (0, 2, -3)]
    opts += [{'sig': 2, 'thresh': -1, 'pad': 1}, {'pad': 0}]
    for kw in opts if i % 3 == 0 else opts[i % 2::2]:
        sig, th = kw.get('sig', 6), kw.get('thresh')
        cut = None
        if order == 2 or th is not None:
            cut = 10.**-(sig + (th or 0))
        out = str(sol.summary(**kw))
        lines, head = body(out, 'policy')
        ctx.check('policy' in head, 'solution: heading', got=head)
        must = {'steady', 'del2'}
        left += table(ctx, lines, s.endog, want, sig, f'order {order} solution', cut,
                      options=kw, model=text)
        _, rows, _ = parse(lines)
        ctx.check(all(r in rows for r in must if r in want),
                  'solution: steady state or correction left out', got=sorted(rows))
        pad = kw.get('pad', 4)
        ctx.check(all(x.startswith(' ' * pad) for x in lines), 'solution: padding', text=out)
    ctx.outcome(('solution', order, len(states), m, n, left > 0))

    # ---- statistics ------------------------------------------------------------
    stable = np.abs(np.linalg.eigvals(P)).max(initial=0) <= .995
    if stable:
        statistics(ctx, s, S, P, Q, ss, second, order, md, i)
    model(ctx, s, S, md, states, i)


def blocks(text):
    return text.split('\n\n')


def statistics(ctx, s, S, P, Q, ss, second, order, md, i):
    n, m = len(s.endog), len(s.stoch)
    mean, V, acv = moments(order, ss, P, Q, S, second)
    var = np.diag(V)
    sd = np.sqrt(np.maximum(var, 0))
    ok = sd > 1e-9 * (1 + sd.max(initial=0))
    dead = [v for v, o in zip(s.endog, ok) if not o]
    with np.errstate(all='ignore'):
        C = V / np.outer(sd, sd)
        AC = np.array([np.diag(a) / var for a in acv])
        U = np.linalg.cholesky(S) if m and np.all(np.linalg.eigvalsh(S) > 1e-12) else \
            (lin.upper_cholesky(S).T if m else np.zeros((0, 0)))
        D = np.array([np.diag(ref.lyapunov(P, np.outer(Q @ U[:, j], Q @ U[:, j])))
                      for j in range(m)]).reshape(m, n).T / var[:, None]
    wants = {
        'moments': (['mean', 'std dev', 'var'],
                    {v: [mean[j], sd[j], var[j]] for j, v in enumerate(s.endog)}, ()),
        'corr': (s.endog, {v: np.where(ok, C[j], np.nan) for j, v in enumerate(s.endog)},
                 dead),
        'decomp': (s.stoch, {v: D[j] for j, v in enumerate(s.endog)}, dead),
    }

    def acorr(p):
        return ([f'p = {k + 1}' for k in range(p)],
                {v: AC[:p, j] for j, v in enumerate(s.endog)}, dead)

    opts = [{}, {'sig': 3}, {'only': 'corr'}, {'only': 'moments', 'sig': 9},
            {'only': ('autocorr', 'decomp'), 'autocorr': 3}, {'corr': False, 'autocorr': 1},
            {'decomp': False, 'pad': 2}, {'moments': False, 'autocorr': 0}, {'autocorr': 2},
            {'only': ['decomp']}, {'only': 'autocorr', 'pad': 0}]
    for kw in opts if i % 4 == 0 else opts[i % 3::3]:
        sig = kw.get('sig', 6)
        shown = kw.get('only', ('moments', 'corr', 'autocorr', 'decomp'))
        shown = [shown] if isinstance(shown, str) else list(shown)
        shown = [f for f in shown if kw.get(f, True)]
        if m == 0 and 'decomp' in shown:
            # there is nothing to decompose: no shares, or any error
            try:
                str(md.stats.summary(**kw))
            except Exception:
                continue
        out = str(md.stats.summary(**kw))
        bl = blocks(out)
        if not ctx.check(len(bl) == len(shown) + 1 and 'statistics' in bl[0],
                         'statistics: blocks', options=kw, text=out):
            continue
        for f, b in zip(shown, bl[1:]):
            lines, head = body(b, f)
            cols, want, und = acorr(kw.get('autocorr', 5)) if f == 'autocorr' else wants[f]
            key = {'moments': 'moments', 'corr': 'correlation', 'autocorr': 'auto',
                   'decomp': 'decomposition'}[f]
            ctx.check(key in head, 'statistics: heading', got=head, feature=f)
            if f == 'autocorr':
                ctx.check('covariance' not in head, 'statistics: heading of correlations',
                          got=head)
            if f == 'decomp' and m == 0:
                continue
            if f == 'corr' and dead:
                # undefined entries of the other rows as well
                lines = lines[:1] + [x for x in lines[1:] if x.split()[:1] not in
                                     [[d] for d in dead]]
            table(ctx, lines, cols, want, sig, f'statistics: {f}', undefined=und, options=kw,
                  model=s.text())
    for bad in ('variance', ['corr', 'nope']):
        ctx.raises(ValueError, lambda: md.stats.summary(only=bad), 'unknown block')
    ctx.raises(TypeError, lambda: md.stats.summary(only=3), 'selection of a wrong type')
    ctx.outcome(('statistics', order, m, n, bool(dead)))


def model(ctx, s, S, md, states, i):
    n, m = len(s.endog), len(s.stoch)
    app = s.appearances()
    fwd = [v for v in s.endog if 1 in app[v]]
    static = [v for v in s.endog if app[v] == {0}]
    counts = {'variables': n, 'stochastic shocks': m, 'state vars': len(states),
              'forward-looking vars': len(fwd), 'static vars': len(static)}
    eig = np.asarray(md.statespace.eigen, dtype=complex)
    for kw in ({}, {'sig': 3, 'pad': 2}, {'only': 'eigen'}, {'eigen': False},
               {'only': ('stoch', 'variables')}, {'stoch': False, 'variables': False}):
        sig = kw.get('sig', 6)
        shown = kw.get('only', ('variables', 'eigen', 'stoch', 'params'))
        shown = [shown] if isinstance(shown, str) else list(shown)
        shown = [f for f in shown if kw.get(f, True)]
        out = str(md.summary(**kw))
        bl = blocks(out)
        if not ctx.check(len(bl) == len(shown) + 1 and bl[0].startswith('model summary'),
                         'model: blocks', options=kw, text=out):
            continue
        for f, b in zip(shown, bl[1:]):
            lines, head = body(b, f)
            if f == 'variables':
                got = {}
                for x in lines:
                    mt = re.fullmatch(r'\s*number of (.+?):\s*(\d+)', x)
                    if ctx.check(mt is not None, 'model: counts', line=x):
                        got[mt.group(1)] = int(mt.group(2))
                ctx.check(all(got.get(k, 0) == v for k, v in counts.items())
                          and set(got) <= set(counts), 'model: counts', got=got, want=counts)
            elif f == 'eigen':
                eigen(ctx, lines, eig, sig, out)
            elif f == 'stoch':
                if m == 0:
                    continue
                table(ctx, lines, s.stoch, {e: S[j] for j, e in enumerate(s.stoch)}, sig,
                      'model: covariance')
            else:
                calibration(ctx, lines, s.params, sig, out)
    ctx.outcome(('model', len(states), m, n, bool(np.isinf(eig).any())))


def eigen(ctx, lines, eig, sig, out):
    if not ctx.check(lines and lines[0].split() == ['real', 'imag', 'mod'],
                     'model: eigenvalue columns', text=out):
        return
    rows = []
    for x in lines[1:]:
        t = x.split()
        if not ctx.check(len(t) == 3 and all(re.fullmatch(NUM, y) for y in t),
                         'model: eigenvalue row', row=x):
            return
        rows.append([float(y) for y in t])
    ctx.check(len(rows) == len(eig), 'model: number of eigenvalues', text=out, want=len(eig))
    ctx.check(all(a[2] <= b[2] for a, b in zip(rows, rows[1:])),
              'model: eigenvalues are sorted', text=out)
    left = [z for z in eig if np.isfinite(z)]
    inf = len(eig) - len(left)
    for r, im, md_ in rows:
        if not np.isfinite(md_):
            inf -= 1
            continue
        hit = [z for z in left if near([r, im, md_], [z.real, z.imag, abs(z)], sig)]
        if ctx.check(hit, 'model: printed eigenvalue', got=[r, im, md_], want=eig.tolist()):
            left.remove(hit[0])
    ctx.check(inf == 0, 'model: infinite eigenvalues', text=out)


def calibration(ctx, lines, want, sig, out):
    got = {}
    for x in lines:
        if not x.strip():
            continue
        mt = re.fullmatch(rf'\s*(\w+)\s*=\s*({NUM})', x)
        if ctx.check(mt is not None, 'model: calibration row', row=x):
            ctx.check(mt.group(1) not in got, 'model: parameter listed twice', row=x)
            got[mt.group(1)] = float(mt.group(2))
    ctx.check(set(got) == set(want) and all(near(got[k], want[k], sig) for k in want),
              'model: calibration', got=got, want=dict(want), text=out)


def run_params(case, ctx):
    from pynare import Model
    _, vals, eq = case
    names = ['a', 'long_parameter_name'][:len(vals)]
    params = dict(zip(names, vals))
    expr = 'x = 0.5*x(-1) + e' if eq == 0 else 'x = 0.5*x(+1) + 0*x(-1) + e'
    md = Model(endog=['x'], stoch=['e'], params=params, exprs=[expr])
    for sig in (6, 0, 3):
        for sel in ['all'] + [list(c) for r in range(1, len(names) + 1)
                              for c in itertools.permutations(names, r)] + \
                [tuple(names[:1])] + [['name', k] for k in names] + \
                [['iterator', *names[:k + 1]] for k in range(len(names))]:
            if not sel:
                continue
            only, ask = 'params', sel
            if sel[0] == 'name':
                # a single name
                ask, sel = sel[1], sel[1:]
            elif sel[0] == 'iterator':
                sel = sel[1:]
                ask, only = iter(sel), iter(['params'])
            summary = md.summary(only=only, params=ask, sig=sig)
            out = str(summary)
            ctx.check(str(summary) == out, 'calibration: printed differently again', text=out)
            bl = blocks(out)
            ctx.check(len(bl) == 2, 'calibration: blocks', text=out)
            lines, _ = body(bl[1], 'calibration')
            calibration(ctx, lines, params if sel == 'all' else {k: params[k] for k in sel},
                        sig, out)
    if names:
        ctx.raises(Exception, lambda: str(md.summary(params=['nope'])), 'unknown parameter')
    ctx.outcome(('params', len(vals), eq))
