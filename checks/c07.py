"""C07: variables are classified by the periods they really appear in"""
import itertools

import numpy as np

from mc import space
from mc.ref import Spec
from mc.sym import N, V, B, F, NEG, mul, leaves, ev
from checks import c08

ID = 'C07'
LEVEL = 'exploration'
RULE = ('(a) every assignment of a non-empty set of periods out of {-1, 0, 1} to each of up to 4 '
        'variables (thorough 5) given to the index manager, plus every set reaching two periods or empty, and patterns of up to 300 variables; '
        '(b) every incidence structure of 2-variable models and of ring-coupled 3-variable '
        'ones, and repeated patterns of up to 10 variables and one of 140, written with every appearance plain or hidden inside functions, signs, '
        'exponents, quotients, zero coefficients, parentheses, lhs, bare expressions or local '
        'definitions, x declaration and equation orders, built from text or directly; (c) every '
        'expression tree of the shapes of C08, four at a time in models of four equations; '
        'everything derived is compared with the reference classification; outcome = the '
        'numbers of static, backward, mixed and forward variables')
ASSUMPTIONS = ['models without any lead or lag are left out of (b)',
               'models of (b) whose static or dynamic block is singular cannot be built and '
               'are not compared']
CHUNK = 24

PERIODS = [p for k in (1, 2, 3) for p in itertools.combinations((-1, 0, 1), k)]
KEYS = {-1: ('t-1', -1, '-1'), 0: ('t', 0, '0'), 1: ('t+1', 1, '+1')}
FORMS = ['plain', 'fn', 'fn0', 'neg', 'pow', 'quot', 'zero', 'lhs', 'bare', 'local', 'offset0']


def cases(tier):
    deep = tier == 'thorough'
    for n in (1, 2, 3, 4) + ((5,) if deep else ()):
        for m in (0, 1, 2):
            if n >= 4:
                # one case per choice of the first variables
                for head in itertools.product(range(7), repeat=n - 3):
                    yield ['sets', n, m, list(head)]
            else:
                yield ['sets', n, m, []]
    for n in (60, 150, 300):
        for step in (1, 2, 3, 4, 5, 6):
            yield ['wide', n, step]
    yield ['wide model', 140]
    yield ['bad']
    yield ['far']
    k = 0
    P2, P3 = space.perms(2), space.perms(3)
    for st in space.structures(2):
        if not space.dynamic(st):
            continue
        forms = FORMS if deep else [FORMS[k % 11], FORMS[(k // 11 + 5) % 11]]
        for f in forms:
            yield ['model', st, f, list(P2[k % 2]), list(P2[(k // 2) % 2]),
                   'text' if (k // 4) % 3 or f == 'local' else 'direct']
        k += 1
    for st in space.ring_structures(3, (0, 1, 2, 3), (0, 1, 4, 5) if deep else (0, 1, 4)):
        if not space.dynamic(st):
            continue
        f = FORMS[k % 11]
        yield ['model', st, f, list(P3[k % 6]), list(P3[(k // 6) % 6]),
               'text' if k % 3 or f == 'local' else 'direct']
        k += 1


    for st in space.large_structures((4, 5, 6, 7, 10) if deep else (5, 10), (0, 1, 2, 4)):
        n = len(st)
        f = FORMS[k % 11]
        yield ['model', st, f, space.large_perm(n, k), space.large_perm(n, k // 4 + 1),
               'text' if k % 3 or f == 'local' else 'direct']
        k += 1
    # every shape of expression, in models with a known steady state other than zero
    env = c08.base_env()
    group = []
    for t in c08.trees(tier):
        if c08.usable(t, env) and not any(v[0] == 'e' for v in leaves(t)):
            group.append(t)
            if len(group) == 4:
                yield ['trees', group, k % 24, (k // 5) % 24, k % 2]
                group = []
                k += 1


def run(case, ctx):
    globals()['run_' + case[0].replace(' ', '_')](case, ctx)


def reference(per):
    """what follows from the list of sets of periods"""
    n = len(per)
    cls = {}
    ix = range(n)
    cls['static'] = [i for i in ix if not {-1, 1} & set(per[i])]
    cls['dynamic'] = [i for i in ix if {-1, 1} & set(per[i])]
    cls['backward'] = cls['state'] = [i for i in ix if -1 in per[i]]
    cls['forward'] = [i for i in ix if 1 in per[i]]
    cls['mixed'] = [i for i in ix if 1 in per[i] and -1 in per[i]]
    cls['pure_backward'] = [i for i in ix if -1 in per[i] and 1 not in per[i]]
    cls['pure_forward'] = [i for i in ix if 1 in per[i] and -1 not in per[i]]
    cls['cont'] = [i for i in ix if 0 in per[i]]
    llx = np.full((3, n), np.nan)
    col = 0
    for r, k in enumerate((-1, 0, 1)):
        for i in ix:
            if k in per[i]:
                llx[r, i] = col
                col += 1
    dr = cls['static'] + cls['pure_backward'] + cls['mixed'] + cls['pure_forward']
    return cls, llx, dr, col


def compare(ix, per, n_exog, ctx, **detail):
    cls, llx, dr, ncol = reference(per)
    n = len(per)

    def eq(got, want, what):
        got = np.asarray(got)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape or not np.array_equal(got.astype(float), want, equal_nan=True):
            ctx.fail(what, got=got, expected=want, periods=per, **detail)
            return False
        return True

    ok = eq(ix.llx, llx, 'incidence table')
    ok &= eq(ix.dr_order, dr, 'decision-rule order')
    ok &= eq(ix.dc_order, [dr.index(i) for i in range(n)], 'declaration-order index')
    for a, k in (('n_static', 'static'), ('n_forward', 'forward'), ('n_backward', 'backward'),
                 ('n_mixed', 'mixed'), ('n_dynamic', 'dynamic'), ('n_state', 'state')):
        ok &= eq(getattr(ix, a), len(cls[k]), a)
    ok &= eq(ix.n_endog, n, 'n_endog') and eq(ix.n_exog, n_exog, 'n_exog')
    ok &= eq(ix.n_endog_inc, ncol, 'n_endog_inc')
    ok &= eq(ix.exogenous_jacobian, list(range(ncol, ncol + n_exog)), 'columns of the shocks')
    for k, members in cls.items():
        inv = {d: r for r, d in enumerate(dr)}
        ok &= eq(getattr(ix, k), members, f'{k} variables')
        drm = sorted(inv[i] for i in members)
        ok &= eq(getattr(ix.dr, k), drm, f'{k} variables in decision-rule order')
        for p, keys in KEYS.items():
            want = [llx[p + 1, i] for i in members if p in per[i]]
            wdr = [llx[p + 1, dr[j]] for j in drm if p in per[dr[j]]]
            for key in keys:
                ok &= eq(getattr(ix, k + '_timed')[key], want, f'columns of {k} at {key}')
                ok &= eq(getattr(ix.dr, k + '_timed')[key], wdr,
                         f'columns of {k} at {key} in decision-rule order')
        if not ok:
            return False
    return bool(ok)


def run_sets(case, ctx):
    from pynare.core.variables import VariableIndexManager, EndogVar, StochVar, VarArray
    _, n, m, head = case
    stoch = VarArray([StochVar(f'e{j}') for j in range(m)])
    for tail in itertools.product(range(7), repeat=n - len(head)):
        per = [PERIODS[k] for k in (*head, *tail)]
        endog = VarArray([EndogVar(f'v{9 - i}', lead_lag=set(p)) for i, p in enumerate(per)])
        ix = VariableIndexManager(endog, stoch)
        cls = reference(per)[0]
        ctx.outcome(tuple(len(cls[k]) for k in ('static', 'pure_backward', 'mixed',
                                                'pure_forward')))
        ctx.tally()
        if not compare(ix, per, m, ctx):
            return


def run_wide(case, ctx):
    # far more variables than two bytes of anything are enough for
    from pynare.core.variables import VariableIndexManager, EndogVar, StochVar, VarArray
    _, n, step = case
    per = [PERIODS[(i * step + i // 7) % 7] for i in range(n)]
    for m in (0, 1, n):
        stoch = VarArray([StochVar(f'e{j}') for j in range(m)])
        endog = VarArray([EndogVar(f'v{n - i}', lead_lag=set(p)) for i, p in enumerate(per)])
        compare(VariableIndexManager(endog, stoch), per, m, ctx)
        cls = reference(per)[0]
        ctx.outcome(tuple(len(cls[k]) for k in ('static', 'pure_backward', 'mixed',
                                                'pure_forward')))
        ctx.tally()


def run_wide_model(case, ctx):
    n = case[1]
    kinds = ((0,), (-1, 0), (0, 1), (-1, 0, 1), (-1, 0))
    per = [kinds[(i * 2 + i // 5) % 5] for i in range(n)]
    eqs = []
    for i, p in enumerate(per):
        r = mul(N(.3), V(f'v{(i + 1) % n}', 0)) if i % 3 else V('e', 0)
        for k in p:
            if k:
                r = B('+', r, mul(N(.2), V(f'v{i}', k)))
        eqs.append((V(f'v{i}', 0), r))
    s = Spec([f'v{i}' for i in range(n)], ['e'], eqs, {}, None, {}, {})
    s = s.permuted(endog=[i * 3 % n for i in range(n)], eqs=list(range(n))[::-1])
    app = s.appearances()
    per = [tuple(sorted(app[v])) for v in s.endog]
    compare_model(s.build(), s, per, ctx, 'wide model')


def run_bad(case, ctx):
    from pynare.core.variables import VariableIndexManager, EndogVar, StochVar, VarArray
    from pynare.errors import EndogIndexError
    stoch = VarArray([StochVar('e')])
    per = [(), (2,), (-2,), (0, 2), (-2, 0, 1), (-3, -1, 0), (0, 1, 5), (-2, -1, 0, 1, 2)]
    for bad in per:
        for n in (1, 2, 3):
            for pos in range(n):
                for fill in PERIODS:
                    sets = [fill] * n
                    sets[pos] = bad
                    endog = VarArray([EndogVar(f'v{i}', lead_lag=set(p))
                                      for i, p in enumerate(sets)])
                    e = ctx.raises(EndogIndexError,
                                   lambda: VariableIndexManager(endog, stoch),
                                   'impossible periods', periods=sets)
                    if e is not None:
                        ctx.check(f'v{pos}' in str(e), 'error does not name the variable',
                                  error=str(e), periods=sets)
                    ctx.tally()
    ctx.outcome('rejected')


def run_far(case, ctx):
    """leads and lags of more than one period, from the equations on"""
    from pynare import Model
    from pynare.core.variables import read_lead_lags
    from pynare.errors import EndogIndexError
    exprs = ['x{0} = 0.3*y{0} + e', '0 = x - 0.4*exp(x{0})', 'x = -(0.5*y + 0.1*log(2 + x{0}^2))',
             'x{0}']
    for k in list(range(2, 14)) + [20, 100]:
        for sign in '+-':
            off = f'({sign}{k})'
            for i, ep in enumerate(exprs):
                eqs = [ep.format(off), 'y = 0.5*y(-1) + x + x(+1)']
                per = {'x': {0, 1, int(sign + str(k))} - ({0} if 0 else set()), 'y': {0, -1}}
                if i == 0:
                    per['y'] = per['y'] | {int(sign + str(k))}
                for order in (eqs, eqs[::-1]):
                    try:
                        md = Model(endog=['x', 'y'], stoch=['e'], exprs=order)
                    except EndogIndexError:
                        pass
                    else:
                        ctx.fail('a lead or lag of several periods was accepted', exprs=order,
                                 incidence=md.indexes.llx)
                    from pynare.core.expressions import ModelExprs
                    got = read_lead_lags(['x', 'y'], ModelExprs(order))
                    ctx.check({v: set(p) for v, p in got.items()} == per,
                              'periods read from equations', exprs=order, got=got, want=per)
                    ctx.tally()
    ctx.outcome('far')


def hide(t, form, i):
    """the appearance `t` written some other way"""
    if t[0] != 'var' or t[2] is None:
        return t
    if form == 'fn':
        return F(('exp', 'sin', 'tan')[i % 3], mul(N(.3), t))
    if form == 'fn0':
        return F(('sin', 'asin', 'tan', 'erf', 'atan')[i % 5], t)
    if form == 'neg':
        return NEG(NEG(t))
    if form == 'pow':
        return B('^', B('+', N(2), t), N(2))
    if form == 'quot':
        return B('/', t, B('+', N(3), t))
    return t


def rewrite(e, form, keep):
    if e[0] == 'var':
        return e if e[1] in keep else hide(e, form, abs(hash_name(e)))
    if e[0] == 'bin':
        return B(e[1], rewrite(e[2], form, keep), rewrite(e[3], form, keep))
    if e[0] == 'neg':
        return NEG(rewrite(e[1], form, keep))
    if e[0] == 'fn':
        return F(e[1], rewrite(e[2], form, keep))
    return e


def hash_name(e):
    return sum(map(ord, e[1])) + (e[2] or 0)


def run_model(case, ctx):
    from pynare import Model
    from pynare.errors import ModelIdentificationError
    from pynare.parsing import read_model
    from mc.sym import render
    _, st, form, p, q, how = case
    s = space.structure_spec([(o, tuple(c)) for o, c in st]).permuted(endog=p, eqs=q)
    eqs, local = [], []
    for i, (l, r) in enumerate(s.eqs):
        r = rewrite(r, form, s.stoch)
        if form == 'zero' and i == 0:
            # appears with a lead or lag, though with no effect
            v = s.endog[-1]
            r = B('+', r, mul(N(0), V(v, -1 if case[3][0] else 1)))
        if form == 'lhs':
            l, r = B('-', l, r), N(0)
        txt = f'{render(l)} = {render(r)}'
        if form == 'bare':
            txt = f'{render(l)} - ({render(r)})'
        if form == 'local':
            local.append(f'# loc{i} = 0.5 + 1/2;')
            txt = f'{render(l)} = loc{i}*({render(r)})'
        if form == 'offset0':
            txt = txt.replace(f'{s.endog[0]} =', f'{s.endog[0]}(-0) =')
            txt = txt.replace(f'{s.endog[-1]} =', f'{s.endog[-1]}(+0) =')
        eqs.append(txt)
        s.eqs[i] = (l, r)
    app = s.appearances()
    per = [tuple(sorted(app[v])) for v in s.endog]
    try:
        if how == 'direct':
            md = Model(endog=list(s.endog), stoch=list(s.stoch), exprs=eqs)
        else:
            text = s.text().split('model;')[0] + 'model;\n' + '\n'.join(local) + '\n' \
                + ';\n'.join(eqs) + ';\nend;\n'
            md = Model.from_outline(read_model(text, 'dynare'))
    except ModelIdentificationError:
        ctx.outcome('static block singular', trivial=True)
        return
    except (np.linalg.LinAlgError, ValueError) as e:
        if 'nfs or NaNs' in str(e) or 'infs or NaNs' in str(e):
            ctx.outcome('no steady state', trivial=True)
            return
        raise
    compare_model(md, s, per, ctx, ' | '.join(eqs))


def run_trees(case, ctx):
    from pynare.errors import ModelIdentificationError
    _, group, p, q, how = case
    env = c08.base_env()
    eqs = []
    for i, t in enumerate(c08.tup(group)):
        v = c08.NAMES[i]
        l = mul(N(2.9 + .6 * i), V(v, 0))
        r = B('+', t, N(ev(l, c08.PARAMS, env) - ev(t, c08.PARAMS, env)))
        if i == 0:
            r = B('+', r, V('e', 0))
        eqs.append((l, r))
    s = Spec(c08.NAMES, ['e'], eqs, c08.PARAMS, None, c08.SS, c08.SS)
    P = space.perms(4)
    s = s.permuted(endog=P[p], eqs=P[q])
    app = s.appearances()
    per = [tuple(sorted(app[v])) for v in s.endog]
    if not any(k for w in per for k in w):
        ctx.outcome('no leads or lags', trivial=True)
        return
    try:
        md = s.build_direct() if how else s.build()
    except (ModelIdentificationError, np.linalg.LinAlgError):
        ctx.outcome('static block singular', trivial=True)
        return
    compare_model(md, s, per, ctx, s.text())


def compare_model(md, s, per, ctx, text):
    from pynare.core.variables import EndogVar, VarArray, read_lead_lags, set_lead_lags
    cls, llx, dr, ncol = reference(per)
    ctx.outcome(tuple(len(cls[k]) for k in ('static', 'pure_backward', 'mixed',
                                            'pure_forward')))
    for v, w in zip(md.endog, per):
        ctx.check(set(v.lead_lag) == set(w), 'periods of a variable', name=v.name,
                  got=v.lead_lag, expected=w, eqs=text)
    if not compare(md.indexes, per, len(s.stoch), ctx, eqs=text):
        return
    # asked for by name, or by variables that are not those of the model
    names = list(s.endog)
    for w in (names, tuple(names[::-1]), iter(names), names[1:], md.endog,
              [EndogVar(v) for v in names], names + ['not_there']):
        want = {getattr(v, 'name', v): set() for v in w} if not hasattr(w, '__next__') else \
            {v: set() for v in names}
        want.update({v: set(x) for v, x in zip(names, per) if v in want})
        got = read_lead_lags(w, md.exprs)
        ctx.check(got == want, 'periods of a list of variables', got=got, expected=want, eqs=text)
    for w in (EndogVar(v) for v in names), VarArray([EndogVar(v) for v in names]):
        got = set_lead_lags(w, list(md.exprs))
        ctx.check([v.name for v in got] == names
                  and [set(v.lead_lag) for v in got] == [set(x) for x in per],
                  'periods set', got=[(v.name, v.lead_lag) for v in got], eqs=text)
    for attr, k in (('state_vars', 'state'), ('pure_forward_vars', 'pure_forward'),
                    ('pure_backward_vars', 'pure_backward'), ('mixed_vars', 'mixed'),
                    ('static_vars', 'static'), ('forward_vars', 'forward'),
                    ('backward_vars', 'backward')):
        got = list(getattr(md, attr).names)
        ctx.check(got == [s.endog[i] for i in cls[k]], attr, got=got, eqs=text,
                  expected=[s.endog[i] for i in cls[k]])
    ctx.check(md.indexes.lead_lags == dict(zip(s.endog, per)), 'lead_lags',
              got=md.indexes.lead_lags, eqs=text)
    ctx.check(md.jacobian.array.shape == (len(per), ncol + len(s.stoch)),
              'number of columns of the dynamic jacobian', eqs=text,
              got=md.jacobian.array.shape)
