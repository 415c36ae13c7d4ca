"""C32: the conditions of a constraint hold where they say"""
import itertools
import math

import numpy as np

from mc.access import creator
from mc import exprs
from mc.sym import N, P, V, ev, leaves

ID = 'C32'
LEVEL = 'exploration'
RULE = ('every token string of up to 6 tokens (thorough: 7) over two variables, a parameter, a '
        'number, -, *, /, parentheses and two comparisons, and every comparison of two expressions '
        'of up to 3 tokens each with each of the five signs, as the condition of a constraint, '
        'evaluated on paths of 1 to 16 periods through all points of a grid on which many '
        'comparisons are ties (and, with some of these, parameters of zero and below), and on values from 1e-300 to 1e300 apart by 1e-15 to 1e4; every ordered set of up to 3 of 5 constraints, written as a pair or '
        'as lists and tuples of pairs, in both declaration orders of the variables, given as '
        'names or as variable arrays; malformed conditions and lists that are not pairs; '
        'outcome = (signs, holds everywhere, somewhere or nowhere)')
ASSUMPTIONS = [
    'a condition compares two expressions in current variables and parameters; one that mentions '
    'no variable is not judged, nor is a point where an expression has no finite value',
    'parameters have the values they had when the constraint was made',
    'several constraints are evaluated side by side or one below the other',
]
CHUNK = 2

SIGNS = {'<': np.less, '<=': np.less_equal, '>': np.greater, '>=': np.greater_equal,
         '==': np.equal}
GRID = [-1., 0., .5, 2.]
POINTS = np.array(list(itertools.product(GRID, GRID)))
A = .5
NAMES = {'x': V('x'), 'y': V('y'), 'a': P('a'), '2': N(2)}
ALPHA = ['x', 'y', 'a', '-', '*', '(', ')', '<', '>=']
OPERANDS = ['x', 'y', 'a', '2', '-', '*', '/', '+', '^']


def cases(tier):
    deep = tier == 'thorough'
    for p in itertools.product(ALPHA, repeat=2):
        yield ['tokens', list(p), 5 if deep else 4]
    sides = [t for t in exprs.strings(OPERANDS, 3) if exprs.parse(t, NAMES) is not None]
    for s in SIGNS:
        for k in range(0, len(sides), 4):
            yield ['sides', s, k, A]
            if deep or k % 8 == 0:
                yield ['sides', s, k, (0., -1.)[k // 8 % 2]]
    for n in range(1, 4):
        for p in itertools.permutations(range(5), n):
            yield ['list', list(p)]
    yield ['scales']
    yield ['refuse']


def parse(toks):
    """(left, sign, right); None if malformed; 'no comparison'"""
    at = [i for i, t in enumerate(toks) if t in SIGNS]
    if not at:
        return 'none' if exprs.parse(toks, NAMES) is not None else None
    if len(at) > 1:
        return None
    l, r = exprs.parse(toks[:at[0]], NAMES), exprs.parse(toks[at[0] + 1:], NAMES)
    return None if l is None or r is None else (l, toks[at[0]], r)


def value(e, pt, a=A):
    try:
        v = ev(e, {'a': a}, {('x', 0): pt[0], ('y', 0): pt[1]})
    except (ZeroDivisionError, OverflowError, ValueError):
        return math.nan
    return math.nan if isinstance(v, complex) else float(v)


def constant(e, a=A):
    """some part without variables has no value"""
    if not leaves(e):
        return math.isnan(value(e, (0., 0.), a))
    return any(constant(x, a) for x in e[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))


def truth(c, points=POINTS, a=A):
    """(values, which of them are judged)"""
    l = np.array([value(c[0], p, a) for p in points])
    r = np.array([value(c[2], p, a) for p in points])
    ok = np.isfinite(l) & np.isfinite(r)
    near = ok & (l != r) & (np.abs(l - r) < 1e-9 * (1 + np.abs(l)))     # rounding decides
    return SIGNS[c[1]](l, r), ok & ~near


def judge(c, text, ctx, make, a=A):
    """a condition, first and second in its pair"""
    if not leaves(c[0]) and not leaves(c[2]) or constant(c[0], a) or constant(c[2], a):
        ctx.tally(False)
        return
    want, ok = truth(c, POINTS, a)
    ctx.tally(bool(ok.any()))
    if not ok.any():
        return
    for pair, col in (((text, 'x < 0'), 0), (('y > 0', text), 1)):
        con = make(list(pair), ['x', 'y'], {'a': a})
        for T in (16, 1):
            for k in ([0] if T == 16 else [5]):
                pts = POINTS[k:k + T]
                got = np.asarray(con(pts))
                if not ctx.check(got.shape == (T, 2), 'shape', got=got.shape, expected=(T, 2),
                                 condition=text):
                    return
                bad = ok[k:k + T] & (got[:, col].astype(bool) != want[k:k + T])
                ctx.check(not bad.any(), 'where a condition holds', condition=text, position=col, a=a,
                          points=pts[bad], got=got[bad, col])
                other = pts[:, 0] < 0 if col == 0 else pts[:, 1] > 0
                ctx.check(np.array_equal(got[:, 1 - col].astype(bool), other),
                          'where the other condition holds', condition=text)
    n = want[ok].sum()
    ctx.outcome((c[1], 'everywhere' if n == ok.sum() else 'somewhere' if n else 'nowhere'))


def run(case, ctx):
    from pynare.core.solve.binding import Constraint
    globals()['run_' + case[0]](case, ctx, Constraint)


def run_tokens(case, ctx, make):
    _, pre, n = case
    for t in [()] + list(exprs.strings(ALPHA, n)):
        toks = list(pre) + list(t)
        c = parse(toks)
        text = exprs.text(toks)
        if c is None:
            if len(t) <= 2:
                ctx.raises(Exception, lambda: make([text, 'x < 0'], ['x', 'y'], {'a': A}),
                           'malformed condition', condition=text)
                ctx.tally(True)
            continue
        if c != 'none':
            judge(c, text, ctx, make)
        if ctx.problems:
            return


def run_sides(case, ctx, make):
    _, sign, k, a = case
    sides = [t for t in exprs.strings(OPERANDS, 3) if exprs.parse(t, NAMES) is not None]
    for l in sides[k:k + 4]:
        for r in sides:
            c = (exprs.parse(l, NAMES), sign, exprs.parse(r, NAMES))
            judge(c, exprs.text(list(l) + [sign] + list(r)), ctx, make, a)
            if ctx.problems:
                return


PAIRS = [('x > a', 'x < 0'), ('y - x >= a', 'y <= 0.5'), ('x*y == 0', 'y < x'), ('2 >= x', 'x > 0'),
         ('-x < y', 'y/a > 1')]


def run_list(case, ctx, make):
    pairs = [PAIRS[i] for i in case[1]]
    f = {'x > a': lambda x, y: x > A, 'x < 0': lambda x, y: x < 0, 'y - x >= a': lambda x, y: y - x >= A,
         'y <= 0.5': lambda x, y: y <= .5, 'x*y == 0': lambda x, y: x * y == 0,
         'y < x': lambda x, y: y < x, '2 >= x': lambda x, y: 2 >= x, 'x > 0': lambda x, y: x > 0,
         '-x < y': lambda x, y: -x < y, 'y/a > 1': lambda x, y: y / A > 1}
    forms = {'lists': [list(p) for p in pairs], 'tuples': tuple(pairs), 'mixed': [tuple(p) for p in pairs]}
    if len(pairs) == 1:
        forms['one pair'] = list(pairs[0])
        forms['one tuple'] = pairs[0]
    for order in (['x', 'y'], ['y', 'x']):
        pts = POINTS if order == ['x', 'y'] else POINTS[:, ::-1]
        want = np.column_stack([f[s](POINTS[:, 0], POINTS[:, 1]) for p in pairs for s in p])
        for name, con in forms.items():
            for endog in (order, tuple(order), creator('endog')(order)):
                par = {'a': A, 'unused': 3.}
                c = make(con, endog, par)
                ctx.check(len(c) == len(pairs), 'number of constraints', got=len(c), expected=len(pairs))
                for k, T in ((0, 16), (0, 1), (6, 1), (3, 5)):
                    path = np.array(pts[k:k + T])
                    kept = path.copy()
                    got = np.asarray(c(path))
                    ctx.step()
                    w = want[k:k + T]
                    stacked = np.vstack(np.hsplit(w, len(pairs)))
                    ctx.check(any(got.shape == x.shape and np.array_equal(got.astype(bool), x)
                                  for x in (w, stacked)), 'conditions of a list',
                              constraints=pairs, form=name, order=order, got=got, expected=w)
                    ctx.check(np.array_equal(path, kept), 'the path was changed', constraints=pairs)
                ctx.check(par == {'a': A, 'unused': 3.}, 'the parameters were changed')
    ctx.outcome(('list', len(pairs)))
    ctx.tally(True)


def run_scales(case, ctx, make):
    # differences far smaller and far larger than one, and values that are integers
    base = [0., 1., -1., 1e-12, 3e-7, 1e6, -1e9, 1e15, 123456789.]
    steps = [0., 1e-15, -1e-15, 1e-9, -1e-9, 1e-6, -1e-6, 1., -1., 1e4]
    pts = np.array([(b, b + d) for b in base for d in steps] + [(2e300, -2e300), (1e-300, 0.)])
    for sign, f in SIGNS.items():
        for text, l, r in (('x {} y', pts[:, 0], pts[:, 1]), ('y {} x', pts[:, 1], pts[:, 0]),
                           ('-x {} -y', -pts[:, 0], -pts[:, 1]), ('x {} 0', pts[:, 0], 0.),
                           ('x {} a', pts[:, 0], 1e-12), ('0.001*0 {} y', 0., pts[:, 1])):
            want = f(l, r)
            got = np.asarray(make([text.format(sign), 'x < 0'], ['x', 'y'], {'a': 1e-12})(pts))
            bad = got[:, 0].astype(bool) != want
            ctx.check(not bad.any(), 'where a condition holds', condition=text.format(sign),
                      points=pts[bad])
            ctx.tally(True)
    ints = np.array([[1, 2], [2, 2], [3, 2], [-4, 7]])
    got = np.asarray(make(['x < y', 'x >= y'], ['x', 'y'], {})(ints))
    ctx.check(np.array_equal(got.astype(bool), [[1, 0], [0, 1], [0, 1], [1, 0]]), 'integer values',
              got=got)
    ctx.outcome('scales')


def run_refuse(case, ctx, make):
    for bad in ['x > 1', ['x > 1'], ['x > 1', 'x < 0', 'y > 0'], [['x > 1'], ['x < 0']],
                [['x > 1', 'x < 0'], ['y > 1']], [['x > 1', 'x < 0', 'y > 1']], 5, None, ['', 'x > 1'],
                ['x >', 'x < 1'], ['x > 1', '> 1'], ['x > y > 1', 'x < 1'], ['x => 1', 'x < 1'],
                ['x >> 1', 'x < 1'], ['x > 1;', 'x < 1'], ['x > 1 y', 'x < 1']]:
        ctx.raises(Exception, lambda: make(bad, ['x', 'y'], {'a': A}), 'no pair of conditions', given=bad)
        ctx.tally(True)
    c = make(['x > zz', 'x < 1'], ['x', 'y'], {'a': A})
    ctx.raises(Exception, lambda: c(POINTS), 'a condition about an unknown name')
    ctx.outcome('refused')
