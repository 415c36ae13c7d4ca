"""C25: plots show every series once, under its name"""
import itertools

import numpy as np

from mc import lin

ID = 'C25'
LEVEL = 'exploration'
RULE = ('1 to 9 (thorough 14) series x every layout - default, rect, square, column, row, every '
        'pair of 1 to 4 (thorough 5) rows and columns, one panel for all - with and without '
        'labels, with '
        'figure and line options, by position or keyword; simulations and impulse responses of '
        'models with 1 to 4 variables in all declaration orders; unknown layouts; '
        'outcome = (series, rows, columns, labelled)')
ASSUMPTIONS = ['a series is drawn by a line in data coordinates; it belongs to the legend entry '
               'of its colour']
CHUNK = 4


def cases(tier):
    deep = tier == 'thorough'
    top, side = (14, 5) if deep else (9, 4)
    layouts = ['default', 'rect', 'square', 'column', 'row', 'one']
    layouts += [list(t) for t in itertools.product(range(1, side + 1), repeat=2)]
    k = 0
    for n in range(1, top + 1):
        for lay in layouts:
            k += 1
            for lab in ('list', 'none', 'array'):
                if lab != 'list' and not deep and (k + (lab == 'array')) % 3:
                    continue
                yield ['data', n, lay, lab, k]
    for n in range(1, 5):
        for j, p in enumerate(itertools.permutations(range(n))):
            for lay in ('default', 'rect', 'square', 'column', 'row', 'one', [2, 2], [1, 2]):
                if n == 4 and not deep and (j + len(str(lay))) % 6:
                    continue
                yield ['model', n, list(p), lay]
    for n in (1, 2, 4):
        yield ['bad', n]


def shape(n, lay):
    """what is documented about the numbers of rows and columns"""
    if lay in ('default', 'rect'):
        return [(r, n // r) for r in range(1, n + 1) if n % r == 0 and r <= n // r]
    if lay == 'square':
        k = next(k for k in range(1, n + 1) if k * k >= n)
        return [(k, k)]
    if lay == 'column':
        return [(n, 1)]
    if lay == 'row':
        return [(1, n)]
    if lay == 'one':
        return [(1, 1)]
    return [tuple(lay)]


def draw(obj, lay, how, **kw):
    if lay == 'one':
        return obj.plot(False, **kw) if how else obj.plot(subplots=False, **kw)
    if lay == 'default':
        return obj.plot(True, **kw) if how else obj.plot(**kw)
    if isinstance(lay, list):
        lay = tuple(lay)
    return obj.plot(True, lay, **kw) if how else obj.plot(layout=lay, **kw)


def inspect(ctx, got, data, labels, lay, what, **detail):
    import matplotlib.pyplot as plt
    from matplotlib.axes import Axes
    T, n = data.shape
    figs = plt.get_fignums()
    if not ctx.check(len(figs) == 1, what + ': one figure', got=figs, **detail):
        return
    fig = plt.figure(figs[0])
    axes = fig.axes
    flat = list(np.ravel(np.asarray(got, dtype=object)))
    ctx.check(all(isinstance(a, Axes) for a in flat) and set(flat) == set(axes)
              and len(flat) == len(axes), what + ': the axes returned', got=str(got), **detail)
    gs = axes[0].get_subplotspec().get_gridspec()
    dims = (gs.nrows, gs.ncols)
    ctx.check(dims in shape(n, lay), what + ': rows and columns', got=dims,
              want=shape(n, lay), **detail)
    ctx.check(len(axes) == dims[0] * dims[1], what + ': panels', got=len(axes), dims=dims,
              **detail)
    ctx.outcome((n, dims, labels is not None))
    drawn = []
    for a in axes:
        lines = [x for x in a.get_lines() if x.get_transform() == a.transData]
        leg = a.get_legend()
        entry = {}
        if leg is not None:
            texts = [t.get_text() for t in leg.get_texts()]
            hs = [h.get_color() for h in leg.legend_handles]
            ctx.check(len(set(hs)) == len(hs), what + ': legend entries', got=texts, **detail)
            entry = dict(zip(hs, texts))
            ctx.check(len(texts) == len(lines), what + ': one legend entry per series',
                      got=texts, lines=len(lines), **detail)
        for x in lines:
            y = np.asarray(x.get_ydata(), float)
            hit = [k for k in range(n) if y.shape == (T,)
                   and np.array_equal(y, data[:, k], equal_nan=True)]
            if not ctx.check(len(hit) == 1, what + ': a line that is not a series',
                             got=y.tolist(), data=data.tolist(), **detail):
                continue
            drawn.append(hit[0])
            ctx.check(np.array_equal(np.asarray(x.get_xdata(), float), np.arange(T)),
                      what + ': periods', got=np.asarray(x.get_xdata()).tolist(), **detail)
            if labels is not None:
                ctx.check(entry.get(x.get_color()) == labels[hit[0]], what + ': name',
                          got=entry.get(x.get_color()), want=labels[hit[0]], **detail)
        if len(axes) >= n and lay != 'one':
            ctx.check(len(lines) <= 1, what + ': panels are shared although there are enough',
                      got=len(lines), **detail)
    ctx.check(sorted(drawn) == list(range(n)), what + ': every series is drawn once',
              got=sorted(drawn), dims=dims, **detail)


def series(n, T, k):
    """distinct paths of both signs, some entirely positive, some flat"""
    t = np.arange(T)[:, None]
    j = np.arange(n)[None, :]
    out = np.cos(t * (1 + j) + k) * (1 + j % 3) + .37 * j
    if n > 2:
        out[:, 2] = 5 + .25 * k % 1
    return out


def run(case, ctx):
    import matplotlib.pyplot as plt
    plt.close('all')
    try:
        {'data': run_data, 'model': run_model, 'bad': run_bad}[case[0]](case, ctx)
    finally:
        plt.close('all')


NAMES = ['x', 'consumption_of_households', 'Y', 'k2', 'pi_', 'w', 'long_name_of_a_rate', 'l',
         'q', 'r', 's1', 's2', 'Z', 'zz']


def run_data(case, ctx):
    import matplotlib.pyplot as plt
    from pynare.plotting import PathPlot
    _, n, lay, lab, k = case
    data = series(n, (6, 1, 2, 9)[k % 4], k)
    labels = NAMES[:n] if lab != 'none' else None
    given = np.array(labels) if lab == 'array' else labels
    opts = [{}, {'figsize': (7, 5)}, {'linestyle': '--'}, {'tight_layout': False},
            {'sharex': True, 'alpha': .5}][k % 5]
    keep = data.copy()
    got = draw(PathPlot(data, given), lay, k % 2, **opts)
    inspect(ctx, got, data, labels, lay, 'plot', arrangement=lay, options=opts, given=lab)
    ctx.check(np.array_equal(keep, data), 'plot: the data was changed')
    if 'figsize' in opts:
        ctx.check(tuple(plt.gcf().get_size_inches()) == (7, 5), 'plot: size of the figure')
    if 'linestyle' in opts:
        ls = {x.get_linestyle() for a in plt.gcf().axes for x in a.get_lines()
              if x.get_transform() == a.transData}
        ctx.check(ls == {'--'}, 'plot: style of the lines', got=sorted(ls))


def run_model(case, ctx):
    import matplotlib.pyplot as plt
    _, n, p, lay = case
    ring = {1: [[1, []]], 2: [[1, [2]], [1, [1]]], 3: [[1, [1, 0]], [1, [0, 1]], [1, [2, 0]]],
            4: [[1, [1, 0, 0]], [1, [0, 1, 0]], [1, [0, 0, 1]], [1, [2, 0, 0]]]}
    s, S = lin.make([ring[n], 'small', 'each', None, 'eye', 'mixed', p, list(range(n))])
    md = s.build()
    md.solve(order=1)
    sim = md.simulate(np.cos(np.arange(5 * n)).reshape(5, n))
    for how in (0, 1):
        inspect(ctx, draw(sim, lay, how), np.array(sim.paths), s.endog, lay, 'simulation',
                arrangement=lay)
        plt.close('all')
    imp = md.impulse_response(exog=s.stoch[-1], periods=4, size=1.5)
    data = np.array(imp.impulse)
    if len({tuple(x) for x in data.T}) == n:
        inspect(ctx, draw(imp, lay, n % 2), data, s.endog, lay, 'response', arrangement=lay)
        plt.close('all')


def run_bad(case, ctx):
    import matplotlib.pyplot as plt
    from pynare.plotting import PathPlot
    _, n = case
    a = PathPlot(series(n, 4, 1), NAMES[:n])
    for lay in ('grid', 'columns', '', None, (1, 2, 3), (2,), 'RECT', 'ab'):
        ctx.raises(ValueError, lambda: a.plot(layout=lay), 'unknown layout')
        plt.close('all')
    ctx.outcome((n, 'unknown'))
