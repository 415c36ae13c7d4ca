"""C35: models used in several threads do not affect one another"""
import sys
import threading

import numpy as np

from mc import crash, observe
from checks import c23, c34

ID = 'C35'
LEVEL = 'model_checking'
TECHNIQUE = ('systematic exploration of thread interleavings of the implementation with a '
             'controlled scheduler: one thread is held at each distinct point of its operation, '
             'in a forked child so that each point is reached from the same history, while '
             'another runs to its end (one preemption) or up to a point of its own (two), and '
             'both results are compared with those of the operations run alone')
RULE = ('pairs of operations - reading files, good and bad, evaluating, building, editing and querying models, '
        'solving at either order and with binding constraints, moments and summaries, copying - '
        'on models of their own: unrelated ones, copies of one model, built from the same inputs or '
        'from one outline; every distinct point '
        '(line of pynare, with the functions leading there; for costly operations a fixed part '
        'of them) of the first x the second run to its end, and x a grid of points of the '
        'second at which it is held until the first has ended; states = (pair, point of either '
        'thread), transitions = switches made, traces = schedules run')
ASSUMPTIONS = [
    'threads switch between two lines of pynare; two threads, at most two preemptions',
    'no model is used by two threads at once',
    'draws of random shocks and plots are left out (numpy and matplotlib keep state themselves)',
]
CHUNK = 1


# ---- operations on things of their own, -> plain values

def read(text):
    from pynare import Model
    from pynare.parsing import read_model
    return observe.basic(Model.from_outline(read_model(text, 'dynare'), 'dynare'))


BAD = c34.TEXT.replace('b*x(-1)', 'b*zz(-1)')
WRONG = c34.OTHER.replace('q(-1); end;', 'q(-1; end;')


def refused(text):
    try:
        read(text)
    except Exception as e:
        return [type(e).__name__, str(e)]
    return ['accepted', '']


def values():
    from pynare.core.variables import ModelCalibration
    from pynare.parsing import evaluate
    c = ModelCalibration({'a': 'b*2', 'b': 'c^2 - 1', 'c': 3, 'd': 'a/(b + c)'})
    c['c'] = 2
    return [evaluate('2*exp(0) - 3^2/4', {}), evaluate('x + y*x', {'x': 2, 'y': -.5}),
            dict(c), str(c)]


def printed():
    from pynare.core.expressions import ModelExprs
    ex = ModelExprs(['x = a*x(-1) + e', 'y - 2 = log(x)/(3 - y(+1))'])
    ex.append('z = -x^2')
    ex[0] = 'x = b*x(+1)'
    return [str(ex), len(ex)]


def chain(name, queries, prior='fresh'):
    def op():
        md = c34.make(name, prior)
        return [c34.ask(md, q) for q in queries]
    return op


OPS = {
    'read': lambda: read(c34.TEXT), 'read other': lambda: read(c34.OTHER),
    'refused': lambda: refused(BAD), 'refused other': lambda: refused(WRONG),
    'values': values, 'printed': printed,
    'solve': chain('one state', ['solve 2', 'cov', 'response']),
    'solve other': chain('two shocks', ['solve 1', 'decomp', 'simulate']),
    'edit': chain('one state', ['state space', 'mean'], 'solved, added'),
    'edit other': chain('two states', ['solve 2', 'autocov'], 'solved, edited'),
    'binding': chain('one state', ['binding']),
    'summaries': chain('one state', ['model summary', 'solution summary', 'stats summary']),
    'copy': chain('two states', ['copy']),
    'explosive': chain('explosive', ['solve 1', 'solve 2', 'cov']),
    'derivatives': chain('two shocks', ['derivatives', 'steady']),
}
# pairs: (first, second, every how many points of the first, points of the second held at)
QUICK = [
    ('derivatives', 'derivatives', 30, ()), ('derivatives', 'solve', 20, ()),
    ('values', 'values', 6, (.25, .75)), ('values', 'values', 1, ()), ('values', 'read', 4, ()),
    ('read', 'read other', 9, ()), ('read', 'refused', 18, ()), ('refused', 'read other', 14, ()),
    ('read', 'values', 14, ()), ('read', 'refused other', 60, (.3, .7)),
    ('read other', 'read', 90, (.1, .4, .7, .9)), ('printed', 'printed', 3, ()),
    ('printed', 'read', 8, (.5,)), ('solve', 'values', 6, ()), ('solve', 'solve other', 24, ()),
    ('solve', 'solve', 24, ()), ('solve', 'solve other', 90, (.3, .6, .9)),
    ('edit', 'solve', 34, ()), ('edit', 'edit other', 100, (.2, .5, .8)), ('edit', 'read', 34, ()),
    ('summaries', 'summaries', 24, ()), ('summaries', 'solve other', 50, ()),
    ('copy', 'read', 40, ()), ('copy', 'copy', 60, ()), ('explosive', 'solve', 18, ()),
    ('solve', 'explosive', 24, ()), ('binding', 'solve', 80, ()), ('solve', 'binding', 60, ()),
]
# related models: (how, what was done before, query of the first, of the second, every, held)
RELATED = ['copy', 'copy of solved', 'inputs', 'outline']
ASKED = ['solve 2', 'cov', 'response', 'derivatives', 'state space', 'steady', 'decomp', 'basic',
         'stats summary', 'solve 1', 'simulate']


def related(how):
    """two models that have something in common"""
    from pynare import Model
    from pynare.parsing import read_model
    if how == 'inputs':
        kw = {k: dict(v) if isinstance(v, dict) else list(v)
              for k, v in c23.MODELS['one state'].items()}
        return Model(**kw), Model(**kw)
    if how == 'outline':
        o = read_model(c34.TEXT, 'dynare')
        return Model.from_outline(o, 'dynare'), Model.from_outline(o, 'dynare')
    md = c34.make('one state', 'fresh' if how == 'copy' else 'solved 2')
    return md, md.copy()


def edited(md, q):
    """the first one edits its model and then asks"""
    md.add_params(a=.35)
    md.add_exprs('w = 0.4*w(-1) + 0.2*%s + e' % md.endog.names[0])
    md.add_endog('w', initial=.2)
    return c34.ask(md, q)


def cases(tier):
    if tier == 'quick':
        out = [['own', a, b, n, list(q)] for a, b, n, q in QUICK]
        for i, a in enumerate(ASKED):
            for j in (0, 1):
                how = RELATED[(i + 2 * j) % 4]
                out.append(['related', how, j, a, ASKED[(i * 5 + 3 + j) % len(ASKED)], 26, []])
        return out
    out = []
    for a in OPS:
        for b in OPS:
            out.append(['own', a, b, 1 if a in ('values', 'printed') else 3, []])
            out.append(['own', a, b, 24, [.1, .25, .4, .55, .7, .85]])
    for how in RELATED:
        for a in ASKED:
            for b in ASKED:
                for edits in (0, 1):
                    out.append(['related', how, edits, a, b, 4, []])
                    out.append(['related', how, edits, a, b, 40, [.3, .7]])
    return out


def lines(op):
    """the number of lines of pynare executed by `op`"""
    root, n = crash.package(), [0]

    def local(f, event, arg):
        if event == 'line':
            n[0] += 1
        return local

    def trace(f, event, arg):
        return local if f.f_code.co_filename.startswith(root) else None

    old = sys.gettrace()
    sys.settrace(trace)
    try:
        op()
    finally:
        sys.settrace(old)
    return n[0]


class Other(threading.Thread):
    """the second thread; held at the line number `stop`, if given"""

    def __init__(self, op, stop=None):
        super().__init__(daemon=True)
        self.op, self.stop, self.result = op, stop, None
        self.arrived, self.go = threading.Event(), threading.Event()

    def run(self):
        if self.stop is not None:
            root, n = crash.package(), [0]

            def local(f, event, arg):
                if event == 'line':
                    n[0] += 1
                    if n[0] == self.stop:
                        self.arrived.set()
                        self.go.wait()
                return local if n[0] < self.stop else None

            def trace(f, event, arg):
                return local if n[0] < self.stop and f.f_code.co_filename.startswith(root) \
                    else None
            sys.settrace(trace)
        try:
            self.result = 'ok', self.op()
        except BaseException as e:
            self.result = 'error', e
        finally:
            sys.settrace(None)
            self.arrived.set()


PATIENCE = 60


def run(case, ctx):
    every, held = case[-2], case[-1]
    if case[0] == 'own':
        _, a, b, _, _ = case

        def pair():
            return OPS[a], OPS[b]
    else:
        _, how, edits, a, b, _, _ = case

        def pair():
            one, two = related(how)
            return (lambda: (edited if edits else c34.ask)(one, a)), lambda: c34.ask(two, b)

    alone = pair()[0](), pair()[1]()
    n = lines(pair()[1]) if held else 0
    for stop in ([max(1, int(n * h)) for h in held] or [None]):
        others = []

        first, second = pair()

        def at(k):
            t = Other(second, stop)
            others.append(t)
            t.start()
            # to its end, or to the place it is held at; unless it waits for the first thread
            t.arrived.wait(PATIENCE)

        def after(result, k):
            t = others[-1]
            t.go.set()
            t.join(PATIENCE)
            bad = []
            if t.is_alive():
                bad.append(('the second thread never ends', None, None))
            for what, got, want in (('first', result, alone[0]), ('second', t.result, alone[1])):
                if got is None:
                    continue
                if got[0] == 'error':
                    bad.append((what, repr(got[1])[:300], 'no error'))
                elif not same(got[1], want):
                    bad.append((what, repr(got[1])[:300], repr(want)[:300]))
            return {'bad': bad}

        result, found = crash.explore(first, at, after, every=every)
        if result[0] == 'error':
            raise result[1]
        for k, where, f in found:
            ctx.step(1 if stop is None else 2)
            ctx.trace()
            if 'harness' in f or 'died' in f:
                raise RuntimeError(f'point {k} at {where}: {f}')
            ctx.state((tuple(case[:-2]), k, stop))
            for what, got, want in f['bad'][:1]:
                ctx.fail('a thread got another result than alone', thread=what, held=where,
                         point=k, other=stop, got=got, expected=want)
            ctx.tally()
    ctx.outcome((case[0], a, b))


def same(a, b):
    """answers of queries, and of anything else"""
    if isinstance(a, tuple) and len(a) == 2 and a[0] in ('ok', 'error') \
            or isinstance(b, tuple) and len(b) == 2 and b[0] in ('ok', 'error'):
        return isinstance(a, tuple) and isinstance(b, tuple) and c34.equal(a, b)
    if isinstance(a, (list, tuple)) and any(isinstance(x, tuple) for x in a):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and \
            all(same(x, y) for x, y in zip(a, b))
    return observe.same(a, b)
