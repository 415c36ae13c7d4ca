"""C06: a calibration always equals evaluating its own formulas"""
import itertools
import math

from mc import exprs
from mc.modlang import same
from mc.sym import N, V, ev, leaves

ID = 'C06'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of the calibration state machine: reference transition '
             'system over definitions, every transition replayed on ModelCalibration')
RULE = ('every calibration of three parameters with 9 kinds of definitions each, in every '
        'order (including cyclic, self-referring and unresolvable ones); all operation '
        'sequences (set, delete, pop, setdefault, update, clear, add to a model) up to depth 3 '
        '(thorough 4) from 6 starting calibrations, deduplicated on reference states, the whole mapping '
        'compared after every operation; chains and trees of up to 8 parameters in every '
        'order up to 6; numbers of every type of python and numpy; outcome = (operation, accepted or rejected)')
ASSUMPTIONS = ['deleting a parameter that others depend on, cycles, and unknown names are '
               'unresolvable and must be refused',
               'values are real numbers of python or numpy, strings or syntax trees']
CHUNK = 4

NAMES = ['a', 'b', 'c']
DEFS = [1, 2.5, -0.75, 'a + 1', 'b*2', 'c - a', 'a*b', 'exp(c)/2', 'zz']
TAB = {n: V(n, None) for n in NAMES + ['zz', 'd', 'e', 'f', 'g', 'h', 'p0']}


def parse(d):
    if isinstance(d, (int, float)):
        return N(d)
    from mc.modlang import FileReader, lex
    r = FileReader([t for t, _, _ in lex(d)])
    return r.expr(False)


def solve(defs):
    """values of all definitions, or None"""
    todo = {k: parse(d) for k, d in defs.items()}
    vals = {}
    while todo:
        go = [k for k, e in todo.items() if all(n in vals for n, _ in leaves(e))]
        if not go:
            return None
        for k in go:
            vals[k] = ev(todo.pop(k), None, {(n, None): v for n, v in vals.items()})
    return vals


def agrees(cal, defs, ctx, **detail):
    want = solve(defs)
    got = {k: cal[k] for k in cal}
    ok = (set(got) == set(want) and len(cal) == len(want)
          and set(cal.keys()) == set(want) and all(k in cal for k in want)
          and len(list(cal.values())) == len(want)
          and dict(cal.items()).keys() == want.keys() and 'nothere' not in cal
          and all(same(got[k], want[k]) for k in want)
          and {**cal}.keys() == want.keys())
    if not ok:
        ctx.fail('calibration differs from its formulas', got=got, expected=want, defs=defs,
                 **detail)
        return False
    try:
        cal['nothere']
    except KeyError:
        return True
    ctx.fail('an unknown parameter has a value', **detail)
    return False


def cases(tier):
    deep = tier == 'thorough'
    for d in itertools.product(range(len(DEFS) + 1), repeat=3):
        yield ['build', list(d)]
    for s in range(len(STARTS)):
        for i in range(len(OPS)):
            yield ['seq', s, i, 4 if deep else 3]
    for n in (4, 5, 6):
        for p in itertools.permutations(range(n)):
            if n < 6 or deep or p[0] % 2 == 0:
                yield ['chain', list(p)]
    yield ['long']
    yield ['types']


def run(case, ctx):
    globals()['run_' + case[0]](case, ctx)


def run_build(case, ctx):
    from pynare.core.variables import ModelCalibration
    from pynare import Model
    pick = {n: DEFS[k - 1] for n, k in zip(NAMES, case[1]) if k}
    for order in itertools.permutations(pick):
        defs = {n: pick[n] for n in order}
        keep = dict(defs)
        ctx.state(tuple(defs.items()))
        ctx.step()
        ctx.trace()
        if solve(defs) is None:
            ctx.outcome('build rejected')
            ctx.raises(Exception, lambda: ModelCalibration(defs), 'unresolvable calibration',
                       defs=defs)
        else:
            ctx.outcome('build')
            cal = ModelCalibration(defs)
            agrees(cal, defs, ctx)
            md = Model(endog=['x'], stoch=['e'], params=defs, exprs=['x = 0.5*x(-1) + e'])
            agrees(md.params, defs, ctx)
        ctx.check(defs == keep and list(defs) == list(keep), 'input changed', defs=defs)


def run_types(case, ctx):
    """numbers of every kind"""
    import numpy as np
    from pynare import Model
    from pynare.core.variables import ModelCalibration
    kinds = [int, float, bool, np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint64,
             np.float16, np.float32, np.float64]
    for kind in kinds:
        for v in (1, 2, 4):
            num = kind(v)
            defs = {'b': 'a^(-1) + c/4', 'a': num, 'c': 'a^2'}
            want = {'a': float(num), 'c': float(num)**2,
                    'b': 1 / float(num) + float(num)**2 / 4}
            x = 2 * want['b']
            given = Model(endog=['x'], stoch=['e'], params=defs, exprs=['x = 0.5*x(-1) + b + e'])
            later = Model(endog=['x'], stoch=['e'], params=dict(defs, a=7),
                          exprs=['x = 0.5*x(-1) + b + e'])
            later.add_params(a=num)
            held = ModelCalibration({'b': defs['b'], 'c': defs['c'], 'a': 9})
            held['a'] = num
            for cal in (given.params, later.params, held, ModelCalibration(defs)):
                ctx.step()
                ctx.check(set(cal) == set(want) and all(same(cal[k], want[k]) for k in want),
                          'numbers of other kinds', kind=kind.__name__, got=dict(cal), want=want)
            for md in (given, later):
                ctx.check(abs(md.ss.values[0] - x) < 1e-3, 'model with numbers of other kinds',
                          kind=kind.__name__, got=md.ss.values, want=x)
            ctx.trace()
    ctx.state('types')
    for bad in (None, [1], (1,), {'a': 1}, 1j, np.array([1., 2.]), object()):
        cal = ModelCalibration({'a': 1, 'b': 'a + 1'})

        def put():
            cal['a'] = bad
        ctx.raises(Exception, lambda: ModelCalibration({'a': bad}), 'a value that is no number',
                   value=repr(bad))
        ctx.raises(Exception, put, 'a value that is no number', value=repr(bad))
        agrees(cal, {'a': 1, 'b': 'a + 1'}, ctx, after=repr(bad))
    ctx.outcome('types')


STARTS = [{}, {'a': 1, 'b': 'a + 1', 'c': 'b*2'}, {'c': 3, 'a': 2.5, 'b': 'a*c'},
          {'b': 'a + c', 'c': 'a + 1', 'a': 0.5}, {'a': 'b*2', 'b': 0.25},
          {'a': 'exp(b)', 'b': 'c/2', 'c': 2}]
VALS = [4, 'a + 1', 'b*2', 'c', 'a*b - c', 'zz']
OPS = ([['set', n, v] for n in NAMES for v in VALS]
       + [['del', n] for n in NAMES] + [['del', 'd']]
       + [['pop', 'a'], ['pop', 'd'], ['popdefault', 'b'], ['setdefault', 'a'],
          ['setdefault', 'b'], ['clear'], ['popitem'],
          ['update', {'a': 3, 'b': 'a/2'}], ['update', {'c': 'a', 'a': 'b'}], ['update', {'a': 5, 'c': 'zz'}],
          ['add', {'b': 'd*2', 'd': 2}], ['add', {'b': 3, 'd': 'zz'}],
          ['add', {'b': 5}], ['add', {'d': 'a*2'}]])


def ref_step(defs, op):
    """list of acceptable (new definitions, error expected) outcomes of `op`"""
    k = op[0]
    if k == 'set' or k == 'setdefault':
        if k == 'setdefault' and op[1] in defs:
            return defs, False
        new = {**defs, op[1]: op[2] if k == 'set' else 7}
        return (defs, True) if solve(new) is None else (new, False)
    if k in ('del', 'pop', 'popdefault'):
        if op[1] not in defs:
            return defs, k != 'popdefault'
        new = {n: d for n, d in defs.items() if n != op[1]}
        return (defs, True) if solve(new) is None else (new, False)
    if k == 'clear':
        return {}, False
    if k in ('update', 'add'):
        # all of them at once: they can be written in terms of one another, in any order
        new = {**defs, **op[1]}
        return (defs, True) if solve(new) is None else (new, False)
    raise ValueError(k)


def apply(md, op):
    """on the real calibration of a model"""
    c = md.params
    k = op[0]
    if k == 'set':
        c[op[1]] = op[2]
    elif k == 'del':
        del c[op[1]]
    elif k == 'pop':
        c.pop(op[1])
    elif k == 'popdefault':
        c.pop(op[1], None)
    elif k == 'popitem':
        c.popitem()
    elif k == 'setdefault':
        c.setdefault(op[1], 7)
    elif k == 'clear':
        c.clear()
    elif k == 'update':
        c.update(op[1])
    elif k == 'add':
        md.add_params(**op[1])


class _Model(object):
    """the part of a model that edits parameters"""

    def __init__(self, defs):
        from pynare.core.generic import ModelSkeleton
        from pynare.core.variables import ModelCalibration
        self.params = ModelCalibration(defs)
        self._add = ModelSkeleton.add_params

    def add_params(self, **kw):
        self._add(self, **kw)


def run_seq(case, ctx):
    _, s, first, depth = case
    start = STARTS[s]
    seen = {}

    def go(path, defs, left, ops):
        for op in ops:
            # the path is executed again from the start, on a fresh object
            md = _Model(dict(start))
            for o in path:
                try:
                    apply(md, o)
                except Exception:
                    pass
            before = {k: md.params[k] for k in md.params}
            try:
                apply(md, op)
                err = None
            except Exception as e:
                err = e
            ctx.step()
            ctx.trace()
            if op[0] == 'popitem':
                # any one item may go
                got = set(md.params)
                gone = [n for n in defs if n not in got]
                new, bad = defs, err is not None
                if len(gone) == 1 and err is None:
                    new = {n: d for n, d in defs.items() if n != gone[0]}
                    if not ctx.check(solve(new) is not None, 'removed a needed parameter',
                                     path=path, start=start):
                        return False
                elif gone or (not defs and err is None):
                    ctx.fail('popitem', path=path, start=start, gone=gone)
                    return False
            else:
                new, bad = ref_step(defs, op)
                if bad != (err is not None):
                    ctx.fail('accepted' if bad else 'refused', op=op, path=path, start=start,
                             error=repr(err))
                    return False
            ctx.outcome((op[0], 'rejected' if bad else 'accepted'))
            if not agrees(md.params, new, ctx, op=op, path=path, start=start, before=before):
                return False
            key = (tuple(new.items()), left)
            if left > 1 and key not in seen:
                seen[key] = True
                ctx.state(key[0])
                if not go(path + [op], new, left - 1, OPS):
                    return False
        return True

    ctx.state(tuple(start.items()))
    go([], dict(start), depth, [OPS[first]])


def run_chain(case, ctx):
    """p0 = 2, p1 = p0 + 1, p2 = p1*p0, ... given in every order; then edit every one"""
    from pynare.core.variables import ModelCalibration
    n = len(case[1])
    names = [f'p{i}' for i in range(n)]
    forms = [0.5] + [f'p{i - 1} + {i}' if i % 2 else f'p{i - 1}*p{i // 2} - 0.1'
                     for i in range(1, n)]
    defs = {names[i]: forms[i] for i in case[1]}
    cal = ModelCalibration(defs)
    ctx.state()
    ctx.trace()
    if not agrees(cal, defs, ctx):
        return
    for i in range(n):
        new = {**defs, names[i]: 1.25}
        cal[names[i]] = 1.25
        ctx.step()
        if not agrees(cal, new, ctx, changed=names[i]):
            return
        cal[names[i]] = defs[names[i]]
        if not agrees(cal, defs, ctx, restored=names[i]):
            return
        if i < n - 1:
            ctx.raises(Exception, lambda: cal.__setitem__(names[i], f'{names[n - 1]} + 1'),
                       'cycle', defs=defs)
            ctx.raises(Exception, lambda: cal.__delitem__(names[i]), 'needed parameter deleted',
                       defs=defs)
            if not agrees(cal, defs, ctx, after='refused changes'):
                return
    ctx.outcome('chain')


def run_long(case, ctx):
    from pynare.core.variables import ModelCalibration
    for n in (10, 20, 40):
        for rev in (False, True):
            ix = range(n - 1, -1, -1) if rev else range(n)
            defs = {f'p{i}': f'p{i - 1}*0.5 + 1' if i else 2 for i in ix}
            ctx.state()
            ctx.step()
            ctx.trace()
            cal = ModelCalibration(defs)
            agrees(cal, defs, ctx)
            cal['p0'] = -3
            agrees(cal, {**defs, 'p0': -3}, ctx)
    # formulas with every function, and syntax trees
    from pynare.parsing import parse_string
    for f in exprs.FUNCS:
        defs = {'b': f'-{f}(a)^2 + {f}(a/2)*3', 'a': 0.4, 'c': parse_string(f'{f}(a) - b')}
        want = solve({**defs, 'c': f'{f}(a) - b'})
        cal = ModelCalibration(defs)
        for v in (0.4, 0.9):
            cal['a'] = v
            agrees(cal, {**defs, 'a': v, 'c': f'{f}(a) - b'}, ctx)
    ctx.outcome('long')
