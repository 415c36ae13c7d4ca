"""C27: variables are found by name, in the order asked"""
import copy
import itertools
import pickle

import numpy as np

from mc.access import creator

ID = 'C27'
LEVEL = 'exploration'
RULE = ('all ordered lists of distinct names up to length 4 over five names that contain each '
        'other, for endogenous, stochastic and deterministic variables, built from every kind of '
        'collection; on each: all single keys (names, numpy names, own and foreign variable '
        'objects, unknown names, other types), all key lists up to length 3 (declared, repeated '
        'and unknown names) in every kind of collection; all selections by index list, mask and '
        'slice, and all copies, each looked up again; all pairs of variables of different kinds; '
        'models with all declaration orders of three variables and two shocks, edited in every '
        'order, looked up through every list they offer; outcome = (kind, length, form)')
ASSUMPTIONS = ['names are those of one kind of variables (a model has no two variables of the '
               'same name)']
CHUNK = 8

POOL = ['a', 'A', 'ab', 'a_b', 'b1']
UNKNOWN = ['zz', '', 'a ', 'abx', 'B1', "['a']"]
KINDS = ['endog', 'stoch', 'determ']


def cases(tier):
    deep = tier == 'thorough'
    for kind in KINDS:
        for n in range(5):
            for names in itertools.permutations(POOL, n):
                if n < 4 or deep or kind == KINDS[sum(map(len, names)) % 3]:
                    yield ['list', kind, list(names)]
    if deep:
        for names in itertools.permutations(POOL, 5):
            yield ['list', 'endog', list(names)]
    # names that differ beyond their 32nd or 200th letter only, words of Python
    L = 'long_name_of_a_variable_of_a_model'
    for pool in ([L + 'a', L + 'b', L], [L * 7 + 'x', L * 7 + 'y', 'x'],
                 ['lambda', 'None', 'self'], ['names', 'name', 'x0'], ['nan', 'inf', 'e']):
        for kind in KINDS:
            for names in itertools.permutations(pool):
                yield ['list', kind, list(names)]
    for kind in KINDS:
        yield ['many', kind, 300]
    yield ['mixed']
    for e in itertools.permutations(('x', 'y', 'xy')):
        for s in itertools.permutations(('u', 'uv')):
            for edit in ('none', 'endog', 'stoch', 'determ', 'both', 'other'):
                yield ['model', list(e), list(s), edit]


def run(case, ctx):
    return globals()['run_' + case[0]](ctx, *case[1:])


def make(kind):
    import pynare.core.variables as V
    return (creator(kind),
            {'endog': V.EndogVar, 'stoch': V.StochVar, 'determ': V.DetermVar}[kind])


def same(got, want):
    got = np.asarray(got)
    return got.shape == (len(want),) and [int(g) for g in got] == list(want) \
        and (not want or got.dtype.kind in 'iu')


def judge(ctx, arr, names, kind, what, cls, keys=True):
    """arr must be the collection of the variables `names` of this kind"""
    want = {n: i for i, n in enumerate(names)}
    ok = ctx.check(len(arr) == len(names), f'{what}: length', got=len(arr), want=names)
    ok &= ctx.check(list(arr.names) == list(names), f'{what}: names', got=list(arr.names),
                    want=names)
    ok &= ctx.check([v.name for v in arr] == list(names), f'{what}: variables', want=names)
    ok &= ctx.check(all(isinstance(v, cls) for v in arr), f'{what}: class', want=cls.__name__)
    ok &= ctx.check(arr.vtype == (kind if names else ''), f'{what}: kind', got=arr.vtype)
    if not ok:
        return False

    for n in names:
        for key in (n, np.str_(n), arr[want[n]], cls(n)):
            got = arr.get_loc(key)
            ctx.step()
            ok &= ctx.check(isinstance(got, (int, np.integer)) and got == want[n],
                            f'{what}: position of one name', key=key, got=got, want=want[n],
                            names=names)
            ok &= ctx.check((key in arr) is True or (key in arr) == True,      # noqa: E712
                            f'{what}: membership of a declared one', key=key, names=names)
    others = [n for n in POOL + UNKNOWN if n not in want]
    for n in others:
        for key in (n, np.str_(n), cls(n)):
            ctx.step()
            ctx.raises(KeyError, lambda: arr.get_loc(key), f'{what}: position of an unknown one',
                       key=str(key), names=names)
            ctx.check(not key in arr, f'{what}: membership of an unknown one', key=key,
                      names=names)
    for key in (None, 0, 1, 1.5, True, b'a', object):
        ctx.step()
        ctx.raises(Exception, lambda: arr.get_loc(key), f'{what}: position of a wrong type',
                   key=repr(key), names=names)
        ctx.check(not key in arr, f'{what}: membership of a wrong type', key=key, names=names)
    if not keys:
        return True

    for m in range(4):
        for ks in itertools.product(list(names) + ['zz'], repeat=m):
            forms = [list(ks), tuple(ks)]
            if m:
                forms += [np.array(ks), [cls(k) for k in ks]]
                if 'zz' not in ks:
                    forms.append(arr[[want[k] for k in ks]])
                    forms.append([arr[want[k]] if i % 2 else k for i, k in enumerate(ks)])
                if len(set(ks)) == m:
                    forms.append(dict.fromkeys(ks))
                    forms.append(dict.fromkeys(ks).keys())
            for f, form in enumerate(forms):
                ctx.step()
                if 'zz' in ks:
                    ctx.raises(KeyError, lambda: arr.get_loc(form),
                               f'{what}: positions with an unknown one', keys=ks, names=names)
                else:
                    got = arr.get_loc(form)
                    ctx.check(same(got, [want[k] for k in ks]), f'{what}: positions in the '
                              'order asked', keys=ks, form=f, got=got,
                              want=[want[k] for k in ks], names=names)
    for bad in ([None], [0], [names[0] if names else 'a', 1]):
        ctx.raises(Exception, lambda: arr.get_loc(bad), f'{what}: positions with a wrong type',
                   keys=repr(bad), names=names)
    return True


def run_list(ctx, kind, names):
    from pynare.core.variables import VarArray
    create, cls = make(kind)
    arr = create(names)
    ctx.outcome((kind, len(names), 'list'))
    if not judge(ctx, arr, names, kind, f'{kind} list', cls):
        return
    n = len(names)

    # any kind of collection, of names or variables
    builds = {'tuple': tuple(names), 'objects': [cls(x) for x in names],
              'array': create(names), 'dict': dict.fromkeys(names), 'iterator': iter(names),
              'mix': [cls(x) if i % 2 else x for i, x in enumerate(names)]}
    if n:
        builds['numpy'] = np.array(names)
    if n == 1:
        builds['single'] = names[0]
        builds['single object'] = cls(names[0])
    for form, b in builds.items():
        judge(ctx, create(b), names, kind, f'{kind} from {form}', cls, keys=False)
        ctx.outcome((kind, n, form))
    judge(ctx, VarArray(list(arr)), names, kind, f'{kind} from variables', cls, keys=False)

    # selections
    sel = [list(p) for m in range(n + 1) for p in itertools.permutations(range(n), m)]
    for idx in sel:
        judge(ctx, arr[np.array(idx, dtype=int)], [names[i] for i in idx], kind,
              f'{kind} selected by positions', cls, keys=False)
    for mask in itertools.product((False, True), repeat=n):
        judge(ctx, arr[np.array(mask, dtype=bool)], [x for x, k in zip(names, mask) if k], kind,
              f'{kind} selected by mask', cls, keys=False)
    for i in range(n + 1):
        for j in range(i, n + 1):
            judge(ctx, arr[i:j], names[i:j], kind, f'{kind} slice', cls, keys=False)
    judge(ctx, arr[::-1], names[::-1], kind, f'{kind} reversed', cls, keys=False)
    ctx.outcome((kind, n, 'selections'))

    # copies
    for form, f in (('copy method', lambda a: a.copy()), ('copy', copy.copy),
                    ('deep copy', copy.deepcopy),
                    ('pickle', lambda a: pickle.loads(pickle.dumps(a)))):
        c = f(arr)
        judge(ctx, c, names, kind, f'{kind} after {form}', cls, keys=n < 3)
        if n and form in ('deep copy', 'pickle'):
            c[0].name = 'changed'
            judge(ctx, arr, names, kind, f'{kind} whose {form} was changed', cls, keys=False)
        ctx.outcome((kind, n, form))


def run_many(ctx, kind, n):
    create, cls = make(kind)
    names = [f'v{(7 * i) % n}' for i in range(n)]
    arr = create(names)
    ctx.check(len(arr) == n and list(arr.names) == names, 'names of many variables')
    for i, x in enumerate(names):
        ctx.step()
        ctx.check(arr.get_loc(x) == i and x in arr, 'position among many variables', key=x,
                  got=arr.get_loc(x))
        ctx.check(f'{x}0{n}' not in arr, 'membership among many variables', key=x)
    for step in (1, -1, 7, -3):
        ks = names[::step]
        ctx.check(same(arr.get_loc(ks), [names.index(k) for k in ks]),
                  'positions of many variables in the order asked', step=step)
    ctx.raises(KeyError, lambda: arr.get_loc(names + ['zz']), 'many names and an unknown one')
    ctx.outcome((kind, n, 'many'))
    ctx.tally()


def run_mixed(ctx):
    from pynare.core.variables import VarArray
    for (k1, k2) in itertools.product(KINDS, repeat=2):
        c1, cls1 = make(k1)
        c2, cls2 = make(k2)
        for n1, n2 in itertools.product((1, 2), repeat=2):
            vs = list(c1(POOL[:n1])) + list(c2(POOL[2:2 + n2]))
            for p in set(itertools.permutations(range(len(vs)))):
                ctx.step()
                pv = [vs[i] for i in p]
                if k1 == k2:
                    judge(ctx, VarArray(pv), [v.name for v in pv], k1, 'one kind', cls1,
                          keys=False)
                else:
                    ctx.raises(TypeError, lambda: VarArray(pv), 'variables of several kinds',
                               kinds=(k1, k2))
            ctx.outcome(('mixed', k1, k2))
    for kind in KINDS:
        create, cls = make(kind)
        for bad in (['a'], [1], [None], [cls('a'), 'b'], ['b', cls('a')], [cls('a'), None]):
            ctx.raises(TypeError, lambda: VarArray(bad), 'things that are not variables',
                       bad=repr(bad))
        for bad in (1, None, [1], ['a', 2], [None], [['a']]):
            ctx.raises(TypeError, lambda: create(bad), 'names that are not text', bad=repr(bad))
            ctx.raises(TypeError, lambda: cls(bad), 'a name that is not text', bad=repr(bad))


COEF = {'x': .5, 'y': .3, 'xy': .2}


def run_model(ctx, endog, stoch, edit):
    from pynare import Model
    from pynare.parsing import read_model
    from pynare.core.variables import EndogVar, StochVar, DetermVar
    # x: lagged; y: static; xy: lead
    eqs = ['x = 0.5*x(-1) + u', 'y = x + uv', 'xy = 0.4*xy(+1) + x']
    text = f'var {" ".join(endog)}; varexo {" ".join(stoch)}; parameters p; p = 1; model; ' + \
        ' '.join(e + ';' for e in eqs) + ' end;'
    m = Model.from_outline(read_model(text, 'dynare'))
    types = {'x': 'b', 'y': 's', 'xy': 'f'}
    st, en, de = list(stoch), list(endog), []
    ctx.outcome(('model', edit, endog.index('x'), endog.index('y'), stoch[0]))

    def look(what):
        judge(ctx, m.endog, en, 'endog', f'{what}: endogenous variables', EndogVar)
        judge(ctx, m.stoch, st, 'stoch', f'{what}: shocks', StochVar)
        judge(ctx, m.determ, de, 'determ', f'{what}: deterministic variables', DetermVar,
              keys=False)
        ctx.step()

    def groups(what):
        for attr, want in (('state_vars', 'bm'), ('pure_forward_vars', 'f'),
                           ('pure_backward_vars', 'b'), ('mixed_vars', 'm'),
                           ('static_vars', 's'), ('forward_vars', 'fm'),
                           ('backward_vars', 'bm')):
            judge(ctx, getattr(m, attr), [v for v in en if types[v] in want], 'endog',
                  f'{what}: {attr}', EndogVar, keys=False)

    look('model as read')
    groups('model as read')
    judge(ctx, m.copy().endog, en, 'endog', 'copy: endogenous variables', EndogVar)
    judge(ctx, m.copy().stoch, st, 'stoch', 'copy: shocks', StochVar)
    if edit in ('endog', 'both'):
        m.add_endog(['new', 'a'])
        m.add_exprs(['new = 0.1*new(-1) + x', 'a = 0.3*a(-1) + 0.2*a(+1) + u'])
        en += ['new', 'a']
        types.update(new='b', a='m')
    if edit in ('stoch', 'both', 'other'):
        if edit == 'other':
            m.add_stoch('w')
            st += ['w']
        else:
            m.add_stoch(['w', 'v'])
            st += ['w', 'v']
    if edit == 'determ':
        m.add_determ(['d2', 'd1'])
        de += ['d2', 'd1']
    look('edited model')
    if edit != 'determ':
        m.update()
        look('updated model')
        groups('updated model')
