"""C29: the equations of a model are a list of equations, and print as such"""
import itertools
import re

import numpy as np

from mc.access import equations
from mc import exprs
from mc.sym import B, F, N, NEG, P, V, ev, leaves, mul, render

ID = 'C29'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of the list of equations: the reference states are all '
             'lists up to a length, every operation is taken from every state, reached in several '
             'ways, and replayed on the implementation')
RULE = ('all lists of up to 3 (thorough: 4) equations out of three, each given as a string or as a '
        'syntax tree, reached by the constructor (from a list, a tuple, an iterator, another such '
        'list), by appending and by inserting; from each every operation: set, delete, insert, '
        'append, extend, +=, pop, remove, reverse, clear, swap, slices, with positions from '
        'beyond the beginning to beyond the end, and with things that are not equations; after '
        'each the length, every item by position, slice and iteration, and the printed equations '
        'are compared with those of a python list; all histories of 3 (thorough: 4) of 12 '
        'operations; and the printed equations of models read from files, given as bare '
        'expressions, or built by operations: every token string up to a length and every '
        'expression tree of the shapes of C08, read back by the reference parser')
ASSUMPTIONS = [
    'an item is compared by what it evaluates to',
    'a printed equation may be written in any way that has the same left hand side minus right '
    'hand side; equations without an equals sign are ones with a zero on the right',
    'setting a slice may be refused, as items are given one at a time',
]
CHUNK = 8

EQS = ['x = 2*y + e', 'y = x/3 - e*a', '3*e - x*y']
PT = {'x': 1.3, 'y': -.7, 'e': .45, 'a': 2.1}
VALUES = [1.3 - (-1.4 + .45), -.7 - (1.3 / 3 - .45 * 2.1), 1.35 + 1.3 * .7]
BAD = [('text', 'x = = y'), ('unfinished', 'x = 2*'), ('two signs', 'x = y = e'), ('empty', ''),
       ('number', 5), ('none', None), ('list', ['x = y'])]


def parsed(i):
    from pynare.core.expressions import ModelExprs
    return ModelExprs([EQS[i]])[0]


def give(sym):
    i, form = sym
    return EQS[i] if form == 's' else parsed(i)


def item(t):
    """which equation is it?"""
    from pynare.parsing import evaluate
    v = float(evaluate(t, PT))
    for i, w in enumerate(VALUES):
        if abs(v - w) < 1e-9:
            return i
    return f'unknown, {v}'


SYMS = [(i, f) for i in range(3) for f in 'sa']


def states(n):
    for k in range(n + 1):
        yield from itertools.product(SYMS, repeat=k)


# operations: name -> (on the reference list, on the implementation)
def ops(n):
    new = [(0, 's'), (1, 'a'), (2, 's')]
    for s in new:
        for i in range(-n - 2, n + 2):
            yield ['set', i, s]
            yield ['insert', i, s]
        yield ['append', s]
        for t in new:
            yield ['extend', [s, t]]
    for i in range(-n - 2, n + 2):
        yield ['del', i]
        yield ['pop', i]
        yield ['get', i]
    for i in range(n):
        yield ['remove', i]
        for j in range(n):
            yield ['swap', i, j]
        for j in range(i, n + 1):
            yield ['del slice', i, j]
            yield ['set slice', i, j]
        yield ['append own', i]
    for name in ('pop last', 'reverse', 'clear', 'extend none', 'extend self', 'iadd', 'copy',
                 'extend other', 'remove unknown'):
        yield [name]
    for b in range(len(BAD)):
        yield ['bad append', b]
        yield ['bad insert', b]
        yield ['bad new', b]
        for i in range(n):
            yield ['bad set', b, i]


def reference(op, L):
    """on a plain list of symbols; returns (new list, result)"""
    L = list(L)
    name, a = op[0], op[1:]
    r = None
    if name == 'set':
        L[a[0]] = tuple(a[1])
    elif name == 'insert':
        L.insert(a[0], tuple(a[1]))
    elif name == 'append':
        L.append(tuple(a[0]))
    elif name == 'extend':
        L.extend(map(tuple, a[0]))
    elif name == 'del':
        del L[a[0]]
    elif name == 'pop':
        r = L.pop(a[0])[0]
    elif name == 'get':
        r = L[a[0]][0]
    elif name == 'remove':
        del L[a[0]]
    elif name == 'swap':
        L[a[0]], L[a[1]] = (L[a[1]][0], 'a'), (L[a[0]][0], 'a')
    elif name == 'del slice':
        del L[a[0]:a[1]]
    elif name == 'set slice':
        L[a[0]:a[1]] = [(2, 's'), (0, 's')]
    elif name == 'append own':
        L.append((L[a[0]][0], 'a'))
    elif name == 'pop last':
        r = L.pop()[0]
    elif name == 'reverse':
        L.reverse()
    elif name == 'clear':
        L.clear()
    elif name == 'extend self':
        L.extend([(i, 'a') for i, _ in L])
    elif name == 'iadd':
        L += [(1, 's')]
    elif name == 'extend other':
        L += [(2, 'a'), (0, 'a')]
    elif name == 'remove unknown' or name.startswith('bad'):
        raise ValueError
    return L, r


def apply(op, X):
    """the same on the implementation; returns (the list to look at, result)"""
    from pynare.core.expressions import ModelExprs
    name, a = op[0], op[1:]
    r = None
    if name == 'set':
        X[a[0]] = give(a[1])
    elif name == 'insert':
        X.insert(a[0], give(a[1]))
    elif name == 'append':
        X.append(give(a[0]))
    elif name == 'extend':
        X.extend([give(s) for s in a[0]])
    elif name == 'del':
        del X[a[0]]
    elif name == 'pop':
        r = item(X.pop(a[0]))
    elif name == 'get':
        r = item(X[a[0]])
    elif name == 'remove':
        X.remove(X[a[0]])
    elif name == 'swap':
        X[a[0]], X[a[1]] = X[a[1]], X[a[0]]
    elif name == 'del slice':
        del X[a[0]:a[1]]
    elif name == 'set slice':
        X[a[0]:a[1]] = [EQS[2], EQS[0]]
    elif name == 'append own':
        X.append(X[a[0]])
    elif name == 'pop last':
        r = item(X.pop())
    elif name == 'reverse':
        X.reverse()
    elif name == 'clear':
        X.clear()
    elif name == 'extend none':
        X.extend([])
    elif name == 'extend self':
        X.extend(X)
    elif name == 'iadd':
        X += [EQS[1]]
    elif name == 'extend other':
        X.extend(ModelExprs([parsed(2), EQS[0]]))
    elif name == 'copy':
        Y = ModelExprs(X)
        # the copy is on its own
        X.append(EQS[0])
        X.reverse()
        X = Y
    elif name == 'remove unknown':
        X.remove(parsed(0))
    elif name == 'bad append':
        X.append(BAD[a[0]][1])
    elif name == 'bad insert':
        X.insert(0, BAD[a[0]][1])
    elif name == 'bad set':
        X[a[1]] = BAD[a[0]][1]
    elif name == 'bad new':
        ModelExprs([EQS[0], BAD[a[0]][1]])
    return X, r


# ---- reading back what is printed -------------------------------------------

TOKEN = re.compile(r'\s*([A-Za-z_]\w*\s*\(\s*[+-]\s*\d+\s*\)|[A-Za-z_]\w*|\d+\.?\d*(?:[eE][+-]?\d+)?'
                   r'|\.\d+|\*\*|.)')


class Names(dict):
    """the atoms of an expression: variables, offsets, numbers"""

    def __contains__(self, t):
        return t[0].isalnum() or t[0] == '.'

    def __getitem__(self, t):
        if t[0].isdigit() or t[0] == '.':
            return N(float(t))
        if '(' in t:
            name, off = t.replace(' ', '').rstrip(')').split('(')
            return V(name, int(off))
        return V(t)


def read_back(line):
    toks = [t if t != '**' else '^' for t in TOKEN.findall(line.strip())]
    return exprs.parse_equation(toks, Names())


def printed(X):
    """the equations the printed form shows"""
    lines = [l for l in str(X).split('\n') if l.strip()]
    return lines[1:]


ENV = {('x', -1): .31, ('x', 0): 1.3, ('x', 1): .57, ('y', -1): .83, ('y', 0): .71,
       ('y', 1): 1.21, ('z', -1): .77, ('z', 0): .64, ('z', 1): .44, ('w', -1): .52,
       ('w', 0): .91, ('w', 1): 1.13, ('e', 0): .45, ('u', 0): .35, ('a', 0): 2.1,
       ('p', 0): 1.7, ('q', 0): .6}


ENV.update({('alpha', 0): .36, ('n', 0): 2.})
GIVEN = ('e', 'u', 'a', 'p', 'q', 'alpha', 'n')


def meaning(e, env=ENV):
    """value of lhs - rhs, or of the pieces where that is undefined"""
    try:
        v = ev(B('-', *e), {k[0]: v for k, v in env.items()}, env)
    except (ZeroDivisionError, OverflowError, ValueError, TypeError):
        return None          # TypeError: of a complex number
    return None if isinstance(v, complex) or not np.isfinite(v) else v


def look(ctx, X, L, **detail):
    ids = [s[0] for s in L]
    ctx.check(len(X) == len(ids), 'length', got=len(X), expected=ids, **detail)
    got = [item(t) for t in X]
    ctx.check(got == ids, 'items in order', got=got, expected=ids, **detail)
    n = len(ids)
    got = [item(X[i]) for i in range(n)] + [item(X[i - n]) for i in range(n)]
    ctx.check(got == ids + ids, 'items by position', got=got, expected=ids, **detail)
    got = [item(t) for t in reversed(X)]
    ctx.check(got == ids[::-1], 'items in reverse', got=got, expected=ids, **detail)
    for a, b in ((0, 2), (1, None), (-1, None), (None, -1)):
        got = [item(t) for t in X[a:b]]
        ctx.check(got == ids[a:b], 'slice', got=got, expected=ids[a:b], **detail)
    for i in (n, -n - 1):
        ctx.raises(IndexError, lambda: X[i], 'position out of range', **detail)
    lines = printed(X)
    ctx.check(len(lines) == n, 'number of printed equations', got=str(X), expected=ids, **detail)
    env = {(k, 0): v for k, v in PT.items()}
    for line, i in zip(lines, ids):
        e = read_back(line)
        v = None if e is None else meaning(e, env)
        ctx.check(v is not None and abs(v - VALUES[i]) < 1e-9, 'printed equation', got=line,
                  expected=EQS[i], **detail)


WAYS = ['list', 'tuple', 'iterator', 'other', 'append', 'insert', 'model']


def reach(way, L):
    from pynare import Model
    from pynare.core.expressions import ModelExprs
    given = [give(s) for s in L]
    if way == 'list':
        return ModelExprs(given)
    if way == 'tuple':
        return ModelExprs(tuple(given))
    if way == 'iterator':
        return ModelExprs(g for g in given)
    if way == 'other':
        return ModelExprs(ModelExprs(given))
    if way == 'model':
        return Model(exprs=given).exprs
    X = ModelExprs() if len(L) % 2 else ModelExprs([])
    if way == 'append':
        for g in given:
            X.append(g)
    else:
        for g in reversed(given):
            X.insert(0, g)
    return X


HIST = [['append', (0, 's')], ['append', (1, 'a')], ['insert', 0, (2, 's')], ['insert', -1, (1, 's')],
        ['set', 0, (1, 's')], ['set', -1, (2, 'a')], ['del', 0], ['pop last'], ['reverse'],
        ['swap', 0, 1], ['extend self'], ['bad append', 0]]

ALPHA = ['x', 'y(-1)', '2', '+', '-', '*', '/', '^', '(', ')', '=']
SMALL = ['x', '2', '-', '/', '^', '(', ')']


def cases(tier):
    deep = tier == 'thorough'
    k = 0
    for L in states(4 if deep else 3):
        ways = WAYS[:6] if deep else [WAYS[k % 6], WAYS[(k // 6 + 4) % 6]]
        if len(L) < 2:
            ways = WAYS
        yield ['state', list(L), ways]
        k += 1
    for a in range(len(HIST)):
        for b in range(len(HIST)):
            yield ['hist', a, b, 2 if deep else 1]
    for a in ALPHA:
        for b in ALPHA:
            yield ['tokens', ALPHA, a, b, 4 if deep else 3]
    for a in SMALL:
        for b in SMALL:
            yield ['tokens', SMALL, a, b, 6 if deep else 5]
    for part in range(200):
        yield ['trees', part, 200, deep]
    yield ['numbers']
    yield ['functions']


def run(case, ctx):
    globals()['run_' + case[0].replace(' ', '_')](case, ctx)


def run_state(case, ctx):
    L = [tuple(s) for s in case[1]]
    ctx.state()
    for way in case[2]:
        look(ctx, reach(way, L), L, reached=way, given=[give(s) for s in L])
        for op in ops(len(L)):
            step(ctx, reach(way, L), L, op, reached=way)
            ctx.step()
            if ctx.problems:
                return
    ctx.tally(True)


def step(ctx, X, L, op, **detail):
    what = dict(detail, before=[s[0] for s in L], operation=op)
    try:
        new, want = reference(op, L)
        bad = None
    except (IndexError, ValueError) as e:
        new, want, bad = L, None, type(e)
    try:
        Y, got = apply(op, X)
        raised = None
    except Exception as e:
        Y, got, raised = X, None, e
    if op[0] == 'set slice' and raised is not None:
        new, want, bad = L, None, TypeError
    if bad is not None:
        ctx.check(raised is not None, 'an impossible operation is not refused', **what)
    else:
        ctx.check(raised is None, 'an operation fails', error=repr(raised), **what)
        ctx.check(got == want, 'result of an operation', got=got, expected=want, **what)
    if not ctx.problems:
        look(ctx, Y, new, **what)
    ctx.outcome((op[0], bad is None), trivial=bad is not None)
    return Y, new


def run_hist(case, ctx):
    from pynare.core.expressions import ModelExprs
    for tail in itertools.product(range(len(HIST)), repeat=case[3]):
        X, L = ModelExprs([EQS[0], EQS[1]]), [(0, 's'), (1, 's')]
        ctx.trace()
        for h in (case[1], case[2]) + tail:
            op = HIST[h]
            if op[0] == 'swap' and len(L) < 2 or op[0] == 'extend self' and len(L) > 5:
                continue
            X, L = step(ctx, X, L, op, history=[HIST[case[1]], HIST[case[2]],
                                                [HIST[t] for t in tail]])
            ctx.step()
            if ctx.problems:
                return
    ctx.tally(True)


def show(ctx, batch):
    """batch: (text, equation); printed by a file's model, and as given and changed strings"""
    from pynare import Model
    from pynare.core.expressions import ModelExprs
    from pynare.parsing import read_model
    names = sorted({v for _, e in batch for s in e for v, _ in leaves(s)} - set(GIVEN))
    names = names or ['x']
    src = (f"var {' '.join(names)}; varexo e u; parameters a p q alpha n; "
           "a = 2.1; p = 1.7; q = 0.6; alpha = 0.36; n = 2; model; "
           + ''.join(t + ';\n' for t, _ in batch) + 'end;')
    lists = {'file': ModelExprs(equations(read_model(src, 'dynare'))),
             'strings': ModelExprs([t for t, _ in batch])}
    own = ModelExprs([t for t, _ in batch])
    for i in range(len(own)):
        own[i] = own[i]
    lists['trees'] = own
    for how, X in lists.items():
        lines = printed(X)
        ctx.check(len(lines) == len(batch), 'number of printed equations', how=how,
                  got=len(lines), expected=len(batch))
        for line, (t, e) in zip(lines, batch):
            want = meaning(e)
            back = read_back(line)
            if want is None:
                ctx.check(back is not None, 'printed equation', how=how, got=line, expected=t)
                continue
            got = None if back is None else meaning(back)
            ctx.check(got is not None and abs(got - want) <= 1e-9 * (1 + abs(want)),
                      'printed equation', how=how, got=line, expected=t)
            if ctx.problems:
                return
            ctx.tally(True)


def run_tokens(case, ctx):
    _, alphabet, a, b, n = case
    names = {'x': V('x'), 'y(-1)': V('y', -1), '2': N(2)}
    batch = []
    for tail in itertools.chain([()], exprs.strings(alphabet, n)):
        toks = (a, b) + tail
        e = exprs.parse_equation(toks, names)
        if e is None:
            continue
        if not any(leaves(s) for s in e):
            # a constant; divisions by zero and the like
            if meaning(e) is None:
                continue
        batch.append((''.join(toks), e))
        if len(batch) == 40:
            show(ctx, batch)
            batch = []
    if batch:
        show(ctx, batch)
    ctx.outcome((case[0], bool(batch)))


def run_trees(case, ctx):
    from checks import c08
    _, part, parts, deep = case
    batch = []
    for i, t in enumerate(c08.trees('thorough' if deep else 'quick')):
        if i % parts != part:
            continue
        e = (V('x'), t) if i % 2 else (t, N(0))
        batch.append((render(e[0]) + ' = ' + render(e[1]) if i % 2 or i % 3 else render(t), e))
        if len(batch) == 40:
            show(ctx, batch)
            batch = []
        if ctx.problems:
            return
    if batch:
        show(ctx, batch)
    ctx.outcome('trees')


def parsed_items(texts):
    from pynare.core.expressions import ModelExprs
    return ModelExprs(texts)


def numbers(e):
    if isinstance(e, tuple):
        if e and e[0] == 'num':
            return {float(e[1])}
        return set().union(*[numbers(x) for x in e])
    return set()


def run_numbers(case, ctx):
    vals = ['0', '1', '10', '0.5', '.5', '3.', '0.00001', '0.1234567890123', '123456789.25',
            '1000000', '0.000000001', '2.50', '007']
    batch = []
    for v in vals:
        for form in ('x = {}*y', 'x + {}', 'x = y^{}', 'x = -{}*y + {}'):
            t = form.format(v, v)
            e = exprs.parse_equation(TOKEN.findall(t), Names())
            batch.append((t, e))
    show(ctx, batch)
    # every digit
    for v in vals + ['0.12345678901234567', '12345678901234567', '0.1000000000000001',
                     '3.141592653589793', '0.0000000000000000123456789012345']:
        t = str(parsed_items([f'x = {v}*y']))
        back = read_back(t.split('\n')[1])
        got = [] if back is None else sorted(numbers(back))
        ctx.check(float(v) in got, 'digits of a number', got=t, expected=v)
    ctx.outcome('numbers')


def run_functions(case, ctx):
    batch = []
    for f in exprs.FUNCS:
        for e in (F(f, mul(N(.3), V('x', -1))), NEG(F(f, mul(N(.3), V('x', 1)))),
                  B('^', F(f, N(.4)), V('y', 0)), B('/', V('e'), F(f, B('-', V('w'), P('q')))),
                  F(f, NEG(F('exp', NEG(V('z', 1)))))):
            batch.append((render(e), (e, N(0))))
            batch.append(('z = ' + render(e), (V('z'), e)))
    show(ctx, batch)
    ctx.outcome('functions')
