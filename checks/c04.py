"""C04: a model file is read faithfully"""
import itertools

from mc import modlang

ID = 'C04'
LEVEL = 'exploration'
RULE = ('model files generated over: every order and splitting of the declarations and every '
        'interleaving of assignments with them; every program of three (thorough: four) assignments over '
        'three parameters and a helper name with formulas in the other names, repeated '
        'assignments included; every order of statements of a model block with local '
        'definitions, tags and homogeneous equations; every ordered subset of the four '
        'optional blocks with every subset of variables; every sequence of shock statements; '
        'every assignment of awkward names to roles; compared with the reference reader: '
        'names in order, values, residuals of every equation, boundary values, covariance; '
        'outcome = (part of the language, verdict)')
ASSUMPTIONS = ['reference reader of the documented language',
               'a parameter or helper that is assigned again has its new value in later '
               'statements only (statements are executed in order)',
               'models have as many equations as variables and a steady state near the '
               'starting values']
CHUNK = 2


def judge(src, ctx, part, need_ok=True):
    from pynare.parsing import read_model
    from pynare import Model
    verdict, R = modlang.read_text(src)
    ctx.tally(verdict == 'ok')
    if verdict != 'ok':
        assert not need_ok, (src, verdict, R)
        ctx.outcome((part, verdict), trivial=True)
        return True
    ctx.outcome((part, 'read'))
    md = Model.from_outline(read_model(src, 'dynare'))
    return modlang.compare(R, md, ctx, text=src)


def cases(tier):
    deep = tier == 'thorough'
    for order in itertools.permutations(range(3)):
        for split in range(5):
            for m in range(3):
                yield ['layout', list(order), split, m]
    for i in range(len(STEPS)):
        for j in range(len(STEPS)):
            yield ['program', [i, j], 2 if deep else 1]
    for k in range(len(MODELS)):
        yield ['statements', k]
    for n in range(5):
        for blocks in itertools.permutations(range(4), n):
            yield ['blocks', list(blocks), deep]
    for i in range(len(SHOCKS)):
        yield ['shocks', [i], 3 if deep else 2]
    for k in range(len(NAMES)):
        yield ['names', k]
    yield ['order']


def run(case, ctx):
    globals()['run_' + case[0]](case, ctx)


# ---- declarations and assignments -------------------------------------------
def declare(kind, names, split):
    """ways to declare a list of names"""
    if not names:
        return []
    if split == 0:
        return [f"{kind} {', '.join(names)};"]
    if split == 1:
        return [f"{kind} {' '.join(names)};"]
    if split == 2:
        return [f'{kind} {n};' for n in names]
    if split == 3:
        return [f"{kind} {names[0]};"] + ([f"{kind} {' '.join(names[1:])};"] if names[1:] else [])
    return [f"{kind}\n  " + ',\n  '.join(names) + '\n;']


LAYOUTS = [
    (['x'], ['e'], ['a'], ['a = 0.25'], 'x = a*x(-1) + e;'),
    (['k', 'c', 'b1'], ['u', 'e'], ['al', 'be', 'de'],
     ['al = 0.3', 'h = 2*al', 'be = h - 0.1', 'de = be^al'],
     'k = al*k(-1) + c + e; c = be*c(+1) + u; b1 = de*k;'),
    (['z', 'y'], [], ['p', 'q'], ['q = 0.5', 'p = -q'], 'z = p*z(-1); y = q*y(+1) + z;'),
]


def run_layout(case, ctx):
    _, order, split, m = case
    endog, stoch, params, assign, model = LAYOUTS[m]
    blocks = [('var', endog), ('varexo', stoch), ('parameters', params)]
    decls = [declare(*blocks[i], split) for i in order]
    flat = [s for d in decls for s in d]
    p = max([i for i, s in enumerate(flat) if s.startswith('parameters')], default=0) + 1
    # every way to interleave the assignments with the declarations after the parameters
    rest = flat[p:]
    n, k = len(rest), len(assign)
    for places in itertools.combinations_with_replacement(range(n + 1), k):
        pre = list(flat[:p])
        for i in range(n + 1):
            pre += [a + ';' for a, q in zip(assign, places) if q == i]
            if i < n:
                pre.append(rest[i])
        src = '\n'.join(pre) + '\nmodel;\n' + model + '\nend;\n'
        if not judge(src, ctx, 'layout'):
            return


# ---- programs of assignments --------------------------------------------------
VARS = ['a', 'b', 'h', 'c']
RHS = ['0.5', 'a + 0.25', '2*b', 'h - 0.1', 'a*b', '-h^2', 'c/4', 'b - (a - c)']
STEPS = [(v, r) for v in VARS for r in RHS]


def run_program(case, ctx):
    from pynare.parsing import read_model
    from pynare import Model
    _, pre, more = case
    for tail in itertools.product(range(len(STEPS)), repeat=more):
        prog = [STEPS[i] for i in pre + list(tail)]
        # parameters that the program never sets get a value first
        head = []
        for v in ('a', 'b', 'c'):
            if not any(x == v for x, _ in prog):
                head.append(f"{v} = {0.2 + 0.15 * ord(v) % 1:.3g};")
        src = ('var x y z; varexo e; parameters a, b, c;\n' + '\n'.join(head)
               + '\n'.join(f'{v} = {r};' for v, r in prog)
               + '\nmodel; x = a*x(-1) + e; y = b*x + e; z = x - c; end; '
               'initval; x = 0; y = h0; z = -c; end;'.replace('h0', 'a'))
        verdict, R = modlang.read_text(src)
        ctx.tally(verdict == 'ok')
        if verdict != 'ok':
            ctx.outcome(('program', verdict), trivial=True)
            continue
        ctx.outcome(('program', 'read'))
        if not modlang.compare(R, Model.from_outline(read_model(src, 'dynare')), ctx, text=src):
            return


# ---- the model block ----------------------------------------------------------
MODELS = [
    ['# g = a + b;', 'x = g*x(-1)/2 + e;', 'y = g*x;', 'z = z(+1)*b + y;'],
    ['# g = a;', '# q = g*b;', 'x - q*x(-1) - e;', "[name = 'two'] y = g*q*x;", 'z = q*x + u;'],
    ["[name='x', mcp = \"x > 1\"] x = a*x(-1) + e;", '[dynamic] y = x(-1) - b*x + u;',
     'z = x(+1) + y;', '# late = a;'],
    ['-(x - a*x(-1)) + e = 0;', '0 = y - b*exp(x)*y(-1);', 'z(-1)*a + x - z;'],
    ['# a1 = a;', 'x = a1*x(-0) + e + a1*x(-1)/3;', '# a2 = a1 + b;', 'y = a2*x(+1)/4;', 'z = a1*a2*y(-1);'],
]


def run_statements(case, ctx):
    stm = MODELS[case[1]]
    for perm in itertools.permutations(stm):
        for arg in ('', '(linear)', "(use_dll, opt = 'a', n = 3)"):
            src = (f"var x, y, z; varexo e u; parameters a b; a = 0.3; b = 0.4;\nmodel{arg};\n"
                   + '\n'.join(perm) + '\nend;\nshocks; var e = 0.5; end;')
            if not judge(src, ctx, 'model block', need_ok=False):
                return


def run_order(case, ctx):
    eqs = ['x = 0.5*x(-1) + e;', 'y = 0.4*y(+1) + x;', 'z = y(-1) - u*2;', 'w = z + x(+1);']
    for vs in itertools.permutations(['x', 'y', 'z', 'w']):
        for ep in itertools.permutations(eqs):
            src = (f"var {' '.join(vs)}; varexo u, e; model; {' '.join(ep)} end; "
                   f"initval; {vs[2]} = 0.25; {vs[0]} = -1; end;")
            if not judge(src, ctx, 'orders'):
                return


# ---- blocks --------------------------------------------------------------------
def run_blocks(case, ctx):
    _, blocks, deep = case
    names = ['initval', 'endval', 'histval', 'shocks']
    subsets = [[], ['x = 0.5;'], ['y = p/2;', 'x = -1;'], ['x = h;', 'y = (p + 1)*h;', 'z = 2^2;']]
    shocks = ['', 'var e = p;', 'var u; stderr h; corr e, u = 0.3;', 'var e, u = 0.1; var u = 2;']
    opts = ['', '(all_values_required)']
    for pick in itertools.product(range(4), repeat=len(blocks)):
        body = ''
        for b, k in zip(blocks, pick):
            body += f"{names[b]}{opts[(k + b) % 2]}; {' '.join(subsets[k]) if b < 3 else shocks[k]} end;\n"
        src = ('var x y z; varexo e u; parameters p; h = 0.75; p = h - 0.5;\n'
               'model; x = p*x(-1) + e; y = p*y(-1) - u; z = p*z(+1) + x - y; end;\n' + body)
        if not judge(src, ctx, 'blocks'):
            return


SHOCKS = ['var e = 0.25;', 'var u = 2*p;', 'var v = 1 + p;', 'var e; stderr 0.5;',
          'var u; stderr p;', 'var e, u = 0.1;', 'var v, e = -p/2;', 'corr e, u = 0.3;',
          'corr u, v = -p;', 'corr v, e = 0.25;', 'var u, v = 0.05;']


def run_shocks(case, ctx):
    _, pre, more = case
    for n in range(more + 1):
        for tail in itertools.product(range(len(SHOCKS)), repeat=n):
            body = ' '.join(SHOCKS[i] for i in pre + list(tail))
            src = ('var x; varexo e u v; parameters p; p = 0.4; model; x = p*x(-1) + e + u - v;'
                   ' end; shocks; ' + body + ' end;')
            if not judge(src, ctx, 'shocks', need_ok=False):
                return


# ---- names -----------------------------------------------------------------------
NAMES = [
    ['x', 'xm1', 'xp1', 'x_'], ['endx', 'var1', 'model_2', 'varexo2'], ['exp1', 'logx', 'e', 'E'],
    ['lambda', 'if', 'def', 'None'], ['a1b', 'a1', 'a', 'a1b2'], ['x1', 'X1', 'x11', 'x1_1'],
    ['beta', 'gamma', 'pi', 'Sigma'], ['i', 'j', 'inf', 'nan'], ['params', 'ss', 'self', 'names'],
    ['shocks1', 'initval_', 'corr1', 'stderrs'], ['m1', 'p1', 'm1p1', 'x'],
    ['class', 'in', 'is', 'lambda'], ['t', 'T', 'f', 'init'], ['c', 'cc', 'ccc', 'cccc'],
]


def run_names(case, ctx):
    for v, w, s, p in itertools.permutations(NAMES[case[1]]):
        src = (f'var {v}, {w}; varexo {s}; parameters {p}; {p} = 0.6;\n'
               f'model; {v} = {p}*{v}(-1) + {s}; {w} = {p}*{w}(+1) - {v}(-1)*{v}; end;\n'
               f'initval; {w} = {p}*2; end; shocks; var {s}; stderr {p}; end;')
        if not judge(src, ctx, 'names'):
            return
