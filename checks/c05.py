"""C05: files that break the rules about names are rejected, the others are accepted"""
import itertools

from mc import modlang
from mc.modfiles import FILES

ID = 'C05'
LEVEL = 'exploration'
RULE = ('seven model files: every occurrence of a name replaced by every name of every kind '
        '(endogenous, shock, parameter, helper, local, undeclared), pairs of such '
        'replacements in the declarations, every name of the model block given every offset '
        '-3..3, every statement about every name of every kind inserted in every block, every '
        'second declaration of every name, every local definition of every name at every '
        'place; the reference reader decides which files are valid; '
        'outcome = (edit, verdict)')
ASSUMPTIONS = ['reference reader of the documented rules',
               'files outside of what the documentation settles are skipped']
CHUNK = 2

MORE = {
    'three': """
var a1, a2 a3; varexo s1 s2; parameters p1 p2;
h1 = 0.5; p1 = h1; p2 = p1*h1; h2 = p2 + 1;
model;
 # l1 = p1 + p2;
 a1 = l1*a1(-1)/2 + s1;
 # l2 = l1^2;
 a2 = a1(-1) - l2*a2(+1)*0.1 + s2;
 a3 = p2*a2 + a1(+1);
end;
initval; a1 = h2 - h2; a2 = p1; end;
endval; a3 = 1; end;
histval; a2 = h1; end;
shocks; var s1 = h1; var s2; stderr p2; corr s1, s2 = h1/10; end;
""",
    'flat': "var y; varexo e; h = 1; parameters p q; p = h/2; q = p; model; "
            "y = p*y(-1) + q*e; end; initval; y = p - h/2; end; shocks; var e = q; end;",
}
TEXTS = {**FILES, **MORE}
TOKS = {n: [t for t, _, _ in modlang.lex(s)] for n, s in TEXTS.items()}


def names_of(toks):
    return sorted({t for t in toks if modlang.is_name(t)}) + ['undeclared']


def cases(tier):
    deep = tier == 'thorough'
    for name, toks in TOKS.items():
        at = [i for i, t in enumerate(toks) if modlang.is_name(t)]
        for i in at:
            yield ['replace', name, i]
            yield ['offset', name, i]
        for i in range(len(toks)):
            if toks[i] in (';',):
                yield ['insert', name, i + 1]
        for i in at:
            if deep:
                for j in at:
                    if j > i:
                        yield ['pair', name, i, j]
    yield ['pieces']


def run(case, ctx):
    globals()['run_' + case[0]](case, ctx)


def judge(src, ctx, part):
    from pynare.parsing import read_model
    from pynare import Model
    verdict, R = modlang.read_text(src)
    ctx.tally(verdict in ('ok', 'semantic'))
    ctx.outcome((part, verdict), trivial=verdict not in ('ok', 'semantic'))
    if verdict == 'semantic':
        if 'periods' in R or 'has no value' in R:
            f = lambda: Model.from_outline(read_model(src, 'dynare'))
        else:
            f = lambda: read_model(src, 'dynare')
        return ctx.raises(Exception, f, 'invalid file', text=src, why=R) is not None
    if verdict == 'ok':
        try:
            read_model(src, 'dynare')
        except Exception as e:
            ctx.fail('valid file rejected', text=src, error=f'{type(e).__name__}: {e}')
            return False
    return True


def run_replace(case, ctx):
    _, name, i = case
    toks = TOKS[name]
    for n in names_of(toks):
        if n != toks[i]:
            if not judge(modlang.text(toks[:i] + [n] + toks[i + 1:]), ctx, 'name replaced'):
                return


def run_pair(case, ctx):
    _, name, i, j = case
    toks = TOKS[name]
    for n in names_of(toks):
        for m in names_of(toks):
            if n != toks[i] and m != toks[j]:
                t = toks[:i] + [n] + toks[i + 1:j] + [m] + toks[j + 1:]
                if not judge(modlang.text(t), ctx, 'two names replaced'):
                    return


def run_offset(case, ctx):
    """another offset for a name in the model block (in other places it is malformed)"""
    _, name, i = case
    toks = TOKS[name]
    lo, hi = toks.index('model'), toks.index('end')
    if not lo < i < hi:
        ctx.outcome('not in the model', trivial=True)
        return
    rest = toks[i + 1:]
    if rest[0] == '(' and rest[1] in '+-':
        rest = rest[4:]
    for k in ('-1', '+1', '-2', '+2', '-3', '+3', '+0', '-0', None):
        for n in names_of(toks):
            t = toks[:i] + [n] + (['(', k[0], k[1], ')'] if k else []) + rest
            if not judge(modlang.text(t), ctx, 'offset'):
                return


def run_insert(case, ctx):
    """a statement about every name, after every semicolon"""
    _, name, i = case
    toks = TOKS[name]
    for n in names_of(toks):
        for stm in ('var {};', 'varexo {};', 'parameters {};', '{} = 1;', '# {} = 1;',
                    'newname = {};', 'x9 = 2*{} + 1;', '# new = {};', 'var {} = 1;',
                    'var {}; stderr 2;', 'var newname {};', '{n} = {n};', '# new = {} (-1);',
                    'var {} {};', 'parameters new, {};'):
            s = [t for t, _, _ in modlang.lex(stm.replace('{n}', n).replace('{}', n))]
            if not judge(modlang.text(toks[:i] + s + toks[i:]), ctx, 'statement inserted'):
                return
        for m in names_of(toks):
            for stm in ('corr {}, {} = 0.1;', 'var {}, {} = 0.1;'):
                s = [t for t, _, _ in modlang.lex(stm.format(n, m))]
                if 'shocks' in toks[:i]:
                    if not judge(modlang.text(toks[:i] + s + toks[i:]), ctx, 'pair of shocks'):
                        return


def run_pieces(case, ctx):
    """every way to put names of all kinds into all positions of a short file"""
    kinds = ['x', 'e', 'p', 'h', 'l', 'u']
    for d in itertools.product(kinds[:4], repeat=3):
        src = (f'var {d[0]}, y; varexo {d[1]}; parameters {d[2]}; h = 1; {d[2]} = h; model; '
               f'# l = {d[2]}; y = {d[0]}(-1) + {d[1]}*l; {d[0]} = y; end;')
        if not judge(src, ctx, 'pieces'):
            return
    for a, b, c, d in itertools.product(kinds, repeat=4):
        src = (f'var x; varexo e; parameters p; h = 1; p = h; model; # l = p; '
               f'x = l*x(-1) + {a} + {b}; end; initval; {c} = {d}; end;')
        if not judge(src, ctx, 'pieces'):
            return
        src = (f'var x; varexo e v; parameters p; h = 1; p = {a}; model; # l = {b}; '
               f'x = p*x(-1) + e; end; shocks; var {c} = {d}; end;')
        if not judge(src, ctx, 'pieces'):
            return
