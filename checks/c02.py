"""C02: malformed text always raises an error, reading always ends and drops nothing"""
from mc import exprs, modlang
from mc.modfiles import FILES
from mc.sym import N, P, V, ev

ID = 'C02'
LEVEL = 'exploration'
RULE = ('every token string up to a length over the expression alphabets, as a plain expression, '
        'as a model equation and as an equation or assignment in a file; and every single-token '
        'deletion, duplication, insertion, replacement, swap and truncation and every '
        'single-character deletion, insertion, replacement and truncation of five model files '
        '(thorough: pairs of token edits); a reference reader of the language decides what is '
        'well-formed; outcome = verdict of the reference reader')
ASSUMPTIONS = ['reference lexer and recursive-descent reader of the documented grammar',
               'files outside of what the documentation settles (e.g. blocks given twice, '
               'deterministic shocks) only have to end',
               'a case that uses 40 CPU seconds counts as not ending']
CHUNK = 2

ALPHA = ['a', '2', '+', '-', '*', '/', '^', '(', ')', 'exp', '=', ',', '<', '$', '.']
SMALL = ['a', '2', '-', '*', '(', ')', 'exp']
EQ = ['x', '(-1)', '(+1)', 'p', '2', '-', '*', '(', ')', '=', 'log', '^']
PER = ['x', '(', '+', '-', '1', '0', '0.5', '2', ')', 'e']
CMP = ['<', '<=', '>', '>=', '==']


def cases(tier):
    deep = tier == 'thorough'
    for p in ALPHA:
        for q in ALPHA:
            yield ['eval', ALPHA, p + ' ' + q, 3 if deep else 2]
    for p in SMALL:
        for q in SMALL:
            yield ['eval', SMALL, p + ' ' + q, 5 if deep else 4]
    for p in EQ:
        for q in EQ:
            yield ['eq', EQ, p + ' ' + q, 3 if deep else 2]
    for p in PER:
        yield ['period', PER, p, 5 if deep else 4]
    for name in FILES:
        toks = [t for t, _, _ in modlang.lex(FILES[name])]
        for i in range(len(toks) + 1):
            yield ['tokens', name, i]
        for i in range(len(FILES[name]) + 1):
            yield ['chars', name, i]
    if deep:
        for name in ('small', 'noshock'):
            toks = [t for t, _, _ in modlang.lex(FILES[name])]
            for i in range(len(toks)):
                for j in range(i + 1, len(toks)):
                    yield ['pairs', name, i, j]
    yield ['whole']


def run(case, ctx):
    globals()['run_' + case[0]](case, ctx)


def tails(case):
    alphabet, pre, n = case[1], tuple(case[2].split()), case[3]
    if len(pre) < 2 or pre[1] == alphabet[0]:
        yield pre[:1]
    if len(pre) > 1:
        yield pre
    for t in exprs.strings(alphabet, n):
        yield pre + t


def comparison(toks, names):
    """expr | expr comparison expr"""
    n = sum(t in CMP for t in toks)
    if n > 1:
        return None
    if n == 1:
        k = [i for i, t in enumerate(toks) if t in CMP][0]
        l, r = exprs.parse(toks[:k], names), exprs.parse(toks[k + 1:], names)
        return None if l is None or r is None else (l, r)
    return exprs.parse(toks, names)


def run_eval(case, ctx):
    from pynare.parsing import evaluate, parse_string
    names = {'a': P('a'), '2': N(2), '1': N(1)}
    bad = good = 0
    for toks in tails(case):
        s = exprs.text(toks)
        try:
            ok = comparison([t for t, _, _ in modlang.lex(s, False)], _Names(names)) is not None
        except modlang.LexError:
            ok = False
        ctx.tally(not ok)
        if ok:
            good += 1
            parse_string(s)
        else:
            bad += 1
            if ctx.raises(Exception, lambda: evaluate(s, {'a': 3.0}), 'malformed expression',
                          text=s) is None:
                return
    ctx.outcome(('expressions', bad > 0, good > 0))


class _Names(dict):
    def __contains__(self, k):
        return dict.__contains__(self, k) or modlang.is_num(k)

    def __getitem__(self, k):
        return dict.__getitem__(self, k) if dict.__contains__(self, k) else N(float(k))


def glue(toks):
    out = []
    for t in toks:
        out.extend(['(', t[1], t[2], ')'] if t in ('(-1)', '(+1)') else [t])
    return out


def run_eq(case, ctx):
    """equations of a model, given as strings and in a file"""
    from pynare.core.expressions import ModelExprs
    from pynare.parsing import read_model
    n = [0, 0]
    for toks in tails(case):
        g = glue(toks)
        s = exprs.text(g)
        f = modlang.lex('var x; varexo e; parameters p; p = 1; model;' + s
                        + '; x = x(-1) + e; end; shocks; end;')
        verdict, why = modlang.read([t for t, _, _ in f])
        if verdict == 'skip':
            continue
        ctx.tally(verdict == 'syntax')
        n[verdict == 'ok'] += 1
        src = 'var x; varexo e; parameters p; p = 1; model; ' + s + \
            '; x = x(-1) + e; end; shocks; end;'
        if verdict == 'ok':
            o = read_model(src, 'dynare')
            ctx.check(len(o._model_expression_asts) == 2 if hasattr(o, '_model_expression_asts')
                      else True, 'equation lost', text=s)
            ModelExprs([s])
        elif verdict == 'syntax':
            if ctx.raises(Exception, lambda: read_model(src, 'dynare'),
                          'malformed equation in a file', text=s) is None:
                return
            if ctx.raises(Exception, lambda: ModelExprs([s]), 'malformed equation',
                          text=s) is None:
                return
    ctx.outcome(('equations', n[0] > 0, n[1] > 0))


def run_period(case, ctx):
    """everything that can follow a variable"""
    from pynare.parsing import read_model
    from pynare import Model
    from mc.sym import leaves
    n = [0, 0]
    for toks in tails(case):
        s = exprs.text(toks)
        src = 'var x; varexo e; model; ' + s + ' = 0; x = 0.5*x(-1) + e; end;'
        try:
            f = [t for t, _, _ in modlang.lex(src)]
            verdict, R = modlang.read(f)
        except modlang.LexError:
            verdict = 'syntax'
        if verdict == 'skip':
            continue
        ctx.tally(verdict != 'ok')
        n[verdict == 'ok'] += 1
        if verdict == 'ok':
            o = read_model(src, 'dynare')
            if any(modlang.residuals(R, {(v, k): z for v in ('x', 'e') for k in (-1, 0, 1)})[0]
                   is None for z in (0.0, 0.5)):
                continue
            md = Model.from_outline(o)
            if not modlang.compare(R, md, ctx, text=s):
                return
        elif ctx.raises(Exception, lambda: Model.from_outline(read_model(src, 'dynare')),
                        'malformed or impossible period', text=s) is None:
            return
    ctx.outcome(('periods', n[0] > 0, n[1] > 0))


VOCAB = ['x', 'y', 'e', 'a', 'q', '1', '.', '+', '-', '*', '/', '^', '(', ')', '[', ']', '=', ',',
         ';', '#', ':', 'var', 'varexo', 'parameters', 'model', 'end', 'initval', 'endval',
         'histval', 'shocks', 'corr', 'stderr', 'exp', "'s'", 'steady', '<', '==', '&', '!', '@']
CHARS = list("a1.+-*/^()[]=,;#%'\"$?\\ \n_é£{}<&")


def judge(ctx, src, verdict, R, n):
    """the code under test on `src`, against the verdict of the reference reader"""
    from pynare.parsing import read_model
    from pynare import Model
    n[verdict] = n.get(verdict, 0) + 1
    ctx.tally(verdict in ('ok', 'syntax'))
    if verdict == 'syntax':
        return ctx.raises(Exception, lambda: read_model(src, 'dynare'), 'malformed file',
                          text=src, why=R) is not None
    if verdict == 'ok':
        o = read_model(src, 'dynare')
        if modlang.buildable(R) and len(R.eqs) == len(R.endog):
            try:
                md = Model.from_outline(o)
            except Exception:
                # the steady state may not exist
                n['no model'] = n.get('no model', 0) + 1
                return True
            return modlang.compare(R, md, ctx, text=src)
        return True
    # the other files only have to end
    try:
        read_model(src, 'dynare')
    except Exception:
        pass
    return True


def edits(toks, i):
    n = len(toks)
    for w in VOCAB:
        yield toks[:i] + [w] + toks[i:]
        if i < n and w != toks[i]:
            yield toks[:i] + [w] + toks[i + 1:]
    if i < n:
        yield toks[:i] + toks[i + 1:]
        yield toks[:i] + [toks[i]] + toks[i:]
        yield toks[:i]
        yield toks[i:]
    if i + 1 < n:
        yield toks[:i] + [toks[i + 1], toks[i]] + toks[i + 2:]
        yield toks[:i] + toks[i + 2:]


def run_tokens(case, ctx):
    _, name, i = case
    toks = [t for t, _, _ in modlang.lex(FILES[name])]
    n = {}
    for new in edits(toks, i):
        if not new:
            continue
        src = modlang.text(new)
        # a quote inside of the text may open a string: read what was really written
        verdict, R = modlang.read_text(src)
        if not judge(ctx, src, verdict, R, n):
            return
    for v in n:
        ctx.outcome(('token edits', v))


def run_chars(case, ctx):
    _, name, i = case
    s = FILES[name]
    n = {}
    todo = [s[:i]]
    if i < len(s):
        todo += [s[:i] + s[i + 1:], s[i:]]
    for c in CHARS:
        todo.append(s[:i] + c + s[i:])
        if i < len(s) and c != s[i]:
            todo.append(s[:i] + c + s[i + 1:])
    for src in todo:
        if not src:
            continue
        verdict, R = modlang.read_text(src)
        if not judge(ctx, src, verdict, R, n):
            return
    for v in n:
        ctx.outcome(('character edits', v))


PAIR = ['x', '1', '+', '(', ')', '=', ';', 'end', 'var', None]


def run_pairs(case, ctx):
    _, name, i, j = case
    toks = [t for t, _, _ in modlang.lex(FILES[name])]
    n = {}
    for a in PAIR:
        for b in PAIR:
            new = toks[:i] + ([a] if a else []) + toks[i + 1:j] + ([b] if b else []) + toks[j + 1:]
            src = modlang.text(new)
            verdict, R = modlang.read_text(src)
            if not judge(ctx, src, verdict, R, n):
                return
    for v in n:
        ctx.outcome(('pairs of edits', v))


def run_whole(case, ctx):
    """texts that are nothing at all, and files cut into or joined with others"""
    n = {}
    texts = ['', ' ', '\n', ';', 'x', 'var', 'var x', 'model', 'model;', 'model; end', 'end;',
             '/*', '/* */', '//', '%', "'", '"', '(', ')', '1', '/* var x; model; x; end;',
             'var x; model; x = x(-1; end;', 'var x; model; x = x(-1)) ; end;',
             'var x; model; x = (x(-1); end;', 'var x; model x = x(-1); end;',
             'var x; model; x = x(-1) end;', 'var x; model; x = x(-1);', 'var x model; x; end;']
    for a in FILES.values():
        texts.append(a + '/* never closed')
        texts.append(a + '// at the end')
        texts.append(a + '% at the end')
        texts.append(a + "'never closed")
        texts.append(a + ' junk')
        texts.append('junk ' + a)
        for b in FILES.values():
            texts.append(a + b)
    for s in texts:
        verdict, R = modlang.read_text(s)
        if not judge(ctx, s, verdict, R, n):
            return
    for v in n:
        ctx.outcome(('whole texts', v))
