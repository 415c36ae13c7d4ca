"""C03: comments, blanks and line breaks never change a model; locations are real"""
import itertools
import re

from mc import modlang
from mc.modfiles import FILES

ID = 'C03'
LEVEL = 'exploration'
RULE = ('five model files x every gap between two tokens (and the beginning and end) x 37 '
        'separators (blanks, tabs, line breaks, every kind of comment, comments holding '
        'code, quotes or other comment openers, sequences of comments), all gaps at once, '
        'every string of slashes, stars, percents, letters, blanks and line breaks up to length '
        '6 (thorough: 8) between two tokens, '
        'all blanks removed, one token per line, every pair of separators in a row, '
        '(thorough: every pair of gaps); the token stream '
        'with its locations and the model read are compared with the reference lexer and '
        'reader; locations in error messages for every single-token fault; token streams of '
        'several files alive in one process; outcome = kind of layout')
ASSUMPTIONS = ['reference lexer; a location is the line a token ends on and the column '
               'after its last character',
               'line breaks are LF or CRLF']
CHUNK = 2

SEPS = [' ', '\t', '\n', '\r\n', '\n\n\n', '  \n\t ', '\f',
        '// c\n', '% c\n', '/* c */', '/**/', '/***/', '/* a\nb\n*/', '//\n', '%\n',
        '// x = 1; end;\n', '% var q;\n', '/* end; model; */', "// it's\n", "/* it's \" */",
        '% /* \n', '// /* \n', '/* // */', '/* % */', '/* * / ** */', '// a\n// b\n',
        '// a\n/* b */ % c\n', '/* a *//* b */', ' \n /* a */ \n // b \n\n', '%%\n//%\n',
        '/*/ a = 3; */', '/*/*/', '/*/**/', '/*//*/', '/*\n/ */', '/* /* */', '/**//**/',
        '// c \\\n', '/* c\n', ]
SEPS[-1] = '/* c\n // d\n % e */\n'
CHARS = '/*%\n a'
TOKS = {n: [t for t, _, _ in modlang.lex(s)] for n, s in FILES.items()}


def cases(tier):
    deep = tier == 'thorough'
    for head in itertools.product(CHARS, repeat=2):
        yield ['strings', ''.join(head), 6 if deep else 4]
    for name, toks in TOKS.items():
        for i in range(len(toks) + 1):
            yield ['gap', name, i]
        for k in range(len(SEPS)):
            yield ['all', name, k]
        for i in range(len(toks)):
            yield ['errors', name, i]
        yield ['compact', name]
        yield ['process', name]
        for i in (0, 1, len(toks) // 2, len(toks)):
            yield ['double', name, i]
        if deep:
            for i in range(len(toks)):
                for j in range(i + 1, len(toks) + 1):
                    yield ['two', name, i, j]
            for i in range(len(toks) + 1):
                yield ['double', name, i]


def run(case, ctx):
    globals()['run_' + case[0]](case, ctx)


def layout(toks, seps):
    """text with separator seps[i] before token i (and the last one at the end)"""
    out = seps[0] or ''
    for i, t in enumerate(toks):
        if i:
            s = seps[i] or ''
            if s:
                # a slash and a comment opener would be another comment
                if out[-1] == '/' and s[0] in '/*%':
                    s = ' ' + s
            elif modlang.text([toks[i - 1], t]) != toks[i - 1] + t:
                s = ' '
            out += s
        out += t
    return out + (seps[len(toks)] or '')


def where(s, end):
    """line and column of the end of a token"""
    line = s.count('\n', 0, end) + 1
    return line, end - (s.rfind('\n', 0, end) + 1)


def check_tokens(s, ctx):
    """the lexer's view of `s` against the reference"""
    from pynare.parsing.lexer import DynareLexer
    want = modlang.lex(s)
    lx = DynareLexer(s)
    lx.tokenize()
    return compare_stream(s, want, lx, ctx)


def compare_stream(s, want, lx, ctx):
    got = list(lx.token_stream)
    while got and got[-1].type == 'EOF':
        got.pop()
    if len(got) != len(want):
        ctx.fail('number of tokens', text=s, got=[g.value for g in got],
                 expected=[w for w, _, _ in want])
        return False
    for g, (w, a, b) in zip(got, want):
        v = g.value
        if modlang.is_num(w):
            ok = v == float(w)
        elif modlang.is_string(w):
            ok = v == w[1:-1]
        elif w == '^':
            ok = v in ('^', '**')
        else:
            ok = v == w
        if not ok:
            ctx.fail('wrong token', text=s, got=v, expected=w)
            return False
        if (g.line_number, g.line_pos) != where(s, b):
            ctx.fail(f'location of token {w!r}', text=s, got=(g.line_number, g.line_pos),
                     expected=where(s, b))
            return False
    return True


def check_model(s, toks, ctx):
    from pynare.parsing import read_model
    from pynare import Model
    verdict, R = modlang.read(toks)
    assert verdict == 'ok', R
    # the reference agrees that the layout does not matter
    assert modlang.read_text(s)[0] == 'ok' and [t for t, _, _ in modlang.lex(s)] == toks, s
    return modlang.compare(R, Model.from_outline(read_model(s, 'dynare')), ctx, text=s)


def one(toks, seps, ctx):
    s = layout(toks, seps)
    ctx.tally()
    return check_tokens(s, ctx) and check_model(s, toks, ctx)


def run_gap(case, ctx):
    _, name, i = case
    toks = TOKS[name]
    for sep in SEPS:
        seps = [None] * (len(toks) + 1)
        seps[i] = sep
        if not one(toks, seps, ctx):
            return
    # comments end with the text
    if i == len(toks):
        for sep in ('//', '%', '// c', '% c', ' // c', '\n% c', '/* c */', '// c\n% d', '\n//'):
            seps[i] = sep
            if not one(toks, seps, ctx):
                return
    ctx.outcome(('one gap',))


def run_strings(case, ctx):
    """every string of the characters that open, close or separate"""
    from pynare.parsing.lexer import DynareLexer
    _, head, n = case
    texts = [head + ''.join(t) for k in range(n + 1)
             for t in itertools.product(CHARS, repeat=k)]
    if head == CHARS[0]*2:
        texts += ['', *CHARS]
    for t in texts:
        s = f'x{t}y'
        ctx.tally()
        try:
            want = modlang.lex(s)
        except modlang.LexError:
            want = None
        lx = DynareLexer(s)
        try:
            lx.tokenize()
        except SyntaxError:
            got = False
        else:
            got = True
        if not ctx.check(got == (want is not None),
                         'text that ends in a comment accepted' if got
                         else 'layout rejected', text=s):
            return
        ctx.outcome(('string', len(t), want and len(want)))
        if want is not None and not compare_stream(s, want, lx, ctx):
            return


def run_double(case, ctx):
    _, name, i = case
    toks = TOKS[name]
    for a, b in itertools.product(SEPS, SEPS):
        seps = [None] * (len(toks) + 1)
        seps[i] = a + b
        ctx.tally()
        if not check_tokens(layout(toks, seps), ctx):
            return
    ctx.outcome(('two separators in a row',))


def run_two(case, ctx):
    _, name, i, j = case
    toks = TOKS[name]
    for a in SEPS:
        for b in SEPS:
            seps = [None] * (len(toks) + 1)
            seps[i], seps[j] = a, b
            s = layout(toks, seps)
            ctx.tally()
            if not check_tokens(s, ctx):
                return
    ctx.outcome(('two gaps',))


def run_all(case, ctx):
    _, name, k = case
    toks = TOKS[name]
    n = len(toks) + 1
    for seps in ([SEPS[k]] * n, [SEPS[k] if i % 2 else None for i in range(n)],
                 [SEPS[(k + i) % len(SEPS)] for i in range(n)],
                 [SEPS[(k + i) % len(SEPS)] if i % 3 == 0 else ' ' for i in range(n)]):
        if not one(toks, seps, ctx):
            return
    ctx.outcome(('every gap',))


def run_compact(case, ctx):
    _, name = case
    toks = TOKS[name]
    n = len(toks) + 1
    one(toks, [None] * n, ctx)
    one(toks, [' '] * n, ctx)
    one(toks, ['\n'] * n, ctx)
    s = FILES[name]
    ctx.tally()
    check_tokens(s, ctx) and check_model(s, toks, ctx)
    # the plain reader of strings
    from pynare.parsing import evaluate
    for e in (['2', '*', '(', '3', '-', '1', ')', '/', '4'], ['-', '2', '^', '2', '+', '1'],
              ['exp', '(', '0', ')', '*', 'a', '-', '.5']):
        for seps in itertools.product(['', ' ', '\n', '\t ', '\r\n'], repeat=3):
            t = ''
            for i, x in enumerate(e):
                t += seps[i % 3] + x
            ctx.tally()
            got, want = evaluate(t + seps[0], {'a': 3.0}), evaluate(''.join(e), {'a': 3.0})
            ctx.check(got == want, 'blanks change a value', text=t, got=got, expected=want)
    ctx.outcome(('compact',))


def run_process(case, ctx):
    """several texts read in one process keep their own locations"""
    from pynare.parsing.lexer import DynareLexer
    from pynare.parsing import read_model
    _, name = case
    others = list(FILES)
    texts = [FILES[name]] + ['\n\n' + FILES[o] for o in others] + [FILES[name] + '\n']
    for order in ([0, 1, 2], [0, 3, 4], [5, 0, 6], [0, 0, 0], [2, 1, 0]):
        live = []
        for k in order:
            lx = DynareLexer(texts[k])
            lx.tokenize()
            live.append((texts[k], lx))
            read_model(texts[k], 'dynare')
            try:
                read_model(texts[k] + '\n;', 'dynare')
            except Exception:
                pass
        ctx.tally()
        for s, lx in live:
            if not compare_stream(s, modlang.lex(s), lx, ctx):
                return
    ctx.outcome(('one process',))


def run_errors(case, ctx):
    """locations in error messages are those of the tokens named"""
    from pynare.parsing import read_model
    _, name, i = case
    toks = TOKS[name]
    n = 0
    for sep in (' ', '\n', ' // c\n ', '/* a\n */'):
        for new in ('zz', ';', ')', '=', 'end', 'var', '5', None):
            t = toks[:i] + ([new] if new else []) + toks[i + 1:]
            s = layout(t, [sep] * (len(t) + 1))
            verdict, why = modlang.read_text(s)
            ctx.tally(verdict in ('syntax', 'semantic'))
            if verdict not in ('syntax', 'semantic'):
                continue
            try:
                read_model(s, 'dynare')
            except Exception as e:
                msg = str(e)
            else:
                continue        # whether it is rejected is another property's question
            real = {}
            for w, a, b in modlang.lex(s):
                real.setdefault(w, set()).add(where(s, b))
            every = set().union(*real.values()) | {where(s, len(s))}
            m = re.search(r'(?:line|row) (\d+),? (?:in )?column (\d+)', msg)
            if not m:
                continue
            n += 1
            at = int(m.group(1)), int(m.group(2))
            if not ctx.check(at in every, 'error at a place where no token is', text=s,
                             message=msg):
                return
            q = re.search(r"'([A-Za-z_0-9]+|[;=()])'", msg) or re.search(r'name (\w+) was', msg)
            if q and q.group(1) in real and not ctx.check(
                    at in real[q.group(1)], 'error at another token', text=s, message=msg):
                return
            if verdict == 'semantic' and 'zz' in t and 'zz' in msg and not ctx.check(
                    at in real['zz'], 'error at another name', text=s, message=msg):
                return
    ctx.outcome(('error messages', n > 0), trivial=n == 0)
