"""C33: error messages name the place of the fault"""
import re

from mc import modlang, sym
from mc.modfiles import FILES
from checks.c05 import TEXTS, TOKS, names_of

ID = 'C33'
LEVEL = 'exploration'
RULE = ('every model file with every token replaced by every other word, dropped, doubled or '
        'swapped with the next one, and with every name replaced by every name of every kind, '
        'every statement about every name inserted after every semicolon, every pair of shocks '
        'in the shocks block; in three layouts (one token per line with its own indentation, '
        'one line, comments in between), and unknown characters before every token: a '
        'malformed file is reported at the first token which no well-formed file could have '
        'there, a file that breaks the rules about names at a name that breaks one; '
        'outcome = (edit, kind of fault)')
ASSUMPTIONS = ['reference reader of the documented rules, predictive as in C04 and C05',
               'a location is the line a token ends on and the column of its last character',
               'commands after the model block, and names without a value or periods above one, '
               'may be reported without a place']
CHUNK = 2

SUBST = ('zz', ';', ')', '(', '=', 'end', 'var', 'model', '5', '+', '*', ',', '#', '[', 'exp',
         'shocks', 'initval', 'corr', 'stderr', '^')


class Tok(str):
    """a token that knows its index"""

    def __new__(cls, s, at):
        self = str.__new__(cls, s)
        self.at = at
        return self


def lay(toks, how):
    """text of the tokens and, for each, the line it ends on and its last column"""
    out, where = '', []
    for k, t in enumerate(toks):
        if how == 'lines':
            out += ('\n' if k else '') + ' ' * (k % 7)
        elif how == 'one':
            out += ' ' if k else ''
        else:
            out += ('/* c\n x */ ', '\t', ' // c\n', '\n\n', ' % c\n  ')[k % 5]
        out += t
        line = out.rfind('\n') + 1
        where.append((out.count('\n') + 1, len(out) - line))
    return out, where


def faults(rd):
    """(indices of the names that break a rule, whether there are faults without a place)"""
    at, vague = set(), False
    kind, assigned = {}, set()
    for c, x, _ in rd.decl:
        if x in kind:
            at.add(x.at)
        else:
            kind[x] = c

    names = {x for x, _ in rd.assign}

    def value(e):
        nonlocal vague
        for v, k in sym.leaves(e):
            if v not in kind and v not in assigned:
                at.add(v.at)
                vague = vague or v in names     # used before it is given a value
            elif v not in assigned:
                vague = True
                at.add(v.at)

    for x, e in rd.assign:
        if kind.get(x, 'parameters') != 'parameters':
            at.add(x.at)
        value(e)
        assigned.add(x)
    local = set()

    def model(e):
        nonlocal vague
        for v, k in sym.leaves(e):
            if v not in kind and v not in local:
                at.add(v.at)
            if k is not None and k != 0 and kind.get(v) != 'var':
                at.add(v.at)
            if k is not None and abs(k) > 1:
                vague = True
                at.add(v.at)

    for s in rd.stmts:
        if s[0] == 'local':
            if s[1] in kind or s[1] in local or s[1] in assigned:
                at.add(s[1].at)
            model(s[2])
            local.add(s[1])
        else:
            model(s[1])
            model(s[2])
    for b, items in rd.blocks:
        if b == 'shocks':
            for k, x, y, e in items:
                for n in (x, y):
                    if n is not None and kind.get(n) != 'varexo':
                        at.add(n.at)
                value(e)
        else:
            for x, e in items:
                if kind.get(x) != 'var':
                    at.add(x.at)
                value(e)
    return at, vague


def cases(tier):
    for name, toks in TOKS.items():
        for i in range(len(toks)):
            yield ['token', name, i]
            if modlang.is_name(toks[i]):
                yield ['name', name, i]
            if toks[i] == ';':
                yield ['insert', name, i + 1]
            yield ['char', name, i]
        if tier == 'thorough':
            for i in range(len(toks)):
                yield ['two', name, i]


def run(case, ctx):
    globals()['run_' + case[0]](case, ctx)


def judge(words, ctx, part, layouts=('lines',)):
    from pynare.parsing import read_model
    toks = [Tok(w, k) for k, w in enumerate(words)]
    verdict, why = modlang.read(toks)
    if verdict not in ('syntax', 'semantic'):
        ctx.outcome((part, verdict), trivial=True)
        return True
    rd = modlang.FileReader(toks)
    ctx.tally(True)
    try:
        rd.read()
    except modlang.Syntax:
        command = why.startswith('command')
        want, vague = {rd.i}, False
    else:
        command = False
        want, vague = faults(rd)
    for how in layouts:
        s, where = lay(toks, how)
        if [t for t, _, _ in modlang.lex(s)] != [str(t) for t in toks]:
            continue
        try:
            read_model(s, 'dynare')
        except Exception as e:
            msg = f'{type(e).__name__}: {e}'
        else:
            continue            # whether it is rejected is another property's question
        if command:
            ctx.outcome((part, 'command'))
            continue
        m = re.search(r'(?:line|row) (\d+),? (?:in )?column (\d+)', msg)
        places = {where[k] for k in want if k < len(where)}
        if len(toks) in want:
            if m:
                at = int(m.group(1)), int(m.group(2))
                if not ctx.check(at >= where[-1], 'end of the file reported elsewhere', text=s,
                                 message=msg):
                    return False
            ctx.outcome((part, 'unfinished file'))
            continue
        if not m:
            if not ctx.check(vague, 'error without a place', text=s, message=msg, want=places):
                return False
            ctx.outcome((part, 'no place'), trivial=True)
            continue
        at = int(m.group(1)), int(m.group(2))
        if not ctx.check(at in places, 'error at another place', text=s, message=msg,
                         got=at, want=sorted(places)):
            return False
        ctx.outcome((part, verdict))
    return True


ALL = ('lines', 'one', 'comments')


def run_token(case, ctx):
    _, name, i = case
    toks = TOKS[name]
    edits = [toks[:i] + [n] + toks[i + 1:] for n in SUBST if n != toks[i]]
    edits.append(toks[:i] + toks[i + 1:])
    edits.append(toks[:i + 1] + toks[i:])
    if i + 1 < len(toks):
        edits.append(toks[:i] + [toks[i + 1], toks[i]] + toks[i + 2:])
    edits.append(toks[:i])
    for k, t in enumerate(edits):
        if t and not judge(t, ctx, 'token', (ALL[k % 3],)):
            return


def run_char(case, ctx):
    """characters that belong to no token, before every token"""
    from pynare.parsing import read_model
    _, name, i = case
    for c in '$?`':
        for how in ALL:
            s, where = lay(TOKS[name][:i] + [c] + TOKS[name][i:], how)
            line, col = where[i]
            try:
                read_model(s, 'dynare')
            except Exception as e:
                m = re.search(r'(?:line|row) (\d+),? (?:in )?column (\d+)', str(e))
                # counted from zero or from one
                if not ctx.check(m and int(m.group(1)) == line
                                 and int(m.group(2)) in (col - 1, col),
                                 'unknown character reported elsewhere', text=s,
                                 message=f'{type(e).__name__}: {e}', want=where[i]):
                    return
            else:
                continue
            ctx.tally(True)
            ctx.outcome(('character', how))


def run_name(case, ctx):
    _, name, i = case
    toks = TOKS[name]
    for n in names_of(toks):
        if n != toks[i] and not judge(toks[:i] + [n] + toks[i + 1:], ctx, 'name', ALL):
            return


def run_insert(case, ctx):
    _, name, i = case
    toks = TOKS[name]
    k = 0
    for n in names_of(toks):
        for stm in ('var {};', 'varexo {};', 'parameters new {};', '{} = 1;', '# {} = 1;',
                    'newname = 2*{} + 1;', '# new = {};', 'new0 = {}; new1 = undeclared;',
                    'var {} = 1;', 'var {}; stderr 2;', '{} (-1) = 0;', '# new = {} (+2);',
                    'var {} {};', '# {} = {};'):
            s = [t for t, _, _ in modlang.lex(stm.replace('{}', n))]
            k += 1
            if not judge(toks[:i] + s + toks[i:], ctx, 'statement', (ALL[k % 3],)):
                return
        if 'shocks' in toks[:i]:
            for m in names_of(toks):
                for stm in ('corr {}, {} = 0.1;', 'var {}, {} = 0.1;'):
                    s = [t for t, _, _ in modlang.lex(stm.format(n, m))]
                    k += 1
                    if not judge(toks[:i] + s + toks[i:], ctx, 'pair of shocks', (ALL[k % 3],)):
                        return


def run_two(case, ctx):
    """two tokens replaced: the first fault of the two is the one reported"""
    _, name, i = case
    toks = TOKS[name]
    for j in range(i + 1, len(toks)):
        for a, b in ((';', 'zz'), ('zz', ';'), (')', '5'), ('5', '='), ('=', '+'), ('end', ')'),
                     ('var', 'end')):
            t = toks[:i] + [a] + toks[i + 1:j] + [b] + toks[j + 1:]
            if not judge(t, ctx, 'two tokens', (ALL[(i + j) % 3],)):
                return
