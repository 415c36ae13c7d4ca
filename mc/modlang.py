"""
reference reader of model files, over token lists: decides whether a file is malformed
('syntax'), breaks a rule about names ('semantic'), is outside of what the properties
speak about ('skip'), or is fine ('ok', with its reading).

Nothing here imports pynare.
"""
from . import sym
from .exprs import FUNCS
from .sym import N, P, V, B, NEG, F, ev

UNSUPPORTED_FUNCS = ('max', 'min', 'normcdf', 'normpdf')
TYPES = ('var', 'varexo', 'parameters')
OTHER_TYPES = ('varexo_det', 'predetermined_variables', 'trend_var', 'log_trend_var')
BLOCKS = ('initval', 'endval', 'histval')
KEYWORDS = set(TYPES + OTHER_TYPES + BLOCKS + (
    'model', 'end', 'shocks', 'corr', 'stderr', 'periods', 'values', 'steady', 'check',
    'simul', 'stoch_simul', 'resid', 'estimation', 'varobs', 'identification', 'osr',
    'forecast', 'extended_path', 'dsample', 'model_info', 'change_type')
    + FUNCS + UNSUPPORTED_FUNCS)


class Syntax(Exception):
    pass


class Semantic(Exception):
    pass


class Skip(Exception):
    pass


def is_name(t):
    return t is not None and t[0].isalpha() and t not in KEYWORDS \
        and all(c.isalnum() or c == '_' for c in t)


def is_num(t):
    if t is None or not (t[0].isdigit() or t[0] == '.'):
        return False
    return t.count('.') <= 1 and any(c.isdigit() for c in t) \
        and all(c.isdigit() or c == '.' for c in t)


def is_string(t):
    return t is not None and t[0] in '\'"'


class Reading(object):
    """what a model file says"""

    def __init__(self):
        self.endog, self.stoch, self.params = [], [], []
        self.values = {}         # parameter or helper name -> value, in the preamble
        self.formulas = {}
        self.local = {}          # '#' definitions
        self.eqs = []            # (lhs, rhs), parameters and locals by name
        self.bounds = {}         # block -> {name: value}
        self.shock_defs = []     # (kind, name, other, value)


class FileReader(object):

    def __init__(self, toks):
        self.t = list(toks)
        self.i = 0
        self.lenient = None      # why nothing is said about this file

    # ---- tokens ----------------------------------------------------------
    def cur(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def eat(self, *what):
        c = self.cur()
        if c is None or c not in what:
            raise Syntax(f'expected {what} at token {self.i}')
        self.i += 1
        return c

    def name(self):
        c = self.cur()
        if not is_name(c):
            raise Syntax(f'expected a name at token {self.i}')
        self.i += 1
        return c

    def skip(self, why):
        self.lenient = self.lenient or why

    # ---- expressions -----------------------------------------------------
    def expr(self, periods):
        e = self.term(periods)
        while self.cur() in ('+', '-'):
            op = self.eat('+', '-')
            e = B(op, e, self.term(periods))
        return e

    def term(self, periods):
        e = self.factor(periods)
        while self.cur() in ('*', '/'):
            op = self.eat('*', '/')
            e = B(op, e, self.factor(periods))
        return e

    def factor(self, periods):
        if self.cur() in ('+', '-'):
            op = self.eat('+', '-')
            e = self.factor(periods)
            return NEG(e) if op == '-' else e
        e = self.atom(periods)
        if self.cur() == '^':
            self.eat('^')
            e = B('^', e, self.factor(periods))
        return e

    def atom(self, periods):
        c = self.cur()
        if c == '(':
            self.eat('(')
            e = self.expr(periods)
            self.eat(')')
            return e
        if c in FUNCS or c in UNSUPPORTED_FUNCS:
            self.i += 1
            self.eat('(')
            e = self.expr(periods)
            self.eat(')')
            if c in UNSUPPORTED_FUNCS:
                self.skip('unsupported function')
            return F(c, e)
        if is_num(c):
            self.i += 1
            return N(float(c))
        if is_name(c):
            self.i += 1
            if periods and self.cur() == '(':
                self.eat('(')
                s = self.eat('+', '-')
                k = self.cur()
                if not is_num(k):
                    raise Syntax('period')
                self.i += 1
                self.eat(')')
                if not float(k).is_integer():
                    raise Syntax('fractional period')
                return V(c, int(float(k)) * (1 if s == '+' else -1))
            return V(c, None)
        raise Syntax(f'operand at token {self.i}')

    def arguments(self):
        if self.cur() != '(':
            return
        self.eat('(')
        while True:
            self.name()
            if self.cur() == '=':
                self.eat('=')
                if is_string(self.cur()):
                    self.i += 1
                elif is_name(self.cur()):
                    # either a name or a longer expression, which isn't documented
                    k = self.i
                    self.expr(False)
                    if self.i != k + 1:
                        self.skip('option value')
                else:
                    self.expr(False)
            if self.cur() == ',':
                self.eat(',')
                continue
            break
        self.eat(')')

    # ---- the file ----------------------------------------------------------
    def read(self):
        self.decl, self.assign, self.stmts, self.blocks = [], [], [], []
        self.seen = []
        while self.cur() != 'model':
            c = self.cur()
            if c in TYPES + OTHER_TYPES:
                if c in OTHER_TYPES:
                    self.skip('unsupported type of variable')
                self.i += 1
                n = 0
                while self.cur() != ';':
                    if self.cur() == ',':
                        if n == 0:
                            self.skip('leading comma')
                        self.eat(',')
                    x = self.name()
                    self.decl.append((c, x, len(self.assign)))
                    n += 1
                self.eat(';')
                if n == 0:
                    self.skip('empty declaration')
            elif is_name(c):
                self.assign.append(self.assignment())
            else:
                raise Syntax(f'preamble at token {self.i}')
        self.eat('model')
        self.arguments()
        self.eat(';')
        while self.cur() != 'end':
            self.statement()
        self.eat('end')
        self.eat(';')
        while self.cur() is not None:
            self.block()

    def assignment(self):
        x = self.name()
        self.eat('=')
        e = self.expr(False)
        self.eat(';')
        return x, e

    def statement(self):
        if self.cur() == '#':
            self.eat('#')
            x = self.name()
            self.eat('=')
            e = self.expr(True)
            self.eat(';')
            self.stmts.append(('local', x, e))
            return
        if self.cur() == '[':
            self.eat('[')
            while True:
                self.name()
                if self.cur() == '=':
                    self.eat('=')
                    if not is_string(self.cur()):
                        raise Syntax('tag')
                    self.i += 1
                if self.cur() == ',':
                    self.eat(',')
                    continue
                break
            self.eat(']')
        l = self.expr(True)
        r = N(0)
        if self.cur() == '=':
            self.eat('=')
            r = self.expr(True)
        self.eat(';')
        self.stmts.append(('eq', l, r))

    def block(self):
        c = self.cur()
        if c in BLOCKS:
            if c in self.seen:
                self.skip('block given twice')
            self.seen.append(c)
            self.i += 1
            self.arguments()
            self.eat(';')
            out = []
            while self.cur() != 'end':
                out.append(self.assignment())
            self.eat('end')
            self.eat(';')
            self.blocks.append((c, out))
        elif c == 'shocks':
            if c in self.seen:
                self.skip('block given twice')
            self.seen.append(c)
            self.i += 1
            self.arguments()
            self.eat(';')
            out = []
            while self.cur() != 'end':
                out.append(self.shock())
            self.eat('end')
            self.eat(';')
            self.blocks.append((c, out))
        else:
            # commands are not supported, which raises an error, too
            raise Syntax(f'command at token {self.i}')

    def shock(self):
        k = self.eat('var', 'corr')
        x = self.name()
        if k == 'corr':
            self.eat(',')
            y = self.name()
            self.eat('=')
            e = self.expr(False)
            self.eat(';')
            return 'corr', x, y, e
        if self.cur() == ',':
            self.eat(',')
            y = self.name()
            self.eat('=')
            e = self.expr(False)
            self.eat(';')
            return 'cov', x, y, e
        if self.cur() == '=':
            self.eat('=')
            e = self.expr(False)
            self.eat(';')
            return 'variance', x, None, e
        self.eat(';')
        if self.cur() == 'periods':
            # deterministic shocks are not supported
            raise Skip('deterministic shock')
        self.eat('stderr')
        e = self.expr(False)
        self.eat(';')
        return 'stderr', x, None, e

    # ---- names ----------------------------------------------------------
    def check(self):
        R = Reading()
        kind = {}
        for c, x, _ in self.decl:
            if x in kind:
                raise Semantic(f'{x} declared twice')
            kind[x] = c
            {'var': R.endog, 'varexo': R.stoch, 'parameters': R.params}.get(c, []).append(x)
        for c, x, k in self.decl:
            if any(a == x for a, _ in self.assign[:k]):
                self.skip('assigned before its declaration')
        for x, e in self.assign:
            if kind.get(x, 'parameters') != 'parameters':
                raise Semantic(f'assignment to {x}')
            v = self.value(e, R.values, kind)
            R.values[x] = v
            if x in R.params:
                R.formulas[x] = e
        for s in self.stmts:
            if s[0] == 'local':
                _, x, e = s
                if x in kind or x in R.local or x in R.values:
                    raise Semantic(f'{x} defined again')
                self.model_names(e, kind, R)
                for v, k in sym.leaves(e):
                    if kind.get(v) in ('var', 'varexo'):
                        self.skip('local definition by variables')
                R.local[x] = e
            else:
                self.model_names(s[1], kind, R)
                self.model_names(s[2], kind, R)
                R.eqs.append((s[1], s[2]))
        for b, items in self.blocks:
            if b == 'shocks':
                pairs = set()
                for k, x, y, e in items:
                    for n in (x, y):
                        if n is not None and kind.get(n) != 'varexo':
                            raise Semantic(f'shock to {n}')
                    if x == y:
                        self.skip('shock correlated with itself')
                    if y is not None:
                        if (y, x) in pairs or (x, y) in pairs:
                            self.skip('pair given twice')
                        pairs.add((x, y))
                    R.shock_defs.append((k, x, y, self.value(e, R.values, kind)))
            else:
                R.bounds[b] = {}
                for x, e in items:
                    if kind.get(x) != 'var':
                        raise Semantic(f'boundary value of {x}')
                    R.bounds[b][x] = self.value(e, R.values, kind)
        for x in R.params:
            if x not in R.values:
                self.skip('parameter without a value')
        return R

    def value(self, e, values, kind):
        for v, k in sym.leaves(e):
            if v not in values:
                raise Semantic(f'{v} has no value')
        try:
            x = ev(e, None, {(v, None): y for v, y in values.items()})
        except (ZeroDivisionError, ValueError, OverflowError, KeyError):
            raise Skip('no value')
        if isinstance(x, complex) or x != x or abs(x) > 1e12:
            raise Skip('no value')
        return float(x)

    def model_names(self, e, kind, R):
        for v, k in sym.leaves(e):
            if v not in kind and v not in R.local:
                raise Semantic(f'{v} in the model')
            if k is not None and k != 0 and kind.get(v) != 'var':
                raise Semantic(f'lead or lag of {v}')
            if k is not None and abs(k) > 1:
                raise Semantic(f'lead or lag of {v} by {k} periods')
            if k == 0 and kind.get(v) != 'var':
                self.skip('zero offset')


def read(toks):
    """('ok', Reading) | ('syntax', why) | ('semantic', why) | ('skip', why)"""
    r = FileReader(toks)
    try:
        try:
            r.read()
        except Syntax as e:
            if r.lenient:
                return 'skip', r.lenient
            return 'syntax', str(e)
        try:
            R = r.check()
        except Semantic as e:
            # the other rules still have to hold for the file to be out of scope
            if r.lenient:
                return 'skip', r.lenient
            return 'semantic', str(e)
        if r.lenient:
            return 'skip', r.lenient
        return 'ok', R
    except Skip as e:
        return 'skip', str(e)


# --------------------------------------------------------------------------
def env_of(R, params=None):
    """values of parameters and locals"""
    env = {(p, None): R.values[p] for p in R.params}
    for x, e in R.local.items():
        env[(x, None)] = ev(e, None, env)
    return env


def appearances(R):
    out = {v: set() for v in R.endog}
    for l, r in R.eqs:
        for v, k in sym.leaves(l) | sym.leaves(r):
            if v in out:
                out[v].add(k or 0)
    return out


def buildable(R):
    """models the package supports: every variable appears at the current date"""
    app = appearances(R)
    return (len(R.eqs) > 0 and len(R.endog) > 0 and all(0 in a for a in app.values())
            and any(len(a) > 1 for a in app.values()))


def residuals(R, y):
    """equation residuals; y maps (name, lag) and (shock, 0) to values"""
    env = env_of(R)
    for (v, k), x in y.items():
        env[(v, k)] = x
        if k == 0:
            env[(v, None)] = x
    out = []
    for l, r in R.eqs:
        try:
            v = ev(l, None, env) - ev(r, None, env)
            v = None if isinstance(v, complex) or v != v or abs(v) > 1e12 else float(v)
        except (ZeroDivisionError, ValueError, OverflowError):
            v = None
        out.append(v)
    return out


def sigma(R):
    import numpy as np
    m = len(R.stoch)
    S = np.eye(m)
    ix = {s: i for i, s in enumerate(R.stoch)}
    for k, x, y, v in R.shock_defs:
        if k == 'variance':
            S[ix[x], ix[x]] = v
        elif k == 'stderr':
            S[ix[x], ix[x]] = v * v
    for k, x, y, v in R.shock_defs:
        i, j = ix.get(x), ix.get(y)
        if k == 'cov':
            S[i, j] = S[j, i] = v
        elif k == 'corr':
            S[i, j] = S[j, i] = v * np.sqrt(S[i, i] * S[j, j])
    return S


def same(a, b, tol=1e-9):
    return abs(a - b) <= tol * (1 + abs(b))


def compare(R, md, ctx, **detail):
    """does the model `md` say what the reading R says?"""
    import numpy as np
    def eq(got, want, what):
        if got != want:
            ctx.fail(what, got=got, expected=want, **detail)
            return False
        return True
    if not (eq([str(x) for x in md.endog.names], R.endog, 'endogenous variables')
            and eq([str(x) for x in md.stoch.names], R.stoch, 'shocks')
            and eq(list(md.params), R.params, 'parameters')):
        return False
    for p in R.params:
        if not same(md.params[p], R.values[p]):
            ctx.fail(f'value of parameter {p}', got=md.params[p], expected=R.values[p], **detail)
            return False
    if not eq(len(md.exprs), len(R.eqs), 'number of equations'):
        return False
    app = appearances(R)
    cols = [(v, k) for k in (-1, 0, 1) for v in R.endog if k in app[v]]
    cols += [(s, 0) for s in R.stoch]
    for seed in (0.31, 0.77):
        y = {c: 0.4 + (seed * (3 * i + 2)) % 1.1 for i, c in enumerate(cols)}
        want = residuals(R, y)
        with np.errstate(all='ignore'):
            try:
                got = np.atleast_1d(md.dynamic_repr(np.array([y[c] for c in cols])))
            except ZeroDivisionError:
                # a constant division by zero: the equation has no value
                if all(w is not None for w in want):
                    raise
                return True
        if not eq(len(got), len(want), 'number of residuals'):
            return False
        for i, w in enumerate(want):
            if w is not None and not same(got[i], w):
                ctx.fail(f'equation {i}', got=got[i], expected=w, **detail)
                return False
    if md.is_altered:
        ctx.fail('a model just read counts as altered', **detail)
    for b, attr in (('initval', 'initial'), ('endval', 'terminal'), ('histval', 'historical')):
        vals = R.bounds.get(b, {})
        got = getattr(md, attr)
        for i, v in enumerate(R.endog):
            w = vals.get(v)
            if w is None:
                # starting values are zero by default; what they are next to terminal
                # or historical values alone is not documented
                if attr == 'initial' and not R.bounds.get('endval') \
                        and not R.bounds.get('histval') and got[i] != 0:
                    ctx.fail('initial value by default', got=got, **detail)
                    return False
                if attr != 'initial' and not np.isnan(got[i]):
                    ctx.fail(f'{b} value of {v} appeared', got=got, **detail)
                    return False
            elif not same(got[i], w):
                ctx.fail(f'{b} value of {v}', got=got[i], expected=w, **detail)
                return False
    return bool(ctx.close(md.sigma, sigma(R), 'shock covariance', tol=1e-9, **detail))


def text(toks):
    """tokens with blanks where two words would run together"""
    out = ''
    for t in toks:
        if out and (out[-1].isalnum() or out[-1] in '_.') and (t[0].isalnum() or t[0] in '_.'):
            out += ' '
        # '/' '/' and '/' '*' would start comments, '=' '=' a comparison
        elif out and (out[-1] + t[0]) in ('//', '/*', '==', '<=', '>='):
            out += ' '
        out += t
    return out


class LexError(Exception):
    pass


TWO = ('<=', '>=', '==')
ONE = set('%+-*/^()[]{}=,;:#&|@!~<>\\')


def lex(s, comments=True):
    """list of (token, start, end), by character positions; blanks and comments dropped"""
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if c.isspace():
            i += 1
        elif comments and (c == '%' or s.startswith('//', i)):
            while i < n and s[i] != '\n':
                i += 1
        elif comments and s.startswith('/*', i):
            k = s.find('*/', i + 2)
            if k < 0:
                raise LexError('comment is never closed')
            i = k + 2
        elif c.isalpha():
            k = i
            while k < n and (s[k].isalnum() or s[k] == '_'):
                k += 1
            out.append((s[i:k], i, k))
            i = k
        elif c.isdigit() or c == '.':
            k = i
            while k < n and (s[k].isdigit() or s[k] == '.'):
                k += 1
            if not is_num(s[i:k]):
                raise LexError('number')
            out.append((s[i:k], i, k))
            i = k
        elif c in '\'"':
            k = s.find(c, i + 1)
            if k < 0:
                raise LexError('string is never closed')
            out.append((s[i:k + 1], i, k + 1))
            i = k + 1
        elif s[i:i + 2] in TWO:
            out.append((s[i:i + 2], i, i + 2))
            i += 2
        elif c in ONE:
            out.append((c, i, i + 1))
            i += 1
        else:
            raise LexError(c)
    return out


def read_text(s):
    try:
        toks = [t for t, _, _ in lex(s)]
    except LexError as e:
        return 'syntax', str(e)
    if not toks:
        return 'syntax', 'nothing there'
    return read(toks)
