"""
the reference expression language: a precedence-climbing parser over token lists, and
the enumeration of all token lists up to a length

    expr  : term (('+' | '-') term)*            left to right
    term  : factor (('*' | '/') factor)*        left to right
    factor: ('+' | '-') factor | power
    power : atom ['^' factor]                   right to left, binds tighter than signs
    atom  : number | name | name(offset) | function '(' expr ')' | '(' expr ')'
"""
import itertools

from .sym import N, P, V, B, NEG, F

FUNCS = ('exp', 'log', 'ln', 'log10', 'sqrt', 'abs', 'sign', 'sin', 'cos', 'tan', 'asin',
         'acos', 'atan', 'erf')


class Bad(Exception):
    pass


class Reader(object):

    def __init__(self, toks, names):
        self.t = toks
        self.i = 0
        self.names = names       # token -> sym expression of the atoms

    def cur(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def expr(self):
        e = self.term()
        while self.cur() in ('+', '-'):
            op = self.cur()
            self.i += 1
            e = B(op, e, self.term())
        return e

    def term(self):
        e = self.factor()
        while self.cur() in ('*', '/'):
            op = self.cur()
            self.i += 1
            e = B(op, e, self.factor())
        return e

    def factor(self):
        c = self.cur()
        if c in ('+', '-'):
            self.i += 1
            e = self.factor()
            return NEG(e) if c == '-' else e
        e = self.atom()
        if self.cur() == '^':
            self.i += 1
            e = B('^', e, self.factor())
        return e

    def atom(self):
        c = self.cur()
        if c is None:
            raise Bad
        self.i += 1
        if c == '(':
            e = self.expr()
            if self.cur() != ')':
                raise Bad
            self.i += 1
            return e
        if c in FUNCS:
            if self.cur() != '(':
                raise Bad
            self.i += 1
            e = self.expr()
            if self.cur() != ')':
                raise Bad
            self.i += 1
            return F(c, e)
        if c in self.names:
            return self.names[c]
        raise Bad


def parse(toks, names):
    """the meaning of a token list, or None if it is not an expression"""
    r = Reader(toks, names)
    try:
        e = r.expr()
    except Bad:
        return None
    return e if r.i == len(toks) else None


def strings(alphabet, n):
    for k in range(1, n + 1):
        yield from itertools.product(alphabet, repeat=k)


def parse_equation(toks, names):
    """expr | expr '=' expr, as a (lhs, rhs) pair; None if malformed"""
    toks = list(toks)
    if toks.count('=') > 1:
        return None
    if '=' in toks:
        k = toks.index('=')
        l, r = parse(toks[:k], names), parse(toks[k + 1:], names)
        return None if l is None or r is None else (l, r)
    l = parse(toks, names)
    return None if l is None else (l, N(0))


def text(toks):
    """tokens with blanks where two words would run together"""
    out = ''
    for t in toks:
        if out and (out[-1].isalnum() or out[-1] in '_.') and (t[0].isalnum() or t[0] in '_.'):
            out += ' '
        out += t
    return out
