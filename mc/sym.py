"""
A deliberately boring reference language for model expressions.

Expressions are nested tuples:
    ('num', 2.0)  ('par', 'alpha')  ('var', 'y', lag)  ('bin', op, l, r)
    ('neg', x)    ('fn', name, x)
with op in + - * / ^.  Nothing here imports pynare: rendering, evaluation and
differentiation are the independent oracle the code under test is compared with.
"""
import math


def N(x): return ('num', float(x))
def P(n): return ('par', n)
def V(n, k=0): return ('var', n, k)
def B(op, l, r): return ('bin', op, l, r)
def NEG(x): return ('neg', x)
def F(f, x): return ('fn', f, x)


def add(*xs):
    out = xs[0]
    for x in xs[1:]:
        out = B('+', out, x)
    return out


def sub(a, b): return B('-', a, b)
def mul(*xs):
    out = xs[0]
    for x in xs[1:]:
        out = B('*', out, x)
    return out


PREC = {'+': 1, '-': 1, '*': 2, '/': 2, '^': 4}


def fmtnum(x):
    if x == int(x) and abs(x) < 1e15:
        return str(int(x))
    s = repr(float(x))
    if 'e' in s or 'E' in s:
        s = f"{x:.20f}".rstrip('0')
    return s


def render(e, full=False):
    """text of `e`; parenthesised only where the usual rules require it"""
    return _r(e, 0)


def _r(e, ctx):
    k = e[0]
    if k == 'num':
        if e[1] < 0:
            s = '-' + fmtnum(-e[1])
            return '(' + s + ')'
        return fmtnum(e[1])
    if k == 'par':
        return e[1]
    if k == 'var':
        if e[2] == 0:
            return e[1]
        return f"{e[1]}({e[2]:+d})"
    if k == 'neg':
        return '(-' + _r(e[1], 3) + ')'
    if k == 'fn':
        return f"{e[1]}({_r(e[2], 0)})"
    _, op, l, r = e
    p = PREC[op]
    if op == '^':
        ls, rs = _r(l, 5), _r(r, 4)
    elif op in '+-':
        ls, rs = _r(l, 1), _r(r, 2)
    else:
        ls, rs = _r(l, 2), _r(r, 3)
    s = f"{ls}{'' if op == '^' else ' '}{op}{'' if op == '^' else ' '}{rs}"
    return '(' + s + ')' if p < ctx else s


FN = {
    'exp': math.exp, 'log': math.log, 'ln': math.log, 'log10': math.log10,
    'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan,
    'asin': math.asin, 'acos': math.acos, 'atan': math.atan, 'erf': math.erf,
    'abs': abs, 'sign': lambda x: float((x > 0) - (x < 0)),
}


def ev(e, par, var):
    """value of `e`; `par` maps name -> value, `var` maps (name, lag) -> value"""
    k = e[0]
    if k == 'num':
        return e[1]
    if k == 'par':
        return par[e[1]]
    if k == 'var':
        return var[(e[1], e[2])]
    if k == 'neg':
        return -ev(e[1], par, var)
    if k == 'fn':
        return FN[e[1]](ev(e[2], par, var))
    _, op, l, r = e
    a, b = ev(l, par, var), ev(r, par, var)
    if op == '+': return a + b
    if op == '-': return a - b
    if op == '*': return a * b
    if op == '/': return a / b
    return a ** b


def leaves(e, out=None):
    """set of (name, lag) of variables appearing in e"""
    if out is None:
        out = set()
    if e[0] == 'var':
        out.add((e[1], e[2]))
    elif e[0] == 'neg':
        leaves(e[1], out)
    elif e[0] == 'fn':
        leaves(e[2], out)
    elif e[0] == 'bin':
        leaves(e[2], out)
        leaves(e[3], out)
    return out


def depends(e, v):
    return v in leaves(e)


def s_add(a, b):
    if a == N(0): return b
    if b == N(0): return a
    if a[0] == b[0] == 'num': return N(a[1] + b[1])
    return B('+', a, b)


def s_sub(a, b):
    if b == N(0): return a
    if a == N(0): return NEG(b)
    return B('-', a, b)


def s_mul(a, b):
    if a == N(0) or b == N(0): return N(0)
    if a == N(1): return b
    if b == N(1): return a
    if a[0] == b[0] == 'num': return N(a[1] * b[1])
    return B('*', a, b)


def diff(e, v):
    """symbolic derivative with respect to variable v = (name, lag)"""
    k = e[0]
    if k in ('num', 'par'):
        return N(0)
    if k == 'var':
        return N(1) if (e[1], e[2]) == v else N(0)
    if not depends(e, v):
        return N(0)
    if k == 'neg':
        return NEG(diff(e[1], v))
    if k == 'fn':
        x = e[2]
        d = diff(x, v)
        f = e[1]
        if f == 'exp': g = e
        elif f in ('log', 'ln'): g = B('/', N(1), x)
        elif f == 'log10': g = B('/', N(1 / math.log(10)), x)
        elif f == 'sqrt': g = B('/', N(0.5), e)
        elif f == 'sin': g = F('cos', x)
        elif f == 'cos': g = NEG(F('sin', x))
        elif f == 'tan': g = s_add(N(1), B('^', e, N(2)))
        elif f == 'asin': g = B('/', N(1), F('sqrt', sub(N(1), B('^', x, N(2)))))
        elif f == 'acos': g = NEG(B('/', N(1), F('sqrt', sub(N(1), B('^', x, N(2))))))
        elif f == 'atan': g = B('/', N(1), add(N(1), B('^', x, N(2))))
        elif f == 'erf': g = mul(N(2 / math.sqrt(math.pi)), F('exp', NEG(B('^', x, N(2)))))
        elif f == 'abs': g = F('sign', x)
        elif f == 'sign': g = N(0)
        else: raise ValueError(f)
        return s_mul(g, d)
    _, op, l, r = e
    dl, dr = diff(l, v), diff(r, v)
    if op == '+': return s_add(dl, dr)
    if op == '-': return s_sub(dl, dr)
    if op == '*': return s_add(s_mul(dl, r), s_mul(l, dr))
    if op == '/':
        # l/r
        t1 = B('/', dl, r) if dl != N(0) else N(0)
        t2 = B('/', s_mul(l, dr), B('^', r, N(2))) if dr != N(0) else N(0)
        return s_sub(t1, t2)
    # power
    if dr == N(0):
        return s_mul(s_mul(r, B('^', l, sub(r, N(1)))), dl)
    t = s_mul(dr, F('log', l))
    if dl != N(0):
        t = s_add(t, B('/', s_mul(r, dl), l))
    return s_mul(e, t)
