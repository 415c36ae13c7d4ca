"""
reading results out of a pynare model through its public interface, translated to
declaration order and to full (n x n, n x m) arrays
"""
import numpy as np


def full_first(md, sol=None):
    """P (n x n over y(-1)), Q (n x m) in declaration order"""
    sol = md.first_order_solution if sol is None else sol
    idx = md.indexes
    n, m = len(md.endog), len(md.stoch)
    dr = np.asarray(idx.dr_order)
    st = dr[np.asarray(idx.dr.state)]
    gy = np.asarray(sol.gy, dtype=float).reshape(n, len(st))
    gu = np.asarray(sol.gu, dtype=float).reshape(n, m)
    P, Q = np.zeros((n, n)), np.zeros((n, m))
    P[np.ix_(dr, st)] = gy
    Q[dr] = gu
    return P, Q


def full_second(md, sol=None):
    """(Gxx, Gxu, Guu, Gss): full second derivatives from the stored (halved) arrays"""
    sol = md.solution if sol is None else sol
    idx = md.indexes
    n, m = len(md.endog), len(md.stoch)
    dr = np.asarray(idx.dr_order)
    st = dr[np.asarray(idx.dr.state)]
    k = len(st)
    hxx = np.asarray(sol.ghxx, dtype=float).reshape(n, k, k)
    hxu = np.asarray(sol.ghxu, dtype=float).reshape(n, k, m)
    huu = np.asarray(sol.ghuu, dtype=float).reshape(n, m, m)
    d2 = np.asarray(sol.del2, dtype=float).reshape(n)
    Gxx, Gxu, Guu, Gss = (np.zeros((n, n, n)), np.zeros((n, n, m)),
                          np.zeros((n, m, m)), np.zeros(n))
    for r, d in enumerate(dr):
        Gxx[d][np.ix_(st, st)] = 2 * hxx[r]
        Gxu[d][st] = hxu[r]
        Guu[d] = 2 * huu[r]
        Gss[d] = 2 * d2[r]
    return Gxx, Gxu, Guu, Gss


def creator(kind):
    """makes a collection of variables of a kind ('endog', 'stoch', 'determ') from names"""
    import pynare.core.variables as V
    f = getattr(V, f'_create_{kind}_vars', None)
    if f is not None:
        return f
    cls = {'endog': V.EndogVar, 'stoch': V.StochVar, 'determ': V.DetermVar}[kind]

    def create(names):
        if isinstance(names, (str, cls)) or not hasattr(names, '__iter__'):
            names = [names]
        return V.VarArray([n if isinstance(n, cls) else cls(n) for n in names])
    return create


def shocks_of(md):
    """the shocks of a model in the form in which a model takes them"""
    out = {}
    for s in md.stoch:
        d = {'other': s.other, 'variance': s.variance, 'corr': s.corr, 'cov': s.cov}
        out[s.name] = {k: v for k, v in d.items() if v is not None}
    return out


def equations(outline):
    """the list of the equations read"""
    e = getattr(outline, '_model_expression_asts', None)
    if e is not None:
        return e
    for v in vars(outline).values():
        if isinstance(v, list) and v and all(type(x).__name__ == 'BinaryOp' for x in v):
            return v
    return []
