"""
piecewise-linear solutions by brute force: every sequence of regimes up to the horizon is
solved, and the consistent ones kept. No code of pynare's is involved.
"""
import warnings

import numpy as np

from . import ref, sym
from .sym import B, F, N, V, mul

TIE = 1e-8          # conditions closer than this to equality decide nothing
TOL = 1e-6


class Cond(object):
    """sum of coefficient * variable  op  bound, of deviations from the steady state"""

    def __init__(self, terms, op, bound):
        self.terms, self.op, self.bound = terms, op, bound

    def text(self, form, params):
        """one of several ways to write it; may use (and then defines) parameters"""
        lin = ' '.join(f"{'-' if c < 0 else '+'} {sym.fmtnum(abs(c))}*{v}"
                       for v, c in self.terms.items())
        lin = lin[2:] if lin.startswith('+ ') else '-' + lin[2:]
        if len(self.terms) == 1 and list(self.terms.values()) == [1]:
            lin = list(self.terms)[0]
        b = sym.fmtnum(self.bound)
        flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}
        if form == 'plain':
            return f'{lin} {self.op} {b}'
        if form == 'flipped':
            return f'{b} {flip[self.op]} {lin}'
        if form == 'moved':
            return f'{lin} - ({b}) {self.op} 0'
        if form == 'param':
            return f'{lin} {self.op} bnd' if abs(self.bound - params['bnd']) < 1e-12 else \
                f'{lin} {self.op} bnd*{sym.fmtnum(self.bound / params["bnd"])}'
        if form == 'scaled':
            return f'2*({lin})^1 {self.op} 2*{b}' if self.bound >= 0 else \
                f'2*({lin}) {self.op} -2*{sym.fmtnum(-self.bound)}'
        raise ValueError(form)

    def margin(self, x, endog):
        """positive where it holds; x: (..., n)"""
        g = sum(c * x[..., endog.index(v)] for v, c in self.terms.items()) - self.bound
        return -g if self.op[0] == '<' else g


FORMS = ['plain', 'flipped', 'moved', 'param', 'scaled']


class Problem(object):
    """regimes[b]: Spec of regime b (bit i set where constraint i binds); conds[i]: the pair
    (binds, relaxes) of constraint i"""

    def __init__(self, regimes, conds):
        self.specs, self.conds = regimes, conds
        self.endog = regimes[0].endog
        ss = regimes[0].ss
        self.mats = [s.jac_full(ss) for s in regimes]
        self.D = [s.residuals(ss) for s in regimes]
        self.D[0] = np.zeros_like(self.D[0])
        self.P, self.Q = ref.stable_solution(*self.mats[0])
        self.levels = {}

    def level(self, k):
        """for every sequence of k regimes followed by the reference one for good: the law
        of motion (P, d, E) of its first period; digits of the index, highest first"""
        if k not in self.levels:
            R, n = len(self.mats), len(self.endog)
            if k == 0:
                self.levels[0] = (self.P[None], np.zeros((1, n)), self.Q[None])
            else:
                Pn, dn, _ = self.level(k - 1)
                Ps, ds, Es = [], [], []
                for r in range(R):
                    fm, f0, fp, fu = self.mats[r]
                    M = fp @ Pn + f0
                    bad = np.abs(np.linalg.det(M)) < 1e-8
                    M = np.where(bad[:, None, None], np.eye(n), M)
                    inv = np.linalg.inv(M)
                    inv[bad] = np.nan
                    Ps.append(-inv @ fm)
                    ds.append(-(inv @ (dn @ fp.T + self.D[r])[..., None])[..., 0])
                    Es.append(-inv @ fu)
                self.levels[k] = tuple(np.concatenate(a) for a in (Ps, ds, Es))
        return self.levels[k]

    def digits(self, k):
        R = len(self.mats)
        s = np.arange(R ** k)
        return np.stack([(s // R ** (k - 1 - i)) % R for i in range(k)] or [s[:0]], axis=1) \
            if k else np.zeros((1, 0), dtype=int)

    def paths(self, k, x0, u, rows):
        """(R**k, rows, n): the path of every sequence, after innovations u in its first period"""
        R = len(self.mats)
        s = np.arange(R ** k)
        P, d, E = self.level(k)
        x = P[s] @ x0 + d[s] + E[s] @ u
        out = [x]
        for i in range(1, rows):
            left = max(k - i, 0)
            P, d, _ = self.level(left)
            j = s % R ** left
            x = (P[j] @ x[..., None])[..., 0] + d[j]
            out.append(x)
        return np.stack(out, axis=1)

    def solutions(self, k, x0, u, rows):
        """(paths, digits, sure, maybe): which sequences of k regimes are consistent, surely
        or up to ties"""
        x = self.paths(k, x0, u, rows)
        dg = np.concatenate((self.digits(k), np.zeros((x.shape[0], rows - k), dtype=int)), axis=1)
        sure = np.isfinite(x).all(axis=(1, 2))
        maybe = sure.copy()
        for i, (bind, relax) in enumerate(self.conds):
            on = (dg >> i) & 1 == 1
            g = np.where(on, relax.margin(x, self.endog), bind.margin(x, self.endog))
            with np.errstate(invalid='ignore'):
                sure &= (g < -TIE).all(axis=1)
                maybe &= (g < TIE).all(axis=1)
        return x, dg, sure, maybe

    def guess_and_verify(self, k, x0, u, rows, hypo, max_iter=20):
        """does the documented iteration settle down without a tie? also the new hypothesis"""
        R = len(self.mats)
        for it in range(max_iter):
            if (hypo[k:] != 0).any():
                return False, hypo
            s = 0
            for r in hypo[:k]:
                s = s * R + int(r)
            P, d, E = self.level(k)
            if not np.isfinite(P[s]).all():
                return False, hypo
            x = [P[s] @ x0 + d[s] + E[s] @ u]
            for i in range(1, rows):
                left = max(k - i, 0)
                P, d, _ = self.level(left)
                j = s % R ** left
                if not np.isfinite(P[j]).all():
                    return False, hypo
                x.append(P[j] @ x[-1] + d[j])
            x = np.array(x)
            new = np.zeros(rows, dtype=int)
            for i, (bind, relax) in enumerate(self.conds):
                b, l = bind.margin(x, self.endog), relax.margin(x, self.endog)
                if np.abs(b).min() < TIE or np.abs(l).min() < TIE:
                    # decisions at a tie could go either way
                    return False, hypo
                on = (hypo >> i) & 1 == 1
                new |= ((on | (b > 0)) & ~(on & (l > 0))).astype(int) << i
            if (new == hypo).all():
                return True, hypo
            hypo = new
        return False, hypo

    def residual(self, x, r):
        """largest residual of the equations of regime r[t] at row t (rows 1.. of x, no shocks)"""
        worst = 0.
        for t in range(1, len(x) - 1):
            fm, f0, fp, _ = self.mats[r[t]]
            worst = max(worst, np.abs(fm @ x[t - 1] + f0 @ x[t] + fp @ x[t + 1]
                                      + self.D[r[t]]).max())
        return worst


def innovations(m, exog, shock):
    """exog: positions; shock: a number or one per position"""
    u = np.zeros(m)
    u[np.atleast_1d(exog)] = shock
    return u


def judge(ctx, prob, sol, given, exog, init, periods, warned, free=False, **detail):
    """is what was returned a consistent piecewise-linear path (or was a problem reported)?"""
    n, m = len(prob.endog), len(prob.specs[0].stoch)
    given = np.asarray(given, dtype=float)
    T = periods or len(given)
    k = T                    # a sequence ends in the reference regime in period T + 1
    x = np.asarray(sol.paths, dtype=float)
    ctx.check(x.shape == (T, n), 'shape of the paths', got=x.shape, expected=(T, n), **detail)
    pad = np.zeros((T - len(given),) + given.shape[1:])
    ctx.close(np.asarray(sol.shocks, dtype=float), np.concatenate((given, pad)),
              'shocks of the solution', 0., **detail)
    last = np.zeros(n) if init is None else np.asarray(init, dtype=float)
    hypo, sane, kinds = np.zeros(T + 1, dtype=int), not free, []
    for t in range(len(given)):
        u = innovations(m, exog, given[t])
        X, dg, sure, maybe = prob.solutions(k, last, u, T + 1)
        if sane:
            sane, hypo = prob.guess_and_verify(k, last, u, T + 1, hypo)
        scale = 1 + np.abs(x).max()
        fits = maybe & (np.abs(X[:, 0] - x[t]) < TOL * scale).all(axis=1)
        if t == len(given) - 1 and fits.any():
            rest = T - len(given)
            if rest:
                fits &= (np.abs(X[:, 1:rest + 1] - x[t + 1:]) < TOL * scale).all(axis=(1, 2))
        if not fits.any():
            if not np.isfinite(x).all():
                # nothing was hidden
                ctx.check(bool(warned), 'paths are not numbers', **detail)
                return 'nothing'
            ctx.check(bool(warned), 'the path solves no consistent sequence of regimes, and '
                      'nothing was reported', period=t, got=x, shocks=given,
                      consistent=int(sure.sum()),
                      expected=X[sure][0][:, :] if sure.any() else None, **detail)
            ctx.check(not sane, 'no solution is given where guess-and-verify finds one',
                      period=t, got=x, shocks=given, warned=warned,
                      expected=X[sure][0] if sure.any() else None, **detail)
            return 'reported, though there is one' if sure.any() else 'reported, there is none'
        kinds.append(''.join(map(str, dg[fits][0])).rstrip('0'))
        last = x[t]
        if sane:
            hypo = np.append(hypo[1:], 0)
    if sane:
        ctx.check(not any('converge' in w for w in warned), 'convergence is denied', got=warned,
                  shocks=given, **detail)
    return kinds[0] if len(kinds) == 1 else '|'.join(kinds)


class Answer(object):
    def __init__(self, paths, shocks):
        self.paths, self.shocks = paths, shocks


def solve(md, regimes=None, **kw):
    """(solution, warnings); through the model, or with regimes that are already there"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        if regimes is None:
            sol = md.solve(**kw)
        else:
            from pynare.core import solve as ps
            kw.pop('exprs')
            con = ps.Constraint(kw.pop('constraint'), endog=md.endog, params=md.params)
            if len(regimes) == 2:
                got = ps.solve_occbin_one_constraint(regimes[0], regimes[1], con, **kw)
            else:
                got = ps.solve_occbin_two_constraints(*regimes, con, **kw)
            sol = Answer(*got)
    return sol, sorted({str(x.message) for x in w
                        if any(s in str(x.message) for s in ('converge', 'increase', 'regime'))})


def regimes_of(md, exprs):
    from pynare.regimes import RegimeSwitchingModel
    rs = RegimeSwitchingModel(md, exprs)
    return [rs[i] for i in range(2 if isinstance(exprs, dict) else len(exprs) + 1)]


# ---- alternative equations ------------------------------------------------

def alternative(form, s, k, bound):
    """equation k in the alternative regime, in levels: (lhs, rhs)"""
    v = s.endog[k]
    w = s.endog[(k + 1) % len(s.endog)]
    c = float(s.ss.get(v, 0.))
    lev = V(v)
    d = lambda y, p=0: B('-', V(y, p), N(s.ss[y])) if s.ss.get(y) else V(y, p)
    if form == 'peg':
        return (lev, N(c + bound))
    if form == 'lag':
        return (d(v), B('+', mul(N(.4), d(v, -1)), N(.6 * bound)))
    if form == 'lead':
        return (d(v), B('+', mul(N(.3), d(v, 1)), N(.7 * bound)))
    if form == 'both':
        return (d(v), B('+', B('-', mul(N(.3), d(w, 1)), mul(N(.2), d(w, -1))), N(bound)))
    if form == 'shock':
        return (d(v), B('+', mul(N(.5), V(s.stoch[0])), N(bound)))
    if form == 'other':
        return (B('-', d(v), mul(N(.25), d(w))), N(bound))
    if form == 'exp':
        return (F('exp', d(v)), F('exp', B('+', mul(N(.3), d(w)), N(bound))))
    if form == 'square':
        return (B('+', d(v), mul(N(.2), B('^', B('+', d(v), N(1)), N(2)))), N(bound))
    raise ValueError(form)


ALTS = ['peg', 'lag', 'lead', 'both', 'shock', 'other', 'exp', 'square']
