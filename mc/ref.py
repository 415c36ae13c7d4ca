"""
Reference model objects and reference mathematics (no pynare code involved except
in `Spec.build*`, which only hands text / strings to the public constructors).
"""
import itertools
import math

import numpy as np

from . import sym
from .sym import render, leaves, diff, ev


class Spec(object):
    """a model, independently of pynare: names, equations (lhs, rhs), calibration"""

    def __init__(self, endog, stoch, eqs, params=None, shocks=None, init=None, ss=None):
        self.endog = list(endog)
        self.stoch = list(stoch)
        self.eqs = list(eqs)                 # (lhs, rhs) pairs of sym expressions
        self.params = dict(params or {})     # name -> number
        self.shocks = shocks                 # None or list of text statements
        self.init = dict(init or {})
        # reference steady state; zero unless given
        self.ss = dict(ss or {})

    # ---- text -------------------------------------------------------------
    def eq_str(self, k):
        l, r = self.eqs[k]
        return f"{render(l)} = {render(r)}"

    def text(self):
        out = [f"var {', '.join(self.endog)};"]
        if self.stoch:
            out.append(f"varexo {', '.join(self.stoch)};")
        if self.params:
            out.append(f"parameters {', '.join(self.params)};")
            for k, v in self.params.items():
                out.append(f"{k} = {sym.fmtnum(v)};")
        out.append("model;")
        for k in range(len(self.eqs)):
            out.append(f"    {self.eq_str(k)};")
        out.append("end;")
        if self.init:
            out.append("initval;")
            for k, v in self.init.items():
                out.append(f"    {k} = {sym.fmtnum(v)};")
            out.append("end;")
        # a shocks block is always written: one statement list, or an empty block
        if self.shocks is not None:
            out.append("shocks;")
            out.extend(f"    {s};" for s in self.shocks)
            out.append("end;")
        return '\n'.join(out) + '\n'

    def build(self):
        from pynare.parsing import read_model
        from pynare import Model
        return Model.from_outline(read_model(self.text(), 'dynare'))

    def build_direct(self, shocks=None):
        """through the Model constructor, with string expressions"""
        from pynare import Model
        return Model(
            endog=list(self.endog), stoch=list(self.stoch), params=dict(self.params),
            exprs=[self.eq_str(k) for k in range(len(self.eqs))],
            shocks=shocks or {}, initial=dict(self.init)
        )

    # ---- variants ---------------------------------------------------------
    def permuted(self, endog=None, eqs=None, stoch=None):
        s = Spec(self.endog, self.stoch, self.eqs, self.params, self.shocks,
                 self.init, self.ss)
        if endog is not None:
            s.endog = [self.endog[i] for i in endog]
        if eqs is not None:
            s.eqs = [self.eqs[i] for i in eqs]
        if stoch is not None:
            s.stoch = [self.stoch[i] for i in stoch]
        return s

    # ---- reference quantities ----------------------------------------------
    def appearances(self):
        out = {v: set() for v in self.endog}
        for l, r in self.eqs:
            for n, k in leaves(l) | leaves(r):
                if n in out:
                    out[n].add(k)
        return out

    def env(self, ss=None):
        ss = self.ss if ss is None else ss
        var = {}
        for v in self.endog:
            for k in (-1, 0, 1):
                var[(v, k)] = float(ss.get(v, 0.0))
        for s in self.stoch:
            var[(s, 0)] = 0.0
        return var

    def residuals(self, ss=None):
        env = self.env(ss)
        return np.array([ev(l, self.params, env) - ev(r, self.params, env)
                         for l, r in self.eqs])

    def columns(self):
        """dynamic variables in the documented column order (t-1, t, t+1, exog)"""
        app = self.appearances()
        cols = [(v, k) for k in (-1, 0, 1) for v in self.endog if k in app[v]]
        return cols, [(s, 0) for s in self.stoch]

    def jac_full(self, ss=None):
        """(f-, f0, f+, fu) in declaration order"""
        env = self.env(ss)
        n, m = len(self.endog), len(self.stoch)
        fm, f0, fp = (np.zeros((len(self.eqs), n)) for _ in range(3))
        fu = np.zeros((len(self.eqs), m))
        for i, (l, r) in enumerate(self.eqs):
            f = sym.sub(l, r)
            vs = leaves(f)
            for j, v in enumerate(self.endog):
                for k, M in ((-1, fm), (0, f0), (1, fp)):
                    if (v, k) in vs:
                        M[i, j] = ev(diff(f, (v, k)), self.params, env)
            for j, s in enumerate(self.stoch):
                if (s, 0) in vs:
                    fu[i, j] = ev(diff(f, (s, 0)), self.params, env)
        return fm, f0, fp, fu

    def zlist(self):
        return ([(v, -1) for v in self.endog] + [(v, 0) for v in self.endog]
                + [(v, 1) for v in self.endog] + [(s, 0) for s in self.stoch])

    def hess_full(self, ss=None):
        """H[i, a, b] over z = (y(-1), y, y(+1), u), declaration order"""
        env = self.env(ss)
        z = self.zlist()
        H = np.zeros((len(self.eqs), len(z), len(z)))
        for i, (l, r) in enumerate(self.eqs):
            f = sym.sub(l, r)
            vs = leaves(f)
            for a, va in enumerate(z):
                if va not in vs:
                    continue
                d = diff(f, va)
                for b, vb in enumerate(z):
                    if vb in vs:
                        dd = diff(d, vb)
                        H[i, a, b] = ev(dd, self.params, env)
        return H


# --------------------------------------------------------------------------
# linear rational expectations mathematics

def dr_order(app, endog):
    """decision-rule order: static, purely backward, mixed, purely forward"""
    st = [i for i, v in enumerate(endog) if not ({-1, 1} & app[v])]
    bk = [i for i, v in enumerate(endog) if -1 in app[v] and 1 not in app[v]]
    mx = [i for i, v in enumerate(endog) if -1 in app[v] and 1 in app[v]]
    fw = [i for i, v in enumerate(endog) if -1 not in app[v] and 1 in app[v]]
    return st + bk + mx + fw


def qz_counts(fm, f0, fp, crit=1.):
    """
    generalized eigenvalues of  f+ y'' + f0 y' + f- y = 0  (2n of them); returns
    (number inside, number outside, distance of the closest one to the circle of radius `crit`),
    or None if the pencil is singular
    """
    import scipy.linalg as sl
    n = fm.shape[0]
    A = np.block([[np.zeros((n, n)), np.eye(n)], [-fm, -f0]])
    Bm = np.block([[np.eye(n), np.zeros((n, n))], [np.zeros((n, n)), fp]])
    a, b = sl.eig(A, Bm, right=False, homogeneous_eigvals=True)
    inside = outside = 0
    dist = np.inf
    for x, y in zip(np.abs(a), np.abs(b)):
        nrm = math.hypot(x, y)
        if nrm < 1e-9:
            return None
        if x < crit * y:
            inside += 1
        else:
            outside += 1
        dist = min(dist, abs(x - crit * y) / nrm)
    return inside, outside, dist


def inside_circle(crit):
    return lambda a, b: (b != 0) & (np.abs(a) < crit * np.abs(b))


def stable_solution(fm, f0, fp, fu, crit=1.):
    """
    reference solution y_t = P y_{t-1} + Q u_t through the stable invariant subspace of
    the companion pencil.  None when there is no unique stable solution.
    """
    import scipy.linalg as sl
    n = fm.shape[0]
    c = qz_counts(fm, f0, fp, crit)
    if c is None or c[0] != n:
        return None
    A = np.block([[np.zeros((n, n)), np.eye(n)], [-fm, -f0]])
    Bm = np.block([[np.eye(n), np.zeros((n, n))], [np.zeros((n, n)), fp]])
    AA, BB, al, be, Qm, Z = sl.ordqz(A, Bm, sort=inside_circle(crit), output='complex')
    Z11, Z21 = Z[:n, :n], Z[n:, :n]
    if np.linalg.cond(Z11) > 1e10:
        return None
    P = np.real(Z21 @ np.linalg.inv(Z11))
    M = fp @ P + f0
    if np.linalg.cond(M) > 1e10:
        return None
    Q = -np.linalg.solve(M, fu)
    return P, Q


def determinacy(fm, f0, fp, crit=1.):
    """'ok' | 'indeterminate' | 'explosive' | 'rank' | 'singular' | 'edge'"""
    c = qz_counts(fm, f0, fp, crit)
    if c is None:
        return 'singular'
    n = fm.shape[0]
    inside, outside, dist = c
    if dist < 1e-6:
        return 'edge'
    if inside > n:
        return 'indeterminate'
    if inside < n:
        return 'explosive'
    import scipy.linalg as sl
    A = np.block([[np.zeros((n, n)), np.eye(n)], [-fm, -f0]])
    Bm = np.block([[np.eye(n), np.zeros((n, n))], [np.zeros((n, n)), fp]])
    AA, BB, al, be, Qm, Z = sl.ordqz(A, Bm, sort=inside_circle(crit), output='complex')
    s = np.linalg.svd(Z[:n, :n], compute_uv=False)
    if s[-1] < 1e-8:
        return 'rank'
    if s[-1] < 1e-5:
        return 'edge'
    return 'ok'


def first_order_residual(fm, f0, fp, fu, P, Q):
    r1 = fp @ P @ P + f0 @ P + fm
    r2 = (fp @ P + f0) @ Q + fu
    return max(np.abs(r1).max(initial=0), np.abs(r2).max(initial=0))


def second_order(spec, P, Q, Sigma, ss=None):
    """
    reference second-order solution, full tensors Gxx[n,n,n] (over all y(-1)),
    Gxu[n,n,m], Guu[n,m,m], Gss[n], of
        y = ss + P x + Q u + 1/2 Gxx xx + Gxu xu + 1/2 Guu uu + 1/2 Gss
    by solving the vectorised linear systems directly
    """
    n, m = len(spec.endog), len(spec.stoch)
    fm, f0, fp, fu = spec.jac_full(ss)
    H = spec.hess_full(ss)
    zx = np.vstack((np.eye(n), P, P @ P, np.zeros((m, n))))
    zu = np.vstack((np.zeros((n, m)), Q, P @ Q, np.eye(m)))
    M = f0 + fp @ P
    # f0 G + fp (P G + G[P,P]) = -H[zx,zx]
    R = -np.einsum('iab,aj,bk->ijk', H, zx, zx).reshape(n, n * n)
    K = np.kron(P, P)
    big = np.kron(np.eye(n * n), M) + np.kron(K.T, fp)
    g = np.linalg.solve(big, R.flatten('F')).reshape((n, n * n), order='F')
    Gxx = g.reshape(n, n, n)
    Rxu = -np.einsum('iab,aj,bk->ijk', H, zx, zu) \
        - np.einsum('il,lab,aj,bk->ijk', fp, Gxx, P, Q)
    Gxu = np.linalg.solve(M, Rxu.reshape(n, n * m)).reshape(n, n, m)
    Ruu = -np.einsum('iab,aj,bk->ijk', H, zu, zu) \
        - np.einsum('il,lab,aj,bk->ijk', fp, Gxx, Q, Q)
    Guu = np.linalg.solve(M, Ruu.reshape(n, m * m)).reshape(n, m, m)
    Hpp = H[:, 2 * n:3 * n, 2 * n:3 * n]
    rhs = -(fp @ np.einsum('ijk,jk->i', Guu, Sigma)
            + np.einsum('iab,aj,bk,jk->i', Hpp, Q, Q, Sigma))
    Gss = np.linalg.solve(M + fp, rhs)
    return Gxx, Gxu, Guu, Gss


def lyapunov(P, V):
    """X = P X P' + V by vectorisation"""
    n = P.shape[0]
    X = np.linalg.solve(np.eye(n * n) - np.kron(P, P), V.flatten('F'))
    return X.reshape((n, n), order='F')
