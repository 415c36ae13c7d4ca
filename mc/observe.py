"""everything a model answers, as plain values that can be compared"""
import numpy as np


def basic(md):
    """content-level answers: names, values, expressions are not compared by text"""
    idx = md.indexes
    out = {
        'endog': list(md.endog.names),
        'stoch': list(md.stoch.names) if len(md.stoch) else [],
        'params': {k: float(v) for k, v in md.params.items()},
        'locals': {k: float(md.model_scope[k]) for k in md.local_params},
        'static': list(md.static_vars.names), 'state': list(md.state_vars.names),
        'mixed': list(md.mixed_vars.names), 'forward': list(md.forward_vars.names),
        'pure forward': list(md.pure_forward_vars.names),
        'pure backward': list(md.pure_backward_vars.names),
        'dr order': list(map(int, idx.dr_order)),
        'dc order': list(map(int, idx.dc_order)),
        'llx': np.array(idx.llx, dtype=float),
        'counts': [idx.n_endog, idx.n_exog, idx.n_static, idx.n_state, idx.n_forward,
                   idx.n_backward, idx.n_mixed, idx.n_dynamic],
        'initial': np.array(md.initial, dtype=float),
        'terminal': np.array(md.terminal, dtype=float),
        'historical': np.array(md.historical, dtype=float),
        'sigma': np.array(md.sigma, dtype=float),
    }
    return out


def eigs(md):
    e = np.sort(np.abs(md.statespace.eigen))
    return np.where(e > 1e6, np.inf, e)


PARTS = {
    'basic': basic,
    'ss': lambda md: np.array(md.ss.values, dtype=float),
    'ss residual': lambda md: np.array(md.steady_repr(np.full(len(md.endog), .3)), dtype=float),
    'steady jacobian': lambda md: np.array(md.steady_repr.jacobian.array, dtype=float),
    'dynamic residual': lambda md: np.array(md.dynamic_repr(
        np.linspace(-.2, .5, md.dynamic_repr.n_vars)), dtype=float),
    'jacobian': lambda md: np.array(md.jacobian.array, dtype=float),
    'hessian': lambda md: np.array(md.hessian.array, dtype=float),
    'eigenvalues': eigs,
    'order': lambda md: md.solution_order,
    'first order': lambda md: [np.array(a, dtype=float)
                               for a in md.first_order_solution.policy],
    'cov': lambda md: np.array(md.stats.cov(), dtype=float),
    'autocov': lambda md: np.array(md.stats.autocov(p=2), dtype=float),
    'mean': lambda md: np.array(md.stats.mean(), dtype=float),
    'decomp': lambda md: np.array(md.stats.var_decomp(), dtype=float),
    'response': lambda md: np.array(md.impulse_response(md.stoch.names[-1], 5).impulse),
    'path': lambda md: np.array(md.simulate(
        np.linspace(-1, 1, 4 * len(md.stoch)).reshape(4, -1)).paths),
    'solve 1': lambda md: (lambda s: [np.array(s.gy, dtype=float), np.array(s.gu, dtype=float)])
    (md.solve(order=1)),
    'solve 2': lambda md: (lambda s: [np.array(a, dtype=float) for a in
                                      (s.ghxx, s.ghxu, s.ghuu, s.del2)])(md.solve(order=2)),
}


def ask(md, part):
    """('ok', value) or ('error', exception)"""
    try:
        return 'ok', PARTS[part](md)
    except Exception as e:
        return 'error', e


def same(a, b, tol=1e-7):
    """equality of nested values, numbers up to a relative tolerance"""
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) \
            and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (np.ndarray, float)) or isinstance(b, (np.ndarray, float)):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            return False
        if a.size == 0:
            return True
        if (np.isnan(a) != np.isnan(b)).any():
            return False
        with np.errstate(all='ignore'):
            d = np.where(np.isnan(a) | (a == b), 0, np.abs(a - b))
            s = 1 + np.nanmax(np.where(np.isinf(b), 0, np.abs(b)), initial=0)
        return bool(np.max(d) <= tol * s)
    return a == b


def compare(ctx, a, b, what, **detail):
    """two answers of `ask` must agree; errors must be of the same kind"""
    if a[0] != b[0]:
        ctx.fail(what, got=a, expected=b, **detail)
    elif a[0] == 'error':
        ctx.check(type(a[1]) is type(b[1]), what + ': kind of error', got=repr(a[1]),
                  expected=repr(b[1]), **detail)
    else:
        ctx.check(same(a[1], b[1]), what, got=a[1], expected=b[1], **detail)
