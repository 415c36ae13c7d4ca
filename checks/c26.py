"""C26: matrix utilities satisfy their defining equations"""
import itertools
import warnings

import numpy as np

ID = 'C26'
LEVEL = 'exploration'
RULE = ('generalised Sylvester: all pairs of 2 x 2 matrices over {-1, 0, 1} on the left x a '
        'catalogue of right pairs with real and complex eigenvalues in every order of blocks (sizes '
        '1 to 4), all rectangular sizes up to 4, and non-conforming shapes; partitioned QZ: all '
        'pairs of 1 x 1 and 2 x 2 matrices over {-1, 0, 1, 2} and catalogue pairs of size 3 and '
        '4 with every permutation of eigenvalues inside, on and outside the unit circle, zero and '
        'infinite; inverses: all symmetric matrices over {-1, 0, 1, 2, 3} up to 3 x 3; Kronecker '
        'products, shingles, concatenations and dimensions: all shapes up to 3; first index: all '
        'boolean vectors up to length 8; sorted eigenvalues: all 2 x 2 matrices and catalogue '
        'ones; outcome = (routine, sizes, class)')
ASSUMPTIONS = [
    'equations are judged when they have a unique, well-conditioned solution',
    'inverses are judged when the smallest eigenvalue is not within 1e-9 of zero',
    'eigenvalues within 1e-8 of the unit circle, but not within 1e-5 outside it, count as not '
    'explosive',
]
CHUNK = 6

M2 = [np.array(m, float).reshape(2, 2) for m in itertools.product((-1, 0, 1), repeat=4)]


def blocks(kinds):
    """quasi-triangular matrix with the given diagonal blocks, made full by a similarity"""
    n = sum(2 if isinstance(k, tuple) else 1 for k in kinds)
    A = np.triu(np.fromfunction(lambda i, j: .3 + .1 * ((3 * i + j) % 5), (n, n)), 1)
    i = 0
    for k in kinds:
        if isinstance(k, tuple):
            A[i:i + 2, i:i + 2] = [[k[0], k[1]], [-k[1], k[0]]]
            i += 2
        else:
            A[i, i] = k
            i += 1
    return A


def mix(n):
    """a fixed well-conditioned full matrix"""
    return np.eye(n) + .25 * np.fromfunction(lambda i, j: ((i * 2 + j * 3) % 5 - 2.), (n, n))


RIGHT = [(0.5,), (2,), (0,), (0.5, -0.3), (2, .5), (0, .5), (0, 0), ((.3, .6),), ((0, 1.5),),
         ((.3, .6), .5), (.5, (.3, .6)), (.5, .5, .5), (.5, 0, 2), ((.3, .6), (-.4, .2)),
         (.5, (.3, .6), -2), ((.2, .9), .1, 3), (.1, .2, (.3, .4)), (.1, .2, .3, .4)]

SPEC = [(.5, 2), (.5, .2), (2, 3), (1, 2), (1, .5), (1, -1), (0, 2), ('inf', .5), ('inf', 0),
        ((.3, .6), 2), ((.9, .9), .5), ((0, 1), 2), (.5, 2, -.3), (1, 2, 1), ('inf', 1, 3),
        (.5, (.9, .9), .1), ((.3, .6), (.9, .9)), (1, 'inf', .5, 2), (0, 0, 2),
        (1, 1, 2, 2), (2, (.3, .6), 'inf'), (-1, 1, .5), (3, 2, .5, .4), ('inf', 'inf', .5)]


def cases(tier):
    deep = tier == 'thorough'
    for i in range(len(M2)):
        for r in range(len(RIGHT)):
            if deep or (i + r) % 2 == 0:
                yield ['sylv', i, r]
    for m in range(1, 5):
        for n in range(1, 5):
            yield ['rect', m, n]
    yield ['conform']
    vals = (-1, 0, 1, 2)
    for a in itertools.product(vals, repeat=2):
        yield ['qz2', *a]
    for k, sp in enumerate(SPEC):
        for p in itertools.permutations(range(len(sp))):
            yield ['qz', k, list(p)]
    for n in (1, 2, 3):
        for d in itertools.product((-1, 0, 1, 2, 3), repeat=n):
            yield ['inv', n, list(d)]
    for n in range(9):
        yield ['first', n]
    for s in itertools.product((1, 2, 3), repeat=2):
        yield ['kron', *s]
    for i in range(0, len(M2), 9):
        yield ['eig', i]
    yield ['shape']
    yield ['scalar']



def run(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return globals()['run_' + case[0]](case, ctx)


# ---- A X B' + C X D' = E ---------------------------------------------------------------

def solve_ref(A, B, C, D, E):
    """the unique solution, or None"""
    m, n = E.shape
    K = np.kron(B, A) + np.kron(D, C)
    s = np.linalg.svd(K, compute_uv=False)
    if s[-1] < 1e-7 * max(1, s[0]):
        return None
    return np.linalg.solve(K, E.flatten('F')).reshape((m, n), order='F')


def judge_sylv(ctx, A, B, C, D, E, what='sylvester'):
    from pynare.utils.numpy import generalized_sylvester
    X = solve_ref(A, B, C, D, E)
    if X is None:
        ctx.outcome((what, E.shape, 'not unique'))
        return
    args = [x.copy() for x in (A, B, C, D, E)]
    got = np.asarray(generalized_sylvester(*args))
    ctx.outcome((what, E.shape, 'unique'))
    if not ctx.check(got.shape == E.shape, what + ': shape', got=got.shape, want=E.shape,
                     A=A, B=B, C=C, D=D):
        return
    sc = max(1, np.abs(X).max(initial=0))
    ctx.check(np.abs(got - X).max(initial=0) < 1e-5 * sc, what + ': solution', A=A, B=B, C=C,
              D=D, E=E, got=got, want=X)
    r = A @ got @ B.T + C @ got @ D.T - E
    ctx.check(np.abs(r).max(initial=0) < 1e-7 * sc, what + ': residual', A=A, B=B, C=C, D=D, E=E,
              residual=r)
    ctx.check(all(np.array_equal(x, y) for x, y in zip(args, (A, B, C, D, E))),
              what + ': arguments changed')


def run_sylv(case, ctx):
    _, i, r = case
    D = blocks(RIGHT[r])
    n = len(D)
    Q = mix(n)
    E = np.fromfunction(lambda a, b: ((5 * a + 3 * b + i) % 7 - 3.), (2, n))
    for j, C in enumerate(M2):
        for B, D_ in ((np.eye(n), D), (Q, Q @ D), (Q @ D, Q)) if j % 3 == 0 else \
                ((Q, D @ Q),) if j % 3 == 1 else ((D, np.eye(n)),):
            judge_sylv(ctx, M2[i], B, C, D_, E)


def run_rect(case, ctx):
    _, m, n = case
    for k in range(24):
        A = mix(m) * (1 + k % 3)
        C = np.roll(mix(m), k, axis=0) * (-1)**k
        if k % 4 == 3:
            C = np.zeros((m, m))
        if k % 4 == 2:
            C = np.triu(C, 1)
        B = np.roll(mix(n), k // 2, axis=1)
        D = blocks([r for r in RIGHT if sum(2 if isinstance(t, tuple) else 1 for t in r) == n]
                   [k % 3 - 1])
        E = np.fromfunction(lambda a, b: ((2 * a + 7 * b + k) % 9 - 4.), (m, n))
        judge_sylv(ctx, A, B, C, D, E, 'rectangular sylvester')
    judge_sylv(ctx, A, B, C, D, 0 * E, 'homogeneous sylvester')


def run_conform(case, ctx):
    from pynare.utils.numpy import generalized_sylvester
    sizes = [(1, 1), (2, 2), (2, 1), (1, 2), (3, 3)]
    k = 0
    for sa, sb, sc, sd, se in itertools.product(sizes, repeat=5):
        k += 1
        ok = sa == sc and sb == sd and sa[0] == sa[1] and sb[0] == sb[1] and \
            se == (sa[0], sb[0])
        if ok or k % 5:
            continue
        ctx.raises(ValueError, lambda: generalized_sylvester(
            *[np.ones(s) for s in (sa, sb, sc, sd, se)]), f'shapes {(sa, sb, sc, sd, se)}')
    ctx.outcome(('sylvester', 'non-conforming'))


# ---- partitioned QZ --------------------------------------------------------------------

def judge_qz(ctx, A, B, want=None):
    """
    B x = s A x; the arrays are those of orthogonal Q and Z with A = Q T Z, B = Q S Z, so
    [A Z', B Z'] = Q [T, S]: the same Gram matrix
    """
    import scipy.linalg as sl
    from pynare.utils.numpy import partitioned_qz
    n = len(A)
    a, b = sl.eig(B, A, right=False, homogeneous_eigvals=True)
    nrm = np.hypot(np.abs(a), np.abs(b))
    if nrm.min() < 1e-7:
        ctx.outcome(('qz', n, 'singular pencil'))
        return
    gap = (np.abs(a) - np.abs(b)) / nrm
    if np.any((np.abs(gap) > 1e-8) & (np.abs(gap) < 1e-5)):
        ctx.outcome(('qz', n, 'edge'))
        return
    k = int(np.sum(gap <= 1e-8))
    eigs, *arrs = partitioned_qz(A.copy(), B.copy())
    Z11, Z12, Z21, Z22, T11, T12, T22, S11, S12, S22 = [np.asarray(x) for x in arrs]
    unit = int(np.sum(np.abs(gap) <= 1e-8))
    ctx.outcome(('qz', n, k, unit, int(np.sum(np.abs(b) < 1e-9))))
    info = dict(A=A, B=B)
    shapes = [(k, k), (k, n - k), (n - k, k), (n - k, n - k), (k, k), (k, n - k),
              (n - k, n - k), (k, k), (k, n - k), (n - k, n - k)]
    if not ctx.check([x.shape for x in (Z11, Z12, Z21, Z22, T11, T12, T22, S11, S12, S22)]
                     == shapes, 'qz: sizes of the blocks', stable=k,
                     got=[x.shape for x in arrs], **info):
        return
    Z = np.block([[Z11, Z12], [Z21, Z22]])
    T = np.block([[T11, T12], [np.zeros((n - k, k)), T22]])
    S = np.block([[S11, S12], [np.zeros((n - k, k)), S22]])
    tol = 1e-7 * max(1, np.abs(A).max()**2, np.abs(B).max()**2)
    ctx.check(np.abs(Z @ Z.T - np.eye(n)).max() < 1e-8, 'qz: Z is orthogonal', Z=Z, **info)
    G = np.hstack((A @ Z.T, B @ Z.T))
    H = np.hstack((T, S))
    ctx.check(np.abs(G.T @ G - H.T @ H).max() < tol, 'qz: the arrays reproduce the pencil',
              T=T, S=S, Z=Z, **info)
    ctx.check(np.abs(np.tril(T, -1)).max() < 1e-8, 'qz: T is upper triangular', T=T, **info)
    ctx.check(np.abs(np.tril(S, -2)).max() < 1e-8, 'qz: S is quasi upper triangular', S=S,
              **info)
    eigs = np.asarray(eigs)
    if not ctx.check(eigs.shape == (n,), 'qz: eigenvalues', got=eigs.shape, **info):
        return
    mod = np.absolute(eigs)
    ctx.check(np.all(mod[:k] <= 1 + 1e-5) and np.all(~(mod[k:] <= 1 + 1e-5)),
              'qz: stable eigenvalues come first', eigs=eigs, stable=k, **info)
    for lo, hi, t, s in ((0, k, T11, S11), (k, n, T22, S22)):
        for e in eigs[lo:hi]:
            if np.isfinite(e):
                d = np.linalg.svd(s - e * t, compute_uv=False)[-1]
            else:
                d = np.linalg.svd(t, compute_uv=False)[-1]
            ctx.check(d < 1e-4 * max(1, np.abs(t).max(initial=0), np.abs(s).max(initial=0)),
                      'qz: an eigenvalue is not one of its block', eig=e, block=(lo, hi), **info)
    # as a set: the eigenvalues of the pencil
    want = sorted((round(float(x), 4) for x in
                   np.where(np.abs(b) > 1e-9 * nrm, np.abs(a) / np.maximum(np.abs(b), 1e-300),
                            np.inf)))
    got = sorted(round(float(x), 4) if x < 1e8 else np.inf for x in np.nan_to_num(mod, nan=np.inf))
    ctx.check(np.allclose(np.minimum(got, 1e6), np.minimum(want, 1e6), rtol=2e-3, atol=2e-3),
              'qz: the eigenvalues', got=got, want=want, **info)


def run_qz2(case, ctx):
    _, a0, a1 = case
    v = (-1, 0, 1, 2)
    # all pairs with the first row of A given
    for i, (a2, a3) in enumerate(itertools.product(v, repeat=2)):
        A = np.array([[a0, a1], [a2, a3]], float)
        for j, b in enumerate(itertools.product(v, repeat=4)):
            B = np.array(b, float).reshape(2, 2)
            judge_qz(ctx, A, B)
    if a1 == 0:
        for b in v:
            judge_qz(ctx, np.array([[a0]], float), np.array([[b]], float))


def run_qz(case, ctx):
    _, k, p = case
    sp = [SPEC[k][i] for i in p]
    n = sum(2 if isinstance(t, tuple) else 1 for t in sp)
    fin = [0 if t == 'inf' else t for t in sp]
    B = blocks(fin)
    A = np.eye(n)
    i = 0
    for t in sp:
        if t == 'inf':
            A[i, i], B[i, i] = 0, 1
        i += 2 if isinstance(t, tuple) else 1
    L, R = mix(n), np.linalg.qr(mix(n).T + .1)[0]
    for l, r in ((np.eye(n), np.eye(n)), (L, np.eye(n)), (np.eye(n), R), (L, R)):
        judge_qz(ctx, l @ A @ r, l @ B @ r)


# ---- inverses --------------------------------------------------------------------------

def run_inv(case, ctx):
    from pynare.utils.numpy import inv_sym_pd
    _, n, d = case
    for off in itertools.product((-1, 0, 1, 2, 3), repeat=n * (n - 1) // 2):
        for scale in (1., 1e-6):
            M = np.diag(np.array(d, float))
            M[np.triu_indices(n, 1)] = off
            M = scale * (np.triu(M) + np.triu(M, 1).T)
            e = np.linalg.eigvalsh(M)[0] / scale
            keep = M.copy()
            if e > 1e-9:
                got = inv_sym_pd(M)
                ctx.outcome(('inverse', n, 'pd'))
                ctx.check(got.shape == (n, n) and np.abs(got @ keep - np.eye(n)).max() < 1e-9,
                          'inverse', M=keep, got=got)
                ctx.check(np.array_equal(got, got.T), 'inverse: symmetric', M=keep, got=got)
                for X in (np.asfortranarray(keep), keep[::-1, ::-1][::-1, ::-1]):
                    ctx.check(np.allclose(inv_sym_pd(X), got), 'inverse: memory layout', M=keep)
                    ctx.check(np.array_equal(X, keep), 'inverse: the argument was changed',
                              M=keep, got=X)
            elif e < -1e-9:
                ctx.outcome(('inverse', n, 'not pd'))
                ctx.raises(ValueError, lambda: inv_sym_pd(M), f'{M.tolist()} is not positive '
                           'definite')
            ctx.check(np.array_equal(M, keep), 'inverse: the argument was changed', M=keep)
            judge_chol(ctx, keep, e)


def judge_chol(ctx, M, e):
    from pynare.utils.numpy import cholesky_semidefinite
    if e < -1e-9:
        ctx.raises(np.linalg.LinAlgError, lambda: cholesky_semidefinite(M.copy()),
                   f'{M.tolist()} is not positive semi-definite')
        return
    U = cholesky_semidefinite(M.copy())
    ctx.check(np.abs(np.tril(U, -1)).max() == 0 and np.abs(U.T @ U - M).max()
              < 1e-9 * max(np.abs(M).max(), 1e-9), 'triangular factor', M=M, got=U)


# ---- small routines --------------------------------------------------------------------

def run_first(case, ctx):
    from pynare.utils.numpy import find_first
    n = case[1]
    if n == 0:
        ctx.outcome(('first', 0), trivial=True)
        return
    for v in itertools.product((False, True), repeat=n):
        want = v.index(True) if True in v else -1
        ctx.check(find_first(np.array(v)) == want, 'first index', vector=v)
        ctx.check(find_first(np.array(v, dtype=float)) == want, 'first index (float)', vector=v)
        ctx.check(find_first(np.array(v, dtype=int) * 256) == want, 'first index (int)',
                  vector=v)
    ctx.outcome(('first', n))


def run_kron(case, ctx):
    from pynare.utils.numpy import matrix_kronecker_product, hermitian
    _, r, p = case
    for q, s, t in itertools.product((1, 2, 3), repeat=3):
        B = np.fromfunction(lambda i, j: (2 * i + 3 * j) % 5 - 2., (p, q))
        C = np.fromfunction(lambda i, j: (i + 2 * j) % 4 - 1., (s, t))
        A = np.fromfunction(lambda i, j: (3 * i + 5 * j) % 7 - 3., (r, p * s))
        want = np.einsum('aij,ik,jl->akl', A.reshape(r, p, s), B, C).reshape(r, q * t)
        got = matrix_kronecker_product(A, B, C)
        ctx.check(got.shape == want.shape and np.array_equal(got, want), 'kronecker product',
                  A=A, B=B, C=C, got=got, want=want)
        ctx.outcome(('kronecker', r, p * s, q * t))
        if s > 1 or p > 1:
            ctx.raises(ValueError, lambda: matrix_kronecker_product(A[:, 1:], B, C),
                       'non-conforming kronecker product')
    for q in (1, 2, 3):
        B = np.fromfunction(lambda i, j: (2 * i + 3 * j) % 5 - 2., (p, q))
        A = np.fromfunction(lambda i, j: (3 * i + 5 * j) % 7 - 3., (r, p * p))
        want = np.einsum('aij,ik,jl->akl', A.reshape(r, p, p), B, B).reshape(r, q * q)
        ctx.check(np.array_equal(matrix_kronecker_product(A, B), want), 'kronecker square',
                  A=A, B=B)
    Z = (np.fromfunction(lambda i, j: i + 2. * j, (r, p))
         + 1j * np.fromfunction(lambda i, j: i - j + 1., (r, p)))
    H = hermitian(Z)
    ctx.check(H.shape == (p, r) and all(H[j, i] == Z[i, j].real - 1j * Z[i, j].imag
                                        for i in range(r) for j in range(p)),
              'hermitian transpose', Z=Z, got=H)


def run_eig(case, ctx):
    from pynare.utils.numpy import eigvals_sorted
    mats = M2[case[1]:case[1] + 9]
    mats = mats + [blocks(RIGHT[(case[1] // 9 + k) % len(RIGHT)]) for k in range(2)]
    for A in mats:
        n = len(A)
        cp = np.poly(A)
        for order in ('descending', 'ascending'):
            for k in [None] + list(range(n + 1)):
                got = np.asarray(eigvals_sorted(A, order, k))
                if not ctx.check(got.shape == (n if k is None else k,),
                                 'sorted eigenvalues: number', A=A, k=k, got=got):
                    continue
                m = np.absolute(got)
                d = np.diff(m) if order == 'ascending' else -np.diff(m)
                ctx.check(np.all(d >= -1e-12), 'sorted eigenvalues: order', A=A, got=got)
                full = np.sort(np.absolute(np.roots(cp)))
                full = full if order == 'ascending' else full[::-1]
                full = np.concatenate((full, np.zeros(n - len(full)))) if order != 'ascending' \
                    else np.concatenate((np.zeros(n - len(full)), full))
                ctx.check(np.allclose(m, full[:len(m)], atol=1e-6), 'sorted eigenvalues', A=A,
                          k=k, got=got, want=full)
        ctx.check(np.allclose(np.absolute(eigvals_sorted(A)), full[::-1], atol=1e-6),
                  'sorted eigenvalues: default', A=A)
        ctx.outcome(('eig', n, bool(np.iscomplexobj(got) and np.any(got.imag))))
    for bad in ('up', '', None):
        ctx.raises(ValueError, lambda: eigvals_sorted(M2[0], bad), 'unknown order')


def run_shape(case, ctx):
    from pynare.utils.numpy import ensure_2darray, concatenate_maybe_1d, array_shingle
    arrs = [np.array(5.), np.arange(1.), np.arange(3.), np.arange(6.).reshape(2, 3),
            np.arange(3.).reshape(3, 1), np.arange(3.).reshape(1, 3), np.zeros(0),
            np.zeros((0, 2)), np.zeros((2, 0))]
    scal = [5, 2.5, 1j, np.float64(3.)]

    def two(a, orient):
        a = np.asarray(a)
        if a.ndim == 2:
            return a
        if a.ndim == 0:
            return a.reshape(1, 1)
        return a.reshape(-1, 1) if orient == 'column' else a.reshape(1, -1)

    def same(x, y):
        return isinstance(x, np.ndarray) and x.shape == y.shape and np.array_equal(x, y)
    for orient in ('column', 'row'):
        for a in arrs:
            ctx.check(same(ensure_2darray(a, orient), two(a, orient)), 'two dimensions', a=a,
                      orient=orient)
        for seq in (tuple, list):
            for a, b in itertools.product(arrs + scal, repeat=2):
                got = ensure_2darray(seq((a, b)), orient)
                ctx.check(type(got) is seq and len(got) == 2 and same(got[0], two(a, orient))
                          and same(got[1], two(b, orient)), 'two dimensions of a sequence',
                          a=a, b=b, orient=orient, got=got)
                x, y = two(a, orient), two(b, orient)
                for axis in (0, 1):
                    if x.shape[1 - axis] == y.shape[1 - axis]:
                        want = np.concatenate((x, y), axis=axis).squeeze()
                        got = concatenate_maybe_1d(seq((a, b)), orient, axis=axis)
                        ctx.check(same(np.asarray(got), want), 'concatenation', a=a, b=b,
                                  axis=axis, orient=orient, got=got)
        for bad in (np.zeros((1, 1, 1)), np.zeros((2, 2, 2))):
            ctx.raises(ValueError, lambda: ensure_2darray(bad, orient), 'three dimensions')
            ctx.raises(ValueError, lambda: ensure_2darray([bad], orient), 'three dimensions')
            ctx.raises(ValueError, lambda: concatenate_maybe_1d([bad, bad], orient),
                       'three dimensions')
        ctx.raises(TypeError, lambda: ensure_2darray(['x'], orient), 'not an array')
    ctx.raises(ValueError, lambda: ensure_2darray(arrs[0], 'diagonal'), 'unknown orientation')
    ctx.check(same(ensure_2darray(arrs[2]), two(arrs[2], 'column')), 'default orientation')
    ctx.outcome(('shape', 'two dimensions'))

    for r0, r1, c in itertools.product(range(4), range(4), (0, 1, 2)):
        for tail in ((), (c,), (c, 2)):
            a = 1 + np.arange(float(r0 * int(np.prod(tail)))).reshape((r0,) + tail)
            b = 100 + np.arange(float(r1 * int(np.prod(tail)))).reshape((r1,) + tail)
            for o in range(min(r0, r1) + 1):
                got = array_shingle(a.copy(), b.copy(), o)
                want = np.concatenate((a, b[o:]))
                ctx.check(same(got, want), 'shingle', a=a, b=b, overlap=o, got=got)
            if tail:
                ctx.raises(ValueError, lambda: array_shingle(a, np.zeros((r1, c + 1) + tail[1:]),
                                                             0), 'shingle of other widths')
    ctx.outcome(('shape', 'shingle'))


def run_scalar(case, ctx):
    from pynare.utils.numpy import matmul_scalar
    sc = [3, 2., -1.5, np.float64(2), np.array(2.), np.array([2.]), np.array([[2.]])]
    mats = [np.arange(6.).reshape(2, 3), np.arange(3.), np.arange(6.).reshape(3, 2)]
    for s in sc:
        for m in mats:
            for got in (matmul_scalar(s, m), matmul_scalar(m, s)):
                ctx.check(np.shape(got) == m.shape and np.array_equal(got, float(np.ravel(s)[0])
                                                                      * m),
                          'product with a scalar', scalar=s, m=m, got=got)
        for s2 in sc:
            got = matmul_scalar(s, s2)
            ctx.check(float(np.ravel(got)[0]) == float(np.ravel(s)[0]) * float(np.ravel(s2)[0]),
                      'product of scalars', a=s, b=s2, got=got)
    for a, b in itertools.product(mats, repeat=2):
        try:
            want = a @ b
        except ValueError:
            ctx.raises(ValueError, lambda: matmul_scalar(a, b), 'non-conforming product')
            continue
        ctx.check(np.array_equal(matmul_scalar(a, b), want), 'product', a=a, b=b)
    ctx.outcome(('scalar',))
