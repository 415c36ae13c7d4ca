"""
bounded spaces of linear models: every lead/lag incidence structure, with fixed
coefficient tables.  A structure is a tuple with one entry per equation; equation i is

    x_i = sum of its terms + shocks

with own pattern `o` in 0..3 (bit 0: own lag, bit 1: own lead) and, for every other
variable, a cross pattern `c` in 0..7 (bit 0: lag, bit 1: current, bit 2: lead).
"""
import itertools
import math

from .sym import N, V, B, P, mul, add
from .ref import Spec

NAMES = ['x', 'y', 'z', 'w', 'k10', 'k2', 'c', 'b', 'A1', 'a', 'q_3', 'k1', 'g', 'm']
SHOCKS = ['e', 'u', 'v', 's', 'e10', 'e2', 'd', 'E', 'f', 'h', 'j', 'e1', 'o', 'r']

# coefficient tables: [own lag, own lead, cross lag, cross current, cross lead] per eq
TABLES = {
    'small': [(0.5, 0.4, 0.2, 0.3, 0.15), (-0.6, 0.3, 0.25, -0.2, 0.1),
              (0.4, -0.35, -0.3, 0.15, 0.2), (0.7, 0.2, 0.1, 0.1, -0.1)],
    'bigfwd': [(0.5, 1.6, 0.2, 0.3, 0.5), (0.4, 1.4, -0.25, 0.2, 0.6),
               (0.3, -1.7, 0.3, 0.15, 0.2), (0.2, 1.3, 0.1, 0.1, -0.1)],
    'biglag': [(1.6, 0.4, 0.6, 0.3, 0.15), (-1.5, 0.3, 0.5, 0.2, 0.1),
               (1.4, -0.3, -0.4, 0.1, 0.2), (1.3, 0.2, 0.1, 0.1, -0.1)],
    'mixed': [(0.5, 1.6, 0.2, 0.3, 0.15), (1.5, 0.3, 0.3, 0.2, 0.4),
              (0.4, 0.3, -0.9, 0.1, 0.8), (1.3, 0.2, 0.1, 0.1, -0.1)],
    'complex': [(0.5, 0.4, 1.3, 0.3, 0.9), (0.5, 0.3, -1.2, -0.2, -0.9),
                (0.4, -0.35, 0.8, 0.15, 0.2), (0.7, 0.2, 0.1, 0.1, -0.1)],
}

# coefficients with which many structures have roots of modulus one
UNIT = {
    'unit': [(1., 0.4, 0.2, 0.3, 0.15), (0.5, 0.3, 0.25, -0.2, 0.1),
             (1., -0.35, -0.3, 0.15, 0.2), (0.7, 0.2, 0.1, 0.1, -0.1)],
    'units': [(1., 0.25, 0.2, 0.3, 0.15), (1., 0.4, 0.25, -0.2, 0.1),
              (-1., 0.3, 0.5, 0.15, 0.2), (1., 0.2, 0.1, 0.1, -0.1)],
    'leads': [(0.5, 1., 0.2, 0.3, 0.15), (1., 0.4, 0.25, -0.2, 0.1),
              (0.4, -1., -0.3, 0.15, 0.2), (0.7, 0.2, 0.1, 0.1, -0.1)],
}


def lin(terms):
    """sum of coefficient * variable terms, rendered the way people write it"""
    out = None
    for c, t in terms:
        neg = c < 0
        c = abs(c)
        x = t if c == 1 else mul(N(c), t)
        if out is None:
            out = mul(N(-c), t) if neg else x
        else:
            out = B('-' if neg else '+', out, x)
    return out if out is not None else N(0)


def structure_spec(struct, table='small', shocks='each', names=None):
    """the Spec of a structure"""
    n = len(struct)
    nm = (names or NAMES)[:n]
    tab = TABLES[table] if table in TABLES else UNIT[table]
    if shocks == 'each':
        stoch = SHOCKS[:n]
        where = {i: [(1, SHOCKS[i])] for i in range(n)}
    elif shocks == 'one':
        stoch = ['e']
        where = {0: [(1, 'e')]}
    elif shocks == 'last':
        stoch = ['e']
        where = {n - 1: [(-0.5, 'e')]}
    elif shocks == 'both':
        # every shock in every equation
        stoch = SHOCKS[:2]
        where = {i: [(1 + i, 'e'), (0.5 - i, 'u')] for i in range(n)}
    elif shocks == 'none':
        stoch, where = [], {}
    else:
        raise ValueError(shocks)
    eqs = []
    for i in range(n):
        own, cross = struct[i]
        ol, of, cl, cc, cf = tab[i % len(tab)]
        terms = []
        if own & 1:
            terms.append((ol, V(nm[i], -1)))
        if own & 2:
            terms.append((of, V(nm[i], 1)))
        others = [j for j in range(n) if j != i]
        for j, c in zip(others, cross):
            k = 1.0 if j > i else 0.8
            if c & 1:
                terms.append((round(cl * k, 6), V(nm[j], -1)))
            if c & 2:
                terms.append((round(cc * k, 6), V(nm[j], 0)))
            if c & 4:
                terms.append((round(cf * k, 6), V(nm[j], 1)))
        terms.extend((c, V(s, 0)) for c, s in where.get(i, []))
        eqs.append((V(nm[i], 0), lin(terms)))
    return Spec(nm, stoch, eqs)


def structures(n, own=range(4), cross=range(8)):
    """all structures of n variables with the given patterns"""
    eqs = list(itertools.product(own, itertools.product(cross, repeat=n - 1)))
    for s in itertools.product(eqs, repeat=n):
        yield s


def ring_structures(n, own=range(4), cross=range(8)):
    """structures where equation i only involves variables i and i+1 (cyclically)"""
    eqs = list(itertools.product(own, cross))
    for s in itertools.product(eqs, repeat=n):
        out = []
        for i, (o, c) in enumerate(s):
            row = [0] * (n - 1)
            others = [j for j in range(n) if j != i]
            row[others.index((i + 1) % n)] = c
            out.append((o, tuple(row)))
        yield tuple(out)


def large_structures(sizes=(6, 9), cross=(0, 1, 2, 4)):
    """
    larger ring structures: every sequence of three kinds of variables (static, backward,
    forward, mixed), repeated; the patterns of the couplings take turns
    """
    k = 0
    for n in sizes:
        for word in itertools.product(range(4), repeat=3):
            if not any(word):
                continue
            out = []
            for i in range(n):
                row = [0] * (n - 1)
                others = [j for j in range(n) if j != i]
                row[others.index((i + 1) % n)] = cross[(i * (1 + k % 3) + k) % len(cross)]
                out.append([word[i % 3], row])
            yield out
            k += 1


def large_perm(n, k):
    """one of several orders of n items"""
    if k % 4 == 0:
        return list(range(n))
    if k % 4 == 1:
        return list(range(n))[::-1]
    step = next(m for m in (5, 4, 3, 2, 1) if math.gcd(m, n) == 1)
    return [(i * step + k) % n for i in range(n)]


def dynamic(struct):
    """does any variable appear with a lead or a lag?"""
    return any(o or any(c & 5 for c in cr) for o, cr in struct)


def perms(n):
    return list(itertools.permutations(range(n)))
