"""Interferometers whose entries are exactly representable in the specification.

An entry is g[i][j] / sqrt(d[j]) with a Gaussian integer g[i][j] and a positive integer
d[j]; the specification computes with g and d exactly, the code gets the complex floats.
"""
import math
import random as _r
from fractions import Fraction

import numpy as np


class Mat:
    """g: list of rows of (re, im); d: list of column denominators."""

    def __init__(self, g, d, name="", plain=False):
        self.g = [[(int(a), int(b)) for (a, b) in row] for row in g]
        self.d = [int(x) for x in d]
        self.name = name
        self.plain = plain

    @property
    def m(self):
        return len(self.d)

    def np(self, container="array"):
        rt = [math.sqrt(x) for x in self.d]
        rows = [[complex(a / rt[j], b / rt[j]) for j, (a, b) in enumerate(row)] for row in self.g]
        if container == "list":
            return rows
        if container == "tuple":
            return tuple(tuple(r) for r in rows)
        a = np.array(rows, dtype=np.complex128)
        if container == "fortran":
            return np.asfortranarray(a)
        if container == "real":
            if np.abs(a.imag).max() > 0:
                return a
            return a.real.copy()
        return a

    def json(self):
        r = {"g": [[list(x) for x in row] for row in self.g], "d": self.d}
        if self.plain:
            r["p"] = 1
        return r

    def key(self):
        return repr((self.g, self.d))


def _c(x):
    return (int(x.real), int(x.imag))


def from_complex(rows, d, name=""):
    """rows of Gaussian integers given as complex numbers."""
    return Mat([[_c(complex(x)) for x in row] for row in rows], d, name)


def _mul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))]
            for i in range(len(A))]


def simplify(M):
    """Divide common integer factors out of a column (g/r, d/r^2)."""
    g = [list(r) for r in M.g]
    d = list(M.d)
    for j in range(len(d)):
        f = 0
        for row in g:
            f = math.gcd(math.gcd(f, abs(row[j][0])), abs(row[j][1]))
        if f > 1:
            for r in range(f, 1, -1):
                if f % r == 0 and d[j] % (r * r) == 0:
                    for row in g:
                        row[j] = (row[j][0] // r, row[j][1] // r)
                    d[j] //= r * r
                    break
    return Mat(g, d, M.name)


def householder(v):
    """I - 2 v v^+ / |v|^2 for a Gaussian-integer vector."""
    m = len(v)
    n = sum(int(abs(x) ** 2 + 0.5) for x in v)
    rows = [[(n if i == j else 0) - 2 * v[i] * complex(v[j]).conjugate() for j in range(m)]
            for i in range(m)]
    return simplify(from_complex(rows, [n * n] * m))


def permute(M, perm, rows=True):
    if rows:
        return Mat([M.g[p] for p in perm], M.d, M.name)
    return Mat([[row[p] for p in perm] for row in M.g], [M.d[p] for p in perm], M.name)


def phases(M, ks, rows=True):
    """Multiply rows (or columns) by i^k."""
    def mul(x, k):
        z = complex(*x) * (1j ** (k % 4))
        return (int(round(z.real)), int(round(z.imag)))
    if rows:
        return Mat([[mul(x, ks[i]) for x in row] for i, row in enumerate(M.g)], M.d, M.name)
    return Mat([[mul(x, ks[j]) for j, x in enumerate(row)] for row in M.g], M.d, M.name)


def direct_sum(A, B):
    z = (0, 0)
    g = [list(r) + [z] * B.m for r in A.g] + [[z] * A.m + list(r) for r in B.g]
    return Mat(g, A.d + B.d)


def identity(m):
    return from_complex([[1 if i == j else 0 for j in range(m)] for i in range(m)], [1] * m, "id%d" % m)


def perm_mat(perm, ks=None):
    m = len(perm)
    M = from_complex([[1 if perm[i] == j else 0 for j in range(m)] for i in range(m)], [1] * m)
    return phases(M, ks or [0] * m)


def bs():
    """50:50 beam splitter with a phase."""
    return from_complex([[1, 1j], [1j, 1]], [2, 2], "bs")


def hadamard():
    return from_complex([[1, 1], [1, -1]], [2, 2], "had")


def rot345():
    return from_complex([[3, 4], [-4, 3]], [25, 25], "rot345")


def r13():
    """(1, 1+i; 1-i, -1)/sqrt 3."""
    return from_complex([[1, 1 + 1j], [1 - 1j, -1]], [3, 3], "r13")


def r15():
    return from_complex([[1, 2j], [2j, 1]], [5, 5], "r15")


def mult(A, B):
    """A*B for A with equal column denominators."""
    assert len(set(A.d)) == 1
    a = [[complex(*x) for x in r] for r in A.g]
    b = [[complex(*x) for x in r] for r in B.g]
    c = _mul(a, b)
    return simplify(Mat([[(int(round(x.real)), int(round(x.imag))) for x in r] for r in c],
                        [A.d[0] * y for y in B.d]))


V3 = [[1, 1, 1], [1, 1j, 1], [1, 1 + 1j, 0], [1, 1 + 1j, 1], [1, 1, 1j], [2, 1, 0], [1, 2j, 0], [1j, 1, 1 + 1j]]
V4 = [[1, 1, 1, 0], [1, 1j, 1, 1], [1, 1, 1, 1], [0, 1, 1j, 1], [1, 1 + 1j, 1, 0], [1, 1, 1j, 1j]]
V5 = [[1, 1, 0, 1, 1], [1, 1j, 1, 0, 0], [1, 0, 1 + 1j, 1, 0]]


def unitary(m, rng, maxd=10 ** 9):
    """A random exact unitary of m modes (asymmetric, complex)."""
    if m == 1:
        return phases(identity(1), [rng.randrange(4)])
    if m == 2:
        M = rng.choice([bs, hadamard, rot345, r13, r15])()
        M = phases(M, [rng.randrange(4) for _ in range(2)])
        M = phases(M, [rng.randrange(4) for _ in range(2)], rows=False)
        if rng.random() < .5:
            M = permute(M, [1, 0], rows=False)
        return M
    for _ in range(100):
        if m == 3:
            if rng.random() < .7:
                M = householder(rng.choice(V3))
            else:
                M = direct_sum(rng.choice([bs, hadamard, r13])(), identity(1))
                p = list(range(3))
                rng.shuffle(p)
                M = permute(permute(M, p), p, rows=False)
        elif m == 4:
            if rng.random() < .6:
                M = householder(rng.choice(V4))
            else:
                M = direct_sum(rng.choice([bs, hadamard, r13, r15])(), rng.choice([bs, hadamard, r13])())
                p = [0, 2, 1, 3]
                M = permute(M, p)
        else:
            if rng.random() < .6 and m == 5:
                M = householder(rng.choice(V5))
            else:
                M = unitary(m - 2, rng)
                M = direct_sum(M, rng.choice([bs, hadamard, r13])())
        p = list(range(m))
        rng.shuffle(p)
        M = permute(M, p)
        rng.shuffle(p)
        M = permute(M, p, rows=False)
        M = phases(M, [rng.randrange(4) for _ in range(m)])
        M = phases(M, [rng.randrange(4) for _ in range(m)], rows=False)
        if max(M.d) <= maxd:
            return M
    raise RuntimeError


# sqrt of a transmissivity, as a rational a/b
AMPS = [(3, 5), (4, 5), (1, 2), (1, 1), (0, 1)]


def col_loss(M, amps):
    """M @ diag(a_j/b_j): losses before the interferometer."""
    g = [[(x[0] * amps[j][0], x[1] * amps[j][0]) for j, x in enumerate(row)] for row in M.g]
    return simplify(Mat(g, [d * amps[j][1] ** 2 for j, d in enumerate(M.d)]))


def row_loss(M, amps):
    """diag(a_i/b_i) @ M: losses after the interferometer."""
    L = 1
    for a, b in amps:
        L = L * b // math.gcd(L, b)
    g = [[(x[0] * a * (L // b), x[1] * a * (L // b)) for x in row] for row, (a, b) in zip(M.g, amps)]
    return simplify(Mat(g, [d * L * L for d in M.d]))


def lossy(m, rng, maxd=400):
    for _ in range(200):
        M = unitary(m, rng)
        amps = [rng.choice(AMPS) for _ in range(m)]
        kind = rng.randrange(3)
        if kind == 0:
            M = col_loss(M, amps)
        elif kind == 1:
            M = row_loss(M, amps)
        else:
            M = row_loss(col_loss(M, [rng.choice(AMPS[:4]) for _ in range(m)]), amps)
        if max(M.d) <= maxd and any(x != (0, 0) for r in M.g for x in r):
            return M
    return col_loss(identity(m), [AMPS[2]] * m)


WEAK = [(99, 100), (199, 200), (999, 1000), (4999, 5000)]


def weak(m, rng):
    """Slightly lossy: losses of 2%, 1%, 0.2% or 0.04% (intensity) on some or all modes."""
    base = {1: identity, 2: lambda _: rng.choice([bs, hadamard, r13, rot345])()}.get(m)
    M = base(m) if base else (unitary(m, rng, 9) if rng.random() < .6 else perm_mat(rng.sample(range(m), m)))
    w = rng.choice(WEAK)
    amps = [w if rng.random() < .6 else (1, 1) for _ in range(m)]
    if rng.random() < .5:
        amps = [w] * m
    elif amps == [(1, 1)] * m:
        amps[rng.randrange(m)] = w
    if rng.random() < .3:
        amps[rng.randrange(m)] = rng.choice(AMPS)
    return col_loss(M, amps) if rng.random() < .5 else row_loss(M, amps)


def near(M, rng, k=None):
    """M with the intensity of some of its columns lowered by a factor 1 - 1/(d k^2 + 1)."""
    k = k or rng.choice([10, 30, 100, 300, 1000, 3000])
    cols = [j for j in range(M.m) if rng.random() < .6] or [rng.randrange(M.m)]
    g = [[(x[0] * k, x[1] * k) if j in cols else x for j, x in enumerate(row)] for row in M.g]
    return Mat(g, [d * k * k + 1 if j in cols else d for j, d in enumerate(M.d)])


def simple(m, rng):
    """A unitary with small denominators."""
    if m == 2:
        return rng.choice([bs, hadamard, r13])()
    return perm_mat(rng.sample(range(m), m), [rng.randrange(4) for _ in range(m)])


def tiny(m, rng, n):
    """A unitary with a very weak coupling between two modes (n: number of particles)."""
    a = rng.choice({0: [10000], 1: [100, 1000, 10000]}.get(n, [30, 100] if n == 2 else [12]))
    M = from_complex([[a, 1], [-1, a]], [a * a + 1] * 2)
    if m == 1:
        return identity(1)
    if m > 2:
        M = direct_sum(M, identity(m - 2))
    p = list(range(m))
    rng.shuffle(p)
    M = permute(M, p)
    if rng.random() < .5:
        rng.shuffle(p)
    M = permute(M, p, rows=False)
    M = phases(M, [rng.randrange(4) for _ in range(m)])
    return phases(M, [rng.randrange(4) for _ in range(m)], rows=False)


def wide(m, rng, lim=2):
    """A large matrix for permanents only."""
    d = [rng.choice([1, 1, 2, 3]) for _ in range(m)]
    return Mat([[(rng.randint(-lim, lim), rng.randint(-lim, lim)) for _ in range(m)] for _ in range(m)], d, plain=True)


def banded(m, rng, k=3):
    """About k entries of modulus one in each row and column (for permanents)."""
    g = [[(0, 0)] * m for _ in range(m)]
    for _ in range(k):
        for i, j in enumerate(rng.sample(range(m), m)):
            g[i][j] = rng.choice([(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1)])
    return Mat(g, [rng.choice([1, 1, 2]) for _ in range(m)], plain=True)


def wide_perm(m, rng):
    """A large permutation with phases (unitary)."""
    M = perm_mat(rng.sample(range(m), m), [rng.randrange(4) for _ in range(m)])
    return Mat(M.g, M.d, plain=True)


def wide_state(m, n, rng):
    """n particles, most of them in the last modes."""
    S = [0] * m
    for _ in range(n):
        S[rng.choice([rng.randrange(m), rng.randrange(max(0, m - 25), m), m - 1])] += 1
    return tuple(S)


def general(m, rng, maxd=6, lim=2):
    """Arbitrary Gaussian matrix (for permanents): no physical constraint."""
    d = [rng.choice([1, 1, 2, 3, 4, 5][:maxd]) for _ in range(m)]
    g = [[(rng.randint(-lim, lim), rng.randint(-lim, lim)) for _ in range(m)] for _ in range(m)]
    # some structural zeros
    if rng.random() < .4:
        for _ in range(m):
            g[rng.randrange(m)][rng.randrange(m)] = (0, 0)
    return Mat(g, d)


# ---------------------------------------------------------------------------
# states
def states(n, m):
    if m == 1:
        return [(n,)]
    return [(k,) + r for k in range(n, -1, -1) for r in states(n - k, m - 1)]


def lossy_states(n, m):
    return [s for k in range(n + 1) for s in states(k, m)]


def lcm(*xs):
    r = 1
    for x in xs:
        r = r * x // math.gcd(r, x)
    return r


def den_state(M, S):
    r = 1
    for d, s in zip(M.d, S):
        r *= d ** s
    return r


def components(M):
    """Columns grouped by the rows they share."""
    groups = []                                   # (rows, columns)
    for j in range(M.m):
        rows, cols = {i for i in range(M.m) if M.g[i][j] != (0, 0)}, [j]
        rest = []
        for r, c in groups:
            if r & rows:
                rows, cols = rows | r, cols + c
            else:
                rest.append((r, c))
        groups = rest + [(rows, cols)]
    return [c for _, c in groups]


def den_exact(M, S):
    """Common denominator of all outcome probabilities of a pure input S: particles in
    different blocks of the matrix do not meet; a single column gives multinomials."""
    r = den_state(M, S)
    for c in components(M):
        if len(c) > 1:
            r *= math.factorial(sum(S[j] for j in c))
    return r


def den_sectors(M, S, b):
    """For the uniformly lossy law and for its normalised sectors."""
    n = sum(S)
    return den_exact(M, S) * lcm(b ** n, *[math.comb(n, l) for l in range(n + 1)])


def sparse(m, rng, blocks=1, lossy=False):
    """A permutation of m modes with a few two-mode couplings (and single-mode losses)."""
    M = None
    for _ in range(min(blocks, m // 2)):
        B = rng.choice([bs, hadamard, r13, r15, rot345])()
        M = B if M is None else direct_sum(M, B)
    k = m - (M.m if M else 0)
    if k:
        M = direct_sum(M, identity(k)) if M else identity(k)
    if lossy:
        M = col_loss(M, [rng.choice(AMPS[:3]) if rng.random() < .4 else (1, 1) for _ in range(m)])
    M = permute(permute(M, rng.sample(range(m), m)), rng.sample(range(m), m), rows=False)
    M = phases(M, [rng.randrange(4) for _ in range(m)])
    return phases(M, [rng.randrange(4) for _ in range(m)], rows=False)


def large_state(rng, m, n, M, mixing=4):
    """n particles on m modes, at most `mixing` of them in coupled modes."""
    coupled = {j for c in components(M) if len(c) > 1 for j in c}
    for _ in range(1000):
        S = [0] * m
        for _ in range(n):
            S[rng.randrange(m)] += 1
        if sum(S[j] for j in coupled) <= mixing:
            return tuple(S)
    return tuple(S)


def den_kind(kind, M, S, eta=(1, 1), a=0, l=0, level=0):
    """Common denominator of the law of one sample."""
    n, m, b = sum(S), len(S), eta[1]
    f = math.factorial
    if kind in ("gcc", "gccma", "gccb", "lnet"):
        return den_exact(M, S)
    if kind in ("gccu", "gccbu"):
        return den_exact(M, S) * b ** n
    if kind == "nonu":
        a = max(0, min(m, a))
        k = sum(S[:a])
        return f(n) * max(a, 1) ** k * lcm(*M.d[:a]) ** k * den_state(Mat(M.g, [1] * a + M.d[a:]), S)
    if kind == "fixed":
        return f(l) * max(n, 1) ** l * lcm(*M.d[:n]) ** l
    if kind == "usep":
        return f(n) * (max(n, 1) * lcm(*M.d[:n]) * b) ** n
    if kind == "lstate":
        if level == 0:
            return f(n) * (m * lcm(*M.d) * b) ** n
        if level < m:
            return b ** n
        return f(m) * f(n) * (lcm(*M.d) * b) ** n
    raise ValueError(kind)


LIMIT = 500_000_000


def rat(p, D):
    """(N, deviation in units of 1e-12) of a float probability."""
    x = p * D
    if not math.isfinite(x) or abs(x) > LIMIT * 2:
        return (2 ** 30 + 7, 2 ** 30)
    N = int(round(x))
    dev = abs(p - N / D)
    return (N, min(2 ** 30, int(dev * 1e12)))
