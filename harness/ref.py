"""Reference models, written from the definitions."""

from fractions import Fraction
from itertools import combinations

import numpy as np


# ----------------------------------------------------------------- graph structure


def reach(C):
    """Reflexive-transitive closure of the positive entries (empty row = self)."""
    k = len(C)
    R = [[bool(C[i][j] > 0) or i == j for j in range(k)] for i in range(k)]
    for m in range(k):
        for i in range(k):
            if R[i][m]:
                for j in range(k):
                    if R[m][j]:
                        R[i][j] = True
    return R


def sccs(C):
    k = len(C)
    R = reach(C)
    left, out = set(range(k)), []
    while left:
        i = min(left)
        comp = {j for j in left if R[i][j] and R[j][i]}
        out.append(frozenset(comp))
        left -= comp
    return out


def closed_sccs(C):
    R = reach(C)
    k = len(C)
    return [c for c in sccs(C) if all((j in c) or not R[i][j] for i in c for j in range(k))]


def is_irreducible(C):
    return len(sccs(C)) == 1


# ----------------------------------------------------------------- exact algebra


def solve(A, b):
    """Solve a Fraction system by Gauss-Jordan; b is a list of columns."""
    n = len(A)
    M = [list(map(Fraction, A[i])) + [Fraction(c[i]) for c in b] for i in range(n)]
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c] != 0)
        M[c], M[p] = M[p], M[c]
        inv = 1 / M[c][c]
        M[c] = [x * inv for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [[M[i][n + j] for i in range(n)] for j in range(len(b))]


def rational(C):
    """Row-stochastic Fractions of a count matrix, empty rows absorbing."""
    P = []
    for i, row in enumerate(C):
        s = sum(int(x) for x in row)
        if s == 0:
            P.append([Fraction(int(i == j)) for j in range(len(row))])
        else:
            P.append([Fraction(int(x), s) for x in row])
    return P


def stationary(C):
    """{recurrent class: exact stationary distribution over all states}."""
    P = rational(C)
    k = len(C)
    out = {}
    for comp in closed_sccs(C):
        idx = sorted(comp)
        m = len(idx)
        A = [[P[idx[j]][idx[i]] - (i == j) for j in range(m)] for i in range(m)]
        A[-1] = [1] * m
        sol = solve(A, [[0] * (m - 1) + [1]])[0]
        full = [Fraction(0)] * k
        for i, s in zip(idx, sol):
            full[i] = s
        out[comp] = full
    return out


def sure(P, j):
    """The states other than j which reach j with probability one."""
    k = len(P)
    others = [i for i in range(k) if i != j]
    to = [[l for l in others if P[i][l] > 0] for i in range(k)]
    # states which reach j avoiding nothing else than j itself
    can = {i for i in others if P[i][j] > 0}
    grow = True
    while grow:
        more = {i for i in others if i not in can and any(l in can for l in to[i])}
        grow = bool(more)
        can |= more
    lost = set(others) - can
    grow = True
    while grow:
        more = {i for i in others if i not in lost and any(l in lost for l in to[i])}
        grow = bool(more)
        lost |= more
    return [i for i in others if i not in lost]


def hitting_float(C):
    """As hitting(), by floating point solution of the systems; infinite where
    j is not surely reached (exactly decided)."""
    P = np.array([[float(x) for x in r] for r in rational(C)])
    k = len(P)
    M, S = np.full((k, k), np.inf), np.full((k, k), np.inf)
    for j in range(k):
        fin = sure(P.tolist(), j)
        if fin:
            Q = P[np.ix_(fin, fin)]
            A = np.eye(len(fin)) - Q
            m = np.linalg.solve(A, np.ones(len(fin)))
            M[fin, j] = m
            S[fin, j] = np.linalg.solve(A, 1 + 2 * Q @ m)
        go = [l for l in range(k) if l != j and P[j, l] > 0]
        if set(go) <= set(fin):
            M[j, j] = 1 + sum(P[j, l] * M[l, j] for l in go)
            S[j, j] = 1 + sum(P[j, l] * (2 * M[l, j] + S[l, j]) for l in go)
    return M, S


def hitting(C):
    """Exact (k,k) mean first passage times (Fractions; None for infinite) and,
    where finite, second moments."""
    P = rational(C)
    k = len(C)
    M = [[None] * k for _ in range(k)]
    S = [[None] * k for _ in range(k)]
    for j in range(k):
        others = [i for i in range(k) if i != j]
        fin = sure(P, j)
        m, s = {}, {}
        if fin:
            A = [[(a == b) - P[a][b] for b in fin] for a in fin]
            m1 = solve(A, [[1] * len(fin)])[0]
            m = dict(zip(fin, m1))
            # E[T^2] = 1 + 2 sum P m + sum P s
            rhs = [1 + 2 * sum(P[a][b] * m[b] for b in fin) for a in fin]
            s = dict(zip(fin, solve(A, [rhs])[0]))
        for i in fin:
            M[i][j], S[i][j] = m[i], s[i]
        go = [l for l in others if P[j][l] > 0]
        if all(l in m for l in go):
            M[j][j] = 1 + sum(P[j][l] * m[l] for l in go)
            S[j][j] = 1 + sum(P[j][l] * (2 * m[l] + s[l]) for l in go)
    return M, S


def to_float(M):
    return np.array([[np.inf if x is None else float(x) for x in row] for row in M])


# ----------------------------------------------------------------- Markov counts


def transitions(idx, k):
    C = np.zeros((k, k), int)
    for row in idx:
        for a, b in zip(row[:-1], row[1:]):
            C[a, b] += 1
    return C


def normalise(C, fill=False):
    C = np.asarray(C, float)
    out = np.zeros_like(C)
    for i, row in enumerate(C):
        s = row.sum()
        if s > 0:
            out[i] = [x / s for x in row]
        elif fill:
            out[i, i] = 1.0
    return out


# ----------------------------------------------------------------- ranks and pairs


def ordinal(col):
    """1..n ascending, ties by position."""
    order = sorted(range(len(col)), key=lambda i: (col[i], i))
    r = [0] * len(col)
    for pos, i in enumerate(order):
        r[i] = pos + 1
    return r


def average_ranks(col):
    col = list(col)
    return [
        sum(1 for b in col if b < a) + (sum(1 for b in col if b == a) + 1) / 2 for a in col
    ]


def sign(a, b):
    return (a > b) - (a < b)


def pair_sign(x, y, i, j):
    return sign(x[i], x[j]) * sign(y[i], y[j])


def pair_counts(x, y, pairs=None):
    """concordant, discordant, tied only in y, tied only in x."""
    con = dis = ty = tx = 0
    if pairs is None:
        pairs = combinations(range(len(x)), 2)
    for i, j in pairs:
        a, b = sign(x[i], x[j]), sign(y[i], y[j])
        if a and b:
            if a == b:
                con += 1
            else:
                dis += 1
        elif a:
            ty += 1
        elif b:
            tx += 1
    return con, dis, ty, tx


# ----------------------------------------------------------------- alignment


def align(a, b, sub, indel):
    """Minimum cost alignment by memoised recursion over prefixes."""
    from functools import lru_cache

    @lru_cache(None)
    def d(i, j):
        if i == 0:
            return j * indel
        if j == 0:
            return i * indel
        return min(
            d(i - 1, j) + indel,
            d(i, j - 1) + indel,
            d(i - 1, j - 1) + sub(a[i - 1], b[j - 1]),
        )

    return d(len(a), len(b))


def components(nodes, edges):
    """Sets of connected nodes of an undirected graph."""
    parent = {v: v for v in nodes}

    def find(v):
        while parent[v] != v:
            parent[v] = parent[parent[v]]
            v = parent[v]
        return v

    for a, b in edges:
        parent[find(a)] = find(b)
    out = {}
    for v in nodes:
        out.setdefault(find(v), set()).add(v)
    return list(out.values())
