"""C11 Chi-square tests of conditional against overall dynamics are correct."""

import numpy as np
from giddy.markov import Spatial_Markov, chi2
from hypothesis import strategies as st
from scipy import stats

from checks import spatial as sp
from harness import gens, ref
from harness.core import Facet, Property, close, need, sut


def pearson(A, B):
    """(statistic, p-value, dof) of counts A against the rows of B."""
    A, B = np.asarray(A, float), np.asarray(B, float)
    x = 0.0
    for i in range(len(A)):
        for j in range(A.shape[1]):
            if B[i].sum() > 0:
                e = A[i].sum() * B[i, j] / B[i].sum()
                if e > 0:
                    x += (A[i, j] - e) ** 2 / e
    dof = (int((A.sum(1) > 0).sum()) - 1) * (int((B.sum(1) > 0).sum()) - 1)
    return x, pvalue(x, dof), dof


def pvalue(x, dof):
    """Upper tail; nan when there is no degree of freedom."""
    return 1 - stats.chi2.cdf(x, dof)


def triple(got, want, what):
    need(len(got) == 3, f"{what} has {len(got)} elements")
    need(not isinstance(got[2], float) or got[2] == int(got[2]), f"{what}: dof {got[2]!r}")
    need(int(got[2]) == want[2], f"{what}: dof {got[2]}, expected {want[2]}")
    close(got[0], want[0], f"{what}: statistic", rtol=1e-9, atol=1e-9)
    if np.isnan(want[1]) or want[2] <= 0:
        return  # no chi-square distribution to speak of
    close(got[1], pvalue(float(got[0]), want[2]), f"{what}: p-value", rtol=1e-7, atol=1e-13)


@st.composite
def pairs(draw, min_k=1, max_k=7):
    hi = draw(st.sampled_from([2, 12, 300, 10**5, 10**8]))
    B = draw(gens.count_matrix(min_k=min_k, max_k=max_k, hi=hi))
    k = len(B)
    raw = draw(gens.raw_bytes(k * k))
    mode = draw(st.sampled_from(["part", "free", "proportional", "same"]))
    A = [[0] * k for _ in range(k)]
    for i in range(k):
        for j in range(k):
            r = raw[i * k + j]
            if B[i][j]:
                A[i][j] = {
                    "part": r * 40503 % (B[i][j] + 1) if hi > 300 else r % (B[i][j] + 1),
                    "free": r % 20,
                    "proportional": B[i][j] * (1 + raw[i * k] % 3),
                    "same": B[i][j],
                }[mode]
    return {"A": A, "B": B, "mode": mode, "dt": draw(st.sampled_from(["int", "float", "int32", "uint8", "int8", "mixed"]))}


def check_pair(d):
    A, B = np.array(d["A"]), np.array(d["B"])
    want = pearson(A, B)
    if d["dt"] == "float":
        A, B = A.astype(float), B.astype(float)
    elif d["dt"] == "mixed":
        B = B.astype(float)
    elif d["dt"] != "int" and max(A.max(), B.max()) <= np.iinfo(d["dt"]).max:
        A, B = A.astype(d["dt"]), B.astype(d["dt"])
    with sut("chi2"):
        got = chi2(A, B)
        triple(got, want, "chi2")
        if d["mode"] in ("proportional", "same"):
            need(abs(got[0]) < 1e-9 * max(1, A.sum()), f"chi2 of proportional rows is {got[0]}")
    tags = [d["mode"]]
    if (A.sum(1) == 0).any():
        tags.append("empty row of T1")
    if (B.sum(1) == 0).any():
        tags.append("empty row of T2")
    return np.count_nonzero(A) > 1 and len(A) > 1, tags


def compare(s):
    T, tr = np.asarray(s.T), np.asarray(s.transitions)
    m, k = len(T), len(tr)
    want = [pearson(T[l], tr) for l in range(m)]
    need(len(s.chi2) == m, f"chi2 has {len(s.chi2)} elements, {m} lag classes")
    for l in range(m):
        triple(s.chi2[l], want[l], f"chi2[{l}]")
    x2 = sum(w[0] for w in want)
    close(s.x2, x2, "x2", rtol=1e-9, atol=1e-9)
    dof = k * (k - 1) * (k - 1)
    need(int(s.x2_dof) == dof, f"x2_dof is {s.x2_dof}, expected {dof}")
    if dof:
        close(s.x2_pvalue, pvalue(float(s.x2), dof), "x2_pvalue", rtol=1e-7, atol=1e-13)
    return T, tr


def compare_sh(s, T, tr):
    """shtest, for chains with one positive stationary distribution."""
    m, k = len(T), len(tr)
    (o0,) = ref.stationary(tr.astype(int).tolist()).values()
    base = np.array([float(x) for x in o0])
    need(len(s.shtest) == m, f"shtest has {len(s.shtest)} elements, {m} lag classes")
    for l in range(m):
        (o,) = ref.stationary(T[l].astype(int).tolist()).values()
        n = T[l].sum()
        cond = np.array([float(x) for x in o])
        x = float((n * (cond - base) ** 2 / base).sum())
        got = s.shtest[l]
        need(len(got) == 3 and int(got[2]) == k - 1, f"shtest[{l}] is {got}")
        close(float(got[0]), x, f"shtest[{l}]: statistic", rtol=1e-6, atol=1e-7 * max(1.0, n))
        if k > 1:
            close(float(got[1]), pvalue(float(got[0]), k - 1), f"shtest[{l}]: p-value", rtol=1e-7, atol=1e-13)


@st.composite
def crafted(draw):
    return {"T": draw(sp.count_stacks(hi=draw(st.sampled_from([3, 6]))))}


def check_crafted(d):
    with sut("Spatial_Markov(...)"):
        s, T = sp.craft(d["T"])
        tags = [f"m:{len(T)}", f"k:{T.shape[1]}"]
        compare(s)
        tr = T.sum(0)
        if ref.is_irreducible(tr) and (tr.sum(1) > 0).all() and (T.sum(2) > 0).all():
            if all(len(ref.closed_sccs(t)) == 1 for t in T):
                compare_sh(s, T, tr)
                tags.append("shtest")
                if any(not ref.is_irreducible(t) for t in T):
                    tags.append("shtest with a transient conditional class")
    return T.sum() > 3, tags


def check_series(d):
    y, Y, w, kw, c, lc = sp.arguments(d)
    with sut("Spatial_Markov(...)"):
        s = Spatial_Markov(y, w, **kw)
        T, tr = compare(s)
    tags = [f"fill:{d['fill']}", "k != m" if len(T) != len(tr) else "k == m"]
    if (T.sum((1, 2)) == 0).any():
        tags.append("empty lag class")
    return np.count_nonzero(T) > 3, tags


PROPERTY = Property(
    "C11",
    [
        Facet("chi2", pairs(), check_pair, 6000),
        Facet("crafted counts", crafted(), check_crafted, 1600),
        Facet("larger maps", sp.sm_cases(min_n=40, max_n=130, max_t=14), check_series, 180),
        Facet("many classes", sp.sm_cases(min_n=20, max_n=60, max_t=8, many=True), check_series, 60),
        Facet("larger matrices", pairs(min_k=8, max_k=30), check_pair, 300),
        Facet("series", sp.sm_cases(max_n=10, max_t=7), check_series, 1200),
    ],
    rule="Pairs of count matrices with support(T1) within support(T2), Spatial_Markov objects "
    "realising generated counts (k != m) and from random series; statistics recomputed cell by "
    "cell. Non-trivial: several non-zero cells.",
    assumptions=["scipy.stats.chi2 gives the tail probabilities; p-values are compared where dof > 0"],
)
