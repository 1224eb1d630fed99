"""C12 Homogeneity tests: Q, LR and dof follow their definitions."""

import numpy as np
from giddy.markov import homogeneity, kullback
from hypothesis import strategies as st
from scipy import stats

from checks import spatial as sp
from harness import gens
from harness.core import Facet, Property, close, need, same, sut


def model(stack):
    """Definition of the tests, cell by cell."""
    M = np.array(stack, dtype=float)
    m, rows, k = M.shape
    pool = M.sum(axis=0)
    Qt, Lt = np.zeros(M.shape), np.zeros(M.shape)
    p0, p1 = np.zeros((rows, k)), np.zeros(M.shape)
    dof = 0
    for i in range(rows):
        n = pool[i].sum()
        if n == 0:
            continue
        b = sum(1 for r in range(m) if M[r, i].sum() > 0)
        a = sum(1 for j in range(k) if pool[i, j] > 0)
        dof += (b - 1) * (a - 1)
        for j in range(k):
            p0[i, j] = pool[i, j] / n
            for r in range(m):
                nr = M[r, i].sum()
                if nr == 0:
                    continue
                p1[r, i, j] = M[r, i, j] / nr
                if p0[i, j] > 0:
                    Qt[r, i, j] = nr * (p1[r, i, j] - p0[i, j]) ** 2 / p0[i, j]
                    if M[r, i, j] > 0:
                        Lt[r, i, j] = 2 * M[r, i, j] * np.log(p1[r, i, j] / p0[i, j])
    return {"Q": Qt.sum(), "LR": Lt.sum(), "dof": dof, "Qt": Qt, "Lt": Lt, "p0": p0, "p1": p1}


def tail(x, dof):
    return 1 - stats.chi2.cdf(x, dof)


def compare(h, stack, what=""):
    r = model(stack)
    tot = float(np.sum(stack)) + 1
    tol = 1e-11 * tot
    close(h.Q, r["Q"], what + "Q", rtol=1e-9, atol=tol)
    close(h.LR, r["LR"], what + "LR", rtol=1e-9, atol=tol)
    need(int(h.dof) == r["dof"], f"{what}dof is {h.dof}, expected {r['dof']}")
    close(h.Q_table, r["Qt"], what + "Q_table", rtol=1e-9, atol=tol)
    close(h.LR_table, r["Lt"], what + "LR_table", rtol=1e-9, atol=tol)
    close(h.p_h0, r["p0"], what + "p_h0", rtol=1e-12)
    close(h.p_h1, r["p1"], what + "p_h1", rtol=1e-12)
    close(np.sum(h.Q_table), h.Q, what + "sum of Q_table", rtol=1e-9, atol=tol)
    close(np.sum(h.LR_table), h.LR, what + "sum of LR_table", rtol=1e-9, atol=tol)
    need(h.Q > -tol and h.LR > -tol, f"{what}negative statistic {h.Q}, {h.LR}")
    if r["dof"] > 0:
        for p, x, n in ((h.Q_p_value, h.Q, "Q_p_value"), (h.LR_p_value, h.LR, "LR_p_value")):
            close(p, tail(float(x), r["dof"]), what + n, rtol=1e-7, atol=1e-12)
    return r


@st.composite
def stacks(draw, max_k=6, max_m=5, min_k=1, min_m=1):
    hi = draw(st.sampled_from([2, 12, 12, 400, 10**5, 10**8]))
    T = draw(sp.count_stacks(max_k=max_k, max_m=max_m, hi=hi, min_k=min_k, min_m=min_m, irreducible=False))
    mode = draw(st.sampled_from(["free", "free", "proportional", "empty regime"]))
    if mode == "proportional":
        f = draw(st.lists(st.integers(1, 5), min_size=len(T), max_size=len(T)))
        T = [[[x * c for x in r] for r in T[0]] for c in f]
    elif mode == "empty regime":
        T = T + [[[0] * len(T[0]) for _ in T[0]]]
    if draw(st.integers(0, 3)) == 0:  # weighted transitions; dyadic, so sums are exact
        T = [[[x / 4.0 for x in r] for r in M] for M in T]
    return {
        "T": T,
        "mode": mode,
        "form": draw(st.sampled_from(["float", "int", "list", "int32", "arrays", "nested"])),
        "regimes": draw(st.permutations(range(len(T)))),
        "cols": draw(gens.span(0, 3)),
        "tall": draw(st.booleans()),
        "classes": draw(st.permutations(range(len(T[0])))),
    }


def formed(T, form):
    A = np.array(T)
    return {
        "float": lambda: A.astype(float),
        "int": lambda: A,
        # where they hold the counts
        "int32": lambda: A if A.max() > 10**6 else A.astype("int32" if A.dtype.kind == "i" else "float32"),
        "list": lambda: [x.astype(float) for x in A],
        "arrays": lambda: list(A),
        "nested": lambda: A.tolist(),
    }[form]()


def check(d):
    T = d["T"]
    with sut("homogeneity"):
        h = homogeneity(formed(T, d["form"]))
        r = compare(h, T)
        tol = 1e-10 * (np.sum(T) + 1)
        if d["mode"] == "proportional":
            need(abs(h.Q) < tol and abs(h.LR) < tol, f"Q={h.Q}, LR={h.LR} for proportional regimes")
        A = np.array(T)[d["regimes"]]
        A = A[:, d["classes"]][:, :, d["classes"]]
        h2 = homogeneity(formed(A.tolist(), d["form"]))
        close(h2.Q, h.Q, "Q after reordering", rtol=1e-9, atol=tol)
        close(h2.LR, h.LR, "LR after reordering", rtol=1e-9, atol=tol)
        need(h2.dof == h.dof, "dof after reordering")
        if d["mode"] == "empty regime":
            h3 = homogeneity(formed(T[:-1], d["form"]))
            close(h3.LR, h.LR, "LR without the empty regime", rtol=1e-9, atol=tol)
            need(h3.dof == h.dof, "dof without the empty regime")
    A = np.array(T)
    tags = [d["mode"], f"form:{d['form']}"]
    if A.dtype.kind == "f":
        tags.append("fractional counts")
    if (A.sum(2).sum(0) == 0).any():
        tags.append("row empty in all regimes")
    if ((A.sum(2) == 0).any(0) & (A.sum(2) > 0).any(0)).any():
        tags.append("row empty in some regimes")
    if (A.sum(1) == 0).any():
        tags.append("empty column")
    return r["dof"] > 0 and r["Q"] > 1e-6, tags


def check_tables(d):
    """Tables of other shapes than square ones."""
    T = np.array(d["T"])
    T = T[:, :, d["cols"] :] if d["tall"] else T[:, d["cols"] :]
    if not T.size:
        return False, ["nothing left"]
    with sut("homogeneity"):
        r = compare(homogeneity(formed(T.tolist(), d["form"])), T.tolist())
    return r["dof"] > 0 and r["Q"] > 1e-6, [f"form:{d['form']}", "square" if T.shape[1] == T.shape[2] else "tall" if d["tall"] else "wide"]


def check_kullback(d):
    T = np.array(d["T"])
    F = T.astype(float) if d["form"] in ("float", "list") else T
    m, k = len(T), T.shape[1]
    r = model(d["T"])
    with sut("kullback"):
        res = kullback(F)
        tol = 1e-11 * (T.sum() + 1) * (np.log(T.sum() + 1) + 1)
        close(res["Conditional homogeneity"], r["LR"], "Conditional homogeneity", rtol=1e-9, atol=tol)
        dof = k * (m - 1) * (k - 1)
        need(int(res["Conditional homogeneity dof"]) == dof, f"dof {res['Conditional homogeneity dof']}")
        if dof > 0:
            x = float(res["Conditional homogeneity"])
            close(
                res["Conditional homogeneity pvalue"], tail(x, dof), "Conditional homogeneity pvalue",
                rtol=1e-7, atol=1e-12,
            )
    return r["dof"] > 0 and r["LR"] > 1e-6, [d["mode"]]


@st.composite
def wide_cases(draw):
    """Many regimes over few classes."""
    m = draw(st.sampled_from([40, 120, 129, 200, 257, 300]))
    k = draw(st.integers(2, 3))
    raw = draw(gens.raw_bytes(m * k * k))
    T = (np.array(list(raw)).reshape(m, k, k) - 100).clip(0) % draw(st.sampled_from([2, 3, 12]))
    return {"T": T.tolist(), "form": draw(st.sampled_from(["float", "int", "list", "int32"]))}


def check_wide(d):
    T = d["T"]
    with sut("homogeneity"):
        r = compare(homogeneity(formed(T, d["form"])), T)
        res = kullback(np.array(T, float))
        close(res["Conditional homogeneity"], r["LR"], "Conditional homogeneity", rtol=1e-9, atol=1e-9 * (np.sum(T) + 1))
    return r["dof"] > 0 and r["Q"] > 1e-6, ["more than 127 regimes" if len(T) > 127 else "fewer"]


@st.composite
def crafted(draw):
    return {"T": draw(sp.count_stacks()), "fill": draw(st.booleans())}


def check_sm(d):
    with sut("Spatial_Markov"):
        s, T = sp.craft(d["T"], fill=d["fill"])
        r = model(T.tolist())
        tol = 1e-10 * (T.sum() + 1)
        for rep in range(2):
            close(s.LR, r["LR"], "Spatial_Markov.LR", rtol=1e-9, atol=tol)
            close(s.Q, r["Q"], "Spatial_Markov.Q", rtol=1e-9, atol=tol)
            need(int(s.dof_hom) == r["dof"], f"dof_hom is {s.dof_hom}, expected {r['dof']}")
            if r["dof"] > 0:
                close(s.Q_p_value, tail(float(s.Q), r["dof"]), "Q_p_value", rtol=1e-7, atol=1e-12)
                close(s.LR_p_value, tail(float(s.LR), r["dof"]), "LR_p_value", rtol=1e-7, atol=1e-12)
        same(s.T, T, "T afterwards")
    return r["dof"] > 0, [f"m:{len(T)}"]


PROPERTY = Property(
    "C12",
    [
        Facet("homogeneity", stacks(), check, 5000),
        Facet("larger stacks", stacks(12, 14, 5, 12), check, 60),
        Facet("kullback, larger stacks", stacks(12, 14, 5, 12), check_kullback, 60),
        Facet("many regimes", wide_cases(), check_wide, 60),
        Facet("tables", stacks(), check_tables, 600),
        Facet("kullback", stacks(), check_kullback, 2500),
        Facet("Spatial_Markov", crafted(), check_sm, 1000),
    ],
    rule="Stacks of 1-6 count matrices over 1-6 classes (also 14 over 12, 300 over 3) (assorted zero patterns, empty rows, "
    "columns and regimes, proportional regimes; tables of r rows and c columns; int and float, arrays and lists); statistics "
    "recomputed cell by cell. Non-trivial: positive dof and statistic.",
    assumptions=["scipy.stats.chi2 gives the tail probabilities; p-values are compared where dof > 0"],
)
