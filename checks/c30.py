"""C30 Matrix utilities do exactly what they say."""

from itertools import permutations

import numpy as np
from giddy.util import fill_empty_diagonals, get_lower, shuffle_matrix
from hypothesis import strategies as st

from harness import gens
from harness.core import Facet, Property, need, raises, same, sut

LAYOUTS = ["C", "F", "view", "list"]


@st.composite
def matrix_cases(draw, min_k=1, max_k=6):
    k = draw(st.integers(min_k, max_k))
    m = draw(st.sampled_from([0, 0, 1, 2, 3, 5, 6]))  # 0: two dimensions
    raw = draw(gens.raw_bytes(max(m, 1) * k * (k + 1)))
    return {
        "k": k,
        "m": m,
        "raw": list(raw),
        "kind": draw(st.sampled_from(["prob", "count", "tiny", "diagonal", "bool", "f4"])),
        "layout": draw(st.sampled_from(LAYOUTS)),
        "empty": draw(st.sampled_from(["some", "some", "none", "all"])),
    }


def matrix_of(d):
    k, m = d["k"], max(d["m"], 1)
    raw = np.array(d["raw"]).reshape(m, k, k + 1)
    A = (raw[:, :, :k] % 4) * 1.0
    if d["kind"] == "diagonal":
        A *= np.eye(k)
    for l in range(m):
        for i in range(k):
            gone = {"some": raw[l, i, k] % 3 == 0, "none": False, "all": True}[d["empty"]]
            if gone:
                A[l, i] = 0
            elif A[l, i].sum() == 0 and d["empty"] == "none":
                A[l, i, (i + 1) % k] = 1
    if d["kind"] in ("prob", "diagonal", "f4"):
        s = A.sum(axis=2, keepdims=True)
        A = np.divide(A, s, out=np.zeros_like(A), where=s > 0)
        if d["kind"] == "f4":
            A = A.astype(np.float32)
    elif d["kind"] == "count":
        A = A.astype(int)
    elif d["kind"] == "tiny":
        A = A * 1e-300
    elif d["kind"] == "bool":
        A = A > 0
    return A if d["m"] else A[0]


def laid(A, layout):
    if layout == "F":
        return np.asfortranarray(A)
    if layout == "view":
        big = np.zeros(tuple(2 * s for s in A.shape), A.dtype)
        v = big[tuple(slice(None, None, 2) for _ in A.shape)]
        v[...] = A
        return v
    if layout == "list":
        return A.tolist()
    return A.copy()


def check_fill(d):
    A = matrix_of(d)
    want = A.copy()
    rows = 0
    for l in np.ndindex(*A.shape[:-1]):
        if not any(A[l].tolist()):
            want[l + (l[-1],)] = 1
            rows += 1
    arg = laid(A, d["layout"])
    with sut("fill_empty_diagonals"):
        got = fill_empty_diagonals(arg)
        same(got, want, "fill_empty_diagonals")
        same(arg, A, "the argument of fill_empty_diagonals")
        same(fill_empty_diagonals(got), want, "filling twice")
        bad = [np.zeros(d["k"]), np.zeros((1, 2, d["k"], d["k"]))]
        for b in bad:
            raises(NotImplementedError, lambda: fill_empty_diagonals(b), f"{b.ndim} dimensions")
    return rows > 0, [f"dim:{A.ndim}", f"kind:{d['kind']}", f"layout:{d['layout']}", f"filled:{min(rows, 3)}"]


@st.composite
def lower_cases(draw, min_n=1, max_n=8):
    n = draw(st.integers(min_n, max_n))
    return {
        "n": n,
        "raw": list(draw(gens.raw_bytes(n * n))),
        "kind": draw(st.sampled_from(["int", "float", "bool"])),
        "layout": draw(st.sampled_from(LAYOUTS[:3])),
    }


def check_lower(d):
    n = d["n"]
    A = np.array(d["raw"]).reshape(n, n)
    A = {"int": A - 100, "float": A / 8.0, "bool": A % 2 == 0}[d["kind"]]
    arg = laid(A, d["layout"])
    want = np.array([A[i, j] for i in range(n) for j in range(i)], A.dtype).reshape(-1, 1)
    with sut("get_lower"):
        same(get_lower(arg), want, "get_lower")
        same(arg, A, "the argument of get_lower")
    return n > 2, [f"n:{n}", f"layout:{d['layout']}"]


@st.composite
def shuffle_cases(draw):
    n = draw(st.sampled_from([1, 2, 3, 3, 4, 4, 6, 9]))
    return {"n": n, "seed": draw(st.integers(0, 10**6)), "ids": draw(st.sampled_from(["list", "array"]))}


def check_shuffle(d):
    n = d["n"]
    B = {1: 5, 2: 120, 3: 240, 4: 500}.get(n, 60)
    X = np.arange(n * n).reshape(n, n) * 3 + 1
    keep = X.copy()
    seen = {}
    np.random.seed(d["seed"])
    with sut("shuffle_matrix"):
        for _ in range(B):
            ids = list(range(n)) if d["ids"] == "list" else np.arange(n)
            got = np.asarray(shuffle_matrix(X, ids))
            need(got.shape == (n, n), f"shape {got.shape}")
            diag = {int(X[i, i]): i for i in range(n)}
            need(set(np.diag(got).tolist()) == set(diag), f"diagonal {np.diag(got).tolist()}")
            p = [diag[int(v)] for v in np.diag(got)]
            same(got, X[np.ix_(p, p)], "rows and columns under one permutation")
            seen[tuple(p)] = seen.get(tuple(p), 0) + 1
        same(X, keep, "the matrix handed over")
        if n <= 4:
            allp = list(permutations(range(n)))
            q = 1.0 / len(allp)
            tol = 8 * np.sqrt(q * (1 - q) / B)
            for p in allp:
                share = seen.get(p, 0) / B
                need(abs(share - q) <= tol + 1e-9, f"permutation {p} has share {share} of {B}, expected {q}")
                if n > 1:  # tol may exceed q: none may be missing either
                    need(seen.get(p, 0) > 0 or (1 - q) ** B > 1e-12, f"permutation {p} never occurs in {B}")
        else:
            for i in range(n):
                for j in range(n):
                    c = sum(v for p, v in seen.items() if p[i] == j)
                    need(c > 0 or (1 - 1 / n) ** B > 1e-12, f"unit {j} never gets to place {i}")
                    need(c <= B / n + 9 * np.sqrt(B / n), f"unit {j} gets to place {i} {c} times of {B}")
    return n > 1, [f"n:{n}", f"ids:{d['ids']}"]


PROPERTY = Property(
    "C30",
    [
        Facet("fill_empty_diagonals", matrix_cases(), check_fill, 6400),
        Facet("fill_empty_diagonals, larger", matrix_cases(7, 120), check_fill, 100),
        Facet("get_lower, larger", lower_cases(9, 180), check_lower, 100),
        Facet("get_lower", lower_cases(), check_lower, 2400),
        Facet("shuffle_matrix", shuffle_cases(), check_shuffle, 240),
    ],
    rule="Matrices and stacks of 1-6 states (probabilities, counts, tiny values, booleans, single "
    "precision; C, Fortran and strided layouts, lists) with none, some or all rows empty; "
    "square matrices of 1-8 rows; 5-500 shuffles of each of many seeds. Non-trivial: a row to "
    "fill, more than two rows, more than one row.",
    assumptions=["the shares of permutations may differ from equal ones by 8 standard errors"],
)
