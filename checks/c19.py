"""C19 Mobility indices equal their formulas."""

import copy
from fractions import Fraction

import numpy as np
from giddy.markov import prais
from giddy.mobility import markov_mobility
from hypothesis import strategies as st

from checks.chains import matrix_cases, matrix_of
from harness import ref
from harness.core import Facet, Property, close, need, same, sut


def det(P):
    """Exact determinant by fraction elimination."""
    n = len(P)
    M = [list(r) for r in P]
    out = Fraction(1)
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None:
            return Fraction(0)
        if p != c:
            M[c], M[p] = M[p], M[c]
            out = -out
        out *= M[c][c]
        for r in range(c + 1, n):
            f = M[r][c] / M[c][c]
            if f:
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return out


@st.composite
def cases(draw, min_k=2, **kw):
    d = draw(matrix_cases(min_k=min_k, empty_rows=False, **kw))
    k = len(d["C"])
    d["ini"] = draw(
        st.one_of(
            st.none(),
            st.lists(st.integers(0, 9), min_size=k, max_size=k).filter(any),
            st.lists(st.sampled_from([0, 1, 7, 1000, 10**6]), min_size=k, max_size=k).filter(any),
            st.integers(0, k - 1).map(lambda i: [int(i == j) for j in range(k)]),
        )
    )
    d["ini_as"] = draw(st.sampled_from(["array", "list"]))
    return d


def check(d):
    C, P = matrix_of(d)
    k = len(C)
    R = ref.rational(C)
    before = copy.deepcopy(P)
    w = d["ini"] or [1] * k
    pi = [Fraction(x, sum(w)) for x in w]
    tr = sum(R[i][i] for i in range(k))
    want = {
        "P": (k - tr) / (k - 1),
        "D": 1 - abs(det(R)),
        "B1": (k - k * sum(pi[i] * R[i][i] for i in range(k))) / (k - 1),
        "B2": sum(pi[i] * R[i][j] * abs(i - j) for i in range(k) for j in range(k)) / (k - 1),
    }
    kw = {}
    if d["ini"]:
        arr = [float(x) for x in pi]
        kw["ini"] = np.array(arr) if d["ini_as"] == "array" else arr
    Pf = np.array([[float(x) for x in r] for r in R])
    with sut("markov_mobility"):
        got = prais(P)
        close(got, [float(1 - R[i][i]) for i in range(k)], "prais", rtol=1e-12, atol=1e-14)
        for ms in ("P", "D"):
            close(markov_mobility(P, measure=ms), float(want[ms]), f"measure {ms}", rtol=1e-9, atol=1e-10)
            close(markov_mobility(P, measure=ms, **kw), float(want[ms]), f"measure {ms}", rtol=1e-9, atol=1e-10)
        for ms in ("B1", "B2"):
            close(markov_mobility(P, measure=ms, **kw), float(want[ms]), f"measure {ms}", rtol=1e-9, atol=1e-11)
        close(markov_mobility(P), float(want["P"]), "default measure", rtol=1e-9, atol=1e-10)
        got = markov_mobility(P, measure="L2")
        need(np.isscalar(got) or np.ndim(got) == 0, f"L2 is {got!r}")
        # the modulus of the second largest eigenvalue: the characteristic
        # polynomial tells a defective (badly conditioned) case apart
        ev = np.sort(np.abs(np.linalg.eigvals(Pf)))[::-1]
        ev2 = np.sort(np.abs(np.linalg.eigvals(Pf.T)))[::-1]
        tol = max(1e-8, 100 * abs(ev[1] - ev2[1]))
        close(float(got), 1 - ev[1], "measure L2", rtol=0, atol=max(tol, 1e-5 if tol > 1e-8 else 1e-7))
        I = np.identity(k)
        for ms in ("P", "D", "L2", "B1", "B2"):
            close(markov_mobility(I, measure=ms, **(kw if ms[0] == "B" else {})), 0.0, f"identity, {ms}", atol=1e-12)
        same(P, before, "the input after the calls")
    tags = [f"form:{d['form']}", f"ini:{'given' if d['ini'] else 'default'}", f"k:{k}"]
    if (np.abs(np.imag(np.linalg.eigvals(Pf))) > 1e-9).any():
        tags.append("complex eigenvalues")
    return not np.array_equal(Pf, I), tags


PROPERTY = Property(
    "C19",
    [
        Facet("indices", cases(), check, 6000),
        Facet("larger matrices", cases(min_k=8, max_k=34), check, 300),
    ],
    rule="Stochastic matrices of 2-7 (and 8-34) states from count patterns (integer and float, arrays and "
    "lists), initial distributions given or not; exact rational formulas (L2: eigenvalues of the "
    "matrix and its transpose). Non-trivial: not the identity.",
    assumptions=["numpy's eigenvalues, with a wider tolerance where those of P and its transpose differ"],
)
