"""C05 First passage time variances match the exact second moments."""

import copy
import warnings

import numpy as np
from giddy import ergodic
from hypothesis import strategies as st

from checks.chains import matrix_cases, matrix_of, shape_tags
from harness import ref
from harness.core import Facet, Property, Violation, close, need, same, sut


def moments(C):
    """Exact means and variances of the first passage times; with many states
    the floating point solution."""
    k = len(C)
    if k > 13:
        mean, S = ref.hitting_float(C)
        return mean, S - mean**2
    M, S = ref.hitting(C)
    var = np.array([[float(S[i][j] - M[i][j] ** 2) for j in range(k)] for i in range(k)])
    return ref.to_float(M), var


def check(d):
    C, P = matrix_of(d)
    k = len(C)
    mean, var = moments(C)
    big = mean.max()
    before = copy.deepcopy(P)
    with sut("var_mfpt_ergodic"):
        got = np.asarray(ergodic.var_mfpt_ergodic(P))
        need(got.shape == (k, k), f"shape {got.shape}")
        need(np.isfinite(got).all(), "not finite")
        if big < 1e4:
            tol = 1e-7 * (var + 1e-2) + 1e-10 * big**2
            bad = np.argwhere(np.abs(got - var) > tol)
            need(
                not len(bad),
                f"variance: got {got.tolist()}, expected {var.tolist()} (at {bad[:3].tolist()})",
            )
        same(P, before, "the input after the call")
    return big < 1e4, shape_tags(C) + (["huge times"] if big >= 1e4 else [])


def check_alias(d):
    C, P = matrix_of(d)
    P = np.array(P, dtype=float)
    with sut("deprecated aliases"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        same(ergodic.var_fmpt_ergodic(P), ergodic.var_mfpt_ergodic(P), "var_fmpt_ergodic")
        same(ergodic.fmpt(P), ergodic.mfpt(P), "fmpt")
        same(ergodic._fmpt_ergodic(P), ergodic.mfpt(P), "_fmpt_ergodic")
    return len(C) > 1, shape_tags(C)


@st.composite
def fill_cases(draw):
    return draw(matrix_cases(max_k=5))


def check_fill(d):
    """fmpt passes fill_empty_classes on."""
    C, P = matrix_of(d)
    with sut("fmpt"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = ergodic.fmpt(P, True)
        close(a, ergodic.mfpt(P, fill_empty_classes=True), "fmpt with filling", rtol=1e-12)
        if (C.sum(1) == 0).any():
            for name in ("fmpt", "mfpt"):
                try:
                    getattr(ergodic, name)(P)
                except ValueError:
                    continue
                raise Violation(f"{name} of a matrix with empty rows raises nothing unless told to fill them")
        else:
            close(ergodic.fmpt(P), a, "fmpt", rtol=1e-12)
    return (C.sum(1) == 0).any(), shape_tags(C)


PROPERTY = Property(
    "C05",
    [
        Facet("variance", matrix_cases(irreducible=True, heavy=3), check, 4800),
        Facet("larger matrices", matrix_cases(irreducible=True, min_k=8, max_k=12), check, 180),
        Facet("many states", matrix_cases(irreducible=True, min_k=14, max_k=46), check, 200),
        Facet("aliases", matrix_cases(irreducible=True, max_k=5), check_alias, 800),
        Facet("alias filling", fill_cases(), check_fill, 800),
    ],
    rule="Irreducible transition matrices (random patterns closed by a Hamiltonian cycle, also "
    "periodic and integer ones) against exact rational first and second moments (float systems for 14-46 states). Non-trivial: "
    "all mean times below 1e4, resp. at least two states or an empty row.",
    assumptions=["matrices with mean times above 1e4 are only checked for finite results"],
)
