"""C16 LISA_Markov expected transitions are those of independent own and lag moves."""

import numpy as np
from giddy.markov import LISA_Markov

from checks import c11, lisa
from harness import gens, ref
from harness.core import Facet, Property, Violation, close, need, same, sut

KEY = "transposed-null"
# quadrant order as (own low?, lag low?)
ORDER = {False: [(0, 0), (1, 0), (1, 1), (0, 1)], True: [(0, 0), (1, 1), (1, 0), (0, 1)]}


def chain(low):
    """Two-state chain (high, low) of an (n, t) panel of booleans."""
    return ref.normalise(ref.transitions(np.asarray(low).astype(int).tolist(), 2))


def expected(q_counts, own, lag, geoda):
    rows = np.asarray(q_counts).sum(axis=1)
    o = ORDER[geoda]
    E = np.zeros((4, 4))
    for a in range(4):
        for b in range(4):
            E[a, b] = rows[a] * own[o[a][0], o[b][0]] * lag[o[a][1], o[b][1]]
    return E


def equal(m, E):
    """expected_t is E and chi_2 the test of the transitions against it."""
    got = np.asarray(m.expected_t)
    if got.shape != (4, 4) or not np.allclose(got, E, rtol=1e-9, atol=1e-9):
        return False
    with np.errstate(all="ignore"):
        want = c11.pearson(m.transitions, got)
    c = m.chi_2
    if len(c) != 3 or int(c[2]) != want[2]:
        return False
    # cells that are impossible under the null but observed (only possible with
    # the recorded defect) have no defined contribution: giddy divides by one
    T = np.asarray(m.transitions)
    odd = (T[got == 0] ** 2).sum()
    if not np.isclose(float(c[0]), want[0] + odd, rtol=1e-7, atol=1e-9):
        return False
    if want[2] <= 0:
        return True
    return bool(np.isclose(float(c[1]), c11.pvalue(float(c[0]), want[2]), rtol=1e-6, atol=1e-12))


def built_across_units(Y, w, m, geoda):
    """The recorded defect (KNOWN_FINDINGS.txt): the two chains walk across the
    units within each period, above or below each unit's mean over time.
    (matrix, whether a value is too close to the mean to tell)"""
    from libpysal.weights import lag_spatial

    y = np.asarray(Y).T
    ybar = y.mean(axis=0)
    L = np.array([lag_spatial(w, yt) for yt in y])
    with np.errstate(all="ignore"):
        r, rl = y / ybar, L / ybar
        E = expected(m.transitions, chain(r < 1.0), chain(rl < 1.0), geoda)
        edge = (np.abs(r - 1) < 1e-9).any() or (np.abs(rl - 1) < 1e-9).any() or not (ybar != 0).all()
    return E, bool(edge)


def run(d):
    """(object, own/lag chains' matrix as documented, as recorded, unclear)."""
    Y = lisa.series_of(d["y"])
    W = gens.build_w(d["w"])
    g = d["geoda"]
    m = LISA_Markov(Y, W, geoda_quads=g)
    # own and lag states of every unit and period, as the quadrants have them
    code = ORDER[g]
    q = np.asarray(m.q).tolist()
    own = chain([[code[v - 1][0] for v in r] for r in q])
    lag = chain([[code[v - 1][1] for v in r] for r in q])
    W.transform = "r"
    K, edge = built_across_units(Y, W, m, g)
    return m, expected(m.transitions, own, lag, g), K, edge


def wrong(m, E):
    return Violation(
        f"expected_t is {np.asarray(m.expected_t).tolist()}, chi_2 {tuple(map(float, m.chi_2))}; "
        f"independent own and lag moves give {E.tolist()}"
    )


def check(d):
    """The matrix is made of two chains, in the scheme in use, and chi_2 tests it."""
    g = d["geoda"]
    with sut("LISA_Markov"):
        m, E, K, edge = run(d)
        other = LISA_Markov(lisa.series_of(d["y"]), gens.build_w(d["w"]), geoda_quads=not g)
        p = [0, 2, 1, 3]
        T, X = np.asarray(m.transitions), np.asarray(m.expected_t)
        same(np.asarray(other.transitions), T[p][:, p], "transitions in the other scheme")
        close(np.asarray(other.expected_t), X[p][:, p], "expected_t in the other scheme", atol=1e-9)
        close(float(other.chi_2[0]), float(m.chi_2[0]), "chi_2 in the other scheme", rtol=1e-7, atol=1e-9)
        need(int(other.chi_2[2]) == int(m.chi_2[2]), "dof in the other scheme")
        tags = [f"geoda:{g}", f"shape:{d['y']['shape']}"]
        tags.append(f"occupied:{int((T.sum(axis=1) > 0).sum())}")
        if equal(m, E):
            close(X.sum(axis=1), T.sum(axis=1), "row totals of expected_t", atol=1e-9)
        elif edge and not equal(m, K):
            return False, tags + ["too close to a mean to tell"]
        elif not equal(m, K):
            raise wrong(m, E)
    return len(np.unique(m.q)) > 1, tags


def check_definition(d):
    """The chains are those of the quadrants' own and lag sides over time."""
    with sut("LISA_Markov"):
        m, E, K, edge = run(d)
        if equal(m, E):
            return len(np.unique(m.q)) > 1, ["as documented"]
        if equal(m, K):
            raise Violation(
                "expected_t and chi_2 use chains across units instead of over time", key=KEY
            )
        if edge:
            return False, ["too close to a mean to tell"]
        raise wrong(m, E)


PROPERTY = Property(
    "C16",
    [
        Facet("composition", lisa.lisa_cases(islands=True), check, 3600),
        Facet("larger maps", lisa.lisa_cases(min_n=40, max_n=120, max_t=12, islands=True), check, 120),
        Facet("definition", lisa.lisa_cases(islands=True), check_definition, 1600),
    ],
    rule="Series and weights as in C15, both quadrant schemes; expected_t recomputed cell by cell "
    "from the two-state chains (as documented, or as the recorded defect forms them), chi_2 from "
    "expected_t, and both compared between the quadrant schemes. Non-trivial: more than one "
    "quadrant.",
    assumptions=[
        "a result that equals the recorded defect's formula exactly counts as the known finding",
    ],
)
