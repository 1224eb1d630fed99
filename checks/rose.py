"""Shared pieces of the checks on rose diagrams."""

import numpy as np
from hypothesis import strategies as st

from harness import gens

KINDS = ("ties", "ints", "quarters", "decimals", "huge", "tiny", "offset")


@st.composite
def rose_cases(draw, min_n=2, max_n=14, n=None, ks=None, kinds=KINDS):
    if n is None:
        n = draw(gens.span(min_n, max_n))
    k = draw(st.sampled_from(ks)) if ks else draw(
        st.one_of(st.sampled_from([4, 8, 4, 8, 12, 30, 75, 150]), st.integers(1, 40))
    )
    return {
        "y": draw(gens.series(n, 2, kinds=kinds)),
        "mode": draw(st.sampled_from(["any", "any", "still", "axis", "diagonal"])),
        "dt": draw(st.sampled_from(["float", "float", "int", "int8", "uint8", "F", "view"])),
        "w": draw(gens.weights_case(n=n, islands=draw(st.booleans()), transforms=("r", "r", "b", "o", "d", "v"), selfs=True)),
        "k": k,
    }


def data(d):
    Y = gens.series_of(d["y"]).copy()
    n = len(Y)
    if d["mode"] == "still":  # some units do not move
        Y[::2, 1] = Y[::2, 0]
    elif d["mode"] == "axis":  # only the first unit moves: lags of the others do
        Y[1:, 1] = Y[1:, 0]
    elif d["mode"] == "diagonal":  # all move alike
        Y[:, 1] = Y[:, 0] + (Y[0, 1] - Y[0, 0])
    whole = np.array_equal(Y, np.round(Y))
    if d["dt"] == "int" and whole:
        Y = Y.astype(int)
    elif d["dt"] == "int8" and whole and np.abs(Y).max() < 128:
        Y = Y.astype(np.int8)
    elif d["dt"] == "uint8" and whole and Y.min() >= 0 and Y.max() < 256:
        Y = Y.astype(np.uint8)
    elif d["dt"] == "view":
        Y = np.repeat(Y, 2, axis=1)[:, ::2]
    elif d["dt"] == "F":
        Y = np.asfortranarray(Y)
    return Y


def moves(Y, d):
    """Changes of the values and of their lags, and the rounding level of each."""
    F = Y.astype(float)
    M = gens.dense_w(d["w"])
    L = M @ F
    top = np.abs(F).max() * max(1.0, np.abs(M).sum(axis=1).max()) + 1e-300
    return F[:, 1] - F[:, 0], L[:, 1] - L[:, 0], L, 1e-13 * top


def bounds(theta, cuts):
    """For every angle the sectors it may be counted in."""
    k = len(cuts) - 1
    out = []
    for t in theta.tolist():
        exact = [j for j in range(k) if t >= 0 and t == cuts[j]]
        if exact:  # on a cut: the sector starting there
            out.append({exact[0]})
            continue
        u = t if t >= 0 else t + 2 * np.pi
        ok = {j for j in range(k) if cuts[j] - 1e-12 <= u <= cuts[j + 1] + 1e-12}
        if u >= 2 * np.pi - 1e-12:
            ok.add(0)
            ok.add(k - 1)
        out.append(ok)
    return out
