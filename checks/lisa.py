"""Shared pieces of the checks on LISA_Markov."""

import numpy as np
from hypothesis import strategies as st

from harness import gens


def warmup():
    """Compile the permutation engine once, before the workers are forked."""
    from esda.moran import Moran_Local
    from libpysal.weights import lat2W

    np.random.seed(0)
    Moran_Local(np.arange(9.0) ** 2, lat2W(3, 3), permutations=5)


@st.composite
def lisa_cases(draw, min_n=3, max_n=16, max_t=6, islands=False, large=True):
    n = draw(st.integers(min_n, max_n))
    t = draw(st.integers(2, max_t))
    kinds = ("ties", "ints", "quarters", "decimals", "huge", "tiny", "offset")
    y = draw(gens.series(n, t, kinds=kinds))
    y["shape"] = draw(st.sampled_from(["plain", "plain", "split", "one-sided", "int"]))
    w = draw(gens.weights_case(n=n, islands=islands and draw(st.booleans())))
    return {
        "y": y,
        "w": w,
        "geoda": draw(st.booleans()),
        "seed": draw(st.integers(0, 10**6)),
        "perms": draw(st.sampled_from([9, 19, 49])),
        "sig": draw(st.sampled_from([0.05, 0.01, 0.1, 0.25, 0.4, 0.0, 1.0, "at", "at", "at"])),
        "sig_pos": draw(st.integers(0, 200)),
    }


def series_of(d):
    """No period is constant (the local Moran would be undefined)."""
    Y = gens.series_of(d).copy()
    n, t = Y.shape
    if d["shape"] == "split":
        Y[: n // 2] = Y[: n // 2] + 3 * (np.abs(Y).max() + 1)
    elif d["shape"] == "one-sided":
        Y[0] = Y[0] + 100 * (np.abs(Y).max() + 1)
    for s in range(t):
        if (Y[:, s] == Y[0, s]).all():
            Y[0, s] += abs(Y[0, s]) + 1
    if d["shape"] == "int" and np.array_equal(Y, np.round(Y)) and np.abs(Y).max() < 2**40:
        Y = Y.astype(int)
    return Y


def morans(Y, d, w, permutations=0):
    """The local Morans of every period, one after the other."""
    from esda.moran import Moran_Local

    return [
        Moran_Local(Y[:, s], w, permutations=permutations, geoda_quads=d["geoda"])
        for s in range(Y.shape[1])
    ]


def level(d, p):
    """Significance level, for 'at' exactly one of the p-values."""
    if d["sig"] != "at":
        return d["sig"]
    v = np.unique(p[np.isfinite(p)])
    return float(v[d["sig_pos"] % len(v)]) if len(v) else 0.05


def sides(Y, d):
    """(own high, lag high, own at the mean, lag at the mean) booleans."""
    Y = np.asarray(Y, float)
    M = gens.dense_w(dict(d["w"], transform="r"))
    Z = Y - Y.mean(axis=0)
    L = M @ Z
    scale = np.abs(Y).max(axis=0) + 1e-300
    return Z > 0, L > 0, np.abs(Z) <= 1e-9 * scale, np.abs(L) <= 1e-9 * scale
