"""C15 LISA_Markov quadrants, moves and significance are those of the local Morans."""

import numpy as np
from giddy.markov import LISA_Markov
from hypothesis import strategies as st

from checks import lisa
from harness import gens, ref
from harness.core import Facet, Property, close, need, same, sut

QUAD = {False: {(1, 1): 1, (0, 1): 2, (0, 0): 3, (1, 0): 4}, True: {(1, 1): 1, (0, 0): 2, (0, 1): 3, (1, 0): 4}}


def check_quadrants(Y, d, q):
    own, lag, own0, lag0 = lisa.sides(Y, d)
    code = QUAD[d["geoda"]]
    q = np.asarray(q)
    need(q.shape == Y.shape, f"q has shape {q.shape}, expected {Y.shape}")
    fuzzy = 0
    for i in range(Y.shape[0]):
        for s in range(Y.shape[1]):
            a = {int(own[i, s])} | ({0, 1} if own0[i, s] else set())
            b = {int(lag[i, s])} | ({0, 1} if lag0[i, s] else set())
            ok = {code[x, y] for x in a for y in b}
            need(int(q[i, s]) in ok, f"q[{i},{s}] is {q[i, s]}, expected {sorted(ok)}")
            fuzzy += len(ok) > 1
    return fuzzy


def check_chain(m, q):
    C = ref.transitions((np.asarray(q) - 1).tolist(), 4)
    same(m.classes, np.arange(1, 5), "classes")
    need(int(m.k) == 4, f"k is {m.k}")
    same(m.transitions, C, "transitions")
    close(m.p, ref.normalise(C), "p", rtol=1e-12)
    mt = np.array([[4 * (a - 1) + b for a, b in zip(r[:-1], r[1:])] for r in np.asarray(q).tolist()])
    same(m.move_types, mt, "move_types")
    return mt


def tags_of(q, d):
    tags = [f"geoda:{d['geoda']}", f"quadrants:{len(np.unique(q))}", f"shape:{d['y']['shape']}"]
    if d["w"]["ids"] != list(range(len(d["w"]["ids"]))):
        tags.append("ids not 0..n-1")
    return tags


def check_plain(d):
    Y = lisa.series_of(d["y"])
    with sut("LISA_Markov"):
        m = LISA_Markov(Y, gens.build_w(d["w"]), geoda_quads=d["geoda"])
        fuzzy = check_quadrants(Y, d, m.q)
        check_chain(m, m.q)
        need(not hasattr(m, "significant_moves"), "significant_moves without permutations")
    return len(np.unique(m.q)) > 1, tags_of(m.q, d) + (["value at the mean"] if fuzzy else [])


def check_perm(d):
    Y = lisa.series_of(d["y"])
    w = gens.build_w(d["w"])
    np.random.seed(d["seed"])
    p = np.array([ml.p_z_sim for ml in lisa.morans(Y, d, w, d["perms"])]).T
    sl = lisa.level(d, p)
    np.random.seed(d["seed"])
    with sut("LISA_Markov(permutations=...)"):
        m = LISA_Markov(
            Y, gens.build_w(d["w"]), permutations=d["perms"], significance_level=sl, geoda_quads=d["geoda"]
        )
        check_quadrants(Y, d, m.q)
        mt = check_chain(m, m.q)
        got = np.asarray(m.p_values)
        need(got.shape == Y.shape, f"p_values has shape {got.shape}, expected {Y.shape}")
        need(
            np.allclose(got, p, rtol=1e-9, atol=1e-12, equal_nan=True),
            f"p_values {got.tolist()}, local Morans {p.tolist()}",
        )
        need(m.significance_level == sl, "significance_level")
        sig = got <= sl
        off = np.where(sig[:, :-1], np.where(sig[:, 1:], 0, 16), np.where(sig[:, 1:], 32, 48))
        same(m.significant_moves, mt + off, "significant_moves")
    tags = tags_of(m.q, d)
    kinds = np.unique(off)
    tags += [f"offset:{o}" for o in kinds.tolist()]
    if d["sig"] == "at":
        tags.append("level equal to a p-value")
    return len(kinds) > 1, tags


@st.composite
def mass_cases(draw):
    return {
        "n": [draw(st.sampled_from([60, 40, 15])), draw(st.integers(30, 60))],
        "t": draw(st.sampled_from([90, 60, 20])),
        "seed": draw(st.integers(0, 10**6)),
        "move": draw(st.sampled_from([0.01, 0.3, 1.0])),
        "geoda": draw(st.booleans()),
    }


def check_mass(d):
    """A hundred thousand transitions."""
    from libpysal.weights import lat2W

    rs = np.random.RandomState(d["seed"])
    w = lat2W(*d["n"])
    y = rs.rand(w.n, d["t"])
    for s in range(1, d["t"]):
        keep = rs.rand(w.n) >= d["move"]
        y[keep, s] = y[keep, s - 1]
    z = y - y.mean(axis=0)
    lag = w.sparse @ z
    code = QUAD[d["geoda"]]
    with sut("LISA_Markov"):
        m = LISA_Markov(y, w, geoda_quads=d["geoda"])
        want = np.where(z > 0, np.where(lag > 0, code[1, 1], code[1, 0]), np.where(lag > 0, code[0, 1], code[0, 0]))
        clear = (np.abs(z) > 1e-9) & (np.abs(lag) > 1e-9)
        same(np.asarray(m.q)[clear], want[clear], "q")
        check_chain(m, m.q)
    return True, ["more than 32767 in a cell" if np.max(m.transitions) > 32767 else "smaller"]


PROPERTY = Property(
    "C15",
    [
        Facet("quadrants", lisa.lisa_cases(islands=True), check_plain, 2400),
        Facet("larger maps", lisa.lisa_cases(min_n=40, max_n=120, islands=True), check_plain, 32),
        Facet("mass", mass_cases(), check_mass, 16),
        Facet("significance, larger maps", lisa.lisa_cases(min_n=40, max_n=120), check_perm, 24),
        Facet("significance", lisa.lisa_cases(), check_perm, 1200),
    ],
    rule="Series of 3-16 units and 2-6 periods (ties, integers, huge, tiny, one-sided, split), "
    "general weights, both quadrant schemes, significance levels often equal to a p-value; "
    "quadrants from dense row-standardised weights (either side accepted within rounding of "
    "the mean), p-values from esda's local Morans replayed under the same seed. Non-trivial: "
    "more than one quadrant, resp. more than one kind of significance.",
    assumptions=["esda.Moran_Local's p_z_sim is the local Moran pseudo p-value"],
    warmup=lisa.warmup,
)
