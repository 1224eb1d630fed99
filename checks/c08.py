"""C08 Spatial_Markov conditional chains partition the aspatial transitions."""

import numpy as np
from giddy.markov import Markov, Spatial_Markov
from hypothesis import strategies as st

from checks import spatial as sp
from harness import gens, ref
from harness.core import Facet, Property, close, need, same, sut


def compare(s, fill):
    cls, lcls = np.asarray(s.class_ids), np.asarray(s.lclass_ids)
    k, m = int(s.k), int(s.m)
    n, t = cls.shape
    T = sp.tally((m, k, k), lcls, cls)
    tr = ref.transitions(cls.tolist(), k)
    same(s.T, T, "T")
    same(s.transitions, tr, "transitions")
    same(np.asarray(s.T).sum(axis=0), tr, "sum of T over the lag classes")
    need(np.asarray(s.T).sum() == n * (t - 1), "T does not add up to n(t-1)")
    close(s.p, ref.normalise(tr, fill), "p", rtol=1e-12, atol=0)
    P = np.asarray(s.P)
    need(P.shape == (m, k, k), f"P has shape {P.shape}")
    for l in range(m):
        close(P[l], ref.normalise(T[l], fill), f"P[{l}]", rtol=1e-12, atol=0)
    return T, tr


def tags_of(T, tr, fill):
    tags = [f"fill:{fill}"]
    if (tr.sum(1) == 0).any():
        tags.append("unoccupied own class")
    if (T.sum((1, 2)) == 0).any():
        tags.append("unoccupied lag class")
    if len(T) != T.shape[1]:
        tags.append("k != m")
    return tags


def check(d):
    y, Y, w, kw, c, lc = sp.arguments(d)
    with sut("Spatial_Markov(...)"):
        s = Spatial_Markov(y, w, **kw)
        T, tr = compare(s, d["fill"])
    tags = tags_of(T, tr, d["fill"])
    tags.append("continuous, " + ("user" if c else "quantile"))
    return np.count_nonzero(T) > 2 and (T.sum((1, 2)) > 0).sum() > 1, tags


def check_discrete(d):
    lab, idx, panel = gens.labels_of(d["panel"])
    w = gens.build_w(d["w"])
    np.random.seed(d["seed"])
    with sut("Spatial_Markov(discrete=True)"):
        s = Spatial_Markov(panel, w, discrete=True, fill_empty_classes=d["fill"])
        T, tr = compare(s, d["fill"])
        mk = Markov(panel, summary=False, fill_empty_classes=d["fill"])
        same(s.transitions, mk.transitions, "transitions against Markov of the panel")
        same(s.p, mk.p, "p against Markov of the panel")
    return np.count_nonzero(T) > 2, tags_of(T, tr, d["fill"]) + ["discrete"]


@st.composite
def perm_cases(draw):
    d = draw(sp.sm_cases(exact=True))
    n = d["y"]["n"]
    d["perm"] = draw(st.permutations(range(n)))
    return d


def check_relabel(d):
    """Listing the units in another order changes nothing but class_ids' rows."""
    y, Y, w, kw, c, lc = sp.arguments(d)
    p = d["perm"]
    inv = {old: new for new, old in enumerate(p)}
    w2 = {
        "ids": [d["w"]["ids"][i] for i in p],
        "nb": [[inv[j] for j in d["w"]["nb"][i]] for i in p],
        "wt": [list(d["w"]["wt"][i]) for i in p],
        "transform": d["w"]["transform"],
    }
    with sut("Spatial_Markov(...)"):
        a = Spatial_Markov(Y, w, **kw)
        b = Spatial_Markov(Y[p], gens.build_w(w2), **kw)
        same(np.asarray(b.class_ids), np.asarray(a.class_ids)[p], "class_ids of reordered units")
        same(np.asarray(b.lclass_ids), np.asarray(a.lclass_ids)[p], "lclass_ids of reordered units")
        same(b.T, a.T, "T of reordered units")
        same(b.transitions, a.transitions, "transitions of reordered units")
        close(b.P, a.P, "P of reordered units", rtol=1e-12, atol=0)
    return p != sorted(p) and len(np.unique(a.class_ids)) > 1, [f"fixed:{d['fixed']}"]


@st.composite
def mass_cases(draw):
    return {
        "n": [draw(st.sampled_from([60, 45, 20])), draw(st.integers(40, 60))],
        "t": draw(st.sampled_from([90, 60, 20])),
        "k": draw(st.integers(2, 3)),
        "m": draw(st.integers(2, 3)),
        "seed": draw(st.integers(0, 10**6)),
        "move": draw(st.sampled_from([0.01, 0.3, 1.0])),
        "fill": False,
    }


def check_mass(d):
    """A hundred thousand transitions."""
    from libpysal.weights import lat2W

    rs = np.random.RandomState(d["seed"])
    w = lat2W(*d["n"])
    w.transform = "r"
    y = rs.rand(w.n, d["t"])
    for s in range(1, d["t"]):
        keep = rs.rand(w.n) >= d["move"]
        y[keep, s] = y[keep, s - 1]
    with sut("Spatial_Markov(...)"):
        s = Spatial_Markov(y, w, k=d["k"], m=d["m"])
        T, tr = compare(s, False)
    return True, ["more than 32767 in a cell" if T.max() > 32767 else "smaller"]


PROPERTY = Property(
    "C08",
    [
        Facet("continuous", sp.sm_cases(), check, 3200),
        Facet("larger maps", sp.sm_cases(min_n=40, max_n=130, max_t=14), check, 180),
        Facet("discrete, larger maps", sp.discrete_cases(huge=True), check_discrete, 120),
        Facet("many classes", sp.sm_cases(min_n=20, max_n=60, max_t=8, many=True), check, 60),
        Facet("mass", mass_cases(), check_mass, 8),
        Facet("discrete", sp.discrete_cases(), check_discrete, 1800),
        Facet("reordered units", perm_cases(), check_relabel, 1000),
    ],
    rule="Spatial_Markov configurations as in C07 and discrete panels (ints, strings). The counts "
    "are recomputed from the exposed class_ids and lclass_ids. Non-trivial: more than two "
    "non-zero cells of T, over at least two lag classes (continuous).",
)
