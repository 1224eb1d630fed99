"""C09 Discrete Spatial_Markov conditions on the modal neighbour category."""

import numpy as np
from giddy.markov import Spatial_Markov

from checks import spatial as sp
from harness import gens
from harness.core import Facet, Property, need, same, sut


def check(d):
    lab, idx, panel = gens.labels_of(d["panel"])
    M = gens.dense_w(d["w"])
    labels = sorted({lab[v] for v in idx.ravel().tolist()})
    pos = {c: i for i, c in enumerate(labels)}
    cls = np.array([[pos[lab[v]] for v in row] for row in idx.tolist()])
    k = len(labels)
    allowed, ties = sp.allowed_lags(cls, M, k)
    w = gens.build_w(d["w"])
    np.random.seed(d["seed"])
    with sut("Spatial_Markov(discrete=True)"):
        s = Spatial_Markov(panel, w, discrete=True, k=7, m=3)
        need(int(s.k) == k and int(s.m) == k, f"k, m are {s.k}, {s.m}, expected {k}")
        same(np.ravel(s.classes).tolist(), labels, "classes")
        same(s.class_ids, cls, "class_ids")
        L = np.asarray(s.lclass_ids)
        need(L.shape == cls.shape, f"lclass_ids has shape {L.shape}")
        for i in range(cls.shape[0]):
            for t in range(cls.shape[1]):
                a, b = allowed[i][t]
                ok = int(L[i, t]) in a or (d["w"]["transform"] == "r" and int(L[i, t]) in b)
                need(ok, f"lag category of unit {i} in period {t} is {L[i, t]}, expected one of {sorted(a)}")
        same(s.T, sp.tally((k, k, k), L, cls), "T")
    rand = sum(len(a) > 1 for r in allowed for a, _ in r)
    tags = [f"labels:{d['panel']['kind']}", f"w:{d['w']['transform']}"]
    if ties:
        tags.append("tie")
    if ties > rand:
        tags.append("tie broken by own category")
    if rand:
        tags.append("tie left to chance")
    return k > 1 and len(np.unique(L)) > 1, tags


PROPERTY = Property(
    "C09",
    [Facet("lags", sp.discrete_cases(), check, 6000), Facet("larger maps", sp.discrete_cases(huge=True), check, 40)],
    rule="Discrete panels with up to 5 categories (ints, negative, sparse, strings) and general "
    "weights; admissible lag categories recomputed from the dense weights. Non-trivial: at least "
    "two categories occur among the lags.",
    assumptions=["row-standardised weights: a choice among categories tied up to rounding is accepted"],
)
