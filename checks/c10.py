"""C10 Spatial_Markov long-run summaries agree with each conditional chain."""

import zlib

import numpy as np
from giddy.markov import Spatial_Markov
from hypothesis import strategies as st

from checks import c03, c04
from checks import spatial as sp
from harness import gens, ref
from harness.core import Facet, Property, need, raises, sut


ORDERS = ["sfSF", "FSfs", "SsFf", "fFsS", "FsSfFs", "SFsf", "sSsFf", "fsFS"]


def compare(s, T, tr, fill, order="sfSF"):
    """s, S, f, F of a Spatial_Markov with counts T, tr, read in that order."""
    k, m = len(tr), len(T)
    for name in order:
        counts = tr if name in "sf" else T
        if (counts.sum(-1) == 0).any() and not fill:
            raises(ValueError, lambda: getattr(s, name), f"{name} with an empty row")
        elif name == "s":
            c03.compare(s.s, tr, "s")
        elif name == "f":
            c04.compare(s.f, tr, "f")
        elif name == "S":
            S = s.S
            need(len(S) == m, f"S has {len(S)} elements, {m} lag classes")
            for l in range(m):
                c03.compare(np.array(S[l], dtype=float), T[l], f"S[{l}]")
            if all(len(ref.closed_sccs(T[l])) == 1 for l in range(m)):
                need(np.shape(S) == (m, k), f"S has shape {np.shape(S)}, expected {(m, k)}")
        else:
            F = np.asarray(s.F)
            need(F.shape == (m, k, k), f"F has shape {F.shape}")
            for l in range(m):
                c04.compare(F[l], T[l], f"F[{l}]")


def order_of(d):
    return ORDERS[zlib.crc32(repr(sorted(d.items())).encode()) % len(ORDERS)]


def tags_of(T, tr, fill):
    if (T.sum(2) == 0).any() and not fill:
        return ["empty conditional row, not filled"]
    n = {len(ref.closed_sccs(t)) for t in T}
    tags = [f"filled:{bool((T.sum(2) == 0).any())}"]
    if n == {1}:
        tags.append("one recurrent class each")
    elif len(n) > 1:
        tags.append("differing numbers of recurrent classes")
    else:
        tags.append("equal number of recurrent classes > 1")
    if all(ref.is_irreducible(t) for t in T):
        tags.append("all irreducible")
    return tags


@st.composite
def crafted(draw):
    return {"T": draw(sp.count_stacks()), "fill": draw(st.booleans())}


def check_crafted(d):
    with sut("Spatial_Markov(...)"):
        s, T = sp.craft(d["T"], fill=d["fill"])
        need(np.array_equal(s.T, T), f"T is {np.asarray(s.T).tolist()}, expected {T.tolist()}")
        tr = T.sum(0)
        compare(s, T, tr, d["fill"], order_of(d))
    return True, tags_of(T, tr, d["fill"])


def check_series(d):
    y, Y, w, kw, c, lc = sp.arguments(d)
    with sut("Spatial_Markov(...)"):
        s = Spatial_Markov(y, w, **kw)
        T, tr = np.asarray(s.T).astype(int), np.asarray(s.transitions).astype(int)
        compare(s, T, tr, d["fill"], order_of(d))
    return tr.sum() > 4, tags_of(T, tr, d["fill"])


def check_discrete(d):
    lab, idx, panel = gens.labels_of(d["panel"])
    np.random.seed(d["seed"])
    with sut("Spatial_Markov(discrete=True)"):
        s = Spatial_Markov(panel, gens.build_w(d["w"]), discrete=True, fill_empty_classes=d["fill"])
        T, tr = np.asarray(s.T).astype(int), np.asarray(s.transitions).astype(int)
        compare(s, T, tr, d["fill"], order_of(d))
    return tr.sum() > 4, tags_of(T, tr, d["fill"])


PROPERTY = Property(
    "C10",
    [
        Facet("crafted counts", crafted(), check_crafted, 2000),
        Facet("larger maps", sp.sm_cases(min_n=40, max_n=130, max_t=14), check_series, 120),
        Facet("series", sp.sm_cases(max_n=10, max_t=7), check_series, 1000),
        Facet("discrete", sp.discrete_cases(max_k=4), check_discrete, 600),
    ],
    rule="Panels and weights made to realise generated stacks of conditional counts (irreducible, "
    "reducible, empty rows), random series and discrete panels; exact rational oracles of C03 "
    "and C04 for every conditional chain. Non-trivial: more than four transitions, or crafted.",
    assumptions=["times above 1e7 are compared only for being finite or infinite"],
)
