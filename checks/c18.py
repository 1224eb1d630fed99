"""C18 Full-rank and geographic-rank Markov use distinct ranks per period."""

import numpy as np
from giddy.markov import FullRank_Markov, GeoRank_Markov
from hypothesis import strategies as st

from harness import gens, ref
from harness.core import Facet, Property, close, need, same, sut


@st.composite
def cases(draw, large=False):
    n = draw(gens.span(46, 320) if large else st.one_of(gens.span(1, 14), gens.span(1, 14), gens.span(15, 45)))
    t = draw(gens.span(2, 10))
    d = draw(gens.series(n, t))
    d["form"] = draw(st.sampled_from(["array", "list", "F", "int", "neg", "object", "small", "float32", "large"]))
    # values which only full precision tells apart
    d["near"] = draw(st.sampled_from([None, None, None, 1.0, 1e6, -3e-5, 2.0**40]))
    d["fill"] = draw(st.booleans())
    return d


def given_of(d):
    y = gens.series_of(d)
    if d["near"]:
        y = d["near"] * (1 + (y.argsort(axis=0) % 5 + np.arange(len(y))[:, None] % 3) * 2.0**-51)
    if d["form"] == "large":  # integers beyond the precision of floats
        y = 2**60 + y.argsort(axis=0) % 7 - np.arange(len(y))[:, None] % 3
        return y, y
    if d["form"] == "neg":
        y = -y
    if d["form"] == "int" and np.array_equal(y, np.round(y)) and np.abs(y).max() < 2**60:
        return y, y.astype(int)
    if d["form"] == "small" and np.array_equal(y, np.round(y)) and np.abs(y).max() < 128:
        return y, y.astype(np.uint8 if y.min() >= 0 else np.int8)
    if d["form"] == "float32":
        y = y.astype(np.float32)
        return y.astype(float), y
    if d["form"] == "list":
        return y, y.tolist()
    if d["form"] == "F":
        return y, np.asfortranarray(y)
    return y, y


def check(d):
    y, arg = given_of(d)
    n, t = y.shape
    asc = np.array([ref.ordinal(c) for c in y.T.tolist()]).T
    ranks = n + 1 - asc
    with sut("FullRank_Markov"):
        m = FullRank_Markov(arg, summary=False, fill_empty_classes=d["fill"])
        same(m.ranks, ranks, "ranks")
        C = ref.transitions((ranks - 1).tolist(), n)
        same(np.ravel(m.classes), np.arange(1, n + 1), "classes")
        same(m.transitions, C, "transitions")
        close(m.p, ref.normalise(C), "p", rtol=1e-12)
        same(np.asarray(m.transitions).sum(axis=1), np.full(n, t - 1.0), "transitions out of every rank")
        same(np.asarray(m.transitions).sum(axis=0), np.full(n, t - 1.0), "transitions into every rank")
        if ref.is_irreducible(C):
            close(np.diag(np.atleast_2d(m.mfpt)), np.full(n, float(n)), "recurrence times", rtol=1e-6)
    with sut("GeoRank_Markov"):
        g = GeoRank_Markov(arg, summary=False, fill_empty_classes=d["fill"])
        at = [[int(np.where(asc[:, s] == r)[0][0]) for s in range(t)] for r in range(1, n + 1)]
        G = ref.transitions(at, n)
        same(np.ravel(g.classes), np.arange(1, n + 1), "GeoRank classes")
        same(g.transitions, G, "GeoRank transitions")
        close(g.p, ref.normalise(G), "GeoRank p", rtol=1e-12)
        same(np.asarray(g.transitions).sum(axis=1), np.full(n, t - 1.0), "transitions out of every unit")
        if ref.is_irreducible(G):
            close(np.diag(np.atleast_2d(g.mfpt)), np.full(n, float(n)), "GeoRank recurrence times", rtol=1e-6)
    tags = ["values:near ties" if d["near"] else f"values:{d['kind']}", f"form:{d['form']}"]
    if any(len(set(c)) < n for c in y.T.tolist()):
        tags.append("ties")
    if ref.is_irreducible(C):
        tags.append("irreducible")
    return n > 1 and (ranks != ranks[:, :1]).any(), tags


PROPERTY = Property(
    "C18",
    [Facet("ranks", cases(), check, 5000), Facet("more units", cases(True), check, 120)],
    rule="Series of 1-14 units and 2-10 periods (ties, negative, huge, tiny; arrays and nested "
    "lists); ranks recomputed by sorting on (value, position). Non-trivial: some rank changes.",
)
