"""C22 SpatialTau decomposes rank concordance over neighbouring pairs."""

import numpy as np
from giddy.rank import SpatialTau, Tau
from hypothesis import strategies as st

from checks import c21
from checks import ranks as rk
from harness import gens, ref
from harness.core import Facet, Property, close, need, sut


def arrays(d):
    x, y = rk.pair_of(d)
    return (x, y) if d["as"] == "list" else (np.asarray(x), np.asarray(y))


@st.composite
def cases(draw, max_n=12, min_n=2, **kw):
    d = draw(rk.pair_cases(max_n=max_n, min_n=min_n))
    d["w"] = draw(rk.row_weights(d["n"], symmetric=True, islands=draw(st.booleans()), **kw))
    return d


def neighbouring(x, y, nb):
    """Counts over the set of unordered neighbouring pairs."""
    x, y = np.asarray(x).tolist(), np.asarray(y).tolist()
    pairs = {frozenset((i, j)) for i, js in enumerate(nb) for j in js}
    con = dis = ty = tx = 0
    for p in pairs:
        i, j = sorted(p)
        a, b = (x[i] > x[j]) - (x[i] < x[j]), (y[i] > y[j]) - (y[i] < y[j])
        con += a * b > 0
        dis += a * b < 0
        ty += a != 0 and b == 0
        tx += a == 0 and b != 0
    return len(pairs), con, dis, ty, tx


def check(d):
    x, y = arrays(d)
    w = gens.build_w(d["w"])
    if w.s0 == 0:
        return False, ["no neighbours"]
    m, con, dis, ty, tx = neighbouring(x, y, rk.row_neighbours(d["w"]))
    with sut("SpatialTau"):
        s = SpatialTau(x, y, w)
        c21.compare(s, x, y, "SpatialTau")
        need(int(s.n) == d["n"], f"n is {s.n}")
        need(s.pairs_spatial == m, f"pairs_spatial is {s.pairs_spatial}, expected {m}")
        got = int(s.concordant_spatial), int(s.discordant_spatial)
        need(got == (con, dis), f"concordant, discordant neighbours {got}, expected {(con, dis)}")
        tau = rk.tau_b(con, dis, ty, tx)
        close(float(s.tau_spatial), tau, "tau_spatial", rtol=1e-12, atol=1e-14)
        need(not hasattr(s, "taus"), "taus without permutations")
    tags = [f"x:{d['kx']}", f"y:{d['ky']}", f"as:{d['as']}"] + rk.tie_tags(x, y)
    if d["w"]["ids"] != sorted(d["w"]["ids"]):
        tags.append("ids not in order")
    if any(not j for j in d["w"]["nb"]):
        tags.append("island")
    return con + dis > 0 and m < d["n"] * (d["n"] - 1) // 2, tags


def check_complete(d):
    x, y = arrays(d)
    w = gens.build_w(d["w"])
    with sut("SpatialTau"):
        s = SpatialTau(x, y, w)
        close(float(s.tau_spatial), float(s.tau), "tau_spatial of a complete graph", rtol=1e-10, atol=1e-13)
        t = Tau(x, y)
        need(float(s.concordant_spatial) == float(t.concordant), "concordant_spatial")
        need(float(s.discordant_spatial) == float(t.discordant), "discordant_spatial")
        need(s.pairs_spatial == d["n"] * (d["n"] - 1) // 2, "pairs_spatial")
    return float(t.concordant) + float(t.discordant) > 0, rk.tie_tags(x, y)


@st.composite
def relation_cases(draw):
    d = draw(cases())
    d["as"] = "array"
    d["perm"] = draw(st.permutations(range(d["n"])))
    return d


def check_relations(d):
    """Relabelling the units with their weights; exchanging and reversing variables."""
    x, y = arrays(d)
    rx, ry = (np.searchsorted(np.unique(v), v) for v in (x, y))
    w = gens.build_w(d["w"])
    if w.s0 == 0:
        return False, ["no neighbours"]
    p = d["perm"]  # unit u becomes unit p[u]
    d2 = dict(d["w"], ids=[p[i] for i in d["w"]["ids"]])
    x2, y2 = np.empty_like(rx), np.empty_like(ry)
    x2[p], y2[p] = rx, ry

    def key(s):
        t = float(s.tau_spatial)
        return int(s.concordant_spatial), int(s.discordant_spatial), round(t, 10) if t == t else None

    with sut("SpatialTau"):
        c, e, t = key(SpatialTau(x, y, w))
        need(key(SpatialTau(x2, y2, gens.build_w(d2))) == (c, e, t), "relabelling the units")
        need(key(SpatialTau(ry, rx, w)) == (c, e, t), "exchanging x and y")
        got = key(SpatialTau(-rx, ry, w))
        need(got[:2] == (e, c), "reversing x")
        if t is not None:
            need(abs(got[2] + t) < 1e-9, "reversing x")
    return c + e > 0, rk.tie_tags(x, y)


@st.composite
def dense_cases(draw):
    return {"n": draw(st.sampled_from([150, 270, 330])), "seed": draw(st.integers(0, 10**6)), "drop": draw(st.sampled_from([0, 0.02, 0.3]))}


def check_dense(d):
    """Tens of thousands of neighbouring pairs."""
    from libpysal.weights import W

    rs = np.random.RandomState(d["seed"])
    n = d["n"]
    A = np.triu(rs.rand(n, n) >= d["drop"], 1)
    A |= A.T
    x, y = rs.permutation(n), rs.randint(0, 40, n)
    dx, dy = np.sign(np.subtract.outer(x, x)), np.sign(np.subtract.outer(y, y))
    on = np.triu(A)
    con, dis = int((on & (dx * dy > 0)).sum()), int((on & (dx * dy < 0)).sum())
    w = W({i: np.flatnonzero(A[i]).tolist() for i in range(n)}, silence_warnings=True)
    with sut("SpatialTau"):
        s = SpatialTau(x, y, w)
        need(s.pairs_spatial == on.sum(), f"pairs_spatial is {s.pairs_spatial}, expected {on.sum()}")
        got = int(s.concordant_spatial), int(s.discordant_spatial)
        need(got == (con, dis), f"concordant, discordant neighbours {got}, expected {(con, dis)}")
        want = rk.tau_b(con, dis, int((on & (dy == 0)).sum()), 0)
        close(float(s.tau_spatial), want, "tau_spatial", rtol=1e-10)
    return True, [f"n:{n}"]


PROPERTY = Property(
    "C22",
    [
        Facet("neighbours", cases(), check, 4000),
        Facet("larger maps", cases(max_n=110, min_n=40), check, 180),
        Facet("dense", dense_cases(), check_dense, 8),
        Facet("complete", cases(kinds=("complete",)), check_complete, 1200),
        Facet("relations", relation_cases(), check_relations, 1600),
    ],
    rule="Pairs of vectors of 2-12 values as for C21 with symmetric weights of every shape (also "
    "islands, ids in any order, weights other than 1); counts over the set of unordered pairs. "
    "Non-trivial: an ordered neighbouring pair, and some pair not neighbours.",
    assumptions=[
        "the ids of the weights are the rows 0..n-1 of the data, and neighbours are mutual",
        "tau_spatial is undefined (nan) if neighbours never differ in x, or in y",
    ],
)
