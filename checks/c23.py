"""C23 Local concordance statistics are averages of the concordance matrix."""

import numpy as np
from giddy.rank import SpatialTau, Tau, Tau_Local, Tau_Local_Neighbor, Tau_Local_Neighborhood
from hypothesis import strategies as st

from checks import ranks as rk
from harness import gens
from harness.core import Facet, Property, close, need, same, sut


def check_local(d):
    x, y = rk.pair_of(d)
    n = d["n"]
    S = rk.signs(x, y)
    with sut("Tau_Local"):
        t = Tau_Local(x, y)
        need(int(t.n) == n, f"n is {t.n}")
        same(np.asarray(t.S).astype(int), S, "S")
        close(t.tau_local, S.sum(axis=1) / (n - 1.0), "tau_local", rtol=1e-12)
        close(float(t.tau), S.sum() / (n * (n - 1.0)), "tau", rtol=1e-12)
        close(float(t.tau), float(np.mean(t.tau_local)), "tau against the mean of tau_local", rtol=1e-10)
        distinct = len(set(np.asarray(x).tolist())) == n == len(set(np.asarray(y).tolist()))
        if distinct:
            close(float(t.tau), float(Tau(x, y).tau), "tau without ties", rtol=1e-10)
    return bool(S.any()) and n > 2, [f"x:{d['kx']}", f"y:{d['ky']}"] + rk.tie_tags(x, y) + ["no ties"] * distinct


@st.composite
def cases(draw, min_n=2, max_n=12):
    d = draw(rk.pair_cases(min_n=min_n, max_n=max_n))
    d["w"] = draw(rk.row_weights(d["n"]))
    return d


def sign_of(v):
    return np.where(np.asarray(v) < 0, -1, 1)


def check_neighbor(d):
    x, y = rk.pair_of(d)
    n = d["n"]
    S = rk.signs(x, y)
    nb = rk.row_neighbours(d["w"])
    tot = sum(len(j) for j in nb)
    ln = np.array([S[i, js].sum() / len(js) for i, js in enumerate(nb)])
    wt = np.array([len(js) / tot for js in nb])
    with sut("Tau_Local_Neighbor"):
        t = Tau_Local_Neighbor(x, y, gens.build_w(d["w"]))
        need(int(t.n) == n, f"n is {t.n}")
        close(t.tau_ln, ln, "tau_ln", rtol=1e-12)
        close(t.tau_ln_weights, wt, "tau_ln_weights", rtol=1e-12)
        same(t.sign, sign_of(ln), "sign")
        need(not hasattr(t, "tau_ln_sim"), "tau_ln_sim without permutations")
        mutual = all(i in nb[j] for i, js in enumerate(nb) for j in js)
        tags = rk.tie_tags(x, y) + (["mutual"] if mutual else ["one-way neighbours"])
        untied = not any(np.asarray(v)[i] == np.asarray(v)[j] for v in (x, y) for i, js in enumerate(nb) for j in js)
        if mutual and untied:
            s = SpatialTau(x, y, gens.build_w(d["w"]))
            g = float((t.tau_ln * t.tau_ln_weights).sum())
            close(g, float(s.tau_spatial), "weighted mean of tau_ln against the spatial tau", rtol=1e-9, atol=1e-12)
            tags.append("spatial tau")
    if d["w"]["ids"] != sorted(d["w"]["ids"]):
        tags.append("ids not in order")
    return len(set(ln.tolist())) > 1, tags


def check_neighborhood(d):
    x, y = rk.pair_of(d)
    S = rk.signs(x, y)
    nb = rk.row_neighbours(d["w"])
    want = []
    for i, js in enumerate(nb):
        m = [i] + list(js)
        want.append(sum(S[a, b] for a in m for b in m if a != b) / (len(m) * (len(m) - 1.0)))
    n = d["n"]
    with sut("Tau_Local_Neighborhood"):
        t = Tau_Local_Neighborhood(x, y, gens.build_w(d["w"]))
        close(t.tau_lnhood, want, "tau_lnhood", rtol=1e-12)
        same(t.sign, sign_of(want), "sign")
        same(np.asarray(t.S).astype(int), S, "S")
        close(t.tau_local, S.sum(axis=1) / (n - 1.0), "tau_local", rtol=1e-12)
        need(not hasattr(t, "tau_lnhood_sim"), "tau_lnhood_sim without permutations")
    tags = rk.tie_tags(x, y)
    if d["w"]["ids"] != sorted(d["w"]["ids"]):
        tags.append("ids not in order")
    return len(set(want)) > 1, tags


PROPERTY = Property(
    "C23",
    [
        Facet("local", rk.pair_cases(), check_local, 3200),
        Facet("neighbor", cases(), check_neighbor, 3200),
        Facet("neighborhood", cases(), check_neighborhood, 3200),
        Facet("local, larger maps", rk.pair_cases(min_n=40, max_n=110), check_local, 120),
        Facet("neighbor, larger maps", cases(40, 330), check_neighbor, 40),
        Facet("neighborhood, larger maps", cases(40, 330), check_neighborhood, 40),
    ],
    rule="Pairs of vectors of 2-14 values as for C21 with weights of every shape (mutual and "
    "one-way, ids in any order); statistics from signs of all pairs. Non-trivial: statistics "
    "that differ over the units (some pair ordered in both variables for Tau_Local).",
    assumptions=["the ids of the weights are the rows 0..n-1 of the data, every unit has neighbours"],
)
