"""C07 Spatial_Markov discretises values and lags exactly as configured."""

import numpy as np
from giddy.markov import Spatial_Markov
from libpysal.weights import lag_spatial

from checks import spatial as sp
from harness import gens
from harness.core import Facet, Property, close, need, same, sut


def compare(got, want, cut, k, fuzzy, what):
    g = np.asarray(got)
    need(g.shape == want.shape, f"{what}: shape {g.shape}")
    bad = (g != want) & ~fuzzy
    need(
        not bad.any(),
        f"{what}: {g.tolist()}, expected {want.tolist()} (first at {np.argwhere(bad)[:1].tolist()})",
    )
    need((g >= 0).all() and (g < k).all(), f"{what} outside 0..{k - 1}")


def check(d):
    y, Y, w, kw, c, lc = sp.arguments(d)
    L = np.asarray(lag_spatial(w, Y))
    dense = sp.lag_of(d)
    scale = np.abs(Y).max() * max(1.0, np.abs(gens.dense_w(d["w"])).sum(1).max()) + 1e-300
    assert np.abs(L - dense).max() <= 1e-9 * scale  # libpysal and the case agree
    exact = d["y"]["kind"] in ("ties", "ints", "quarters") and d["w"]["transform"] != "r"
    cls, cuts, k, b = sp.classify(Y, d["k"], c, d["fixed"])
    lcls, lcuts, m, lb = sp.classify(L, d["m"], lc, d["fixed"])
    fuzzy = np.zeros(Y.shape, bool)
    lfuzzy = fuzzy if exact else sp.near(L, lb)
    with sut("Spatial_Markov(...)"):
        s = Spatial_Markov(y, w, **kw)
        need(int(s.k) == k, f"k is {s.k}, expected {k}")
        need(int(s.m) == m, f"m is {s.m}, expected {m}")
        compare(s.class_ids, cls, c, k, fuzzy, "class_ids")
        compare(s.lclass_ids, lcls, lc, m, lfuzzy, "lclass_ids")
        for got, want, what in ((s.cutoffs, cuts, "cutoffs"), (s.lag_cutoffs, lcuts, "lag_cutoffs")):
            if want is None:
                need(got is None, f"{what} is {got!r}, expected None")
            else:
                close(got, want, what, rtol=1e-9, atol=0)
        same(np.ravel(s.classes), np.arange(k), "classes")
        same(np.ravel(s.lclasses), np.arange(m), "lclasses")
        need(np.asarray(s.T).shape == (m, k, k), f"T has shape {np.asarray(s.T).shape}")
    tags = [
        f"cutoffs:{'user' if c is not None else 'quantile'}",
        f"lag_cutoffs:{'user' if lc is not None else 'quantile'}",
        f"fixed:{d['fixed']}",
        f"w:{d['w']['transform']}",
        f"values:{d['y']['kind']}",
    ]
    if c is not None and np.isin(Y, c).any():
        tags.append("value equal to a cutoff")
    if lc is not None and np.isin(L, lc).any():
        tags.append("lag equal to a cutoff")
    if k != m:
        tags.append("k != m")
    if any(not x for x in d["w"]["nb"]):
        tags.append("island")
    if d["w"]["ids"] != list(range(len(d["w"]["ids"]))):
        tags.append("ids not 0..n-1")
    return len(np.unique(cls)) > 1 and len(np.unique(lcls)) > 1, tags


PROPERTY = Property(
    "C07",
    [
        Facet("configurations", sp.sm_cases(), check, 4000),
        Facet("larger maps", sp.sm_cases(min_n=40, max_n=130, max_t=14), check, 180),
        Facet("many classes", sp.sm_cases(min_n=20, max_n=60, max_t=8, many=True), check, 120),
        Facet("exact boundaries", sp.sm_cases(exact=True), check, 2000),
    ],
    rule="Series (ties, integers, decimals, huge, tiny) of up to 14 units and 9 periods, also 130 units, general "
    "weights (islands, asymmetric, any ids, transforms r/b/o/d/v, neighbours of themselves), k, m in 1..10 (and up to 40), fixed or not, user "
    "cutoffs that often coincide with observed values or lags. Classes recomputed by counting "
    "bounds below the value; comparisons are exact except for lags within rounding of a bound. "
    "Non-trivial: at least two occupied own and lag classes.",
    assumptions=["mapclassify.Quantiles gives the quantile bounds (the top class is open; a bound which rounding adds at the maximum does not count)", "libpysal.lag_spatial agrees with a dense product (checked)"],
)
