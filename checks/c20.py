"""C20 Theta measures rank change cohesion and its p-values count simulations."""

from itertools import permutations

import numpy as np
from giddy.rank import Theta
from hypothesis import strategies as st

from harness import gens, ref
from harness.core import Facet, Property, close, need, same, sut

NAMES = ["b", "a", "b ", "B", "10", "9"] + [f"r{i}" for i in range(40)]
LABELS = {
    "int": lambda g: np.array(g) * 3 - 2,
    "str": lambda g: np.array([NAMES[x] for x in g]),
    "float": lambda g: np.array(g) * 0.5 - 1,
    "obj": lambda g: np.array([NAMES[x] for x in g], dtype=object),
}


@st.composite
def cases(draw, max_n=12, max_t=6, perms=True, min_n=2, max_r=5):
    n = draw(st.integers(min_n, max_n))
    t = draw(st.integers(2, max_t))
    y = draw(gens.series(n, t))
    mode = draw(st.sampled_from(["any", "any", "any", "one", "each"]))
    if mode == "one":
        g = [2] * n
    elif mode == "each" and n <= 6:
        g = list(draw(st.permutations(range(n))))
    else:
        r = draw(st.integers(2, max_r))
        g = [x % r for x in draw(gens.raw_bytes(n))]
    return {
        "y": y,
        "g": g,
        "label": draw(st.sampled_from(sorted(LABELS))),
        "g_as": draw(st.sampled_from(["array", "array", "list", "tuple"])),
        "B": draw(st.sampled_from([0, 1, 9, 30])) if perms else 0,
        "seed": draw(st.integers(0, 9999)),
        "neg": draw(st.booleans()),
        "form": draw(st.sampled_from(["float", "float", "small", "float32", "F"])),
    }


def regime_of(d):
    reg = LABELS[d["label"]](d["g"])
    return reg if d["g_as"] == "array" else reg.tolist() if d["g_as"] == "list" else tuple(reg.tolist())


def theta(D, g):
    """Per interval: (sum over regimes of |sum of changes|, sum of |changes|)."""
    num = [sum(abs(sum(D[i][s] for i in range(len(g)) if g[i] == r)) for r in set(g)) for s in range(len(D[0]))]
    den = [sum(abs(D[i][s]) for i in range(len(g))) for s in range(len(D[0]))]
    return np.array([a / b if b else np.nan for a, b in zip(num, den)]), np.array(den)


def data(d):
    y = gens.series_of(d["y"])
    if d["neg"]:
        y = -y
    if d["form"] == "small" and np.array_equal(y, np.round(y)) and np.abs(y).max() < 128:
        y = y.astype(np.uint8 if y.min() >= 0 else np.int8)
    elif d["form"] == "float32":
        y = y.astype(np.float32)
    elif d["form"] == "F":
        y = np.asfortranarray(y)
    R = np.array([ref.average_ranks(c) for c in y.T.tolist()]).T
    return y, R, np.diff(R, axis=1).tolist()


def pvalues(h, B, t):
    sim = np.asarray(h.sim)
    need(sim.shape == (B + 1, t - 1), f"sim has shape {sim.shape}")
    same_or_nan(sim[0], np.ravel(h.theta), "first row of sim")
    close(h.pvalue_left, (sim <= sim[0]).sum(axis=0) / (B + 1.0), "pvalue_left", rtol=1e-12)
    close(h.pvalue_right, (sim > sim[0]).sum(axis=0) / (B + 1.0), "pvalue_right", rtol=1e-12)
    return sim


def same_or_nan(a, b, what):
    close(a, b, what, rtol=1e-9, atol=1e-12)


def check(d):
    y, R, D = data(d)
    n, t = y.shape
    want, den = theta(D, d["g"])
    reg = regime_of(d)
    np.random.seed(d["seed"])
    with sut("Theta"):
        h = Theta(y, reg, permutations=d["B"])
        close(h.ranks, R, "ranks", rtol=1e-12)
        same_or_nan(np.ravel(h.theta), want, "theta")
        close(np.ravel(h.total), den, "total", rtol=1e-12)
        top = sum(abs(2 * i - n - 1) for i in range(1, n + 1))
        need(h.max_total == top, f"max_total is {h.max_total}, expected {top}")
        ok = np.isfinite(want)
        v = np.ravel(h.theta)[ok]
        need((v >= -1e-12).all() and (v <= 1 + 1e-12).all(), f"theta outside [0, 1]: {v.tolist()}")
        need((np.ravel(h.total) <= top + 1e-9).all(), "total above max_total")
        if d["B"]:
            sim = pvalues(h, d["B"], t)
            if n <= 6:
                possible = np.array([theta(D, list(p))[0] for p in sorted(set(permutations(d["g"])))])
                for row in sim[1:]:
                    hit = np.isclose(possible, row, rtol=1e-9, atol=1e-9, equal_nan=True).all(axis=1)
                    need(hit.any(), f"simulated theta {row.tolist()} belongs to no permuted regimes")
        elif hasattr(h, "sim"):
            need(False, "sim without permutations")
        if len(set(d["g"])) == n:
            close(v, np.ones(len(v)), "theta with a regime per unit")
        if len(set(d["g"])) == 1:
            close(v, np.zeros(len(v)), "theta with one regime", atol=1e-12)
    tags = [f"labels:{d['label']}", f"regime as {d['g_as']}", f"permutations:{d['B']}", f"values:{d['y']['kind']}"]
    if not ok.all():
        tags.append("interval without rank changes")
    if any(len(set(c)) < n for c in y.T.tolist()):
        tags.append("ties")
    return bool(ok.any()) and 1 < len(set(d["g"])) < n, tags


@st.composite
def spread_cases(draw):
    d = draw(cases(max_n=3, perms=False))
    n = draw(st.integers(3, 5))
    d["y"] = draw(gens.series(n, draw(st.integers(2, 3)), kinds=("ints", "decimals", "ties")))
    d["g"] = [x % 2 for x in draw(gens.raw_bytes(n))]
    return d


def check_spread(d):
    """The simulated values occur as often as under random regimes."""
    y, R, D = data(d)
    B = 400
    reg = regime_of(d)
    np.random.seed(d["seed"])
    with sut("Theta"):
        h = Theta(y, reg, permutations=B)
        sim = pvalues(h, B, y.shape[1])[1:]
        vals = np.nan_to_num(np.array([theta(D, list(p))[0] for p in permutations(d["g"])]), nan=-1)
        sim = np.nan_to_num(sim, nan=-1)
        rows = np.unique(np.round(vals, 9), axis=0)
        for row in rows:
            share = np.isclose(vals, row, atol=1e-8).all(axis=1).mean()
            seen = np.isclose(sim, row, atol=1e-8).all(axis=1).mean()
            need(
                abs(seen - share) <= 8 * np.sqrt(share * (1 - share) / B) + 1e-9,
                f"theta {row.tolist()} simulated with share {seen}, expected {share}",
            )
    return len(rows) > 1, [f"values:{min(len(rows), 4)}"]


PROPERTY = Property(
    "C20",
    [
        Facet("theta", cases(), check, 4000),
        Facet("more units", cases(max_n=420, min_n=40, max_t=12, max_r=30), check, 180),
        Facet("distribution", spread_cases(), check_spread, 160),
    ],
    rule="Series of 2-12 units and 2-6 periods, regime labels (ints, floats, strings; one regime, "
    "one per unit), 0-30 permutations (400 for the distribution); ranks by counting, simulated "
    "rows compared with all rearrangements of the regimes of up to 6 units. Non-trivial: more "
    "than one regime, fewer than units, and some rank change.",
    assumptions=["theta is undefined (nan) in an interval without any rank change"],
)
