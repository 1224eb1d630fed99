"""C24 Tau_Regional averages concordance within and between regimes."""

import numpy as np
from giddy.rank import Tau_Local, Tau_Regional
from hypothesis import strategies as st

from checks import ranks as rk
from harness import gens
from harness.core import Facet, Property, close, need, same, sut

# order-preserving label sets: position = sorted position
LABELS = {
    "int": [-3, 0, 1, 7, 12, 100] + [101 + i for i in range(30)],
    "float": [-1.5, 0.0, 0.25, 2.0, 3.5, 10.0] + [11 + i / 2 for i in range(30)],
    "str": ["10", "9", "A", "a", "a ", "b"] + [f"c{i:02}" for i in range(30)],
}


@st.composite
def cases(draw, max_n=12, min_n=2, max_r=5):
    d = draw(rk.pair_cases(min_n=min_n, max_n=max_n))
    n = d["n"]
    mode = draw(st.sampled_from(["any", "any", "any", "one", "single"]))
    r = draw(st.integers(2, max_r))
    g = [v % r for v in draw(gens.raw_bytes(n))]
    if mode == "one":
        g = [r - 1] * n
    elif mode == "single":
        g = [0] * n
        g[draw(st.integers(0, n - 1))] = r
    d["g"] = g
    d["label"] = draw(st.sampled_from(sorted(LABELS)))
    d["g_as"] = draw(st.sampled_from(["array", "list"]))
    return d


def regime_of(d):
    lab = [LABELS[d["label"]][v] for v in d["g"]]
    return lab if d["g_as"] == "list" else np.array(lab)


def regional(S, g):
    """Mean sign over pairs within and between regimes in sorted order (nan
    where there are no pairs), and the number of ordered pairs."""
    ur = sorted(set(g))
    k = len(ur)
    M, N = np.full((k, k), np.nan), np.zeros((k, k))
    for a in range(k):
        for b in range(k):
            v = [S[i, j] for i in range(len(g)) for j in range(len(g)) if i != j and g[i] == ur[a] and g[j] == ur[b]]
            N[a, b] = len(v)
            if v:
                M[a, b] = sum(v) / len(v)
    return M, N


def check(d):
    x, y = rk.pair_of(d)
    S = rk.signs(x, y)
    want, N = regional(S, d["g"])
    n = d["n"]
    with sut("Tau_Regional"):
        t = Tau_Regional(x, y, regime_of(d))
        got = np.asarray(t.tau_reg, float)
        need(got.shape == want.shape, f"tau_reg has shape {got.shape}, expected {want.shape}")
        ok = N > 0
        close(got[ok], want[ok], "tau_reg", rtol=1e-10, atol=1e-13)
        need(not np.isfinite(got[~ok]).any(), "a value for a regime of one unit with itself")
        close(got[ok], got.T[ok], "symmetry of tau_reg", rtol=1e-12)
        same(np.asarray(t.S).astype(int), S, "S")
        need(int(t.n) == n, f"n is {t.n}")
        mean = (got[ok] * N[ok]).sum() / N.sum()
        close(mean, float(Tau_Local(x, y).tau), "pair-weighted mean of tau_reg", rtol=1e-9, atol=1e-12)
        need(not hasattr(t, "tau_reg_sim"), "tau_reg_sim without permutations")
    k = len(set(d["g"]))
    tags = [f"labels:{d['label']}", f"regimes:{k}", f"regime as {d['g_as']}"] + rk.tie_tags(x, y)
    if (~ok).any():
        tags.append("regime of one unit")
    return k > 1 and len(set(want[ok].tolist())) > 1, tags


@st.composite
def huge_cases(draw):
    return {"n": draw(st.sampled_from([200, 420, 700])), "seed": draw(st.integers(0, 10**6)), "r": draw(st.integers(2, 4)), "levels": draw(st.sampled_from([3, 50, 10**6]))}


def check_huge(d):
    """Regimes with tens of thousands of pairs."""
    rs = np.random.RandomState(d["seed"])
    n, r = d["n"], d["r"]
    x = rs.randint(0, d["levels"], n)
    y = x // 3 + rs.randint(0, d["levels"], n)
    g = rs.randint(0, r, n)
    g[:r] = range(r)
    S = np.sign(np.subtract.outer(x, x)) * np.sign(np.subtract.outer(y, y))
    with sut("Tau_Regional"):
        got = np.asarray(Tau_Regional(x, y, g).tau_reg, float)
        for a in range(r):
            for b in range(r):
                na, nb = (g == a).sum(), (g == b).sum()
                pairs = na * nb - (na if a == b else 0)
                if pairs:
                    close(got[a, b], S[np.ix_(g == a, g == b)].sum() / pairs, f"tau_reg[{a},{b}]", rtol=1e-9, atol=1e-13)
    return True, [f"n:{n}"]


PROPERTY = Property(
    "C24",
    [
        Facet("regimes", cases(), check, 4800),
        Facet("more regimes", cases(max_n=16, min_n=8), check, 1600),
        Facet("more units", cases(max_n=90, min_n=40, max_r=25), check, 120),
        Facet("large regimes", huge_cases(), check_huge, 24),
    ],
    rule="Pairs of vectors of 2-16 values as for C21 with 1-5 regimes (ints, floats, strings; "
    "arrays and lists; regimes of one unit); means over explicitly listed pairs. Non-trivial: "
    "several regimes with different values.",
    assumptions=["a regime of one unit has no value with itself (nan)"],
)
