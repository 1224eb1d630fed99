"""C21 Tau counts concordant, discordant and tied pairs exactly."""

import resource
from contextlib import contextmanager
from math import erfc, sqrt

import numpy as np
from giddy.rank import Tau
from hypothesis import strategies as st

from checks import ranks as rk
from harness import gens, ref
from harness.core import Facet, Property, close, need, sut


def numbers(t):
    return tuple(float(v) for v in (t.concordant, t.discordant, t.extraX, t.extraY))


def compare(t, x, y, what="Tau"):
    n = len(x)
    con, dis, ty, tx = ref.pair_counts(np.asarray(x).tolist(), np.asarray(y).tolist())
    need(
        numbers(t) == (con, dis, ty, tx),
        f"{what}: concordant, discordant, extraX, extraY are {numbers(t)}, expected {(con, dis, ty, tx)}",
    )
    tau = rk.tau_b(con, dis, ty, tx)
    close(float(t.tau), tau, f"{what}: tau", rtol=1e-12, atol=1e-14)
    if not np.isnan(tau):
        z = abs(tau) / sqrt((4.0 * n + 10) / (9.0 * n * (n - 1)))
        close(float(t.tau_p), erfc(z / sqrt(2)), f"{what}: tau_p", rtol=1e-6 * (1 + z * z), atol=1e-15)
    return con, dis, ty, tx


def check(d):
    x, y = rk.pair_of(d)
    with sut("Tau"):
        con, dis, ty, tx = compare(Tau(x, y), x, y)
    tags = [f"x:{d['kx']}", f"y:{d['ky']}", f"as:{d['as']}"] + rk.tie_tags(x, y)
    return con + dis > 0 and d["n"] > 2, tags


@st.composite
def relation_cases(draw):
    d = draw(rk.pair_cases(as_list=False, min_n=3))
    d["perm"] = draw(st.permutations(range(d["n"])))
    return d


def dense_rank(v):
    return np.searchsorted(np.unique(v), v)


def check_relations(d):
    x, y = rk.pair_of(d)
    p = np.array(d["perm"])
    rx, ry = dense_rank(x), dense_rank(y)
    with sut("Tau"):
        t = Tau(x, y)
        c, dd, ex, ey = numbers(t)
        need(numbers(Tau(y, x)) == (c, dd, ey, ex), "exchanging x and y")
        need(numbers(Tau(x[p], y[p])) == (c, dd, ex, ey), "reordering the units")
        need(numbers(Tau(rx**3 - 5, ry)) == (c, dd, ex, ey), "increasing transformation")
        need(numbers(Tau(-rx, ry)) == (dd, c, ex, ey), "reversing x")
        need(numbers(Tau(rx, 7.5 - ry)) == (dd, c, ex, ey), "reversing y")
        n = d["n"]
        both = n * (n - 1) / 2 - (c + dd + ex + ey)
        need(both >= 0, "more pairs than there are")
        own = Tau(x, x)
        need(float(own.discordant) == 0 and float(own.extraX) == 0, "Tau of x with itself")
    return c + dd > 0, rk.tie_tags(x, y)


@st.composite
def large_cases(draw):
    n = draw(st.sampled_from([50, 120, 400]))
    kinds = ("ties", "few", "distinct", "decimals", "int8")
    return draw(rk.pair_cases(n=n, kinds=kinds, as_list=False))


def check_large(d):
    x, y = rk.pair_of(d)
    n = len(x)
    sx = np.sign(np.subtract.outer(x.astype(float), x.astype(float)))
    sy = np.sign(np.subtract.outer(y.astype(float), y.astype(float)))
    up = np.triu(np.ones((n, n), bool), 1)
    P = sx * sy
    want = ((P > 0) & up).sum(), ((P < 0) & up).sum(), ((sy == 0) & (sx != 0) & up).sum(), ((sx == 0) & (sy != 0) & up).sum()
    with sut("Tau"):
        t = Tau(x, y)
        need(numbers(t) == tuple(map(float, want)), f"counts {numbers(t)}, expected {want}")
        tau = rk.tau_b(*want)
        close(float(t.tau), tau, "tau", rtol=1e-11)
        z = abs(tau) / sqrt((4.0 * n + 10) / (9.0 * n * (n - 1)))
        if not np.isnan(z):
            close(float(t.tau_p), erfc(z / sqrt(2)), "tau_p", rtol=1e-6 * (1 + z * z), atol=1e-15)
    return True, [f"n:{n}"] + rk.tie_tags(x, y)


@st.composite
def huge_cases(draw):
    return {
        "n": draw(st.sampled_from([1500, 5000, 17000, 24000])),
        "seed": draw(st.integers(0, 10**6)),
        "levels": [draw(st.sampled_from([2, 9, 300, 10**9])), draw(st.sampled_from([2, 9, 300, 10**9]))],
        "near": draw(st.sampled_from([0, 0.002, 0.02, 0.5])),
    }


@contextmanager
def memory(extra):
    """Limits the address space; the list yielded is filled if that was too little."""
    size = int(open("/proc/self/statm").read().split()[0]) * resource.getpagesize()
    old = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (size + extra, old[1]))
    short = []
    try:
        yield short
    except MemoryError:
        short.append(True)
    finally:
        resource.setrlimit(resource.RLIMIT_AS, old)


def check_huge(d):
    """Counts which no 32-bit number holds; pairs compared block by block."""
    rs = np.random.RandomState(d["seed"])
    n = d["n"]
    x = rs.permutation(n)
    y = x * d["near"] + rs.permutation(n)
    x, y = (np.searchsorted(np.unique(v // max(1, n / l)), v // max(1, n / l)).astype(np.int32) for v, l in zip((x, y), d["levels"]))
    con = dis = tx = ty = 0
    for a in range(0, n, 400):
        b = min(n, a + 400)
        dx, dy = x[a:b, None] - x[None, a:], y[a:b, None] - y[None, a:]
        P = np.sign(dx) * np.sign(dy)
        # the square block on the diagonal holds each of its pairs twice
        for part, f in ((np.s_[:, : b - a], 0.5), (np.s_[:, b - a :], 1)):
            con += f * np.count_nonzero(P[part] > 0)
            dis += f * np.count_nonzero(P[part] < 0)
            ty += f * np.count_nonzero((dy[part] == 0) & (dx[part] != 0))
            tx += f * np.count_nonzero((dx[part] == 0) & (dy[part] != 0))
    with sut("Tau"):
        with memory(2 << 30) as short:
            t = Tau(x, y)
        if short:  # all pairs at once: fine by the property, too large here
            return False, [f"n:{n} takes too much memory"]
        need(numbers(t) == (con, dis, ty, tx), f"counts {numbers(t)}, expected {(con, dis, ty, tx)}")
        tau = rk.tau_b(con, dis, ty, tx)
        close(float(t.tau), tau, "tau", rtol=1e-10)
        z = abs(tau) / sqrt((4.0 * n + 10) / (9.0 * n * (n - 1)))
        close(float(t.tau_p), erfc(z / sqrt(2)), "tau_p", rtol=1e-6 * (1 + z * z), atol=1e-15)
    return True, [f"n:{n}", f"levels:{d['levels']}"]


PROPERTY = Property(
    "C21",
    [
        Facet("pairs", rk.pair_cases(), check, 6000),
        Facet("relations", relation_cases(), check_relations, 2400),
        Facet("large", large_cases(), check_large, 160),
        Facet("huge", huge_cases(), check_huge, 16),
    ],
    rule="Pairs of vectors of 2-14 values (ties, integers of 8 to 64 bits, unsigned, huge and tiny "
    "floats, constants; dependent or not; lists and arrays), of 50-400 and of 1500-24000; counts by direct "
    "comparison of all pairs. Non-trivial: some pair ordered in both variables.",
    assumptions=["tau is undefined (nan) if all x or all y are equal"],
)
