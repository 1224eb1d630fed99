"""C17 Spillover marks exactly the new members of pre-existing clusters."""

import numpy as np
from giddy.markov import LISA_Markov
from hypothesis import strategies as st

from checks import lisa
from harness import gens, ref
from harness.core import Facet, Property, need, same, sut


def clusters(core, nb, neighbors_on):
    """Connected sets of the graph of core units, their neighbours, and the
    neighbours' neighbours; a core unit without neighbours is in none."""
    edges = []
    for i in core:
        for j in nb[i]:
            edges.append((i, j))
            if neighbors_on:
                edges += [(j, l) for l in nb[j]]
    nodes = sorted({v for e in edges for v in e})
    return ref.components(nodes, edges)


def compare(m, nb, quadrant, on, what):
    q, p, sl = np.asarray(m.q), np.asarray(m.p_values), m.significance_level
    n, t = q.shape
    res = m.spillover(quadrant=quadrant, neighbors_on=on)
    comp, sp = np.asarray(res["components"]), np.asarray(res["spill_over"])
    need(comp.shape == (n, t), f"{what}: components has shape {comp.shape}")
    need(sp.shape == (n, t - 1), f"{what}: spill_over has shape {sp.shape}")
    model = []
    for s in range(t):
        core = [i for i in range(n) if q[i, s] == quadrant and p[i, s] <= sl]
        cl = clusters(core, nb, on)
        model.append(cl)
        where = {i: c for c, members in enumerate(cl) for i in members}
        for i in range(n):
            need(
                (comp[i, s] > 0) == (i in where),
                f"{what}: unit {i} in period {s} has label {comp[i, s]}, clusters {cl}",
            )
        labels = {}
        for i, c in where.items():
            labels.setdefault(c, set()).add(float(comp[i, s]))
        need(all(len(v) == 1 for v in labels.values()), f"{what}: period {s} splits a cluster of {cl}")
        need(
            len({next(iter(v)) for v in labels.values()}) == len(cl),
            f"{what}: period {s} joins clusters of {cl}",
        )
        need((comp[:, s] == np.round(comp[:, s])).all(), f"{what}: labels are not integers")
    count = 0
    for s in range(t - 1):
        before = set().union(*model[s]) if model[s] else set()
        for i in range(n):
            mine = [c for c in model[s + 1] if i in c]
            want = int(i not in before and bool(mine) and bool(mine[0] & before))
            need(sp[i, s] == want, f"{what}: spill_over[{i},{s}] is {sp[i, s]}, expected {want}")
            count += want
    return model, count


def check(d):
    Y = lisa.series_of(d["y"])
    w = gens.build_w(d["w"])
    np.random.seed(d["seed"])
    p = np.array([ml.p_z_sim for ml in lisa.morans(Y, d, w, d["perms"])]).T
    sl = lisa.level(d, p)
    np.random.seed(d["seed"])
    nb = {i: list(js) for i, js in enumerate(d["w"]["nb"])}
    tags, total, most = [f"ids:{type(d['w']['ids'][0]).__name__}"], 0, 0
    with sut("LISA_Markov.spillover"):
        m = LISA_Markov(
            Y, gens.build_w(d["w"]), permutations=d["perms"], significance_level=sl, geoda_quads=d["geoda"]
        )
        for quadrant in (1, 2, 3, 4):
            for on in (False, True):
                model, c = compare(m, nb, quadrant, on, f"quadrant {quadrant}, neighbors_on={on}")
                total += c
                most = max([most] + [len(x) for x in model])
        model, c = compare(m, nb, 1, False, "defaults")
        r0 = m.spillover()
        same(r0["spill_over"], m.spillover(quadrant=1, neighbors_on=False)["spill_over"], "defaults")
        same(m.p_values <= sl, p <= sl, "p_values afterwards")
    tags.append(f"clusters at a time:{min(most, 3)}")
    if total:
        tags.append("spillover")
    if not np.isfinite(p).all():
        tags.append("undefined p-value")
    return total > 0, tags


@st.composite
def sparse_cases(draw):
    """Larger maps with few neighbours, so that several clusters coexist."""
    d = draw(lisa.lisa_cases(max_n=4))
    n, t = draw(st.integers(10, 30)), draw(st.integers(2, 5))
    d["y"] = draw(gens.series(n, t, kinds=("ints", "quarters", "decimals")))
    d["y"]["shape"] = "plain"
    d["w"] = draw(gens.weights_case(n=n, kinds=("path", "lattice", "sparse", "sparse")))
    d["sig"] = draw(st.sampled_from([0.1, 0.25, 0.5, "at", "at", 1.0]))
    return d


@st.composite
def none_cases(draw):
    return draw(lisa.lisa_cases(max_n=6, max_t=3))


def check_none(d):
    with sut("LISA_Markov.spillover"):
        m = LISA_Markov(lisa.series_of(d["y"]), gens.build_w(d["w"]), geoda_quads=d["geoda"])
        r = m.spillover(quadrant=1 + d["sig_pos"] % 4)
        need(r is None, f"spillover without permutations is {r!r}")
    return True, []


@st.composite
def long_cases(draw):
    """A long chain of units, one of whose halves is high."""
    return {
        "n": draw(st.integers(200, 1600)),
        "ring": draw(st.booleans()),
        "cut": draw(st.integers(20, 80)),
        "seed": draw(st.integers(0, 9999)),
        "shift": draw(st.integers(0, 30)),
        "text": draw(st.booleans()),
    }


def check_long(d):
    n = d["n"]
    ids = [f"r{(i * 7) % n}-{i}" for i in range(n)] if d["text"] else list(range(n))
    nb = [[j for j in (i - 1, i + 1) if 0 <= j < n] for i in range(n)]
    if d["ring"]:
        nb[0].append(n - 1)
        nb[-1].append(0)
    w = gens.build_w({"ids": ids, "nb": nb, "wt": [[1.0] * len(x) for x in nb], "transform": "o"})
    h = n * d["cut"] // 100
    Y = np.zeros((n, 2))
    Y[:h, 0] = 10.0
    Y[: min(n - 1, h + d["shift"]), 1] = 10.0
    Y += np.random.RandomState(d["seed"]).rand(n, 2)
    with sut("LISA_Markov.spillover"):
        m = LISA_Markov(Y, w, permutations=9, significance_level=0.5)
        for quadrant in (1, 3):
            compare(m, dict(enumerate(nb)), quadrant, d["text"], f"quadrant {quadrant}")
    return True, [f"n:{n // 400 * 400}+", f"ring:{d['ring']}"]


PROPERTY = Property(
    "C17",
    [
        Facet("clusters", lisa.lisa_cases(min_n=4, max_n=16, max_t=5, islands=False), check, 1000),
        Facet("larger maps", lisa.lisa_cases(min_n=30, max_n=90, max_t=5), check, 32),
        Facet("sparse maps", sparse_cases(), check, 1000),
        Facet("without permutations", none_cases(), check_none, 160),
        Facet("long chains", long_cases(), check_long, 32),
    ],
    rule="LISA_Markov objects with permutations (levels 0.01-0.4 or equal to a p-value; general "
    "weights, string and integer ids) in all four quadrants and with both neighbour rules, and "
    "chains of 200-1600 units; clusters recomputed by union-find from the exposed q and "
    "p_values. Non-trivial: at least one spillover.",
    assumptions=["q and p_values are those of C15"],
    warmup=lisa.warmup,
)
