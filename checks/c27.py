"""C27 Rose permutation p-values follow the stated alternatives."""

from itertools import permutations

import numpy as np
from giddy.directional import Rose
from hypothesis import strategies as st

from checks import rose
from checks.c25 import member, spread
from harness import gens
from harness.core import Facet, Property, close, need, same, sut

CO = {4: [1, 0, 1, 0], 8: [1, 1, 0, 0, 1, 1, 0, 0]}
SPELL = [str, str.upper, str.title, str.swapcase]


@st.composite
def cases(draw, max_n=9):
    d = draw(rose.rose_cases(max_n=max_n))
    calls = []
    for _ in range(draw(st.integers(1, 3))):
        alts = ["two.sided", "default"] + (["positive", "negative"] * 2 if d["k"] in CO else [])
        calls.append(
            {
                "alt": draw(st.sampled_from(alts)),
                "spell": draw(st.integers(0, 3)),
                "B": draw(st.sampled_from([1, 2, 9, 19, 30])),
            }
        )
    d["calls"] = calls
    d["seed"] = draw(st.integers(0, 10**6))
    return d


def pvalue(alt, larger, smaller, B, k):
    P = (larger + 1) / (B + 1.0)
    S = (smaller + 1) / (B + 1.0)
    if alt == "two.sided":
        return np.where(P < 0.5, 2 * P, 2 * (1 - P))
    co = np.array(CO[k])
    if alt == "negative":
        co = 1 - co
    return np.where(co == 1, P, S)


def verify(r, counts, B, alt, k, n):
    sim = np.asarray(r.counts_perm)
    need(sim.shape == (B, k), f"counts_perm has shape {sim.shape}, expected {(B, k)}")
    need((sim.sum(axis=1) == n).all(), f"counts_perm add up to {sim.sum(axis=1).tolist()}, {n} units")
    larger, smaller = (sim >= counts).sum(axis=0), (sim <= counts).sum(axis=0)
    same(r.larger_perm, larger, "larger_perm")
    same(r.smaller_perm, smaller, "smaller_perm")
    close(r.expected_perm, sim.mean(axis=0), "expected_perm", rtol=1e-12)
    close(r.p, pvalue(alt, larger, smaller, B, k), f"p ({alt})", rtol=1e-12)
    return sim


OBSERVED = ("Y", "wY", "counts", "theta", "r", "lag", "cuts")


def call(r, c):
    alt = "two.sided" if c["alt"] == "default" else c["alt"]
    if c["alt"] == "default":
        r.permute(c["B"])
    else:
        r.permute(permutations=c["B"], alternative=SPELL[c["spell"]](c["alt"]))
    return alt


def check(d):
    Y = rose.data(d)
    n, k = len(Y), d["k"]
    keep = Y.copy()
    np.random.seed(d["seed"])
    with sut("Rose.permute"):
        w = gens.build_w(d["w"])
        r = Rose(Y, w, k=k)
        obs = {f: np.array(getattr(r, f)) for f in OBSERVED}
        for c in d["calls"]:
            alt = call(r, c)
            sim = verify(r, obs["counts"], c["B"], alt, k, n)
            for f in OBSERVED:
                same(getattr(r, f), obs[f], f"{f} after permute")
            same(Y, keep, "the caller's Y after permute")
        tags = [f"alternative:{c['alt']}" for c in d["calls"]] + [f"calls:{len(d['calls'])}"]
        if n <= 5:
            w2 = gens.build_w(d["w"])
            vals = [np.asarray(Rose(Y[list(p)], w2, k=k).counts) for p in permutations(range(n))]
            member(sim, vals, "counts_perm")
            tags.append("all permutations enumerated")
        if n <= 4 and d["k"] <= 12:
            r2 = Rose(Y, w, k=k)
            for c in d["calls"][:1]:
                call(r2, c)  # a second permute starts from the same units
            r2.permute(300)
            tags.append(f"values:{min(spread(np.asarray(r2.counts_perm), vals, 'counts_perm'), 4)}")
    return bool((sim != sim[:1]).any()), tags


def check_repeated(d):
    """Many short runs on one object: all permutations keep turning up, with
    nothing carried over from earlier runs."""
    Y = rose.data(d)
    n, k = len(Y), d["k"]
    np.random.seed(d["seed"])
    with sut("Rose.permute"):
        w = gens.build_w(d["w"])
        r = Rose(Y, w, k=k)
        B = d["calls"][0]["B"]
        B = B if B <= 9 else 4
        sims = []
        for rep in range(-(-300 // B)):
            r.permute(B)
            sims.append(np.array(r.counts_perm))
        vals = [np.asarray(Rose(Y[list(p)], w, k=k).counts) for p in permutations(range(n))]
        got = spread(np.concatenate(sims), vals, "counts_perm of successive runs")
    return got > 1, [f"B:{B}", f"values:{min(got, 4)}"]


@st.composite
def large_cases(draw):
    d = draw(cases(max_n=4))
    n = draw(st.integers(130, 420))
    d.update(draw(rose.rose_cases(n=n, ks=[1, 2, 4, 8])), calls=d["calls"])
    for c in d["calls"]:
        if d["k"] not in CO:
            c["alt"] = "two.sided"
    return d


@st.composite
def many_cases(draw):
    """Hundreds of permutations of few units."""
    d = draw(cases(max_n=9))
    d["calls"] = d["calls"][:1]
    d["calls"][0]["B"] = draw(st.sampled_from([99, 257, 300, 513, 600, 999]))
    return d


PROPERTY = Property(
    "C27",
    [
        Facet("permute", cases(), check, 1600),
        Facet("repeated", cases(max_n=4), check_repeated, 120),
        Facet("many permutations", many_cases(), check, 60),
        Facet("large", large_cases(), check, 60),
    ],
    rule="Values as for C26 with up to 9 units, one to three calls of permute with 1-30 "
    "permutations, every alternative (k=4 or 8 for the directional ones) in several spellings; "
    "simulated counts compared with those of roses of all row permutations of up to 5 units, "
    "and their shares in 300 permutations with the exact ones; 130-420 units or 999 permutations, too. Non-trivial: simulated counts "
    "that vary.",
    assumptions=["the shares of 300 permutations may differ from the exact ones by 8 standard errors"],
)
