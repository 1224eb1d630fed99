"""C34 Analyses never modify the data they are given."""

from hypothesis import strategies as st

from checks import catalog as cat
from harness.core import Facet, Property, need, sut


@st.composite
def single_cases(draw):
    pool = draw(cat.pool_cases())
    return {"pool": pool, "calls": cat.picks(pool, 4)}


def check_single(d):
    for name in d["calls"]:
        single(name, d)
    return True, [f"call:{n}" for n in d["calls"]] + [f"order:{d['pool']['order']}"]


def single(name, d):
    seed = d["pool"]["seed"]
    with sut("building the inputs"):
        I = cat.build(d["pool"])
        before = cat.frozen(I)
    with sut(name):
        a, text = cat.run(name, I, seed)
        cat.unchanged(I, before, name)
        first = cat.whole(a, text)
        cat.unchanged(I, before, f"reading the results of {name}")
        b, text = cat.run(name, I, seed)
        second = cat.whole(b, text)
        cat.unchanged(I, before, f"repeating {name}")
        cat.agree(second, first, f"{name} repeated on the same inputs")
        cat.agree(cat.whole(a, first["printed"]), first, f"the first result of {name} after a repetition")


@st.composite
def sequence_cases(draw):
    return {
        "pool": (pool := draw(cat.pool_cases())),
        "calls": cat.picks(pool, 3) + draw(st.lists(st.sampled_from(cat.NAMES), min_size=0, max_size=4)),
        "late": draw(st.booleans()),
    }


def check_sequence(d):
    """Calls sharing their inputs leave the inputs and all earlier results."""
    with sut("building the inputs"):
        I = cat.build(d["pool"])
        before = cat.frozen(I)
    kept = []
    with sut("a sequence of calls"):
        for i, name in enumerate(d["calls"]):
            r, text = cat.run(name, I, d["pool"]["seed"] + i)
            cat.unchanged(I, before, f"{name} after {d['calls'][:i]}")
            kept.append((name, r, cat.whole(r, text)))
        for name, r, shot in kept:
            cat.agree(cat.whole(r, shot["printed"]), shot, f"the result of {name} after {d['calls']}")
        cat.unchanged(I, before, f"the sequence {d['calls']}")
    return len(set(d["calls"])) > 1, [f"calls:{len(d['calls'])}"]


PROPERTY = Property(
    "C34",
    [
        Facet("single", single_cases(), check_single, 2600),
        Facet("sequences", sequence_cases(), check_sequence, 900),
    ],
    rule="Four of the calls of checks/catalog.py (every public estimator, test, index, distance and "
    "plot) on a pool of random series, panels, matrices, vectors, sequences and weights, or 3-7 of "
    "them on the same pool; inputs compared byte by byte before, after the call, after reading all "
    "attributes and summaries, and after repeating it. Non-trivial: any completed call; for "
    "sequences at least two different calls.",
    assumptions=[
        "the transform of a weights object may be set by a call, its neighbours, ids and underlying weights may not",
        "shuffle_matrix shuffles its list of ids in place, as it says; only its matrix is compared",
    ],
    warmup=cat.warm,
)
