"""C04 Mean first passage times solve the hitting-time equations."""

import copy

import numpy as np
from giddy.ergodic import mfpt
from giddy.markov import GeoRank_Markov, Markov
from hypothesis import strategies as st

from checks.chains import matrix_cases, matrix_of, shape_tags
from harness import gens, ref
from harness.core import Facet, Property, close, need, raises, same, sut


def compare(got, C, what):
    M, _ = ref.hitting(C)
    want = ref.to_float(M)
    fin = want[np.isfinite(want)]
    big = fin.max() if fin.size else 1.0
    got = np.asarray(got)
    need(not np.isnan(got.astype(float)).any(), f"{what}: NaN in {got.tolist()}")
    if big > 1e7:  # beyond what double precision resolves: only the infinities
        same(np.isinf(got), np.isinf(want), f"{what}: infinite entries")
        return False
    close(got, want, what, rtol=max(1e-8, 1e-13 * big * 10), atol=0)
    return True


@st.composite
def cases(draw, **kw):
    d = draw(matrix_cases(heavy=5, **kw))
    d["fill"] = draw(st.booleans())
    return d


def check(d):
    C, P = matrix_of(d)
    before = copy.deepcopy(P)
    empty = (C.sum(axis=1) == 0).any()
    full = True
    with sut("mfpt"):
        if empty and not d["fill"]:
            raises(ValueError, lambda: mfpt(P), "mfpt with an empty row")
        else:
            got = mfpt(P, fill_empty_classes=True) if d["fill"] else mfpt(P)
            full = compare(got, C, "mfpt")
        same(P, before, "the input after the call")
    tags = shape_tags(C) + [f"form:{d['form']}"]
    if not full:
        tags.append("huge times")
    return len(C) > 1, tags


@st.composite
def many_cases(draw):
    d = draw(matrix_cases(min_k=14, max_k=46))
    return d


def check_many(d):
    """Many states: long paths through the chain."""
    C, P = matrix_of(d)
    want, _ = ref.hitting_float(C)
    fin = want[np.isfinite(want)]
    big = fin.max() if fin.size else 1.0
    with sut("mfpt"):
        got = np.asarray(mfpt(P, fill_empty_classes=True), dtype=float)
        need(not np.isnan(got).any(), "mfpt: NaN")
        same(np.isinf(got), np.isinf(want), "mfpt: infinite entries")
        if big < 1e7:
            close(got, want, "mfpt", rtol=max(1e-8, 1e-12 * big * 10), atol=0)
    return np.isinf(want).any() or big < 1e7, shape_tags(C)


@st.composite
def panel_cases(draw):
    d = draw(gens.label_panel(max_n=10, big=draw(st.booleans()), max_k=6))
    d["fill"] = draw(st.booleans())
    d["all"] = draw(st.booleans())
    return d


def check_panel(d):
    lab, idx, panel = gens.labels_of(d)
    classes = sorted(lab) if d["all"] else sorted({lab[v] for v in idx.ravel().tolist()})
    pos = {c: i for i, c in enumerate(classes)}
    C = ref.transitions([[pos[lab[v]] for v in row] for row in idx.tolist()], len(classes))
    with sut("Markov.mfpt"):
        m = Markov(panel, classes=np.array(classes), fill_empty_classes=d["fill"], summary=False)
        compare(m.mfpt, C, "Markov.mfpt")
    return len(C) > 1, shape_tags(C)


@st.composite
def rank_cases(draw):
    return draw(gens.series(draw(st.integers(2, 6)), draw(st.integers(3, 9))))


def check_rank(d):
    y = gens.series_of(d)
    n = len(y)
    r = np.array([ref.ordinal(c) for c in y.T.tolist()]).T
    at = [[int(np.where(r[:, s] == p)[0][0]) for s in range(y.shape[1])] for p in range(1, n + 1)]
    C = ref.transitions(at, n)
    with sut("GeoRank_Markov.mfpt"):
        compare(GeoRank_Markov(y, summary=False).mfpt, C, "GeoRank_Markov.mfpt")
    return True, shape_tags(C)


PROPERTY = Property(
    "C04",
    [
        Facet("matrices", cases(), check, 6000),
        Facet("larger matrices", cases(min_k=8, max_k=13), check, 180),
        Facet("many states", many_cases(), check_many, 240),
        Facet("panels", panel_cases(), check_panel, 2000),
        Facet("ranks", rank_cases(), check_rank, 600),
    ],
    rule="As C03; compared with exact rational hitting-time systems, infinite by reachability (float systems for 14-46 states). "
    "Non-trivial: at least two states.",
    assumptions=["times above 1e7 are compared only for being finite or infinite"],
)
