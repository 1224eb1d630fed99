"""C03 Steady states are the stationary distributions, one per recurrent class."""

import copy

import numpy as np
from giddy.ergodic import steady_state
from giddy.markov import FullRank_Markov, Markov
from hypothesis import strategies as st

from checks.chains import matrix_cases, matrix_of, shape_tags
from harness import gens, ref
from harness.core import Facet, Property, close, need, raises, same, sut


def compare(got, C, what):
    """got against the exact stationary distributions of counts C."""
    exact = ref.stationary(C)
    k = len(C)
    P = np.array([[float(x) for x in row] for row in ref.rational(C)])
    got = np.asarray(got)
    if len(exact) == 1:
        (pi,) = exact.values()
        close(got, [float(x) for x in pi], what, rtol=1e-7, atol=1e-13)
        rows = got.reshape(1, k)
    else:
        need(got.shape == (len(exact), k), f"{what}: shape {got.shape}, {len(exact)} recurrent classes")
        left = dict(exact)
        for row in got:
            sup = frozenset(np.where(row > 1e-14)[0].tolist())
            hit = [c for c in left if sup <= c]
            need(hit, f"{what}: {row.tolist()} is on no remaining recurrent class")
            close(row, [float(x) for x in left.pop(hit[0])], what, rtol=1e-7, atol=1e-13)
        rows = got
    need((rows >= 0).all(), f"{what}: negative probability")
    close(rows.sum(axis=1), np.ones(len(rows)), what + " sum", rtol=1e-9)
    close(rows @ P, rows, what + " invariance", rtol=1e-8, atol=1e-10)


@st.composite
def cases(draw, **kw):
    d = draw(matrix_cases(heavy=6, **kw))
    d["fill"] = draw(st.booleans())
    return d


def check(d):
    C, P = matrix_of(d)
    before = copy.deepcopy(P)
    empty = (C.sum(axis=1) == 0).any()
    with sut("steady_state"):
        if empty and not d["fill"]:
            raises(ValueError, lambda: steady_state(P), "steady_state with an empty row")
            raises(
                ValueError, lambda: steady_state(P, fill_empty_classes=False), "steady_state with an empty row"
            )
        else:
            if d["fill"]:
                got = steady_state(P, fill_empty_classes=True)
            else:
                got = steady_state(P)
            compare(got, C, "steady_state")
        same(P, before, "the input after the call")
    return len(C) > 1, shape_tags(C) + [f"form:{d['form']}", f"fill:{d['fill']}"]


@st.composite
def panel_cases(draw):
    d = draw(gens.label_panel(max_n=10, big=draw(st.booleans())))
    d["fill"] = draw(st.booleans())
    d["all"] = draw(st.booleans())
    return d


def check_panel(d):
    lab, idx, panel = gens.labels_of(d)
    classes = sorted(lab) if d["all"] else sorted({lab[v] for v in idx.ravel().tolist()})
    pos = {c: i for i, c in enumerate(classes)}
    C = ref.transitions([[pos[lab[v]] for v in row] for row in idx.tolist()], len(classes))
    with sut("Markov.steady_state"):
        m = Markov(panel, classes=np.array(classes), fill_empty_classes=d["fill"], summary=False)
        compare(m.steady_state, C, "Markov.steady_state")
        close(m.p, ref.normalise(C, d["fill"]), "p afterwards", rtol=1e-12, atol=0)
    return len(C) > 1, shape_tags(C)


@st.composite
def rank_cases(draw):
    return draw(gens.series(draw(st.integers(2, 6)), draw(st.integers(2, 9))))


def check_rank(d):
    y = gens.series_of(d)
    n = len(y)
    r = n - np.array([ref.ordinal(c) for c in y.T.tolist()]).T
    C = ref.transitions(r.tolist(), n)
    with sut("FullRank_Markov.steady_state"):
        compare(FullRank_Markov(y, summary=False).steady_state, C, "FullRank_Markov.steady_state")
    return True, shape_tags(C)


PROPERTY = Property(
    "C03",
    [
        Facet("matrices", cases(), check, 6000),
        Facet("larger matrices", cases(min_k=8, max_k=34), check, 300),
        Facet("panels", panel_cases(), check_panel, 2400),
        Facet("ranks", rank_cases(), check_rank, 800),
    ],
    rule="Transition matrices from generated count patterns (dense, banded, ring, triangular, "
    "blocks, absorbing, chains; empty rows; integer and float; lists and arrays) and from "
    "panels; compared with exact rational stationary distributions per recurrent class. "
    "Non-trivial: at least two states.",
)
