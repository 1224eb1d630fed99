"""C01 Markov counts and probabilities are the exact empirical ones."""

import numpy as np
from giddy.markov import Markov
from hypothesis import strategies as st

from checks.c02 import heavy_cases, heavy_panel
from harness import gens, ref
from harness.core import Facet, Property, close, need, same, sut


@st.composite
def cases(draw, **kw):
    d = draw(gens.label_panel(**kw))
    d["classes"] = draw(st.sampled_from(["none", "none", "sorted", "given", "extra"]))
    d["order"] = draw(st.permutations(range(d["k"] + 2)))
    d["fill"] = draw(st.booleans())
    d["summary"] = draw(st.booleans())
    return d


def expected(lab, idx, classes):
    pos = {c: i for i, c in enumerate(classes)}
    return ref.transitions([[pos[lab[v]] for v in row] for row in idx.tolist()], len(classes))


def class_list(d, lab, idx):
    """The class order the API must use, and the argument to pass."""
    seen = sorted({lab[v] for v in idx.ravel().tolist()})
    if d["classes"] == "none":
        return seen, None
    if d["classes"] == "sorted":
        order = sorted(lab)
    else:
        lab2 = list(lab)
        if d["classes"] == "extra" and d["kind"] not in ("bool",):
            lab2 = gens.alphabet(d["kind"], d["k"] + 2)
        order = [lab2[i] for i in d["order"] if i < len(lab2)]
    return order, np.array(order)


def check(d):
    lab, idx, panel = gens.labels_of(d)
    classes, arg = class_list(d, lab, idx)
    want = expected(lab, idx, classes)
    P = ref.normalise(want, d["fill"])
    n, t = idx.shape
    with sut("Markov(...)"):
        kw = {} if d["summary"] else {"summary": False}
        if arg is None:
            m = Markov(panel, fill_empty_classes=d["fill"], **kw)
        else:
            m = Markov(panel, arg, fill_empty_classes=d["fill"], **kw)
        need(int(m.k) == len(classes), f"k is {m.k}, expected {len(classes)}")
        same(np.asarray(m.classes).ravel().tolist(), classes, "classes")
        same(m.transitions, want, "transitions")
        need(np.asarray(m.transitions).sum() == n * (t - 1), "transitions do not add up")
        close(m.p, P, "p", rtol=1e-12, atol=0)
        one = want.max(axis=1) == want.sum(axis=1)
        one &= want.sum(axis=1) > 0
        for i in np.where(one)[0]:
            need(m.p[i].max() == 1.0, f"row {i} has one destination but p is {m.p[i].max()!r}")
    rows = want.sum(axis=1)
    tags = [f"mode:{d['mode']}", f"labels:{d['kind']}", f"classes:{d['classes']}"]
    if (rows == 0).any():
        tags.append("empty row")
    if one.any():
        tags.append("single destination")
    if len(classes) > 10:
        tags.append("k>10")
    if n >= 30:
        tags.append("n>=30")
    return len(classes) > 1 and np.count_nonzero(want) > 1, tags


@st.composite
def relation_cases(draw):
    d = draw(gens.label_panel(big=False, max_n=10))
    d["perm"] = draw(st.permutations(range(d["n"])))
    d["cut"] = draw(st.integers(0, d["n"]))
    d["time"] = draw(st.integers(1, d["t"] - 1))
    return d


def check_relation(d):
    """Reordering units, splitting the panel by units or in time."""
    lab, idx, panel = gens.labels_of(d)
    A = np.array(panel)
    cl = np.array(sorted(lab))
    s, tm = d["cut"], d["time"]
    with sut("Markov(...)"):
        full = Markov(panel, cl, summary=False).transitions
        perm = Markov(A[d["perm"]], cl, summary=False).transitions
        same(perm, full, "transitions after reordering the units")
        if 0 < s < d["n"]:
            parts = (
                Markov(A[:s], cl, summary=False).transitions
                + Markov(A[s:], cl, summary=False).transitions
            )
            same(parts, full, "sum over two groups of units")
        if tm < d["t"] - 1:
            parts = (
                Markov(A[:, : tm + 1], cl, summary=False).transitions
                + Markov(A[:, tm:], cl, summary=False).transitions
            )
            same(parts, full, "sum over two spans of time")
        back = Markov(A[:, ::-1], cl, summary=False).transitions
        same(back, np.asarray(full).T, "transitions of the reversed panel")
    return d["n"] > 1 and d["k"] > 1, [f"mode:{d['mode']}"]


def check_long(d):
    """Hundreds of thousands of units."""
    C = np.array(d["C"])
    with sut("Markov(...)"):
        m = Markov(heavy_panel(C), classes=np.arange(len(C)), summary=False)
        same(m.transitions, C, "transitions")
        close(m.p, ref.normalise(C), "p", rtol=1e-12, atol=0)
    return np.count_nonzero(C) > 1, ["more than 65535 in a cell" if C.max() > 65535 else "smaller"]


PROPERTY = Property(
    "C01",
    [
        Facet("estimation", cases(), check, 5000),
        Facet("relations", relation_cases(), check_relation, 1600),
        Facet("long panels", heavy_cases(), check_long, 80),
        Facet("large panels", cases(huge=True), check, 300),
        Facet("many periods", cases(long=True), check, 200),
    ],
    rule="Panels of labels (ints, floats, bools, strings; seven move structures; up to 14 "
    "classes, 70 units, 14 periods; also 400 units, 1080 periods or 300000 transitions) with optional class lists in any order and fill options; "
    "counts recomputed by a direct loop. Non-trivial: at least two classes and two different "
    "observed transitions.",
)
