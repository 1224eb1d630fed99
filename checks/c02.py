"""C02 Markov reports the true communicating, recurrent and absorbing structure."""

import re

import numpy as np
from giddy.markov import FullRank_Markov, GeoRank_Markov, Markov
from hypothesis import strategies as st

from harness import gens, ref
from harness.core import Facet, Property, captured, close, need, same, sut

TEXT = re.compile(
    r"The Markov Chain is (ir|)reducible and is composed by:\n"
    r"(\d+) Recurrent class(es|) \(indices\):\n(.*)\n"
    r"(\d+) Transient class(es|)(?: \(indices\):\n(.*)|\.)\n"
    r"The Markov Chain has (\d+) absorbing state(s|)(?: \((index|indices)\):\n(.*)|\.)\n*",
    re.S,
)


def sets(text):
    return [frozenset(map(int, b.split())) for b in re.findall(r"\[([^\]]*)\]", text or "")]


def idx_sets(groups):
    return [frozenset(int(i) for i in np.ravel(g)) for g in groups]


def compare(m, text, C, summary):
    """Attributes and printed text of m against the structure of counts C."""
    C = np.asarray(C)
    all_c, closed = ref.sccs(C), ref.closed_sccs(C)
    trans = [c for c in all_c if c not in closed]
    absorbing = {i for i in range(len(C)) if C[i].sum() == C[i, i]}

    def agree(got, want, what):
        need(len(got) == len(want) and set(got) == set(want), f"{what}: got {got}, expected {want}")

    agree(idx_sets(m.cclasses_indices), all_c, "communicating classes")
    need(int(m.num_cclasses) == len(all_c), f"num_cclasses is {m.num_cclasses}")
    agree(idx_sets(m.rclasses_indices), closed, "recurrent classes")
    need(int(m.num_rclasses) == len(closed), f"num_rclasses is {m.num_rclasses}")
    need(int(m.num_tclasses) == len(trans), f"num_tclasses is {m.num_tclasses}")
    if trans:
        agree(idx_sets(m.tclasses_indices), trans, "transient classes")
    else:
        need(m.tclasses_indices is None, f"tclasses_indices is {m.tclasses_indices}")
    agree(idx_sets(m.astates_indices), [frozenset([i]) for i in absorbing], "absorbing states")
    need(int(m.num_astates) == len(absorbing), f"num_astates is {m.num_astates}")
    if not summary:
        need(text == "", f"printed {text!r} with summary=False")
        return
    g = TEXT.fullmatch(text)
    need(g is not None, f"unexpected summary {text!r}")
    need((g[1] == "ir") == (len(all_c) == 1), "summary: reducible or irreducible")
    need(int(g[2]) == len(closed), "summary: number of recurrent classes")
    agree(sets(g[4]), closed, "summary: recurrent classes")
    need(int(g[5]) == len(trans), "summary: number of transient classes")
    agree(sets(g[7]), trans, "summary: transient classes")
    need(int(g[8]) == len(absorbing), "summary: number of absorbing states")
    agree(sets(g[11]), [frozenset([i]) for i in absorbing], "summary: absorbing states")


@st.composite
def cases(draw, **kw):
    d = draw(gens.label_panel(max_n=10, **kw))
    d["fill"] = draw(st.booleans())
    d["summary"] = draw(st.sampled_from([True, True, False]))
    d["all"] = draw(st.booleans())
    return d


def tags_of(C):
    C = np.asarray(C)
    all_c, closed = ref.sccs(C), ref.closed_sccs(C)
    tags = ["irreducible" if len(all_c) == 1 else "reducible", f"recurrent:{min(3, len(closed))}"]
    if len(all_c) > len(closed):
        tags.append("transient")
    if (C.sum(1) == 0).any():
        tags.append("empty row")
    if any(len(c) > 1 for c in closed) and len(all_c) > 1:
        tags.append("closed class of several states beside others")
    return tags


def check(d):
    lab, idx, panel = gens.labels_of(d)
    classes = sorted(lab) if d["all"] else sorted({lab[v] for v in idx.ravel().tolist()})
    pos = {c: i for i, c in enumerate(classes)}
    C = ref.transitions([[pos[lab[v]] for v in row] for row in idx.tolist()], len(classes))
    with sut("Markov(...)"), captured() as out:
        kw = {"classes": np.array(classes)} if d["all"] else {}
        if d["summary"]:
            m = Markov(panel, fill_empty_classes=d["fill"], **kw)
        else:
            m = Markov(panel, fill_empty_classes=d["fill"], summary=False, **kw)
        compare(m, out.getvalue(), C, d["summary"])
    return len(classes) > 1, tags_of(C)


@st.composite
def count_cases(draw):
    """Panels made to have given transition counts: one unit per transition."""
    C = draw(gens.count_matrix(max_k=9, hi=60))
    return {"C": C, "summary": draw(st.booleans())}


@st.composite
def heavy_cases(draw):
    """States left once in up to 400000 visits."""
    C = draw(gens.count_matrix(min_k=2, max_k=5, hi=4))
    stays = draw(st.lists(st.sampled_from([0, 0, 300, 70000, 400000]), min_size=len(C), max_size=len(C)))
    for i, s in enumerate(stays):
        C[i][i] += s
    return {"C": C, "summary": draw(st.booleans())}


def heavy_panel(C):
    C = np.asarray(C)
    i, j = np.nonzero(C)
    return np.repeat(np.stack([i, j], axis=1), C[i, j], axis=0)


def check_heavy(d):
    C = np.array(d["C"])
    if not C.any():
        return False, ["no transitions"]
    with sut("Markov(...)"), captured() as out:
        m = Markov(heavy_panel(C), classes=np.arange(len(C)), summary=d["summary"])
        compare(m, out.getvalue(), C, d["summary"])
        same(m.transitions, C, "transitions")
        close(m.p, ref.normalise(C), "p", rtol=1e-12, atol=0)
    P = ref.normalise(C)
    tags = tags_of(C)
    if ((np.diag(P) > 1 - 1e-5) & (np.diag(P) < 1)).any():
        tags.append("nearly absorbing")
    return len(C) > 1, tags


def panel_from_counts(C):
    rows = []
    for i, r in enumerate(C):
        for j, c in enumerate(r):
            rows += [[i, j]] * c
    return rows


def check_counts(d):
    C = np.array(d["C"])
    rows = panel_from_counts(d["C"])
    if not rows:
        return False, ["no transitions"]
    with sut("Markov(...)"), captured() as out:
        m = Markov(np.array(rows), classes=np.arange(len(C)), summary=d["summary"])
        compare(m, out.getvalue(), C, d["summary"])
    return len(C) > 1, tags_of(C)


@st.composite
def rank_cases(draw):
    n = draw(st.integers(2, 6))
    t = draw(st.integers(2, 9))
    d = draw(gens.series(n, t))
    return {"y": d, "geo": draw(st.booleans()), "summary": draw(st.booleans())}


def check_rank(d):
    y = gens.series_of(d["y"])
    r = np.array([ref.ordinal(c) for c in y.T.tolist()]).T
    n = len(y)
    if d["geo"]:
        states = [[int(np.where(r[:, s] == p)[0][0]) for s in range(y.shape[1])] for p in range(1, n + 1)]
    else:
        states = (n - r).tolist()
    C = ref.transitions(states, n)
    with sut("rank Markov"), captured() as out:
        m = (GeoRank_Markov if d["geo"] else FullRank_Markov)(y, summary=d["summary"])
        compare(m, out.getvalue(), C, d["summary"])
    return True, tags_of(C)


PROPERTY = Property(
    "C02",
    [
        Facet("panels", cases(), check, 3200),
        Facet("counts", count_cases(), check_counts, 2400),
        Facet("ranks", rank_cases(), check_rank, 800),
        Facet("long panels", heavy_cases(), check_heavy, 120),
        Facet("large panels", cases(huge=True), check, 300),
    ],
    rule="Label panels with seven move structures, panels realising generated count patterns "
    "(dense, banded, ring, triangular, blocks, absorbing, chains of links; empty rows), and "
    "rank chains, and panels with states left once in up to 400000 visits; structure recomputed by transitive closure and the printed text parsed. "
    "Non-trivial: at least two states.",
)
