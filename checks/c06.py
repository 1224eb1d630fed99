"""C06 Sojourn times are 1/(1-p_ii), infinite exactly for absorbing states."""

import copy
import re

import numpy as np
from giddy.markov import FullRank_Markov, GeoRank_Markov, Markov, sojourn_time
from hypothesis import strategies as st

from checks.chains import matrix_cases, matrix_of, shape_tags
from harness import gens, ref
from harness.core import Facet, Property, captured, close, need, same, sut


def expected(C):
    P = ref.rational(C)
    return np.array([np.inf if P[i][i] == 1 else float(1 / (1 - P[i][i])) for i in range(len(P))])


def said(text):
    return {int(x) for x in re.findall(r"(?<![\w.])(?:np\.int64\()?(\d+)\)?(?=[,\]])", text)}


@st.composite
def cases(draw, **kw):
    d = draw(matrix_cases(heavy=7, **kw))
    d["summary"] = draw(st.sampled_from(["default", "yes", "no"]))
    return d


def compare_text(text, want, summary):
    inf = {int(i) for i in np.where(np.isinf(want))[0]}
    if summary and inf:
        need("infinite" in text, f"no message about infinite sojourn times: {text!r}")
        need(said(text) == inf, f"states named in {text!r}, absorbing are {sorted(inf)}")
    else:
        need(text.strip() == "", f"printed {text!r}")


def check(d):
    C, P = matrix_of(d)
    want = expected(C)
    before = copy.deepcopy(P)
    kw = {"default": {}, "yes": {"summary": True}, "no": {"summary": False}}[d["summary"]]
    with sut("sojourn_time"), captured() as out:
        got = sojourn_time(P, **kw)
        # rounding of p_ii is magnified as much as the time is long
        big = want[np.isfinite(want)].max(initial=1.0)
        close(got, want, "sojourn_time", rtol=max(1e-9, 1e-15 * big), atol=0)
        same(P, before, "the input after the call")
        compare_text(out.getvalue(), want, d["summary"] != "no")
    tags = shape_tags(C)
    if np.isinf(want).any():
        tags.append("absorbing")
    return len(C) > 1, tags


@st.composite
def panel_cases(draw):
    d = draw(gens.label_panel(max_n=60, max_t=5, big=draw(st.booleans())))
    d["fill"] = draw(st.booleans())
    d["all"] = draw(st.booleans())
    return d


def check_panel(d):
    lab, idx, panel = gens.labels_of(d)
    classes = sorted(lab) if d["all"] else sorted({lab[v] for v in idx.ravel().tolist()})
    pos = {c: i for i, c in enumerate(classes)}
    C = ref.transitions([[pos[lab[v]] for v in row] for row in idx.tolist()], len(classes))
    want = expected(C)
    with sut("Markov.sojourn_time"):
        m = Markov(panel, classes=np.array(classes), fill_empty_classes=d["fill"], summary=False)
        close(m.sojourn_time, want, "Markov.sojourn_time", rtol=1e-9, atol=0)
        same(np.isinf(want).sum(), m.num_astates, "absorbing states and infinite sojourn times")
        close(m.p, ref.normalise(C, d["fill"]), "p afterwards", rtol=1e-12, atol=0)
    return len(C) > 1, shape_tags(C) + (["absorbing"] if np.isinf(want).any() else [])


@st.composite
def rank_cases(draw):
    return draw(gens.series(draw(st.integers(2, 8)), draw(st.integers(2, 8))))


def check_rank(d):
    y = gens.series_of(d)
    n = len(y)
    r = np.array([ref.ordinal(c) for c in y.T.tolist()]).T
    at = [[int(np.where(r[:, s] == p)[0][0]) for s in range(y.shape[1])] for p in range(1, n + 1)]
    with sut("rank sojourn times"):
        g = GeoRank_Markov(y, summary=False)
        close(g.sojourn_time, expected(ref.transitions(at, n)), "GeoRank", rtol=1e-9, atol=0)
        f = FullRank_Markov(y, summary=False)
        close(f.sojourn_time, expected(ref.transitions((n - r).tolist(), n)), "FullRank", rtol=1e-9, atol=0)
    return True, []


PROPERTY = Property(
    "C06",
    [
        Facet("matrices", cases(), check, 6000),
        Facet("larger matrices", cases(min_k=8, max_k=40), check, 300),
        Facet("panels", panel_cases(), check_panel, 3200),
        Facet("ranks", rank_cases(), check_rank, 1000),
    ],
    rule="As C03; exact rational 1/(1-p_ii) and the states named in the printed message. "
    "Non-trivial: at least two states.",
)
