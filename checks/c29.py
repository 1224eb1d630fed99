"""C29 Markov and transition-oriented sequence distances use their stated costs."""

import numpy as np
from giddy.sequence import Sequence
from hypothesis import strategies as st

from checks import c28, seqs
from harness import gens, ref
from harness.core import Facet, Property, close, need, sut


@st.composite
def cases(draw, min_len, **kw):
    d = draw(seqs.seq_cases(equal=True, min_len=min_len, **kw))
    d["spell"] = draw(st.sampled_from([0, 0, 1, 2, 3]))
    return d


def check_markov(d):
    S, y = seqs.labels_of(d)
    cl, I = c28.index(S)
    k = len(cl)
    P = ref.normalise(ref.transitions(I, k))
    C = 1 - (P + P.T) / 2
    for i in range(k):
        C[i, i] = 0
    want = c28.matrix(I, lambda p, q: float(C[p, q]), 1)
    with sut("Sequence(dist_type='markov')"):
        s = Sequence(y, dist_type=c28.spelled("markov", d["spell"]))
        D = c28.shape(s, S, cl)
        close(D, want, "markov distances", rtol=1e-10, atol=1e-11)
        close(s.subs_mat, C, "subs_mat", rtol=1e-11, atol=1e-12)
        close(float(s.indel), 1, "indel")
    tags = seqs.tags_of(d, S)
    if not P.any(axis=1).all():
        tags.append("a class never left")
    return len(np.unique(np.round(want, 9))) > 2, tags


def steps(s):
    return [("start", s[0])] + list(zip(s[:-1], s[1:]))


def cost(a, b):
    if a == b:
        return 0.0
    if a[0] == "start" or b[0] == "start":
        return 1.0
    return 1.0 if (a[0] == a[1]) != (b[0] == b[1]) else 0.0


def check_tran(d):
    S, y = seqs.labels_of(d)
    cl, I = c28.index(S)
    want = c28.matrix([steps(s) for s in I], cost, 2)
    with sut("Sequence(dist_type='tran')"):
        s = Sequence(y, dist_type=c28.spelled("tran", d["spell"]))
        D = c28.shape(s, S, cl)
        close(D, want, "tran distances", rtol=1e-10, atol=1e-11)
        close(float(s.indel), 2, "indel")
    return len(np.unique(want)) > 2, seqs.tags_of(d, S)


@st.composite
def relation_cases(draw):
    d = draw(cases(2))
    d["perm"] = draw(st.permutations(range(len(d["seqs"]))))
    d["dist"] = draw(st.sampled_from(["markov", "tran"]))
    return d


def check_relations(d):
    """Reordered sequences; relabelled classes (the distances ignore names)."""
    S, y = seqs.labels_of(d)
    p = d["perm"]
    with sut(f"Sequence(dist_type={d['dist']!r})"):
        D = np.asarray(Sequence(y, dist_type=d["dist"]).seq_dis_mat)
        z = y[p] if isinstance(y, np.ndarray) else [y[i] for i in p]
        E = Sequence(z, dist_type=d["dist"]).seq_dis_mat
        close(E, D[np.ix_(p, p)], "reordered sequences", rtol=1e-10, atol=1e-11)
        cl, I = c28.index(S)
        k = len(cl)
        R = np.array([[(3 * k - v) * 2 for v in s] for s in I])
        close(Sequence(R, dist_type=d["dist"]).seq_dis_mat, D, "relabelled classes", rtol=1e-10, atol=1e-11)
    return len(np.unique(np.round(D, 9))) > 2, seqs.tags_of(d, S) + [f"dist:{d['dist']}"]


PROPERTY = Property(
    "C29",
    [
        Facet("markov", cases(2), check_markov, 2400),
        Facet("tran", cases(1), check_tran, 2400),
        Facet("markov, larger", cases(2, min_n=10, max_n=30, max_len=20), check_markov, 120),
        Facet("tran, larger", cases(1, min_n=10, max_n=30, max_len=20), check_tran, 120),
        Facet("markov, many classes", cases(2, min_n=8, max_n=24, max_len=16, many=(15, 40)), check_markov, 80),
        Facet("tran, many classes", cases(1, min_n=8, max_n=24, max_len=16, many=(15, 40)), check_tran, 40),
        Facet("relations", relation_cases(), check_relations, 1200),
    ],
    rule="1-7 sequences of one length up to 7 over 1-14 classes (24 over 40, too), as for C28; costs recomputed from "
    "counted transitions, alignment by memoised recursion over states or transitions. "
    "Non-trivial: at least three different distances.",
    assumptions=["sequences are of one length, for which these distances are implemented"],
)
