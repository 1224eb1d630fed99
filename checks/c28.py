"""C28 Optimal matching distances are minimal alignment costs."""

import numpy as np
from giddy.sequence import Sequence
from hypothesis import strategies as st

from checks import seqs
from harness import gens, ref
from harness.core import Facet, Property, close, need, raises, same, sut



def spelled(name, i):
    return [name, name.capitalize(), name.upper(), name[0] + name[1:].upper()][i]


def index(S):
    cl = sorted({x for s in S for x in s})
    pos = {c: i for i, c in enumerate(cl)}
    return cl, [[pos[x] for x in s] for s in S]


def matrix(I, sub, indel):
    n = len(I)
    D = np.zeros((n, n))
    for a in range(n):
        for b in range(a):
            D[a, b] = D[b, a] = ref.align(I[a], I[b], sub, indel)
    return D


def shape(s, S, cl):
    n = len(S)
    D = np.asarray(s.seq_dis_mat, float)
    need(D.shape == (n, n), f"seq_dis_mat has shape {D.shape}, {n} sequences")
    need(list(np.asarray(s.classes).tolist()) == cl, f"classes {s.classes}, expected {cl}")
    need(int(s.k) == len(cl) and int(s.n) == n, f"k, n are {s.k}, {s.n}")
    need({k: int(v) for k, v in dict(s.label_dict).items()} == {c: i for i, c in enumerate(cl)}, "label_dict")
    need(np.array_equal(D, D.T), f"seq_dis_mat is not symmetric: {D.tolist()}")
    need((np.diag(D) == 0).all(), f"diagonal {np.diag(D).tolist()}")
    for a in range(n):
        for b in range(a):
            if S[a] == S[b]:
                need(D[a, b] == 0, f"equal sequences at distance {D[a, b]}")
    return D


@st.composite
def named(draw, **kw):
    d = draw(seqs.seq_cases(**kw))
    d["dist"] = draw(st.sampled_from(["interval", "arbitrary", "hamming"]))
    d["spell"] = draw(st.sampled_from([0, 0, 1, 2, 3]))
    return d


def check_named(d):
    S, y = seqs.labels_of(d)
    cl, I = index(S)
    name = spelled(d["dist"], d["spell"])
    tags = seqs.tags_of(d, S) + [f"dist:{d['dist']}"]
    if d["dist"] == "hamming":
        if len({len(s) for s in S}) > 1:
            with sut("Sequence(dist_type='hamming')"):
                raises(ValueError, lambda: Sequence(y, dist_type=name), "hamming with unequal lengths")
            return True, tags
        want = np.array([[sum(p != q for p, q in zip(a, b)) for b in I] for a in I], float)
    elif d["dist"] == "interval":
        want = matrix(I, lambda p, q: abs(p - q), len(cl) - 1)
    else:
        want = matrix(I, lambda p, q: 0.5 * (p != q), 1)
    with sut(f"Sequence(dist_type={name!r})"):
        s = Sequence(y, dist_type=name)
        D = shape(s, S, cl)
        close(D, want, f"{name} distances", rtol=1e-10, atol=1e-11)
        if d["dist"] != "hamming":
            k = len(cl)
            i, j = np.mgrid[:k, :k]
            costs = abs(i - j) if d["dist"] == "interval" else 0.5 * (i != j)
            close(s.subs_mat, costs, "subs_mat", rtol=1e-12)
            close(float(s.indel), k - 1 if d["dist"] == "interval" else 1, "indel")
    return len(np.unique(want)) > 2, tags


@st.composite
def given_cases(draw):
    d = draw(seqs.seq_cases())
    k = 14
    raw = draw(gens.raw_bytes(k * k))
    style = draw(st.sampled_from(["any", "any", "integer", "unit", "with zeros"]))
    d["costs"], d["style"] = list(raw), style
    d["indel"] = draw(st.sampled_from([0, 0.25, 0.5, 1, 1.5, 2, 3, 0.3, "max"]))
    d["also"] = draw(st.sampled_from([None, None, "hamming", "interval"]))
    return d


def costs_of(d, k):
    R = np.array(d["costs"], float).reshape(14, 14)[:k, :k]
    R = np.triu(R, 1)
    R = {
        "any": (R % 50) / 16.0,
        "integer": 1 + R % 5,
        "unit": np.ones_like(R),
        "with zeros": (R % 4) / 2.0,
    }[d["style"]]
    R = np.triu(R, 1)
    return R + R.T


def check_given(d):
    S, y = seqs.labels_of(d)
    cl, I = index(S)
    C = costs_of(d, len(cl))
    indel = d["indel"] if d["indel"] != "max" else float(C.max())
    arr = C.astype(int) if d["style"] in ("integer", "unit") else C
    want = matrix(I, lambda p, q: float(C[p, q]), indel)
    with sut("Sequence(subs_mat, indel)"):
        s = Sequence(y, subs_mat=arr, indel=indel, dist_type=d["also"])
        D = shape(s, S, cl)
        close(D, want, "distances", rtol=1e-10, atol=1e-11)
        close(s.subs_mat, C, "subs_mat")
    tags = seqs.tags_of(d, S) + [f"costs:{d['style']}", f"indel:{d['indel']}"]
    if any(C[p, q] > 2 * indel for p in range(len(cl)) for q in range(len(cl))):
        tags.append("substitution dearer than delete and insert")
    return len(np.unique(want)) > 2, tags


@st.composite
def relation_cases(draw):
    d = draw(given_cases())
    d["perm"] = draw(st.permutations(range(len(d["seqs"]))))
    d["dist"] = draw(st.sampled_from(["given", "interval", "arbitrary"]))
    d["missing"] = draw(st.sampled_from(["all", "indel", "subs"]))
    return d


def check_relations(d):
    S, y = seqs.labels_of(d)
    cl, I = index(S)
    C = costs_of(d, len(cl))
    indel = d["indel"] if d["indel"] != "max" else float(C.max())
    kw = {"subs_mat": C, "indel": indel} if d["dist"] == "given" else {"dist_type": d["dist"]}
    p = d["perm"]
    with sut("Sequence"):
        D = np.asarray(Sequence(y, **kw).seq_dis_mat)
        z = y[p] if isinstance(y, np.ndarray) else [y[i] for i in p]
        close(Sequence(z, **kw).seq_dis_mat, D[np.ix_(p, p)], "reordered sequences", rtol=1e-10, atol=1e-11)
        part = {"all": {}, "indel": {"subs_mat": C}, "subs": {"indel": indel}}[d["missing"]]
        raises(ValueError, lambda: Sequence(y, **part), f"missing cost information ({d['missing']})")
        for i, s in enumerate(S):  # at least the difference in length
            for j, r in enumerate(S):
                if d["dist"] == "arbitrary":
                    need(D[i, j] >= abs(len(s) - len(r)) - 1e-9, "less than the difference in length")
    return len(np.unique(D)) > 2, seqs.tags_of(d, S) + [f"dist:{d['dist']}", f"missing:{d['missing']}"]


@st.composite
def long_named(draw):
    d = draw(seqs.seq_cases(max_n=3, min_len=12, max_len=70, max_k=8))
    d["dist"] = draw(st.sampled_from(["interval", "arbitrary", "hamming"]))
    d["spell"] = 0
    return d


@st.composite
def long_given(draw):
    d = draw(given_cases())
    d.update(draw(seqs.seq_cases(max_n=3, min_len=12, max_len=60, max_k=8)))
    return d


@st.composite
def mismatch_cases(draw):
    L = draw(gens.span(1, 150))
    return {"L": L, "m": draw(st.lists(st.integers(0, L), min_size=1, max_size=6)), "rot": draw(st.integers(0, L))}


def check_mismatches(d):
    """Long sequences which differ from one another in chosen numbers of places."""
    L, m = d["L"], d["m"]
    S = np.array([np.roll([v + 1] * c + [0] * (L - c), d["rot"]) for v, c in enumerate([0] + m)])
    want = np.array([[sum(p != q for p, q in zip(a, b)) for b in S.tolist()] for a in S.tolist()], float)
    with sut("Sequence(dist_type='hamming')"):
        close(Sequence(S, dist_type="hamming").seq_dis_mat, want, "hamming distances", rtol=1e-12, atol=0)
    return len(np.unique(want)) > 2, ["more than 60 long"] if L > 60 else []


@st.composite
def crowd_cases(draw):
    """Many different short sequences over many classes."""
    n, k = draw(st.sampled_from([30, 66, 70, 100, 130])), draw(st.sampled_from([3, 9, 26, 60]))
    L = draw(st.integers(2, 5))
    raw = np.array(list(draw(gens.raw_bytes(n * L)))).reshape(n, L) % k
    return {"S": raw.tolist(), "dist": draw(st.sampled_from(["interval", "arbitrary", "hamming", "given"]))}


def check_crowd(d):
    S = d["S"]
    cl, I = index(S)
    k = len(cl)
    C = 100.0 * abs(np.subtract.outer(np.arange(k), np.arange(k)))
    indel = 130.0
    kw = {"subs_mat": C, "indel": indel} if d["dist"] == "given" else {"dist_type": d["dist"]}
    if d["dist"] == "hamming":
        A = np.array(S)
        want = (A[:, None] != A[None]).sum(2).astype(float)
    else:
        sub, ind = {
            "interval": (lambda p, q: abs(p - q), k - 1),
            "arbitrary": (lambda p, q: 0.5 * (p != q), 1),
            "given": (lambda p, q: 100.0 * abs(p - q), indel),
        }[d["dist"]]
        want = matrix(I, sub, ind)
    with sut("Sequence"):
        s = Sequence(np.array(S), **kw)
        close(shape(s, S, cl), want, f"{d['dist']} distances", rtol=1e-10, atol=1e-11)
    many = len({tuple(x) for x in S}) > 64
    return len(np.unique(want)) > 2, ["more than 64 sequences" if many else "fewer", f"dist:{d['dist']}"]


PROPERTY = Property(
    "C28",
    [
        Facet("named distances", named(), check_named, 3200),
        Facet("given costs", given_cases(), check_given, 3200),
        Facet("relations", relation_cases(), check_relations, 1600),
        Facet("more sequences", named(min_n=15, max_n=40), check_named, 60),
        Facet("many sequences", crowd_cases(), check_crowd, 40),
        Facet("hamming", mismatch_cases(), check_mismatches, 1600),
        Facet("long sequences", long_named(), check_named, 300),
        Facet("long sequences, given costs", long_given(), check_given, 160),
    ],
    rule="1-7 sequences of equal or varying lengths up to 8 (and 1-3 of lengths up to 70, 150 for hamming; up to 130 short ones over 60 classes) over 1-14 classes (numbers, strings, "
    "joined strings, tuples, arrays; copies and near copies), symmetric hollow costs; alignment "
    "by memoised recursion. Non-trivial: at least three different distances (or an expected "
    "ValueError).",
    assumptions=["substitution costs are symmetric with zero diagonal, as documented"],
)
