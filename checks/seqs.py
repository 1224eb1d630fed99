"""Shared pieces of the checks on sequences."""

import numpy as np
from hypothesis import strategies as st

from harness import gens

KINDS = ("range", "range1", "sparse", "negative", "float", "string", "numeral", "letters")
LETTERS = "CATGxZbaY9"


@st.composite
def seq_cases(draw, max_n=7, max_len=7, max_k=5, equal=None, min_len=1, min_n=1, many=None):
    """{'seqs': sequences of class indexes, 'kind', 'as'}."""
    size = draw(st.sampled_from(["s", "s", "s", "k"]))
    k = draw(gens.span(1, max_k)) if size == "s" else draw(st.integers(11, 14))
    if many:
        k = draw(st.integers(*many))
    n = draw(gens.span(min_n, max_n))
    eq = draw(st.booleans()) if equal is None else equal
    t = draw(gens.span(min_len, max_len))
    lens = [t] * n if eq else [draw(gens.span(min_len, max_len)) for _ in range(n)]
    if not eq and n > 1 and len(set(lens)) == 1:
        lens[0] = lens[0] + 1
    if not eq and n > 1 and draw(st.integers(0, 5)) == 0:
        lens[draw(st.integers(1, n - 1))] = 0  # an empty one; never all of them
        lens[0] = max(1, lens[0])
    raw = draw(gens.raw_bytes(sum(lens) + n))
    seqs, p = [], 0
    for i, L in enumerate(lens):
        if seqs and raw[p] % 4 == 0:  # a copy, or nearly one
            base = seqs[raw[p] % len(seqs)]
            s = [base[j] if j < len(base) and raw[p + 1 + j] % 3 else raw[p + 1 + j] % k for j in range(L)]
        else:
            s = [v % k for v in raw[p + 1 : p + 1 + L]]
        seqs.append(s)
        p += 1 + L
    return {
        "seqs": seqs,
        "k": k,
        "kind": draw(st.sampled_from(KINDS)),
        "as": draw(st.sampled_from(["list", "array", "joined", "tuples"])),
        "rot": draw(st.integers(0, 4)),
    }


def labels_of(d):
    """(labelled sequences as plain lists, what is handed to the API)."""
    k = d["k"]
    if d["kind"] == "letters" and k <= len(LETTERS):
        lab = list(LETTERS[:k])
    else:
        lab = gens.alphabet("string" if d["kind"] == "letters" else d["kind"], k)
    r = d["rot"] % k
    lab = lab[r:] + lab[:r]
    S = [[lab[v] for v in s] for s in d["seqs"]]
    how = d["as"]
    equal = len({len(s) for s in S}) == 1
    if how == "joined" and all(isinstance(x, str) and len(x) == 1 for x in lab):
        return S, ["".join(s) for s in S]
    if how == "array" and equal:
        return S, np.array(S)
    if how == "tuples":
        return S, [tuple(s) for s in S]
    return S, S


def tags_of(d, S):
    n = len({len(s) for s in S})
    tags = [f"labels:{d['kind']}", "equal lengths" if n == 1 else "varying lengths", f"as:{d['as']}"]
    if len({tuple(s) for s in S}) < len(S):
        tags.append("equal sequences")
    if not all(S):
        tags.append("an empty sequence")
    if d["k"] > 10:
        tags.append("more than 10 classes")
    return tags
