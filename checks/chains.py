"""Shared pieces of the checks on transition matrices."""

import numpy as np
from hypothesis import strategies as st

from harness import gens, ref


@st.composite
def matrix_cases(draw, irreducible=False, max_k=7, min_k=1, empty_rows=True, heavy=0):
    """heavy: largest factor (a power of ten) by which the stays in some states
    are multiplied, making them nearly absorbing (or one move of theirs, making
    the other ones rare)."""
    hi = draw(st.sampled_from([1, 3, 12, 12, 300]))
    if irreducible:
        C = draw(gens.irreducible_counts(min_k=min_k, max_k=max_k, hi=hi))
    else:
        C = draw(gens.count_matrix(min_k=min_k, max_k=max_k, hi=hi, empty_rows=empty_rows))
    if heavy and draw(st.integers(0, 3)) == 0:
        powers = draw(st.lists(st.sampled_from([0, 0, heavy, heavy - 1]), min_size=len(C), max_size=len(C)))
        # or else one of the moves, so that the states it avoids are hardly ever seen
        shift = draw(st.sampled_from([None, None, 0, 1, 2]))
        at = [i if shift is None else (shift * i) % len(C) for i in range(len(C))]
        C = [[c * 10 ** p if j == a else c for j, c in enumerate(r)] for r, p, a in zip(C, powers, at)]
    form = draw(st.sampled_from(["array", "array", "array", "list", "F", "int", "int list", "readonly"]))
    if form in ("int", "int list"):  # one destination per state
        if irreducible:
            C = [[int(j == (i + 1) % len(C)) for j in range(len(C))] for i in range(len(C))]
        else:
            C = [[int(j == r.index(max(r)) and max(r) > 0) for j in range(len(C))] for r in C]
    return {"C": C, "form": form}


def matrix_of(d):
    """(counts, matrix as handed to the API).  'int' gives an integer matrix
    when every row has at most one destination."""
    C = np.array(d["C"])
    form = d["form"]
    if form in ("int", "int list") and ((C > 0).sum(axis=1) <= 1).all():
        P = (C > 0).astype(int)
        return C, P if form == "int" else P.tolist()
    P = ref.normalise(C)
    if form == "list":
        return C, P.tolist()
    if form == "F":
        return C, np.asfortranarray(P)
    if form == "readonly":
        P.setflags(write=False)
    return C, P


def shape_tags(C):
    C = np.asarray(C)
    all_c, closed = ref.sccs(C), ref.closed_sccs(C)
    tags = [f"recurrent:{min(3, len(closed))}"]
    tags.append("irreducible" if len(all_c) == 1 else "reducible")
    if len(all_c) > len(closed):
        tags.append("transient")
    if (C.sum(1) == 0).any():
        tags.append("empty row")
    if len(all_c) > 1 and any(len(c) > 1 for c in closed):
        tags.append("larger closed class beside others")
    P = ref.normalise(C)
    if ((np.diag(P) > 1 - 1e-5) & (np.diag(P) < 1)).any():
        tags.append("nearly absorbing")
    if len(all_c) == 1 and not np.diag(C).any() and len(C) > 1:
        tags.append("no self loops")
    return tags
