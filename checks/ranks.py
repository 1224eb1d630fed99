"""Shared pieces of the checks on rank statistics."""

import numpy as np
from hypothesis import strategies as st

from harness import gens, ref

KINDS = ["ties", "few", "distinct", "decimals", "uint8", "int8", "bigint", "hugefloat", "tinyfloat", "const"]
KINDS += ["float32", "uint64", "int16"]


def vector(raw, kind):
    """A numeric vector from 16-bit integers; tied values are truly equal."""
    v = np.array(raw, dtype=np.int64)
    if kind == "ties":
        return v % 4
    if kind == "few":
        return (v % 9 - 4).astype(float)
    if kind == "distinct":
        return v * 64 + np.arange(len(v)) % 64 - 10**6
    if kind == "decimals":
        return v * 0.0137 - 300
    if kind == "uint8":
        return (v % 256).astype(np.uint8)
    if kind == "int8":
        return (v % 256 - 128).astype(np.int8)
    if kind == "bigint":
        return (v % 7 - 3) + np.where(v % 2 == 0, 2**62, -(2**62))
    if kind == "hugefloat":
        return (v % 101 - 50) * 3e300 / 1.5
    if kind == "tinyfloat":
        return (v % 101 - 50) * 1e-300
    if kind == "float32":
        return (v * 0.0137 - 300).astype(np.float32)
    if kind == "uint64":
        return (v % 50).astype(np.uint64) + np.uint64(2**63 + 3)
    if kind == "int16":
        return (v - 32768).astype(np.int16)
    if kind == "const":
        return np.zeros(len(v)) + v[0] % 3
    raise ValueError(kind)


@st.composite
def pair_cases(draw, min_n=2, max_n=14, as_list=True, n=None, kinds=KINDS):
    if n is None:
        n = draw(gens.span(min_n, max_n))
    return {
        "n": n,
        "x": draw(gens.u16(n)),
        "y": draw(gens.u16(n)),
        "kx": draw(st.sampled_from(list(kinds))),
        "ky": draw(st.sampled_from(list(kinds))),
        "dep": draw(st.sampled_from(["none", "none", "pos", "neg", "rank"])),
        "as": draw(st.sampled_from(["array", "list"] if as_list else ["array"])),
    }


def pair_of(d):
    x = vector(d["x"], d["kx"])
    ry = list(d["y"])
    if d["dep"] == "pos":  # mostly ordered alike
        ry = [(a + b % 50) % 65536 for a, b in zip(d["x"], d["y"])]
    elif d["dep"] == "neg":
        ry = [65535 - a for a in d["x"]]
    elif d["dep"] == "rank":
        ry = sorted(ry)
    y = vector(ry, d["ky"])
    if d["as"] == "list":
        return x.tolist(), y.tolist()
    return x, y


def signs(x, y):
    x, y = np.asarray(x).tolist(), np.asarray(y).tolist()
    n = len(x)
    return np.array([[ref.pair_sign(x, y, i, j) for j in range(n)] for i in range(n)])


def tau_b(con, dis, ty, tx):
    a, b = con + dis + ty, con + dis + tx
    if a == 0 or b == 0:
        return np.nan
    return (con - dis) / np.sqrt(float(a)) / np.sqrt(float(b))


def row_neighbours(d):
    """Neighbours by row for weights whose ids are the rows 0..n-1."""
    ids = d["ids"]
    out = [None] * len(ids)
    for i, js in enumerate(d["nb"]):
        out[ids[i]] = [ids[j] for j in js]
    return out


def row_weights(n, **kw):
    return gens.weights_case(n=n, ids=("range", "shuffled", "shuffled"), **kw)


def tie_tags(x, y):
    x, y = np.asarray(x).tolist(), np.asarray(y).tolist()
    tags = []
    if len(set(x)) < len(x):
        tags.append("tied x")
    if len(set(y)) < len(y):
        tags.append("tied y")
    if len(set(zip(x, y))) < len(x):
        tags.append("equal pairs")
    return tags
