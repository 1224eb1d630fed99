"""Shared pieces of the checks on figures."""

import contextlib

import numpy as np
from hypothesis import strategies as st

from checks import lisa
from harness import gens
from harness.core import need

NAMES = ["ns", "HH", "LH", "LL", "HL"]


@st.composite
def rose_data(draw, min_n=4, max_n=14):
    """Values at two times for a Rose, and its weights."""
    d = draw(lisa.lisa_cases(min_n=min_n, max_n=max_n, max_t=2))
    d["k"] = draw(st.sampled_from([4, 5, 8, 1, 12]))
    return d


def rose_of(d):
    from giddy.directional import Rose

    Y = lisa.series_of(d["y"])
    w = gens.build_w(d["w"])
    return Y, w, Rose(Y, w, k=d["k"])


def locals_of(Y, d):
    """The local Morans at both times under the present random state, which
    is left as it is."""
    from esda.moran import Moran_Local

    state = np.random.get_state()
    out = []
    for s in range(2):
        np.random.set_state(state)
        out.append(Moran_Local(Y[:, s], gens.build_w(d["w"])))
    np.random.set_state(state)
    return out


def classes(ml, p):
    return [int(q) if float(s) < p else 0 for q, s in zip(ml.q, ml.p_sim)]


def table(a, b, p):
    out = np.zeros((5, 5), int)
    for u, v in zip(classes(a, p), classes(b, p)):
        out[u, v] += 1
    return out


def level(d, mls):
    """Threshold: often exactly one of the p-values."""
    if d["sig"] != "at":
        return d["sig"]
    v = sorted({float(x) for m in mls for x in m.p_sim})
    return v[d["sig_pos"] % len(v)]


def frozen(obj):
    """Attribute values of an object, comparable."""
    out = {}
    for k, v in vars(obj).items():
        if isinstance(v, np.ndarray):
            out[k] = (v.dtype.str, v.shape, v.tobytes())
        elif isinstance(v, (int, float, str, type(None))):
            out[k] = v
    return out


def frozen_w(w):
    return (
        str(w.transform).upper(),
        {i: list(w.neighbors[i]) for i in w.id_order},
        {i: [float(x) for x in w.weights[i]] for i in w.id_order},
        list(w.id_order),
    )


@contextlib.contextmanager
def untouched(*objs, what):
    """matplotlib's settings, numpy's random state, and the objects given stay
    as they are, whether or not the block fails."""
    import matplotlib as mpl

    rc = dict(mpl.rcParams)
    rs = np.random.get_state()
    before = [frozen(o) for o in objs]
    ws = [frozen_w(o.w) for o in objs]
    try:
        yield
    finally:
        for k, v in rc.items():
            need(mpl.rcParams[k] == v, f"{what} changed rcParams[{k!r}] to {mpl.rcParams[k]!r}")
        now = np.random.get_state()
        need(
            rs[0] == now[0] and np.array_equal(rs[1], now[1]) and rs[2:] == now[2:],
            f"{what} changed numpy's random state",
        )
        for o, b, wb in zip(objs, before, ws):
            a = frozen(o)
            for k in b:
                need(a.get(k) == b[k], f"{what} changed {type(o).__name__}.{k}")
            need(frozen_w(o.w) == wb, f"{what} changed the weights of the {type(o).__name__}")


@contextlib.contextmanager
def figures():
    """Closes whatever is drawn."""
    import matplotlib.pyplot as plt

    plt.close("all")
    try:
        yield plt
    finally:
        plt.close("all")


def mesh_of(ax):
    """(5x5 values, 5x5 mask) of the heatmap in ax, rows from the top."""
    from matplotlib.collections import QuadMesh

    m = [c for c in ax.collections if isinstance(c, QuadMesh)]
    need(len(m) == 1, f"{len(m)} heatmaps in the axes")
    a = np.ma.asarray(m[0].get_array())
    a = a.reshape(5, 5)
    need(ax.yaxis_inverted(), "the first row of the heatmap is not on top")
    return np.asarray(a.data), np.ma.getmaskarray(a), m[0]


def texts_of(ax):
    """{(row, column): text} of the annotated cells."""
    out = {}
    for t in ax.texts:
        x, y = t.get_position()
        out[(int(np.floor(y)), int(np.floor(x)))] = t.get_text()
    return out


def labels(axis):
    return [t.get_text() for t in axis]


def warm():
    lisa.warmup()
    with figures() as plt:
        import giddy.plotting  # noqa: F401

        plt.figure()
