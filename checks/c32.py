"""C32 LISA heatmaps tabulate the significant quadrant changes."""

import numpy as np
from hypothesis import strategies as st

from checks import figs
from harness.core import Facet, Property, need, same, sut


@st.composite
def cases(draw):
    # more units than fit a small map, once in a while
    d = draw(figs.rose_data(**({"min_n": 40, "max_n": 110} if draw(st.integers(0, 9)) == 7 else {})))
    d["ax"] = draw(st.booleans())
    d["p_as"] = draw(st.sampled_from(["key", "pos", "default"]))
    kw = {}
    for k, v in {
        "annot": False,
        "cmap": "viridis",
        "mask": "none",
        "cbar": True,
        "square": False,
        "xticklabels": ["a", "b", "c", "d", "e"],
        "yticklabels": ["v", "w", "x", "y", "z"],
        "linewidths": 2.5,
    }.items():
        if draw(st.integers(0, 5)) == 0:
            kw[k] = v
    d["kw"] = kw
    return d


def verify(ax, want, kw, mesh_alpha=None):
    vals, mask, mesh = figs.mesh_of(ax)
    shown = ~np.eye(5, dtype=bool)
    if kw.get("mask") == "none":
        shown[:] = True
    same(mask, ~shown, "masked cells of the heatmap")
    same(vals[shown].astype(int), want[shown], "cells of the heatmap")
    t = figs.texts_of(ax)
    if kw.get("annot", True):
        exp = {(i, j): str(want[i, j]) for i in range(5) for j in range(5) if shown[i, j]}
        need(t == exp, f"annotations {t}, expected {exp}")
    else:
        need(not t, f"annotations {t} with annot=False")
    need(figs.labels(ax.get_xticklabels()) == kw.get("xticklabels", figs.NAMES), f"x tick labels {figs.labels(ax.get_xticklabels())}")
    need(figs.labels(ax.get_yticklabels()) == kw.get("yticklabels", figs.NAMES), f"y tick labels {figs.labels(ax.get_yticklabels())}")
    need(np.allclose(ax.get_xticks(), np.arange(5) + 0.5), f"x ticks {ax.get_xticks()}")
    need(np.allclose(ax.get_yticks(), np.arange(5) + 0.5), f"y ticks {ax.get_yticks()}")
    need(ax.get_xlabel() == "End time", f"x label {ax.get_xlabel()!r}")
    need(ax.get_ylabel() == "Start time", f"y label {ax.get_ylabel()!r}")
    return mesh


def check(d):
    from giddy.plotting import dynamic_lisa_heatmap

    np.random.seed(d["seed"])
    with figs.figures() as plt, sut("dynamic_lisa_heatmap"):
        Y, w, rose = figs.rose_of(d)
        a, b = figs.locals_of(Y, d)
        p = 0.05 if d["p_as"] == "default" else figs.level(d, (a, b))
        want = figs.table(a, b, p)
        kw = dict(d["kw"])
        if kw.get("mask") == "none":
            kw["mask"] = np.zeros((5, 5), bool)
        keep = {k: (v.copy() if isinstance(v, (np.ndarray, list)) else v) for k, v in kw.items()}
        ax = plt.subplots(1, 2)[1][1] if d["ax"] else None
        if d["p_as"] == "pos":
            fig, got = dynamic_lisa_heatmap(rose, p, ax, **kw)
        elif d["p_as"] == "key":
            fig, got = dynamic_lisa_heatmap(rose, p=p, ax=ax, **kw)
        else:
            fig, got = dynamic_lisa_heatmap(rose, ax=ax, **kw)
        need(ax is None or got is ax, "the axes given were not used")
        need(got.get_figure() is fig, "the figure returned is not that of the axes")
        need(want.sum() == len(Y), "units in the table")
        mesh = verify(got, want, d["kw"])
        need(mesh.get_cmap().name == kw.get("cmap", "YlGnBu"), f"colours {mesh.get_cmap().name}")
        aspect = got.get_aspect()
        need((aspect == 1.0) == kw.get("square", True), f"aspect {aspect}")
        extra = len(fig.axes) - (2 if d["ax"] else 1)
        need(extra == int(kw.get("cbar", False)), f"{extra} colour bars")
        if "linewidths" in kw:
            need(np.allclose(mesh.get_linewidths(), kw["linewidths"]), "linewidths")
        for k, v in keep.items():
            need(np.array_equal(kw[k], v), f"keyword {k} was changed")
    off = want.sum() - np.trace(want)
    tags = [f"moved:{min(int(off), 3)}", f"classes:{len(set(np.argwhere(want).ravel().tolist()))}"]
    tags += [f"keyword:{k}" for k in d["kw"]] + ["axes given"] * d["ax"]
    if any(float(x) == p for m in (a, b) for x in m.p_sim):
        tags.append("p equal to the level")
    return bool(off > 0), tags


@st.composite
def crowded_cases(draw):
    """Hundreds of units, most of which change alike."""
    return {
        "n": draw(st.integers(150, 900)),
        "few": draw(st.sampled_from([1, 2, 5, 40])),
        "signs": draw(st.sampled_from([[1, -1], [1, -1], [1, 1], [-1, 1]])),
        "p": draw(st.sampled_from([1.5, 1.5, 0.05, 0.0, 0.5])),
        "mask": draw(st.booleans()),
        "seed": draw(st.integers(0, 10**6)),
    }


def check_crowded(d):
    from giddy.directional import Rose
    from giddy.plotting import dynamic_lisa_heatmap
    from harness import gens

    n = d["n"]
    ring = {
        "ids": list(range(n)), "nb": [[(i - 1) % n, (i + 1) % n] for i in range(n)],
        "wt": [[1.0, 1.0]] * n, "transform": "r",
    }
    np.random.seed(d["seed"])
    Y = np.random.randint(0, 9, (n, 2)).astype(float)
    Y[: d["few"]] += 1000  # all others are low (high when negated), like their neighbours
    Y = Y * d["signs"]
    with figs.figures(), sut("dynamic_lisa_heatmap"):
        rose = Rose(Y, gens.build_w(ring), k=4)
        a, b = figs.locals_of(Y, {"w": ring})
        want = figs.table(a, b, d["p"])
        kw = {"mask": np.zeros((5, 5), bool)} if d["mask"] else {}
        fig, got = dynamic_lisa_heatmap(rose, p=d["p"], **kw)
        verify(got, want, {"mask": "none"} if d["mask"] else {})
    off = (want - np.diag(np.diag(want))).max()
    return bool(off > 0), [f"largest shown cell > {x}" for x in (127, 255) if (want.max() if d["mask"] else off) > x]


PROPERTY = Property(
    "C32",
    [Facet("heatmap", cases(), check, 480), Facet("crowded cells", crowded_cases(), check_crowded, 60)],
    rule="Roses of 4-14 units (also up to 110, and up to 900 which mostly change alike) (as for C15), thresholds often equal to a pseudo p-value, random style "
    "keywords, own or given axes; the drawn cells, annotations, labels and masks are read back "
    "from matplotlib and compared with a table from esda's local Morans under the same random "
    "state. Non-trivial: some unit off the diagonal.",
    assumptions=["esda.Moran_Local's q and p_sim are the quadrant and pseudo p-value"],
    warmup=figs.warm,
)
