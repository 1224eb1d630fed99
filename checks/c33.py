"""C33 Rose plots draw the observed vectors and leave global state alone."""

import numpy as np
from hypothesis import strategies as st

from checks import c32, figs
from harness import gens
from harness.core import Facet, Property, close, need, raises, same, sut


@st.composite
def base(draw, max_n=12):
    # more units than fit a small map, once in a while
    d = draw(figs.rose_data(**({"min_n": 40, "max_n": 110} if draw(gens.span(1, 10)) == 10 else {"max_n": max_n})))
    d["permuted"] = draw(st.booleans())
    d["rc"] = draw(st.booleans())
    return d


def settings_of(d):
    """Settings of the caller which differ from the defaults."""
    from matplotlib import rc_context

    return rc_context({"grid.color": "#123456", "axes.edgecolor": "0.3", "axes.facecolor": "0.9"} if d["rc"] else {})


def build(d):
    Y, w, rose = figs.rose_of(d)
    if d["permuted"]:
        rose.permute(2)
    return Y, w, rose


# ----------------------------------------------------------------- rose diagrams


@st.composite
def rose_cases(draw):
    d = draw(base())
    d["via"] = draw(st.sampled_from(["function", "method"]))
    d["attr"] = draw(st.sampled_from([None, "Y0", "Y0", "index", "list", "same", "zero"]))
    d["ax"] = draw(st.booleans())
    d["kw"] = draw(
        st.sampled_from([{}, {}, {"alpha": 0.4}, {"alpha": 0}, {"alpha": 1}, {"cmap": "viridis"}, {"s": 7}, {"color": "r"}, {"c": "r"}, {"marker": "x"}])
    )
    return d


def check_rose(d):
    from giddy.plotting import dynamic_lisa_rose
    from matplotlib.colors import to_rgba

    np.random.seed(d["seed"])
    with settings_of(d):
        with figs.figures() as plt:
            Y, w, rose = build(d)
            n = len(Y)
            attr = {None: None, "Y0": Y[:, 0], "index": np.arange(n), "list": [float(v) for v in range(n)], "same": np.full(n, 3), "zero": [0.0] * n}[d["attr"]]
            ax = plt.subplots(subplot_kw={"projection": "polar"})[1] if d["ax"] else None
            draw = (lambda **k: rose.plot(**k)) if d["via"] == "method" else (lambda **k: dynamic_lisa_rose(rose, **k))
            kw = dict(d["kw"])
            colour = [k for k in ("c", "color") if k in kw]
            tags = [f"via:{d['via']}", f"attribute:{d['attr']}"] + [f"keyword:{k}" for k in kw]
            with sut("dynamic_lisa_rose"), figs.untouched(rose, what="dynamic_lisa_rose"):
                if attr is not None and colour:
                    raises(ValueError, lambda: draw(attribute=attr, ax=ax, **kw), "attribute with " + colour[0])
                    return True, tags + ["refused"]
                fig, got = draw(attribute=attr, ax=ax, **kw)
                need(got.name == "polar", f"axes are {got.name}")
                need(ax is None or got is ax, "the axes given were not used")
                need(got.get_figure() is fig, "the figure returned is not that of the axes")
                need(len(got.collections) == 1, f"{len(got.collections)} sets of points")
                c = got.collections[0]
                pts = np.asarray(np.ma.filled(c.get_offsets(), np.nan), float)
                close(pts[:, 0], rose.theta, "angles of the points", rtol=1e-12)
                close(pts[:, 1], rose.r, "radii of the points", rtol=1e-12)
                if attr is not None:
                    close(np.ravel(c.get_array()), np.asarray(attr, float), "colours of the points", rtol=1e-12)
                    need(c.get_cmap().name == kw.get("cmap", "YlGnBu"), f"colour map {c.get_cmap().name}")
                elif colour:
                    need(np.allclose(c.get_facecolor()[0][:3], to_rgba("r")[:3]), "colour of the points")
                need(c.get_alpha() == kw.get("alpha", 0.9), f"alpha {c.get_alpha()}")
                if "s" in kw:
                    need(np.allclose(c.get_sizes(), 7), "size of the points")
    return n > 2, tags + ["axes given"] * d["ax"]


# ----------------------------------------------------------------- vectors


@st.composite
def vector_cases(draw):
    d = draw(base())
    d["via"] = draw(st.sampled_from(["function", "method", "origin"]))
    d["arrows"] = draw(st.sampled_from([True, False, "default"]))
    d["ax"] = draw(st.booleans())
    d["kw"] = draw(st.sampled_from([{}, {}, {"color": "r"}, {"c": "g"}, {"linewidth": 3}]))
    return d


def check_vectors(d):
    from giddy.plotting import dynamic_lisa_vectors
    from matplotlib.colors import to_rgba

    np.random.seed(d["seed"])
    with settings_of(d), figs.figures() as plt:
        Y, w, rose = build(d)
        n = len(Y)
        M = gens.dense_w(d["w"])
        L = M @ Y.astype(float)
        top = np.abs(Y.astype(float)).max() * max(1.0, np.abs(M).sum(axis=1).max())
        kw = {} if d["via"] != "function" else dict(d["kw"])
        arr = {} if d["arrows"] == "default" else {"arrows": d["arrows"]}
        with sut(f"plotting vectors ({d['via']})"), figs.untouched(rose, what="plotting vectors"):
            if d["via"] == "origin":
                rose.plot_origin()
                ax = plt.gca()
                fx = np.column_stack([np.zeros(n), Y[:, 1].astype(float) - Y[:, 0]])
                fy = np.column_stack([np.zeros(n), L[:, 1] - L[:, 0]])
            else:
                ax0 = plt.subplots(1, 2)[1][0] if d["ax"] and d["via"] == "function" else None
                if d["via"] == "function":
                    fig, ax = dynamic_lisa_vectors(rose, ax=ax0, **arr, **kw)
                    need(ax0 is None or ax is ax0, "the axes given were not used")
                else:
                    fig, ax = rose.plot_vectors(**arr)
                need(ax.get_figure() is fig, "the figure returned is not that of the axes")
                fx, fy = Y.astype(float), L
                texts = [t for t in ax.texts]
                if d["arrows"] is False:
                    need(not texts, f"{len(texts)} arrows with arrows=False")
                else:
                    need(len(texts) == n, f"{len(texts)} arrows, {n} units")
                    for i, t in enumerate(texts):
                        a = np.array([*t.xyann, *t.xy], float)
                        close(a, [fx[i, 0], fy[i, 0], fx[i, 1], fy[i, 1]], f"arrow {i}", rtol=1e-9, atol=1e-12 * top)
                        need(t.arrow_patch is not None, f"arrow {i} has no head")
            lines = ax.get_lines()
            need(len(lines) == n, f"{len(lines)} lines, {n} units")
            for i, l in enumerate(lines):
                close(np.asarray(l.get_xdata(), float), fx[i], f"x of line {i}", rtol=1e-9, atol=1e-12 * top)
                close(np.asarray(l.get_ydata(), float), fy[i], f"y of line {i}", rtol=1e-9, atol=1e-12 * top)
                col = kw.get("c", kw.get("color", "b"))
                need(to_rgba(l.get_color()) == to_rgba(col), f"colour of line {i}")
                if "linewidth" in kw:
                    need(l.get_linewidth() == 3, "linewidth")
    return n > 2, [f"via:{d['via']}", f"arrows:{d['arrows']}"] + [f"keyword:{k}" for k in kw]


# ----------------------------------------------------------------- composite


@st.composite
def composite_cases(draw):
    d = draw(base(max_n=10))
    d["via"] = draw(st.sampled_from(["composite", "composite", "explore"]))
    d["pattern"] = draw(st.sampled_from(["", "_rel"]))
    d["pick"] = [draw(st.integers(0, 5)), draw(st.integers(0, 5))]
    return d


def frame(Y):
    import geopandas as gpd
    from shapely.geometry import box

    n = len(Y)
    g = [box(i % 4, i // 4, i % 4 + 1, i // 4 + 1) for i in range(n)]
    cols = {"a_rel": Y[:, 0], "b_rel": Y[:, 1], "c_rel": Y[:, 0] * 2.0 - Y[:, 1] * 0.5}
    cols.update(d_rel_x=Y[:, 1] + 1.0, _rel7=Y[:, 0] - 1.0)
    return gpd.GeoDataFrame(cols, geometry=g)


def patches(ax):
    return [np.asarray(c.get_facecolor()) for c in ax.collections]


def verify_composite(fig, axs, rose, Y, d, p, gdf, mls, plt):
    need(len(axs) == 4 and all(a.get_figure() is fig for a in axs), f"{len(axs)} axes")
    want = figs.table(*mls, p)
    c32.verify(axs[0], want, {})
    need(axs[2].name == "polar", "third axes are not polar")
    pts = np.asarray(axs[2].collections[0].get_offsets(), float)
    close(pts[:, 0], rose.theta, "angles of the points", rtol=1e-12)
    close(pts[:, 1], rose.r, "radii of the points", rtol=1e-12)
    for pos, when, ml in ((1, "Start time", mls[0]), (3, "End time", mls[1])):
        need(axs[pos].get_title() == when, f"title {axs[pos].get_title()!r}")
        f2, a2 = plt.subplots()
        ml.plot(gdf, crit_value=p, ax=a2)
        got, exp = patches(axs[pos]), patches(a2)
        plt.close(f2)
        need(
            len(got) == len(exp) and all(g.shape == v.shape and np.allclose(g, v) for g, v in zip(got, exp)),
            f"map of the {when.lower()} differs from that of its local Morans",
        )
    return (want > 0).sum() > 1


def check_composite(d):
    from giddy.directional import Rose
    from giddy.plotting import dynamic_lisa_composite, dynamic_lisa_composite_explore

    np.random.seed(d["seed"])
    with settings_of(d), figs.figures() as plt:
        Y, w, rose = build(d)
        gdf = frame(Y)
        keep = gdf.copy()
        tags, moved = [f"via:{d['via']}"], False
        if d["via"] == "composite":
            mls = figs.locals_of(Y, d)
            p = figs.level(d, mls)
            with sut("dynamic_lisa_composite"):
                with figs.untouched(rose, what="dynamic_lisa_composite"):
                    fig, axs = dynamic_lisa_composite(rose, gdf, p=p)
                moved = verify_composite(fig, axs, rose, Y, d, p, gdf, mls, plt)
        else:
            import ipywidgets

            calls = []
            orig = ipywidgets.interact
            cols = [c for c in gdf.columns if c.endswith(d["pattern"])]
            try:
                ipywidgets.interact = lambda f, **k: calls.append((f, k))
                with sut("dynamic_lisa_composite_explore"), figs.untouched(rose, what="the explorer"):
                    dynamic_lisa_composite_explore(rose, gdf, pattern=d["pattern"], p=0.2)
                    need(len(calls) == 1, f"{len(calls)} interactive figures")
            finally:
                ipywidgets.interact = orig
            f, k = calls[0]
            with sut("the interactive figure"):
                opts = [v for v in k.values() if isinstance(v, (dict, list, tuple)) and not hasattr(v, "value")]
                opts = [list(o.values()) if isinstance(o, dict) else list(o) for o in opts if len(o) == len(cols)]
                need(opts and all(sorted(o) == sorted(cols) for o in opts), f"columns offered: {opts}, expected {cols}")
                num = [c for c in cols if c != "geometry"]
                s, e = (num[i % len(num)] for i in d["pick"])
                Z = np.array([gdf[s].values, gdf[e].values], float).T
                if all((Z[:, t] != Z[0, t]).any() for t in (0, 1)):
                    mls = figs.locals_of(Z, d)
                    args = {a: getattr(v, "value", v) for a, v in k.items()}
                    args.update(start_time=s, end_time=e)
                    with figs.untouched(rose, what="the interactive figure"):
                        f(**args)
                    fig = plt.gcf()
                    axs = [a for a in fig.axes if a.get_subplotspec() is not None]
                    want = Rose(Z, gens.build_w(d["w"]), k=5)
                    order = sorted(axs, key=lambda a: a.get_subplotspec().num1)
                    moved = verify_composite(fig, order, want, Z, d, 0.2, gdf, mls, plt)
                    tags.append("explored")
        if moved:
            tags.append("several classes")
        need(gdf.equals(keep) and list(gdf.columns) == list(keep.columns), "the frame was changed")
    return moved, tags


# ----------------------------------------------------------------- failing plots


@st.composite
def failing_cases(draw):
    d = draw(base(max_n=6))
    d["how"] = draw(st.sampled_from(["axes", "keyword", "attribute", "colour"]))
    d["via"] = draw(st.sampled_from(["function", "method", "other"]))
    d["other"] = draw(st.sampled_from(["vectors", "heatmap", "frame", "size", "level"]))
    return d


def check_other(d):
    """Failing calls of the other plots."""
    from giddy import plotting

    np.random.seed(d["seed"])
    with settings_of(d), figs.figures():
        Y, w, rose = build(d)
        gdf = frame(Y)
        call = {
            "vectors": lambda: plotting.dynamic_lisa_vectors(rose, no_such_keyword=1),
            "heatmap": lambda: plotting.dynamic_lisa_heatmap(rose, no_such_keyword=1),
            "frame": lambda: plotting.dynamic_lisa_composite(rose, None),
            "size": lambda: plotting.dynamic_lisa_composite(rose, gdf, figsize="large"),
            "level": lambda: plotting.dynamic_lisa_composite(rose, gdf, p="often"),
        }[d["other"]]
        with figs.untouched(rose, what=f"a failing plot ({d['other']})"):
            try:
                call()
            except Exception:
                pass
            else:
                need(False, f"no error for {d['other']}")
    return True, [f"how:{d['other']}"]


def check_failing(d):
    from giddy.plotting import dynamic_lisa_rose

    if d["via"] == "other":
        return check_other(d)

    np.random.seed(d["seed"])
    with settings_of(d), figs.figures() as plt:
        Y, w, rose = build(d)
        kw = {
            "axes": {"ax": plt.subplots()[1]},
            "keyword": {"no_such_keyword": 1},
            "attribute": {"attribute": np.arange(len(Y) + 3)},
            "colour": {"attribute": Y[:, 0], "color": "r"},
        }[d["how"]]
        with sut("dynamic_lisa_rose"), figs.untouched(rose, what="a failing dynamic_lisa_rose"):
            try:
                rose.plot(**kw) if d["via"] == "method" else dynamic_lisa_rose(rose, **kw)
            except Exception as e:
                need(d["how"] != "colour" or isinstance(e, ValueError), f"raised {type(e).__name__}")
            else:
                need(d["how"] == "axes", f"no error for {d['how']}")
    return True, [f"how:{d['how']}"]


PROPERTY = Property(
    "C33",
    [
        Facet("rose", rose_cases(), check_rose, 400),
        Facet("vectors", vector_cases(), check_vectors, 320),
        Facet("composite", composite_cases(), check_composite, 96),
        Facet("failing", failing_cases(), check_failing, 120),
    ],
    rule="Roses of 4-12 units (as for C15), fresh or permuted, every plotting function and method "
    "with given or own axes and random keywords, valid and failing; points, lines, arrows, maps "
    "and heatmaps are read back from matplotlib, settings, random state and the Rose with its "
    "weights compared before and after. Non-trivial: more than two units, a refused call, or "
    "several local Moran classes.",
    assumptions=[
        "maps are compared with those esda draws for the same local Morans",
        "the explorer is judged by the function and options it hands to ipywidgets.interact",
    ],
    warmup=figs.warm,
)
