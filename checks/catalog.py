"""Every public analysis, as calls on one shared pool of inputs."""

import copy
import zlib

import numpy as np
from hypothesis import strategies as st

from checks import lisa, seqs
from checks import ranks as rk
from checks import spatial as sp
from harness import gens, ref
from harness.core import captured, need


# ----------------------------------------------------------------- the inputs


@st.composite
def pool_cases(draw):
    d = draw(lisa.lisa_cases(min_n=4, max_n=9, max_t=5))
    n, t = d["y"]["n"], d["y"]["t"]
    d["w"] = draw(
        gens.weights_case(n=n, ids=("range", "shuffled"), transforms=("r", "r", "b", "o"), symmetric=draw(st.sampled_from([None, True])))
    )
    k = draw(st.integers(2, 4))
    return {
        "base": d,
        "L": {"n": n, "t": t, "k": k, "mode": draw(st.sampled_from(gens.MODES)), "raw": list(draw(gens.raw_bytes(n * t)))},
        "kind": draw(st.sampled_from(["range", "sparse", "string", "numeral"])),
        "C": draw(gens.count_matrix(min_k=2, max_k=4, empty_rows=draw(st.booleans()))),
        "I": draw(gens.irreducible_counts(min_k=2, max_k=4)),
        "stack": draw(sp.count_stacks(max_k=3, max_m=3, min_m=2)),
        "pair": draw(rk.pair_cases(n=n, as_list=False, kinds=("ties", "few", "distinct", "decimals", "uint8"))),
        "g": [v % 3 for v in draw(gens.raw_bytes(n))],
        "seq": draw(seqs.seq_cases(max_n=8, max_len=5, max_k=3)),
        "order": draw(st.sampled_from(["C", "F"])),
        "seed": draw(st.integers(0, 10**6)),
    }


def build(case):
    """{name: fresh input}; the names ending in _l are lists."""
    Y = lisa.series_of(case["base"]["y"])
    n = len(Y)
    lab = gens.alphabet(case["kind"], case["L"]["k"])
    L = np.array([[lab[v] for v in r] for r in gens.panel_of(case["L"]).tolist()])
    x, y = rk.pair_of(case["pair"])
    k = len(case["stack"][0])
    v = np.unique(Y)
    C = np.array(case["C"])
    P = ref.normalise(C)
    Q = ref.normalise(np.array(case["I"]))
    R = P.copy()
    R[C.sum(1) == 0, C.sum(1) == 0] = 1.0
    M = np.abs(Y @ Y.T)
    S, _ = seqs.labels_of(case["seq"])
    Sq = [s[: min(len(a) for a in S)] for s in S]
    kk = len(set(a for s in S for a in s))
    out = {
        "Y": Y,
        "Y_l": Y.tolist(),
        "Y2": Y[:, [0, -1]].copy(),
        "L": L,
        "L_l": L.tolist(),
        "classes": np.array(lab),
        "P": P,
        "P_l": P.tolist(),
        "Q": Q,
        "R": R,
        "ini": np.arange(1.0, len(Q) + 1) / np.arange(1.0, len(Q) + 1).sum(),
        "T": np.array(case["stack"]),
        "T_l": [[list(map(float, r)) for r in M_] for M_ in case["stack"]],
        "F": np.array(case["stack"], float),
        "regime_names_l": [f"r{i}" for i in range(len(case["stack"]))],
        "class_names_l": [f"c{i}" for i in range(k)],
        "cutoffs": v[:-1][:: max(1, len(v) // 3)].copy(),
        "cutoffs_l": [float(c) for c in v[:-1][:: max(1, len(v) // 4)]][::-1],
        "lag_cutoffs_l": sorted({float(np.median(Y)), float(np.mean(Y))}),
        "x": x,
        "y": y,
        "x_l": x.tolist(),
        "y_l": y.tolist(),
        "g": np.array(case["g"]),
        "g_l": list(case["g"]),
        "M": M,
        "S_l": copy.deepcopy(S),
        "Sq_l": copy.deepcopy(Sq),
        "subs": np.array([[abs(i - j) * 0.5 for j in range(kk)] for i in range(kk)]),
        "ids_l": list(case["base"]["w"]["ids"])[: max(2, n // 2)],
        "w": gens.build_w(case["base"]["w"]),
    }
    if case["order"] == "F":
        for name, a in out.items():
            if isinstance(a, np.ndarray) and a.ndim > 1:
                out[name] = np.asfortranarray(a)
    return out


def flip(inputs, fresh=False):
    """Reverse the data of every input in place along all axes (labels, cutoffs,
    names and weights stay)."""
    for name in ("Y", "Y2", "L", "P", "Q", "R", "T", "F", "x", "y", "g", "M", "subs", "ini"):
        a = inputs[name]
        a[...] = np.flip(a).copy()
    for name in ("Y_l", "L_l", "P_l", "T_l", "x_l", "y_l", "g_l", "S_l", "Sq_l"):
        _reverse(inputs[name])


def relate(I, how, pos):
    """Inputs which share much with the given ones: sizes, and rows, sums,
    ranks, labels or weights."""
    arrays = [n for n, v in I.items() if isinstance(v, np.ndarray) and v.size > 1]
    if how in (1, 2, 3):  # two entries of one row (of the last axis) trade places
        for name in arrays:
            a = I[name].reshape(-1, I[name].shape[-1])  # a view, or a copy of an F array
            row = a[-1 - pos % (1 if how == 1 else len(a))]
            i, j = pos % len(row), (pos // 3 + 1) % len(row)
            row[[i, j]] = row[[j, i]]
            I[name] = a.reshape(I[name].shape)
    elif how == 4:  # another order of the units
        for name in arrays:
            if name not in ("P", "Q", "R", "T", "F", "subs", "M", "classes"):
                I[name] = np.roll(I[name], 1 + pos, axis=0)
    elif how == 5:  # other values, the same ranks
        for name in ("Y", "Y2", "x", "y", "M", "cutoffs"):
            I[name] = I[name] * 2
        I["Y_l"] = (np.array(I["Y_l"]) * 2).tolist()
        for name in ("cutoffs_l", "lag_cutoffs_l"):
            I[name] = [2 * v for v in I[name]]
    elif how == 6:  # the same values, other neighbours
        w = I["w"]
        ids = list(w.id_order)
        to = dict(zip(ids, ids[1:] + ids[:1]))
        nb = {to[i]: [to[j] for j in w.neighbors[i]] for i in ids}
        new = type(w)(nb, {to[i]: list(w.weights[i]) for i in ids}, id_order=ids, silence_warnings=True)
        new.transform = w.transform
        I["w"] = new
    elif how == 7:
        flip(I)
    for name in ("Y", "L", "P", "T", "x", "y", "g"):
        if how in (1, 2, 3, 4):
            I[name + "_l"] = I[name].tolist()


def _reverse(a):
    for b in a:
        if isinstance(b, list):
            _reverse(b)
    a.reverse()


# ----------------------------------------------------------------- the calls


def _lisa(I, **kw):
    from giddy.markov import LISA_Markov

    return LISA_Markov(I["Y"], I["w"], **kw)


def _spill(I):
    m = _lisa(I, permutations=9, significance_level=0.3)
    return [m, m.spillover(), m.spillover(quadrant=3, neighbors_on=True)]


def _sm(I, Y="Y", **kw):
    from giddy.markov import Spatial_Markov

    return Spatial_Markov(I[Y], I["w"], **kw)


def _rose(I, alternative=None):
    from giddy.directional import Rose

    r = Rose(I["Y2"], I["w"], k=4)
    if alternative:
        r.permute(9, alternative)
    return r


def _rose_again(I):
    """Permuting a second time leaves what the first one gave."""
    r = _rose(I, "positive")
    kept = {a: getattr(r, a) for a in ("counts_perm", "expected_perm", "larger_perm", "smaller_perm", "p", "counts", "r", "theta")}
    before = {a: np.array(v) for a, v in kept.items()}
    for alternative in ("two.sided", "negative"):
        r.permute(9, alternative)
        for a, v in kept.items():
            need(np.array_equal(np.asarray(v), before[a], equal_nan=True), f"{a} of an earlier permute changed")
    return r


def _plot(I):
    from checks import figs

    with figs.figures():
        r = _rose(I)
        r.plot(attribute=I["x"])
        r.plot_vectors()
        r.plot_origin()
    return r


def _heat(I):
    from giddy.plotting import dynamic_lisa_heatmap

    from checks import figs

    with figs.figures():
        ax = dynamic_lisa_heatmap(_rose(I))[1]
        return np.asarray(figs.mesh_of(ax)[0])


def _graph(I):
    from giddy.components import Graph

    g = Graph()
    w = I["w"]
    for i in w.id_order:
        for j in w.neighbors[i]:
            g.add_edge(i, j, (i + j) % 4 / 4)
    return sorted(sorted(c.nodes) for c in g.connected_components(threshold=0.5))


def _seq(I, S, **kw):
    from giddy.sequence import Sequence

    return Sequence(I[S], **kw)


def _import(mod, name):
    import importlib

    return getattr(importlib.import_module("giddy." + mod), name)


def _call(mod, name, *args, **kw):
    """A call with the inputs of those names."""

    def run(I):
        f = _import(mod, name)
        k = {a: (I[v[1:]] if isinstance(v, str) and v.startswith("=") else v) for a, v in kw.items()}
        return f(*[I[a] for a in args], **k)

    return run


CALLS = {
    "Markov": _call("markov", "Markov", "L"),
    "Markov of lists": _call("markov", "Markov", "L_l", summary=False),
    "Markov with classes": _call("markov", "Markov", "L", classes="=classes", summary=False),
    "Markov filled": _call("markov", "Markov", "L", classes="=classes", fill_empty_classes=True, summary=False),
    "FullRank_Markov": _call("markov", "FullRank_Markov", "Y", summary=False),
    "FullRank_Markov of lists": _call("markov", "FullRank_Markov", "Y_l", fill_empty_classes=True),
    "GeoRank_Markov": _call("markov", "GeoRank_Markov", "Y", summary=False),
    "GeoRank_Markov of lists": _call("markov", "GeoRank_Markov", "Y_l"),
    "LISA_Markov": lambda I: _lisa(I),
    "LISA_Markov permuted": lambda I: _lisa(I, permutations=9, significance_level=0.2, geoda_quads=True),
    "spillover": _spill,
    "Spatial_Markov": lambda I: _sm(I, k=3, m=3),
    "Spatial_Markov varying": lambda I: _sm(I, k=3, m=2, fixed=False),
    "Spatial_Markov of lists": lambda I: _sm(I, Y="Y_l", k=2, m=3, fill_empty_classes=True),
    "Spatial_Markov cutoffs": lambda I: _sm(I, cutoffs=I["cutoffs"], lag_cutoffs=I["lag_cutoffs_l"], fill_empty_classes=True),
    "Spatial_Markov list cutoffs": lambda I: _sm(I, cutoffs=I["cutoffs_l"], m=2, fill_empty_classes=True),
    "Spatial_Markov permuted": lambda I: _sm(I, k=2, m=2, permutations=4, fill_empty_classes=True),
    "Spatial_Markov discrete": lambda I: _sm(I, Y="L", discrete=True, fill_empty_classes=True),
    "steady_state": _call("ergodic", "steady_state", "R"),
    "steady_state filled": _call("ergodic", "steady_state", "P", fill_empty_classes=True),
    "steady_state of lists": _call("ergodic", "steady_state", "P_l", fill_empty_classes=True),
    "mfpt": _call("ergodic", "mfpt", "R"),
    "mfpt filled": _call("ergodic", "mfpt", "P", fill_empty_classes=True),
    "mfpt irreducible": _call("ergodic", "mfpt", "Q"),
    "mfpt of lists": _call("ergodic", "mfpt", "P_l", fill_empty_classes=True),
    "var_mfpt_ergodic": _call("ergodic", "var_mfpt_ergodic", "Q"),
    "sojourn_time": _call("markov", "sojourn_time", "P"),
    "sojourn_time of lists": _call("markov", "sojourn_time", "P_l"),
    "chi2": lambda I: _import("markov", "chi2")(I["T"][0], I["T"][1]),
    "kullback": _call("markov", "kullback", "F"),
    "prais": _call("markov", "prais", "P"),
    "homogeneity": _call("markov", "homogeneity", "T"),
    "homogeneity of lists": _call("markov", "homogeneity", "T_l", "regime_names_l", "class_names_l"),
    "mobility P": _call("mobility", "markov_mobility", "Q"),
    "mobility D": _call("mobility", "markov_mobility", "Q", measure="D"),
    "mobility L2": _call("mobility", "markov_mobility", "Q", measure="L2"),
    "mobility B1": _call("mobility", "markov_mobility", "Q", measure="B1", ini="=ini"),
    "mobility B2": _call("mobility", "markov_mobility", "Q", measure="B2", ini="=ini"),
    "Theta": _call("rank", "Theta", "Y", "g", permutations=9),
    "Theta of lists": _call("rank", "Theta", "Y", "g_l", permutations=0),
    "Tau": _call("rank", "Tau", "x", "y"),
    "Tau of lists": _call("rank", "Tau", "x_l", "y_l"),
    "SpatialTau": _call("rank", "SpatialTau", "x", "y", "w", permutations=9),
    "Tau_Local": _call("rank", "Tau_Local", "x", "y"),
    "Tau_Local_Neighbor": _call("rank", "Tau_Local_Neighbor", "x", "y", "w", permutations=9),
    "Tau_Local_Neighborhood": _call("rank", "Tau_Local_Neighborhood", "x", "y", "w", permutations=9),
    "Tau_Regional": _call("rank", "Tau_Regional", "x", "y", "g", permutations=9),
    "Tau_Regional of lists": _call("rank", "Tau_Regional", "x_l", "y_l", "g_l"),
    "Rose": lambda I: _rose(I),
    "Rose two.sided": lambda I: _rose(I, "two.sided"),
    "Rose positive": lambda I: _rose(I, "positive"),
    "Rose negative": lambda I: _rose(I, "negative"),
    "Rose permuted again": _rose_again,
    "Rose plots": _plot,
    "heatmap": _heat,
    "Sequence interval": lambda I: _seq(I, "S_l", dist_type="interval"),
    "Sequence hamming": lambda I: _seq(I, "Sq_l", dist_type="hamming"),
    "Sequence arbitrary": lambda I: _seq(I, "S_l", dist_type="arbitrary"),
    "Sequence markov": lambda I: _seq(I, "Sq_l", dist_type="markov"),
    "Sequence tran": lambda I: _seq(I, "Sq_l", dist_type="tran"),
    "Sequence costs": lambda I: _seq(I, "S_l", subs_mat=I["subs"], indel=0.75),
    "fill_empty_diagonals": _call("util", "fill_empty_diagonals", "P"),
    "get_lower": _call("util", "get_lower", "M"),
    "shuffle_matrix": lambda I: _import("util", "shuffle_matrix")(I["M"], list(range(len(I["M"])))),
    "is_component": _call("components", "is_component", "w", "ids_l"),
    "check_contiguity": lambda I: _import("components", "check_contiguity")(I["w"], I["ids_l"], I["ids_l"][0]),
    "components": _graph,
}
NAMES = sorted(CALLS)
# calls which never end or raise on some pools are not among them: the Sequence
# calls with a single class need no costs, sojourn_time and mfpt take any matrix
OBJECTS = [n for n in NAMES if n.split()[0] in ("Markov", "FullRank_Markov", "GeoRank_Markov", "LISA_Markov", "Spatial_Markov")]


def picks(case, n, among=None):
    """n calls, spread evenly over all cases: taken from the content of the pool."""
    among = among or NAMES
    c = zlib.crc32(repr(sorted(case.items())).encode()) >> 3
    return [among[(c + 23 * i) % len(among)] for i in range(n)]


def run(name, I, seed):
    """The result of a call under a random state of its own, and what it printed."""
    np.random.seed(seed)
    with captured() as out:
        got = CALLS[name](I)
    return got, out.getvalue()


# ----------------------------------------------------------------- snapshots


def attributes(obj):
    """Public, non-callable names of an object (lazy ones included)."""
    out = []
    for n in sorted(dir(obj)):
        if n.startswith("_") or n == "w":
            continue
        if isinstance(getattr(type(obj), n, None), property) or not callable(getattr(obj, n, None)):
            out.append(n)
    return out


def access(obj, name):
    """An attribute's value (or what it raised), compared by value later."""
    try:
        with captured():  # notes are printed at the first access only
            return snap(getattr(obj, name))
    except Exception as e:
        return ("raised", type(e).__name__)


def snap(v):
    """Values of a result, detached from it."""
    if v is None or isinstance(v, (bool, int, float, str, np.generic)):
        return v
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("objects", v.shape, [snap(x) for x in v.ravel().tolist()])
        return v.copy()
    if isinstance(v, (list, tuple)):
        return [snap(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(map(repr, v))
    if isinstance(v, dict):
        return {repr(k): snap(x) for k, x in v.items()}
    mod = type(v).__module__
    if mod.startswith("giddy"):
        return {n: access(v, n) for n in attributes(v)}
    if mod.startswith("esda"):
        return [snap(v.q), snap(v.p_sim) if v.permutations else None]
    return type(v).__name__


def whole(obj, printed=""):
    """All there is to see of a result, summaries included."""
    out = {"printed": printed}
    if hasattr(obj, "summary") and type(obj).__module__.startswith("giddy") and callable(obj.summary):
        with captured() as text:
            try:
                obj.summary()
            except Exception as e:
                print("raised", type(e).__name__)
        out["summary"] = text.getvalue()
    # taken after the summary, which fills in default names
    out["value"] = snap(obj)
    return out


def agree(a, b, what):
    """Two snapshots have the same values."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        need(isinstance(a, np.ndarray) and isinstance(b, np.ndarray), f"{what}: {type(a).__name__} against {type(b).__name__}")
        need(a.shape == b.shape and a.dtype.kind == b.dtype.kind, f"{what}: shape or type differs")
        if a.dtype.kind in "fc":
            ok = np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True)
        else:
            ok = np.array_equal(a, b)
        need(ok, f"{what}: {a.tolist()!r:.300} against {b.tolist()!r:.300}")
    elif isinstance(a, dict):
        need(isinstance(b, dict) and sorted(a) == sorted(b), f"{what}: has {sorted(set(a) ^ set(b))} only once")
        for k in a:
            agree(a[k], b[k], f"{what}.{k}")
    elif isinstance(a, (list, tuple)):
        need(isinstance(b, (list, tuple)) and len(a) == len(b), f"{what}: lengths differ")
        for i, (x, y) in enumerate(zip(a, b)):
            agree(x, y, what if isinstance(a, tuple) else f"{what}[{i}]")
    elif isinstance(a, (float, np.floating)):
        need(np.isclose(float(a), float(b), rtol=1e-9, atol=1e-12, equal_nan=True), f"{what}: {a!r} against {b!r}")
    else:
        need(a == b, f"{what}: {a!r:.300} against {b!r:.300}")


def frozen(I):
    """The inputs as they are now (of weights: ids, neighbours and the
    weights before any transform)."""
    out = {}
    for name, v in I.items():
        if name == "w":
            t = v.transform
            o = v.transformations["O"]
            out[name] = (
                {i: list(v.neighbors[i]) for i in v.id_order},
                {i: [float(x) for x in o[i]] for i in v.id_order},
                list(v.id_order),
                sorted(map(str, v.islands)),
            )
            need(v.transform == t, "")
        elif isinstance(v, np.ndarray):
            out[name] = (v.dtype.str, v.shape, v.strides, v.tobytes())
        else:
            out[name] = repr(v)
    return out


def unchanged(I, before, what):
    now = frozen(I)
    for name in before:
        need(now[name] == before[name], f"{what} changed its input {name}: {I[name]!r:.300}")


def warm():
    lisa.warmup()
    import quantecon

    from checks import figs

    for P in ([[0.5, 0.5], [0.25, 0.75]], [[0.5, 0.5, 0], [0.5, 0.5, 0], [0, 0, 1.0]]):
        for a in (np.array(P), np.asfortranarray(np.array(P))):
            quantecon.MarkovChain(a).stationary_distributions

    figs.warm()
