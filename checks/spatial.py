"""Shared pieces of the checks on Spatial_Markov."""

import mapclassify as mc
import numpy as np
from hypothesis import strategies as st
from libpysal.weights import lag_spatial

from harness import gens


@st.composite
def sm_cases(draw, min_t=2, max_n=14, max_t=9, islands=True, fill=None, exact=False, min_n=2, many=False):
    """A continuous Spatial_Markov configuration."""
    big = draw(st.integers(0, 7)) == 0  # more than 256 cells in T
    n = draw(gens.span(min_n, max_n))
    t = draw(gens.span(min_t, max_t))
    kinds = ("ties", "ints", "quarters") if exact else gens.SERIES_KINDS
    y = draw(gens.series(n, t, kinds=kinds))
    w = draw(
        gens.weights_case(
            n=n,
            islands=islands and draw(st.booleans()),
            transforms=("b", "o") if exact else ("r", "r", "r", "b", "o", "d", "v"),
            selfs=True,
            shares=True,
        )
    )
    def cuts():
        if draw(st.booleans()):
            return None
        m = draw(st.integers(1, 4))
        return [
            [draw(st.sampled_from(["at", "at", "mid", "low", "high"])), draw(st.integers(0, n * t - 1))]
            for _ in range(m)
        ]

    return {
        "y": y,
        "w": w,
        "k": draw(gens.span(9, 40) if many else gens.span(7, 10) if big else gens.span(1, 6)),
        "m": draw(gens.span(9, 40) if many else gens.span(6, 10) if big else gens.span(1, 6)),
        "fixed": draw(st.sampled_from([True, True, False])),
        "cutoffs": cuts(),
        "lag_cutoffs": cuts(),
        "cut_as": draw(st.sampled_from(["array", "list", "tuple"])),
        "y_as": draw(st.sampled_from(["array", "array", "list", "F", "int"])),
        "fill": draw(st.booleans()) if fill is None else fill,
    }


def lag_of(d):
    """Dense spatial lag of the series, period by period."""
    Y = gens.series_of(d["y"])
    return gens.dense_w(d["w"]) @ Y


def cut_values(spec, values):
    """Sorted distinct cutoffs, often equal to observed values."""
    if spec is None:
        return None
    v = np.sort(np.unique(np.ravel(values)))
    out = set()
    for kind, pos in spec:
        i = pos % len(v)
        if kind == "at" or (kind == "mid" and i + 1 >= len(v)):
            out.add(float(v[i]))
        elif kind == "mid":
            out.add(float((v[i] + v[i + 1]) / 2))
        elif kind == "low":
            out.add(float(v[0] - abs(v[0]) - 1 - pos))
        else:
            out.add(float(v[-1] + abs(v[-1]) + 1 + pos))
    return sorted(out)


def arguments(d):
    """(y as given, w, keyword arguments, cutoffs, lag cutoffs)."""
    Y = gens.series_of(d["y"])
    w = gens.build_w(d["w"])
    c = cut_values(d["cutoffs"], Y)
    lc = cut_values(d["lag_cutoffs"], lag_spatial(w, Y))
    as_ = {"array": np.array, "list": list, "tuple": tuple}[d["cut_as"]]
    kw = {"k": d["k"], "m": d["m"], "fixed": d["fixed"], "fill_empty_classes": d["fill"]}
    if len(Y) % 3 == 0:  # the documented defaults
        kw = {a: v for a, v in kw.items() if v != {"k": 4, "m": 4, "fixed": True, "fill_empty_classes": False}[a]}
    if c is not None:
        kw["cutoffs"] = as_(c)
    if lc is not None:
        kw["lag_cutoffs"] = as_(lc)
    y = Y
    if d["y_as"] == "list":
        y = Y.tolist()
    elif d["y_as"] == "F":
        y = np.asfortranarray(Y)
    elif d["y_as"] == "int" and np.array_equal(Y, np.round(Y)) and abs(Y).max() < 2**31:
        y = Y.astype(int)
    return y, Y, w, kw, c, lc


def below(values, bins):
    """Number of bounds strictly smaller than each value."""
    v = np.asarray(values)
    out = np.zeros(v.shape, int)
    for b in bins:
        out += v > b
    return out


def bounds_of(v, k):
    """Bounds between the quantile classes.  For some k (31, 58, ...) rounding
    makes mapclassify add one next to the maximum."""
    return [float(b) for b in mc.Quantiles(v, k=k).bins][:-1][: k - 1]


def classify(V, k, cutoffs, fixed):
    """(class of every value, exposed cutoffs, number of classes, bounds used
    in every period)."""
    t = V.shape[1]
    if cutoffs is not None:
        return below(V, cutoffs), cutoffs, len(cutoffs) + 1, [cutoffs] * t
    if fixed:
        bins = bounds_of(V.flatten(), k)
        return below(V, bins), bins, len(bins) + 1, [bins] * t
    cols, bounds = [], []
    for s in range(t):
        bins = bounds_of(V[:, s], k)
        cols.append(below(V[:, s], bins))
        bounds.append(bins)
    return np.array(cols).T, None, k, bounds


def near(V, bounds):
    """Entries whose distance to a bound is within rounding."""
    out = np.zeros(V.shape, bool)
    scale = np.abs(V).max() + 1e-300
    for s in range(V.shape[1]):
        for b in bounds[s]:
            out[:, s] |= np.abs(V[:, s] - b) <= 1e-9 * scale
    return out


def tally(T_shape, lcls, cls):
    T = np.zeros(T_shape, int)
    n, t = cls.shape
    for i in range(n):
        for s in range(t - 1):
            T[lcls[i, s], cls[i, s], cls[i, s + 1]] += 1
    return T


# ----------------------------------------------------------------- discrete


@st.composite
def discrete_cases(draw, max_k=5, min_t=2, huge=False):
    p = draw(gens.index_panel(max_k=max_k, big=False, min_t=min_t, min_k=2, max_n=12, max_t=7, huge=huge))
    if p["n"] < 2:
        p = dict(p, n=2, raw=p["raw"] + p["raw"])
    kind = draw(st.sampled_from(["range", "range1", "sparse", "negative", "string", "numeral"]))
    p.update(kind=kind, rot=draw(st.integers(0, 4)))
    p["dt"] = draw(st.sampled_from(["default", "list", "F"]))
    w = draw(gens.weights_case(n=p["n"], islands=False, selfs=True, shares=True))
    return {"panel": p, "w": w, "fill": draw(st.booleans()), "seed": draw(st.integers(0, 99))}


def allowed_lags(cls, M, k):
    """allowed[i][s]: set of possible modal neighbour categories."""
    n, t = cls.shape
    out, forced = [], 0
    for i in range(n):
        row = []
        js = [j for j in range(n) if M[i, j] > 0]
        for s in range(t):
            tot = np.zeros(k)
            for j in js:
                tot[cls[j, s]] += M[i, j]
            tol = 1e-9 * tot.max()
            best = np.where(tot >= tot.max() - tol)[0]
            if len(best) > 1:
                tot[cls[i, s]] += np.mean([M[i, j] for j in js])
                best2 = set(np.where(tot >= tot.max() - tol)[0].tolist())
                # rounding may already have told the tied ones apart
                exact = set(best.tolist())
                row.append((best2, exact))
                forced += 1
            else:
                row.append(({int(best[0])}, {int(best[0])}))
        out.append(row)
    return out, forced


# ----------------------------------------------------------------- crafted counts


@st.composite
def count_stacks(draw, max_k=4, max_m=4, min_m=1, irreducible=None, hi=3, min_k=2):
    """m count matrices (k,k) of assorted structure, not all empty."""
    k = draw(gens.span(min_k, max_k))
    m = draw(gens.span(min_m, max_m))
    irr = draw(st.sampled_from([True, False, False])) if irreducible is None else irreducible
    out = []
    for _ in range(m):
        if irr:
            out.append(draw(gens.irreducible_counts(min_k=k, max_k=k, hi=hi)))
        else:
            out.append(draw(gens.count_matrix(min_k=k, max_k=k, hi=hi)))
    if not any(x for M in out for r in M for x in r):
        out[0][0][k - 1] = 1
    return out


def craft(stack, fill=False, **kw):
    """A Spatial_Markov whose conditional counts T are exactly the stack: one
    unit per transition, each with one neighbour whose weight sets the lag."""
    from giddy.markov import Spatial_Markov
    from libpysal.weights import W

    m, k = len(stack), len(stack[0])
    moves = [
        (l, i, j)
        for l in range(m)
        for i in range(k)
        for j in range(k)
        for _ in range(stack[l][i][j])
    ]
    if len(moves) == 1:  # a second unit is needed as neighbour; double the move
        moves = moves * 2
        stack = [[[2 * x for x in r] for r in M] for M in stack]
    y = np.array([[i + 1.0, j + 1.0] for _, i, j in moves])
    n = len(moves)
    nb = {u: [(u + 1) % n] for u in range(n)}
    wt = {u: [(moves[u][0] + 1.0) / y[(u + 1) % n, 0]] for u in range(n)}
    w = W(nb, wt, id_order=list(range(n)), silence_warnings=True)
    sm = Spatial_Markov(
        y,
        w,
        cutoffs=[i + 1.5 for i in range(k - 1)],
        lag_cutoffs=[l + 1.5 for l in range(m - 1)],
        fill_empty_classes=fill,
        **kw,
    )
    return sm, np.array(stack)
