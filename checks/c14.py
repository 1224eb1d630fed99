"""C14 Spatial_Markov permutation inference leaves the estimates alone."""

import copy
import itertools

import numpy as np
from giddy.markov import Spatial_Markov
from hypothesis import strategies as st
from libpysal.weights import lag_spatial

from checks import c11
from checks import spatial as sp
from harness import gens
from harness.core import Facet, Property, close, need, same, sut

FIELDS = [
    "class_ids", "lclass_ids", "classes", "cutoffs", "lag_cutoffs", "k", "m", "transitions", "p",
    "T", "P", "x2", "x2_dof", "x2_pvalue", "Q", "LR", "dof_hom", "Q_p_value", "LR_p_value",
]  # fmt: skip


def snapshot(s):
    out = {f: getattr(s, f) for f in FIELDS}
    out["chi2"] = [tuple(float(x) for x in c) for c in s.chi2]
    return out


def agree(a, b, tol=False):
    for f in a:
        if a[f] is None or b[f] is None:
            need(a[f] is None and b[f] is None, f"{f}: {a[f]} with permutations, {b[f]} without")
        elif np.asarray(a[f]).dtype.kind in "fc":
            x, y = np.asarray(a[f], float), np.asarray(b[f], float)
            need(
                x.shape == y.shape and np.allclose(x, y, rtol=1e-12, atol=0, equal_nan=True),
                f"{f}: {x.tolist()} with permutations, {y.tolist()} without",
            )
        else:
            same(a[f], b[f], f"{f} with permutations")


def rvalue(s, B):
    r = np.asarray(s.x2_realizations)
    need(r.size == B and r.shape[0] == B, f"x2_realizations has shape {r.shape}, {B} permutations")
    r = r.ravel()
    need(np.isfinite(r).all() and (r > -1e-9).all(), "x2_realizations")
    tol = 1e-10 * max(1.0, float(s.x2))
    lo = (r > s.x2 + tol).sum()
    hi = (r >= s.x2 - tol).sum()
    if hi == lo:
        close(s.x2_rpvalue, (lo + 1.0) / (B + 1.0), "x2_rpvalue", rtol=1e-12)
    else:
        got = s.x2_rpvalue * (B + 1.0) - 1
        need(lo - 1e-6 <= got <= hi + 1e-6, f"x2_rpvalue {s.x2_rpvalue} outside {lo}..{hi}")
        exact = (r >= s.x2).sum()
        close(s.x2_rpvalue, (exact + 1.0) / (B + 1.0), "x2_rpvalue", rtol=1e-12)
    return r


def realization(cls, lcls, m, k, tr):
    T = sp.tally((m, k, k), lcls, cls)
    return sum(c11.pearson(T[l], tr)[0] for l in range(m))


def support(cases_lcls, cls, m, k, tr):
    return np.unique(np.round([realization(cls, L, m, k, tr) for L in cases_lcls], 9))


@st.composite
def cases(draw, **kw):
    d = draw(sp.sm_cases(**{"max_n": 9, "max_t": 5, "exact": True, **kw}))
    d["B"] = draw(st.integers(1, 12))
    d["seed"] = draw(st.integers(0, 999))
    return d


def check(d):
    y, Y, w, kw, c, lc = sp.arguments(d)
    B = d["B"]
    n = len(Y)
    with sut("Spatial_Markov(permutations=...)"):
        given = copy.deepcopy(y)
        base = snapshot(Spatial_Markov(y, w, **kw))
        np.random.seed(d["seed"])
        s = Spatial_Markov(y, w, permutations=B, **kw)
        agree(snapshot(s), base)
        r = rvalue(s, B)
        same(y, given, "the series after the permutations")
        # whatever the random stream is, every realisation is the x2 of some
        # reordering of the units
        tags = [f"fixed:{d['fixed']}", "k != m" if base["k"] != base["m"] else "k == m"]
        if n <= 5:
            cls, tr = np.asarray(base["class_ids"]), np.asarray(base["transitions"])
            M = gens.dense_w(d["w"])
            lags = []
            for p in itertools.permutations(range(n)):
                L = M @ Y[list(p)]
                cut = base["lag_cutoffs"]
                if cut is not None:
                    lags.append(sp.below(L, [float(x) for x in cut]))
                else:
                    lags.append(sp.classify(L, d["m"], None, False)[0])
            ok = support(lags, cls, int(base["m"]), int(base["k"]), tr)
            for x in r:
                need(
                    np.abs(ok - x).min() <= 1e-7 * max(1.0, x),
                    f"realisation {x} is the x2 of no reordering of the units",
                )
            tags.append("all reorderings enumerated")
        none = Spatial_Markov(y, w, **kw)
        need(not hasattr(none, "x2_rpvalue"), "x2_rpvalue without permutations")
    return len(np.unique(base["class_ids"])) > 1 and len(np.unique(base["lclass_ids"])) > 1, tags


@st.composite
def discrete(draw):
    d = draw(sp.discrete_cases(max_k=4))
    d["B"] = draw(st.integers(1, 10))
    return d


def check_discrete(d):
    lab, idx, panel = gens.labels_of(d["panel"])
    B = d["B"]
    w = gens.build_w(d["w"])
    with sut("Spatial_Markov(discrete=True, permutations=...)"):
        given = copy.deepcopy(panel)
        kw = {"discrete": True, "fill_empty_classes": d["fill"]}
        np.random.seed(d["seed"])
        base = snapshot(Spatial_Markov(panel, w, **kw))
        np.random.seed(d["seed"])
        s = Spatial_Markov(panel, w, permutations=B, **kw)
        agree(snapshot(s), base)
        r = rvalue(s, B)
        same(panel, given, "the panel after the permutations")
        n, k = len(idx), int(base["k"])
        tags = [f"labels:{d['panel']['kind']}"]
        M = gens.dense_w(d["w"])
        cls, tr = np.asarray(base["class_ids"]), np.asarray(base["transitions"])
        if n <= 4:
            lags, tied = [], False
            for p in itertools.permutations(range(n)):
                # lag_categorical's tie rule looks at the permuted own category
                al, f = sp.allowed_lags(cls[list(p)], M, k)
                tied |= any(len(a | b) > 1 for row in al for a, b in row)
                lags.append(np.array([[min(a) for a, b in row] for row in al]))
            if not tied:
                ok = support(lags, cls, k, k, tr)
                for x in r:
                    need(
                        np.abs(ok - x).min() <= 1e-7 * max(1.0, x),
                        f"realisation {x} is the x2 of no reordering of the units",
                    )
                tags.append("all reorderings enumerated")
    return k > 1, tags


@st.composite
def spread_cases(draw):
    """Enough permutations to see every possible realisation."""
    d = draw(sp.sm_cases(max_n=8, max_t=4, exact=True))
    n = draw(st.integers(3, 4))
    t = draw(st.integers(3, 4))
    d["y"] = draw(gens.series(n, t, kinds=("ints", "quarters")))
    d["w"] = draw(gens.weights_case(n=n, transforms=("b", "o"), ids=("range", "string")))
    d["cutoffs"] = None
    d["lag_cutoffs"] = None
    d["k"], d["m"] = draw(st.integers(2, 3)), draw(st.integers(2, 3))
    d["y_as"] = "array"
    d["seed"] = draw(st.integers(0, 999))
    return d


def check_spread(d):
    y, Y, w, kw, c, lc = sp.arguments(d)
    n, B = len(Y), 400
    with sut("Spatial_Markov(permutations=400)"):
        base = Spatial_Markov(y, w, **kw)
        np.random.seed(d["seed"])
        s = Spatial_Markov(y, w, permutations=B, **kw)
        r = rvalue(s, B)
        M, cls, tr = gens.dense_w(d["w"]), np.asarray(base.class_ids), np.asarray(base.transitions)
        vals = []
        for p in itertools.permutations(range(n)):
            L = M @ Y[list(p)]
            if base.lag_cutoffs is not None:
                L = sp.below(L, [float(x) for x in base.lag_cutoffs])
            else:
                L = sp.classify(L, d["m"], None, False)[0]
            vals.append(realization(cls, L, int(base.m), int(base.k), tr))
        vals = np.array(vals)
        groups = np.unique(np.round(vals, 7))
        for g in groups:
            share = (np.abs(vals - g) < 1e-6 * max(1, g)).mean()
            seen = (np.abs(r - g) < 1e-6 * max(1, g)).mean()
            # 8 standard errors around the expected share
            se = 8 * np.sqrt(share * (1 - share) / B) + 1e-9
            need(abs(seen - share) <= se, f"realisation {g}: share {seen}, expected {share}")
    return len(groups) > 1, [f"fixed:{d['fixed']}", f"values:{min(len(groups), 4)}"]


PROPERTY = Property(
    "C14",
    [
        Facet("continuous", cases(), check, 1400),
        Facet("larger maps", cases(min_n=30, max_n=90, max_t=8), check, 180),
        Facet("discrete", discrete(), check_discrete, 900),
        Facet("distribution", spread_cases(), check_spread, 60),
    ],
    rule="Continuous (dyadic values, exact lags) and discrete Spatial_Markov built with and without "
    "permutations under a drawn seed; realisations compared with those of all reorderings of up "
    "to 5 units (4 discrete). Non-trivial: at least two own and two lag classes.",
    assumptions=[
        "the shares of 400 realisations may differ from the exact ones by 8 standard errors",
    ],
)
