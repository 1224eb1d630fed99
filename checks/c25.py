"""C25 Permutation inference for rank mobility statistics is valid."""

from itertools import combinations, permutations

import numpy as np
from giddy.rank import SpatialTau, Tau_Local_Neighbor, Tau_Local_Neighborhood, Tau_Regional
from hypothesis import strategies as st

from checks import c24
from checks import ranks as rk
from harness import gens, ref
from harness.core import Facet, Property, close, need, sut

BS = [1, 2, 9, 19, 30]


def near(a, b):
    return np.isclose(a, b, rtol=1e-9, atol=1e-10, equal_nan=True)


def spread(sim, values, what):
    """Each of the equally likely values (rows) occurs with its share."""
    sim = np.nan_to_num(np.asarray(sim, float).reshape(len(sim), -1), nan=-9)
    values = np.nan_to_num(np.asarray(values, float).reshape(len(values), -1), nan=-9)
    B = len(sim)
    rows = np.unique(np.round(values, 9), axis=0)
    for row in rows:
        share = np.isclose(values, row, atol=1e-8).all(axis=1).mean()
        seen = np.isclose(sim, row, atol=1e-8).all(axis=1).mean()
        need(
            abs(seen - share) <= 8 * np.sqrt(share * (1 - share) / B) + 1e-9,
            f"{what}: {row.tolist()} has share {seen} of {B} permutations, expected {share}",
        )
    return len(rows)


def member(sim, values, what):
    sim = np.asarray(sim, float).reshape(len(sim), -1)
    values = np.asarray(values, float).reshape(len(values), -1)
    for row in sim:
        need(near(values, row).all(axis=1).any(), f"{what}: {row.tolist()} comes from no permutation")


# ----------------------------------------------------------------- the spatial tau


def spatial_tau(x, y, pairs, order):
    x, y = [x[i] for i in order], [y[i] for i in order]
    con = dis = ty = tx = 0
    for i, j in pairs:
        a, b = (x[i] > x[j]) - (x[i] < x[j]), (y[i] > y[j]) - (y[i] < y[j])
        con += a * b > 0
        dis += a * b < 0
        ty += a != 0 and b == 0
        tx += a == 0 and b != 0
    return rk.tau_b(con, dis, ty, tx)


def run_spatial(d, full):
    x, y = (np.asarray(v) for v in rk.pair_of(d))
    B = d["B"]
    n = d["n"]
    nb = rk.row_neighbours(d["w"])
    np.random.seed(d["seed"])
    with sut("SpatialTau(permutations=...)"):
        s0 = SpatialTau(x, y, gens.build_w(d["w"]))
        s = SpatialTau(x, y, gens.build_w(d["w"]), permutations=B)
        for f in ("tau", "tau_p", "concordant", "discordant", "extraX", "extraY", "tau_spatial",
                  "pairs_spatial", "concordant_spatial", "discordant_spatial"):  # fmt: skip
            close(float(getattr(s, f)), float(getattr(s0, f)), f"{f} with permutations", rtol=1e-13)
        sim = np.asarray(s.taus, float)
        need(sim.size == B, f"taus has shape {sim.shape}, {B} permutations")
        sim = sim.reshape(B)
        larger = (sim >= s.tau_spatial).sum()
        p = (larger + 1.0) / (B + 1.0)
        if p > 0.5:
            p = (B - larger + 1.0) / (B + 1.0)
        close(float(s.tau_spatial_psim), p, "tau_spatial_psim", rtol=1e-12)
        tags = rk.tie_tags(x, y) + [f"permutations:{B}"]
        if n <= 5:
            pairs = sorted({tuple(sorted((i, j))) for i, js in enumerate(nb) for j in js})
            xs, ys = x.tolist(), y.tolist()
            vals = [spatial_tau(xs, ys, pairs, o) for o in permutations(range(n))]
            member(sim, vals, "taus")
            tags.append("all permutations enumerated")
            if full:
                tags.append(f"values:{min(spread(sim, vals, 'taus'), 4)}")
    return len(set(np.round(np.nan_to_num(sim, nan=-9), 9).tolist())) > 1, tags


# ----------------------------------------------------------------- local statistics


def run_local(d, full, hood):
    x, y = rk.pair_of(d)
    B, n = d["B"], d["n"]
    nb = rk.row_neighbours(d["w"])
    S = rk.signs(x, y)
    cls, obs, kind = (
        (Tau_Local_Neighborhood, "tau_lnhood", "hood") if hood else (Tau_Local_Neighbor, "tau_ln", "ln")
    )
    np.random.seed(d["seed"])
    with sut(f"{cls.__name__}(permutations=...)"):
        s0 = cls(x, y, gens.build_w(d["w"]))
        s = cls(x, y, gens.build_w(d["w"]), permutations=B)
        for f in [obs, "sign"] + (["S", "tau_local"] if hood else ["tau_ln_weights"]):
            close(getattr(s, f), getattr(s0, f), f"{f} with permutations", rtol=1e-13)
        sim = np.asarray(getattr(s, obs + "_sim"), float)
        need(sim.shape == (n, B), f"{obs}_sim has shape {sim.shape}, expected {(n, B)}")
        o = np.asarray(getattr(s, obs), float)
        larger = (sim >= o[:, None]).sum(axis=1)
        smaller = (sim <= o[:, None]).sum(axis=1)
        p = (np.minimum(larger, smaller) + 1.0) / (B + 1.0)
        close(getattr(s, obs + "_pvalues"), p, obs + "_pvalues", rtol=1e-12)
        tags = rk.tie_tags(x, y) + [f"permutations:{B}"]
        most = 0
        if n <= 7:
            for i in range(n):
                vals = []
                for m in combinations([j for j in range(n) if j != i], len(nb[i])):
                    if hood:
                        ids = [i] + list(m)
                        q = len(ids)
                        vals.append(S[np.ix_(ids, ids)].sum() / (q * (q - 1.0)))
                    else:
                        vals.append(S[i, list(m)].sum() / len(m))
                member(sim[i], vals, f"{obs}_sim[{i}]")
                if full:
                    most = max(most, spread(sim[i], vals, f"{obs}_sim[{i}]"))
            tags.append("all choices enumerated")
    if full:
        tags.append(f"values:{min(most, 4)}")
    return bool((sim != sim[:, :1]).any()), tags


# ----------------------------------------------------------------- regional


def run_regional(d, full):
    x, y = rk.pair_of(d)
    B, n = d["B"], d["n"]
    reg = c24.regime_of(d)
    np.random.seed(d["seed"])
    with sut("Tau_Regional(permutations=...)"):
        s0 = Tau_Regional(x, y, reg)
        s = Tau_Regional(x, y, reg, permutations=B)
        close(s.tau_reg, s0.tau_reg, "tau_reg with permutations", rtol=1e-13)
        close(s.S, s0.S, "S with permutations")
        obs = np.asarray(s.tau_reg, float)
        k = len(obs)
        sim = np.asarray(s.tau_reg_sim, float)
        need(sim.shape == (B, k, k), f"tau_reg_sim has shape {sim.shape}, expected {(B, k, k)}")
        larger = (sim >= obs).sum(axis=0)
        smaller = (sim <= obs).sum(axis=0)
        p = (np.minimum(larger, smaller) + 1.0) / (B + 1.0)
        ok = np.isfinite(obs)
        got = np.asarray(s.tau_reg_pvalues, float)
        need(got.shape == (k, k), f"tau_reg_pvalues has shape {got.shape}")
        close(got[ok], p[ok], "tau_reg_pvalues", rtol=1e-12)
        tags = rk.tie_tags(x, y) + [f"permutations:{B}", f"regimes:{k}"]
        if n <= 5:
            S = rk.signs(x, y)
            vals = []
            for o in permutations(range(n)):
                vals.append(c24.regional(S[np.ix_(o, o)], d["g"])[0])
            member(sim[:, ok], np.array(vals)[:, ok], "tau_reg_sim")
            tags.append("all permutations enumerated")
            if full:
                tags.append(f"values:{min(spread(sim[:, ok], np.array(vals)[:, ok], 'tau_reg_sim'), 4)}")
    return bool((sim[:, ok] != sim[:1, ok]).any()), tags


# ----------------------------------------------------------------- generators

KINDS = ("ties", "few", "distinct", "decimals", "uint8", "hugefloat")


@st.composite
def cases(draw, stat, full, large=False):
    lo, hi = (3, 5) if full else (30, 80) if large else (2, 9)
    if stat == "regional":
        d = draw(c24.cases(min_n=lo, max_n=hi))
    else:
        d = draw(rk.pair_cases(min_n=lo, max_n=hi, kinds=KINDS))
        sym = True if stat == "spatial" else None
        d["w"] = draw(rk.row_weights(d["n"], symmetric=sym))
    if full:
        d["kx"] = draw(st.sampled_from(["distinct", "decimals", "few"]))
        d["ky"] = draw(st.sampled_from(["distinct", "decimals", "few"]))
    d["B"] = 400 if full else draw(st.sampled_from(BS))
    d["seed"] = draw(st.integers(0, 10**6))
    return d


RUN = {
    "spatial": run_spatial,
    "neighbor": lambda d, full: run_local(d, full, False),
    "neighborhood": lambda d, full: run_local(d, full, True),
    "regional": run_regional,
}


def facets():
    out = []
    for stat in RUN:
        out.append(Facet(stat, cases(stat, False), lambda d, s=stat: RUN[s](d, False), 480))
        out.append(
            Facet(stat + " larger", cases(stat, False, True), lambda d, s=stat: RUN[s](d, False), 24)
        )
        out.append(
            Facet(stat + " distribution", cases(stat, True), lambda d, s=stat: RUN[s](d, True), 80)
        )
    return out


PROPERTY = Property(
    "C25",
    facets(),
    rule="Pairs of vectors of 2-9 values as for C21 with weights or regimes and 1-30 permutations "
    "(3-5 values and 400 permutations for the distribution) under a drawn seed; simulated values "
    "compared with those of all permutations of up to 5 units (all choices of neighbours among "
    "up to 7 units for the local statistics). Non-trivial: simulated values that vary.",
    assumptions=[
        "the shares of 400 permutations may differ from the exact ones by 8 standard errors",
        "entries of tau_reg without any pair (nan) have no p-value",
    ],
)
