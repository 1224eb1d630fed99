"""C26 Rose vectors and sector counts describe the directional moves."""

import numpy as np
from giddy.directional import Rose
from hypothesis import strategies as st

from checks import rose
from harness import gens
from harness.core import Facet, Property, close, need, same, sut


def check(d):
    Y = rose.data(d)
    n, k = len(Y), d["k"]
    dx, dy, L, eps = rose.moves(Y, d)
    with sut("Rose"):
        r = Rose(Y, gens.build_w(d["w"]), k=k)
        cuts = np.asarray(r.cuts, float)
        need(cuts.shape == (k + 1,), f"cuts has shape {cuts.shape} for k={k}")
        close(cuts, [2 * np.pi * j / k for j in range(k + 1)], "cuts", rtol=1e-12)
        close(r.lag, L, "lag", rtol=1e-11, atol=eps)
        close(r.wY, L, "wY", rtol=1e-11, atol=eps)
        same(r.Y, Y, "Y")
        length = np.array([np.hypot(a, b) for a, b in zip(dx, dy)])
        close(r.r, length, "r", rtol=1e-9, atol=4 * eps)
        theta = np.asarray(r.theta, float)
        need(theta.shape == (n,) and np.isfinite(theta).all(), f"theta is {theta.tolist()}")
        need((np.abs(theta) <= np.pi + 1e-12).all(), f"theta is not a signed angle: {theta.tolist()}")
        for i in range(n):
            # direction: the reported angle points along (dx, dy)
            a, b = np.cos(theta[i]) * length[i], np.sin(theta[i]) * length[i]
            tol = 1e-9 * length[i] + 4 * eps
            need(
                abs(a - dx[i]) <= tol and abs(b - dy[i]) <= tol,
                f"theta[{i}] is {theta[i]} for the move {(dx[i], dy[i])}",
            )
            if length[i] == 0 and r.r[i] == 0:
                need(theta[i] == 0, f"theta[{i}] is {theta[i]} without a move")
        counts = np.asarray(r.counts)
        need(counts.shape == (k,), f"counts has shape {counts.shape} for k={k}")
        need(counts.sum() == n, f"counts add up to {counts.sum()}, {n} units, k={k}")
        ok = rose.bounds(theta, cuts)
        lo = np.zeros(k)
        hi = np.zeros(k)
        for o in ok:
            for j in o:
                hi[j] += 1
            if len(o) == 1:
                lo[min(o)] += 1
        need(
            ((lo <= counts) & (counts <= hi)).all(),
            f"counts {counts.tolist()} for angles {theta.tolist()}, k={k}: expected {lo.tolist()}..{hi.tolist()}",
        )
    tags = [f"mode:{d['mode']}", f"dtype:{Y.dtype}", f"transform:{d['w']['transform']}"]
    tags.append(f"k:{k}" if k in (1, 4, 8) else ("k > 40" if k > 40 else "other k"))
    if any(len(o) > 1 for o in ok):
        tags.append("angle within rounding of a cut")
    if any(t in cuts[1:-1] for t in theta.tolist()):
        tags.append("angle on a cut")
    if d["w"]["ids"] != list(range(n)):
        tags.append("ids not 0..n-1")
    return (counts > 0).sum() > 1, tags


@st.composite
def turn_cases(draw):
    """Binary complete graph without the unit itself on integers: mirrored data
    turn every vector by half a circle."""
    d = draw(rose.rose_cases(ks=[2, 4, 6, 8, 10, 12], kinds=("ints", "quarters", "ties")))
    d["dt"] = "float"
    d["swap"] = draw(st.sampled_from(["negate", "time"]))
    return d


def check_turn(d):
    Y = rose.data(d)
    with sut("Rose"):
        a = Rose(Y, gens.build_w(d["w"]), k=d["k"])
        Z = -Y if d["swap"] == "negate" else Y[:, ::-1]
        b = Rose(Z, gens.build_w(d["w"]), k=d["k"])
        close(b.r, a.r, "lengths after reversing the moves", rtol=1e-9, atol=1e-9)
        far = np.asarray(a.r) > 1e-6
        turn = np.abs(np.abs(np.asarray(a.theta) - np.asarray(b.theta)) - np.pi)
        need((turn[far] < 1e-6).all(), "reversed moves do not point the other way")
        th = np.mod(np.asarray(a.theta), 2 * np.pi / d["k"])
        width = 2 * np.pi / d["k"]
        if far.all() and ((th > 1e-6) & (th < width - 1e-6)).all():
            same(np.roll(a.counts, d["k"] // 2), b.counts, "counts after reversing the moves")
            return True, [f"reversal:{d['swap']}", "counts compared"]
    return False, [f"reversal:{d['swap']}"]


PROPERTY = Property(
    "C26",
    [
        Facet("vectors", rose.rose_cases(), check, 5600),
        Facet("larger maps", rose.rose_cases(min_n=60, max_n=420), check, 180),
        Facet("many sectors", rose.rose_cases(min_n=10, max_n=120, ks=[90, 201, 256, 360, 720, 1000]), check, 160),
        Facet("reversal", turn_cases(), check_turn, 1600),
    ],
    rule="Values of 2-14 units at two times (ties, huge, tiny, units that do not move, moves along "
    "an axis, small integer types), weights of every shape and transform, also islands, 1-1000 "
    "sectors; moves from dense weights. Non-trivial: vectors in several sectors.",
    assumptions=[
        "an angle exactly on a cut belongs to the sector starting there, within rounding of one to either",
        "a unit that does not move has angle 0",
    ],
)
