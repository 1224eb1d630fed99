"""Generators of JSON-serialisable cases, and their decoding."""

import numpy as np
from hypothesis import strategies as st

# ----------------------------------------------------------------- raw material


def raw_bytes(n):
    """n bytes: drawn one by one (shrinks well), or expanded from one drawn
    number (spreads well)."""

    def expand(seed):
        return np.random.RandomState(seed).bytes(n)

    spread = st.integers(1, 2**32 - 1).map(expand)
    if n > 1500:  # more than a case can hold
        return spread
    return st.one_of(st.binary(min_size=n, max_size=n), spread)


def span(lo, hi):
    """Integers from lo to hi, evenly spread except for a rarer lo (integers()
    draws its end points about every other time)."""
    return st.sampled_from([lo] + list(range(lo + 1, hi + 1)) * 3)


# ----------------------------------------------------------------- label panels

_WORDS = ["b", "a", "C", "aa", "a ", "B", "Z9", "10", "9", "é", "low", "high", "", "x y", "_", " a", "Low"]


def alphabet(kind, k):
    """k distinct labels; their given order is the `natural` index order (which
    need not be sorted)."""
    if kind == "range":
        return list(range(k))
    if kind == "range1":
        return list(range(1, k + 1))
    if kind == "sparse":
        return [7 * i * i - 11 * i - 3 for i in range(2, k + 2)]
    if kind == "negative":
        return [k - 3 - 2 * i for i in range(k)]
    if kind == "float":
        return [i * 0.37 - 1.1 for i in range(k)]
    if kind == "string":
        return [_WORDS[i] if i < len(_WORDS) else f"w{i}" for i in range(k)]
    if kind == "numeral":
        return [str(i + 7) for i in range(k)]
    if kind == "bool":
        return [True, False][:k]
    raise ValueError(kind)


def sticky(raw, n, t, k, mode):
    """Turn n*t bytes into an (n, t) matrix of class indexes in 0..k-1 whose
    moves have the structure named by mode."""
    a = np.array(raw, dtype=int).reshape(n, t)
    if mode == "uniform":
        return a % k
    out = np.zeros((n, t), int)
    for i in range(n):
        out[i, 0] = a[i, 0] % k
        for s in range(1, t):
            prev, x = out[i, s - 1], a[i, s]
            if mode == "stay":  # long stays, rare moves
                out[i, s] = prev if x < 200 else x % k
            elif mode == "step":  # to neighbouring classes
                out[i, s] = min(k - 1, max(0, prev + (x % 3) - 1))
            elif mode == "up":  # absorbing top
                out[i, s] = max(prev, x % k)
            elif mode == "cycle":  # periodic
                out[i, s] = (prev + 1) % k if x < 240 else prev
            elif mode == "blocks":  # two closed halves, one-way link
                h = k // 2
                if prev < h:
                    out[i, s] = x % h if (x < 230 and h) else x % k
                else:
                    out[i, s] = h + x % (k - h)
            elif mode == "even":  # parity classes never mix
                cand = [c for c in range(k) if c % 2 == prev % 2]
                out[i, s] = cand[x % len(cand)]
    return out


MODES = ["uniform", "stay", "step", "up", "cycle", "blocks", "even"]


@st.composite
def index_panel(draw, max_k=6, big=True, min_t=2, min_k=1, max_n=8, max_t=8, huge=False, long=False):
    """{'n','t','k','mode','raw'}: an (n,t) panel of class indexes."""
    size = "x" if huge else "y" if long else draw(st.sampled_from(["s", "s", "s", "m", "l"] if big else ["s"]))
    if size == "x":
        k = draw(st.sampled_from([2, 5, 11, 17, 26, 40]))
        n = draw(st.integers(71, 400))
        t = draw(st.integers(min_t, 40 if n < 150 else 9))
    elif size == "y":  # few units over many periods
        k = draw(span(max(2, min_k), max_k))
        n = draw(st.integers(1, 3))
        t = draw(st.sampled_from([60, 130, 258, 300, 520, 1040])) + draw(st.integers(0, 40))
    elif size == "s":
        k = draw(span(min_k, max_k))
        n = draw(span(1, max_n))
        t = draw(span(min_t, max_t))
    elif size == "m":
        k = draw(span(max(min_k, 2), max(min_k, 14)))
        n = draw(span(2, 14))
        t = draw(span(min_t, 14))
    else:
        k = draw(st.integers(max(min_k, 2), 8))
        n = draw(st.integers(30, 70))
        t = draw(st.integers(min_t, 8))
    mode = draw(st.sampled_from(MODES))
    raw = draw(raw_bytes(n * t))
    return {"n": n, "t": t, "k": k, "mode": mode, "raw": list(raw)}


def panel_of(d):
    return sticky(d["raw"], d["n"], d["t"], d["k"], d["mode"])


LABEL_KINDS = ["range", "range1", "sparse", "negative", "float", "string", "numeral", "bool"]
DTYPES = ["default", "list", "int8", "uint8", "int32", "object", "F"]


@st.composite
def label_panel(draw, **kw):
    p = draw(index_panel(**kw))
    kind = draw(st.sampled_from(LABEL_KINDS))
    if kind == "bool" and p["k"] > 2:
        kind = "range"
    dt = draw(st.sampled_from(DTYPES))
    p.update(kind=kind, dt=dt, rot=draw(st.integers(0, 5)))
    return p


def labels_of(d):
    """(labels by index, (n,t) panel of indexes, panel as handed to the API)."""
    idx = panel_of(d)
    lab = alphabet(d["kind"], d["k"])
    r = d["rot"] % max(1, len(lab))
    lab = lab[r:] + lab[:r]
    rows = [[lab[v] for v in row] for row in idx.tolist()]
    dt = d["dt"]
    if dt == "list":
        return lab, idx, rows
    if dt in ("int8", "uint8", "int32"):
        ok = d["kind"] in ("range", "range1", "sparse", "negative")
        if ok and (dt != "uint8" or min(lab) >= 0) and (dt == "int32" or max(lab) < 127):
            return lab, idx, np.array(rows, dtype=dt)
        return lab, idx, np.array(rows)
    if dt == "object" and d["kind"] == "string":
        return lab, idx, np.array(rows, dtype=object)
    if dt == "F":
        return lab, idx, np.asfortranarray(np.array(rows))
    return lab, idx, np.array(rows)


# ----------------------------------------------------------------- chains


@st.composite
def count_matrix(draw, min_k=1, max_k=7, empty_rows=True, hi=12):
    """A (k,k) matrix of small counts with assorted zero patterns."""
    k = draw(span(min_k, max_k))
    shape = draw(
        st.sampled_from(
            ["dense", "sparse", "sparse", "band", "ring", "upper", "blocks", "absorb", "links"]
        )
    )
    raw = draw(raw_bytes(2 * k * k))
    perm = draw(st.permutations(range(k)))
    C = np.zeros((k, k), int)
    for i in range(k):
        for j in range(k):
            v, z = raw[2 * (i * k + j)], raw[2 * (i * k + j) + 1]
            val = 1 + (v if hi <= 256 else v * (z + 1) * 40503) % hi
            on = {
                "dense": True,
                "sparse": z < 70,
                "band": abs(i - j) <= 1 and z < 240,
                "ring": j == (i + 1) % k or (i == j and z < 60),
                "upper": j >= i and z < 150,
                "blocks": (2 * i // k) == (2 * j // k) and z < 200
                or (2 * i // k) < (2 * j // k) and z < 40,
                "absorb": (i == j if i % 3 == 0 else z < 120),
                "links": j in (i, i + 1) and z < (220 if k < 14 else 254),
            }[shape]
            C[i, j] = val if on else 0
    C = C[perm][:, perm]
    if not empty_rows:
        for i in range(k):
            if C[i].sum() == 0:
                C[i, i] = 1
    return C.tolist()


@st.composite
def irreducible_counts(draw, min_k=2, max_k=7, hi=9):
    C = np.array(draw(count_matrix(min_k=min_k, max_k=max_k, hi=hi)))
    k = len(C)
    perm = draw(st.permutations(range(k)))
    closed = False
    from harness import ref

    if len(ref.sccs(C)) == 1 and k > 0 and (C.sum(1) > 0).all():
        closed = True
    if not closed:  # close with a random Hamiltonian cycle
        for a, b in zip(perm, perm[1:] + perm[:1]):
            if C[a, b] == 0:
                C[a, b] = 1 + (a * 3 + b) % 4
    return C.tolist()


# ----------------------------------------------------------------- spatial weights


@st.composite
def weights_case(
    draw,
    n=None,
    min_n=2,
    max_n=12,
    symmetric=None,
    islands=False,
    ids=("range", "shuffled", "string", "sparse"),
    values=("binary", "grid"),
    transforms=("r", "b", "o"),
    shares=False,
    kinds=("random", "random", "lattice", "path", "star", "complete", "sparse"),
    selfs=False,
):
    """A spatial weights object as {'ids','nb','wt','transform','keys'}; position
    in 'ids' is the row of the data, 'keys' the order in which the dictionaries
    of neighbours and weights are filled."""
    if n is None:
        n = draw(span(min_n, max_n))
    kind = draw(st.sampled_from(list(kinds)))
    sym = draw(st.booleans()) if symmetric is None else symmetric
    A = np.zeros((n, n), bool)
    if kind == "lattice":
        c = draw(st.integers(1, max(1, int(np.sqrt(n)) + 1)))
        queen = draw(st.booleans())
        for i in range(n):
            for j in range(n):
                dr, dc = abs(i // c - j // c), abs(i % c - j % c)
                A[i, j] = (dr + dc == 1) or (queen and max(dr, dc) == 1)
    elif kind == "path":
        for i in range(n - 1):
            A[i, i + 1] = A[i + 1, i] = True
    elif kind == "star":
        A[0, 1:] = A[1:, 0] = True
    elif kind == "complete":
        A[:] = True
    else:
        raw = draw(raw_bytes(n * n))
        thr = 100 if kind == "random" else (30 if n <= 12 else 12)
        A = np.array(list(raw)).reshape(n, n) < thr
        if not sym:
            A &= True
    np.fill_diagonal(A, False)
    if sym:
        A = A | A.T
    elif kind in ("lattice", "path", "star", "complete"):
        raw = draw(raw_bytes(n * n))
        A &= np.array(list(raw)).reshape(n, n) < 200
    if not islands:
        for i in range(n):
            if not A[i].any() and n > 1:
                j = (i + 1) % n
                A[i, j] = True
                if sym:
                    A[j, i] = True
    if selfs and draw(st.integers(0, 4)) == 0:  # some units neighbour themselves
        np.fill_diagonal(A, [b < 150 for b in draw(raw_bytes(n))])
    order = draw(st.sampled_from(["asc", "desc", "mixed"]))
    vals = draw(st.sampled_from(list(values)))
    V = np.ones((n, n))
    if vals == "grid":
        raw = draw(raw_bytes(n * n))
        V = (1 + np.array(list(raw)).reshape(n, n) % 12) / 4.0
        if sym:
            V = np.triu(V) + np.triu(V, 1).T
    idk = draw(st.sampled_from(list(ids)))
    if idk == "range":
        idl = list(range(n))
    elif idk == "shuffled":
        idl = list(draw(st.permutations(range(n))))
    elif idk == "string":
        perm = draw(st.permutations(range(n)))
        idl = [f"u{p}" for p in perm]
    else:
        perm = draw(st.permutations(range(n)))
        idl = [100 + 3 * p for p in perm]
    if shares and draw(st.booleans()):  # all below one
        V = V / 8.0
    nb, wt = [], []
    for i in range(n):
        js = [j for j in range(n) if A[i, j]]
        if order == "desc":
            js = js[::-1]
        elif order == "mixed":
            js = js[1::2] + js[0::2][::-1]
        nb.append(js)
        wt.append([float(V[i, j]) for j in js])
    tr = draw(st.sampled_from(list(transforms)))
    if tr in ("d", "v") and not A.any():  # libpysal divides by the sum of the weights
        tr = "r"
    keys = draw(st.sampled_from(["same", "same", "same", "reversed", "halves"]))
    return {"ids": idl, "nb": nb, "wt": wt, "transform": tr, "keys": keys}


def build_w(d):
    from libpysal.weights import W

    ids = d["ids"]
    rows = list(range(len(ids)))
    if d.get("keys") == "reversed":
        rows = rows[::-1]
    elif d.get("keys") == "halves":
        rows = rows[len(rows) // 2 :] + rows[: len(rows) // 2]
    nb = {ids[i]: [ids[j] for j in d["nb"][i]] for i in rows}
    wt = {ids[i]: list(d["wt"][i]) for i in rows}
    w = W(nb, wt, id_order=list(ids), silence_warnings=True)
    if d["transform"] != "o":
        w.transform = d["transform"]
    return w


def dense_w(d):
    """The (n,n) matrix of the weights object after its transform, from the
    case itself (rows and columns in data order)."""
    n = len(d["ids"])
    M = np.zeros((n, n))
    for i, (js, ws) in enumerate(zip(d["nb"], d["wt"])):
        for j, v in zip(js, ws):
            M[i, j] = v
    if d["transform"] == "b":
        M = (M > 0) * 1.0
    elif d["transform"] == "d":
        M = M / M.sum() if M.any() else M
    elif d["transform"] == "v":
        M = M / np.where(M.any(1), np.sqrt((M**2).sum(1)), 1)[:, None]
        M = M * (n / M.sum()) if M.any() else M
    elif d["transform"] == "r":
        s = M.sum(1, keepdims=True)
        M = np.divide(M, s, out=np.zeros_like(M), where=s > 0)
    return M


# ----------------------------------------------------------------- numeric series


def series_values(raw, kind):
    """Map 16-bit integers to values of a kind; all are finite."""
    v = np.array(raw, dtype=float)
    if kind == "ties":
        return v % 4
    if kind == "ints":
        return v % 97 - 40
    if kind == "quarters":
        return (v % 400) / 4.0
    if kind == "decimals":
        return v * 0.013 + 0.7
    if kind == "huge":
        return (v - 30000) * 1e9
    if kind == "tiny":
        return (v - 30000) * 1e-9
    if kind == "offset":
        return 1e6 + v % 50
    raise ValueError(kind)


SERIES_KINDS = ["ties", "ints", "quarters", "decimals", "huge", "tiny", "offset"]


def u16(n):
    """n 16-bit integers (drawn as one byte string)."""
    return raw_bytes(2 * n).map(
        lambda b: [b[2 * i] * 256 + b[2 * i + 1] for i in range(n)]
    )


@st.composite
def series(draw, n, t, kinds=tuple(SERIES_KINDS)):
    """{'n','t','kind','raw','trend'}: an (n,t) matrix of reals."""
    return {
        "n": n,
        "t": t,
        "kind": draw(st.sampled_from(list(kinds))),
        "raw": draw(u16(n * t)),
        "walk": draw(st.booleans()),
    }


def series_of(d):
    v = np.array(d["raw"], dtype=int).reshape(d["n"], d["t"])
    if d["walk"]:  # persistent units: small moves around a level
        v = v[:, :1] % 5000 + (v % 600 - 300).cumsum(axis=1) - (v[:, :1] % 600 - 300)
        v = v % 65536
    return series_values(v, d["kind"])
