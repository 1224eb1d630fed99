"""C31 Contiguity and graph components follow true connectivity."""

import operator

import numpy as np
from giddy.components import Graph, check_contiguity, is_component
from hypothesis import strategies as st

from harness import gens, ref
from harness.core import Facet, Property, need, sut

OPS = {"lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge, "eq": operator.eq, "ne": operator.ne}


@st.composite
def subset_cases(draw, min_n=1, max_n=14):
    n = draw(st.integers(min_n, max_n))
    w = draw(gens.weights_case(n=n, symmetric=True, islands=draw(st.booleans()), transforms=("o", "b", "r")))
    raw = draw(gens.raw_bytes(n))
    cut = draw(st.sampled_from([80, 160, 230, 256]))
    perm = draw(st.permutations(range(n)))
    return {
        "w": w,
        "ids": [i for i in perm if raw[i] < cut],
        "leaver": draw(st.integers(0, 20)),
        "neg": draw(st.booleans()),
    }


def connected(d, sub):
    s = set(sub)
    edges = [(i, j) for i in sub for j in d["w"]["nb"][i] if j in s]
    return len(ref.components(list(s), edges)) <= 1


def check_subset(d):
    w = gens.build_w(d["w"])
    name = d["w"]["ids"]
    sub = d["ids"]
    ids = [name[i] for i in sub]
    keep = list(ids)
    want = connected(d, sub)
    tags = [f"connected:{want}", f"size:{min(len(sub), 5)}"]
    with sut("is_component"):
        got = is_component(w, ids)
        need(bool(got) == want, f"is_component is {got} for {ids}, expected {want}")
        need(ids == keep, "is_component changed the list")
        rev = is_component(w, ids[::-1])
        need(bool(rev) == want, f"is_component is {rev} for {ids[::-1]}, expected {want}")
    if sub:
        l = d["leaver"] % len(sub)
        rest = sub[:l] + sub[l + 1 :]
        want2 = connected(d, rest)
        with sut("check_contiguity"):
            got = check_contiguity(w, ids, ids[l])
            need(bool(got) == want2, f"check_contiguity is {got} for {ids} without {ids[l]}, expected {want2}")
            need(ids == keep, "check_contiguity changed the list")
        tags.append(f"connected:{want}->{want2}")
    return len(sub) > 2, tags


@st.composite
def graph_cases(draw, max_n=14, max_e=24):
    n = draw(st.integers(1, max_n))
    E = draw(st.integers(0, max_e))
    raw = draw(gens.raw_bytes(3 * E))
    return {
        "n": n,
        "edges": [[raw[3 * e] % n, raw[3 * e + 1] % n, raw[3 * e + 2] % 9] for e in range(E)],
        "thr": draw(st.sampled_from([0, 0.25, 0.5, 0.9, 1, 1.5])),
        "op": draw(st.sampled_from(sorted(OPS) + ["default"])),
        "kind": draw(st.sampled_from(["int", "str", "tuple"])),
        "lone": draw(st.integers(0, 2)),
    }


def node(v, kind):
    return {"int": v * 5 - 7, "str": f"n{v}", "tuple": (v, "x")}[kind]


def compare(g, comps, nodes, weight, passes):
    """comps against the components of the passing edges; weight: {frozenset: w}."""
    edges = [tuple(e) * (2 if len(e) == 1 else 1) for e, w in weight.items() if passes(w)]
    want = {frozenset(c) for c in ref.components(nodes, edges)}
    got = [frozenset(c.nodes) for c in comps]
    need(len(got) == len(set(got)) and set(got) == want, f"components {[sorted(c) for c in got]}"[:600])
    for c in comps:
        inside = {e: w for e, w in weight.items() if e <= set(c.nodes)}
        have = {}
        for a, row in c.edges.items():
            for b, w in row.items():
                have.setdefault(frozenset((a, b)), set()).add(w)
                need(c.edges.get(b, {}).get(a) == w, f"edge {a}-{b} only in one direction")
        need(have == {e: {w} for e, w in inside.items()}, f"edges of the component of {sorted(c.nodes)[:9]}")
    return want


def check_graph(d):
    g = Graph()
    weight, nodes = {}, set()
    with sut("Graph"):
        for a, b, w in d["edges"]:
            a, b = node(a, d["kind"]), node(b, d["kind"])
            g.add_edge(a, b, w / 4.0)
            weight[frozenset((a, b))] = w / 4.0
            nodes |= {a, b}
        for i in range(d["lone"]):
            g.nodes.add(node(90 + i, d["kind"]))
            nodes.add(node(90 + i, d["kind"]))
        before = {a: dict(r) for a, r in g.edges.items()}
        if d["op"] == "default":
            comps = g.connected_components()
            passes = lambda w: w < 0.9  # noqa: E731
        else:
            comps = g.connected_components(threshold=d["thr"], op=OPS[d["op"]])
            passes = lambda w: OPS[d["op"]](w, d["thr"])  # noqa: E731
        want = compare(g, comps, nodes, weight, passes)
        need(set(g.nodes) == nodes and {a: dict(r) for a, r in g.edges.items()} == before, "the graph was changed")
    return len(want) > 1 and max(map(len, want)) > 2, [f"op:{d['op']}", f"components:{min(len(want), 5)}"]


@st.composite
def large_cases(draw):
    n = draw(st.sampled_from([300, 1500, 5000]))
    return {
        "n": n,
        "shape": draw(st.sampled_from(["path", "star", "comb", "ring"])),
        "cuts": sorted(draw(st.sets(st.integers(0, n - 2), max_size=4))),
        "seed": draw(st.integers(0, 999)),
    }


def check_large(d):
    n = d["n"]
    name = np.random.RandomState(d["seed"]).permutation(n).tolist()
    E = {
        "path": [(i, i + 1) for i in range(n - 1)],
        "ring": [(i, (i + 1) % n) for i in range(n)],
        "star": [(0, i) for i in range(1, n)],
        "comb": [(i, i + 2) if i % 2 == 0 else (i - 1, i) for i in range(n - 2)] + [((n - 1) // 2 * 2, n - 1)] * (n % 2 == 0),
    }[d["shape"]]
    weight = {}
    with sut("Graph.connected_components on a large graph"):
        g = Graph()
        for e, (a, b) in enumerate(E):
            a, b = name[a], name[b]
            w = 1.0 if e in d["cuts"] else 0.5
            g.add_edge(a, b, w)
            weight[frozenset((a, b))] = w
        nodes = {x for e in weight for x in e}
        compare(g, g.connected_components(), nodes, weight, lambda w: w < 0.9)
    return True, [f"shape:{d['shape']}", f"n:{n}", f"cuts:{len(d['cuts'])}"]


PROPERTY = Property(
    "C31",
    [
        Facet("contiguity", subset_cases(), check_subset, 6400),
        Facet("graphs", graph_cases(), check_graph, 4800),
        Facet("contiguity, larger maps", subset_cases(30, 130), check_subset, 60),
        Facet("more nodes", graph_cases(120, 260), check_graph, 200),
        Facet("large graphs", large_cases(), check_large, 64),
    ],
    rule="Subsets of 0-14 units of symmetric weights of every shape in any order, with and without "
    "a leaver; weighted graphs of 1-16 nodes with repeated edges, loops and lone nodes under six "
    "comparisons, and paths, rings, stars and combs of up to 5000 nodes; components by union-"
    "find. Non-trivial: more than two units, resp. several components one of which has more "
    "than two nodes.",
    assumptions=["neighbours are mutual (simple contiguity)"],
)
