"""C35 Results are reproducible and independent of access order and call history."""

import numpy as np
from hypothesis import strategies as st

from checks import catalog as cat
from harness import gens
from harness.core import Facet, Property, need, sut
from harness.fresh import forked


@st.composite
def fresh_cases(draw):
    return {
        "pool": (pool := draw(cat.pool_cases())),
        "other": draw(cat.pool_cases()),
        "call": cat.picks(pool, 1)[0],
        "before": [[b % 8, b // 8] for b in draw(gens.raw_bytes(draw(st.integers(2, 9))))],
    }


def check_fresh(d):
    """The call in a process which has made no call, and in one which has made
    the same call on inputs much like these."""
    name, seed = d["call"], d["pool"]["seed"]

    def alone():
        with sut("building the inputs"):
            I = cat.build(d["pool"])
        with sut(name):
            r, text = cat.run(name, I, seed)
            return cat.whole(r, text)

    def after():
        for how, pos in d["before"]:
            with sut("building the inputs"):
                J = cat.build(d["pool" if how else "other"])
                cat.relate(J, how, pos)
            try:
                r, text = cat.run(name, J, seed + pos)
                cat.whole(r, text)
            except Exception:
                pass  # a neighbour of valid inputs need not be valid
        return alone()

    got, want = forked(after), forked(alone)
    cat.agree(got, want, f"{name} after calls on inputs like {d['before']}")
    return True, [f"call:{name}"]


@st.composite
def history_cases(draw):
    return {
        "pool": (pool := draw(cat.pool_cases())),
        "other": draw(cat.pool_cases()),
        "call": cat.picks(pool, 1)[0],
        "between": cat.picks(pool, 3)[1:] + draw(st.lists(st.sampled_from(cat.NAMES), max_size=2)),
        "shared": draw(st.booleans()),
    }


def check_history(d):
    """The same call in the same random state, with other calls between."""
    name, seed = d["call"], d["pool"]["seed"]
    with sut("building the inputs"):
        I, J = cat.build(d["pool"]), cat.build(d["other"])
        K = cat.build(d["pool"])
    with sut(name):
        a, text = cat.run(name, I, seed)
        first = cat.whole(a, text)
        state = np.random.get_state()
        for i, other in enumerate([name] + d["between"]):
            r, t = cat.run(other, J, seed + 17 + i)
            cat.whole(r, t)
            if d["shared"]:
                cat.run(other, K, seed + 31 + i)
        K = cat.build(d["pool"])
        b, text = cat.run(name, K, seed)
        cat.agree(cat.whole(b, text), first, f"{name} after {d['between']}")
        now = np.random.get_state()
        need(
            np.array_equal(state[1], now[1]) and state[2:] == now[2:],
            f"{name} left another random state after {d['between']}",
        )
    return True, [f"call:{name}"]


@st.composite
def access_cases(draw):
    return {
        "pool": (pool := draw(cat.pool_cases())),
        "other": draw(cat.pool_cases()),
        "call": cat.picks(pool, 1, cat.OBJECTS)[0],
        "picks": [[b % 2, b // 2] for b in draw(gens.raw_bytes(draw(st.integers(4, 40))))],
    }


def check_access(d):
    """Attributes in any order, any number of times, of two objects in turn."""
    name = d["call"]
    pools = [d["pool"], d["other"]]
    with sut("building the inputs"):
        I = [cat.build(p) for p in pools]
        J = [cat.build(p) for p in pools]
    with sut(name):
        objs = [cat.run(name, x, p["seed"])[0] for x, p in zip(I, pools)]
        # what each attribute gives when it is the only one ever asked for
        want, order = {}, []
        for who, pos in d["picks"]:
            names = cat_names(objs[who])
            attr = names[pos % len(names)]
            if (who, attr) not in want:
                fresh = cat.run(name, J[who], pools[who]["seed"])[0]
                want[who, attr] = cat.access(fresh, attr)
            order.append((who, attr))
        for who, attr in order:
            got = cat.access(objs[who], attr)
            cat.agree(got, want[who, attr], f"{attr} of {name} after {[b for a, b in order if a == who][:30]}")
    lazy = {a for _, a in order if isinstance(getattr(type(objs[0]), a, None), property)}
    return len(lazy) > 1, [f"call:{name}", f"lazy:{min(len(lazy), 6)}"]


def cat_names(obj):
    """Lazy attributes twice as often as the others; no attribute is computed
    by listing them."""
    lazy = [n for n in sorted(dir(type(obj))) if isinstance(getattr(type(obj), n, None), property)]
    lazy = [n for n in lazy if not n.startswith("_")]
    plain = [n for n in sorted(vars(obj)) if not n.startswith("_") and n != "w"]
    return lazy + lazy + plain if len(plain) > len(lazy) else lazy + plain


@st.composite
def change_cases(draw):
    return {
        "pool": (pool := draw(cat.pool_cases())),
        "call": cat.picks(pool, 1)[0],
        "transform": draw(st.sampled_from([None, "r", "b"])),
        "times": draw(st.integers(1, 2)),
    }


def check_change(d):
    """A call on inputs changed in place is a call on the changed values."""
    name, seed = d["call"], d["pool"]["seed"]
    with sut("building the inputs"):
        I, J = cat.build(d["pool"]), cat.build(d["pool"])
    with sut(name):
        a, text = cat.run(name, I, seed)
        first = cat.whole(a, text)
        for x in (I, J):
            cat.flip(x)
            x["w"].transform = d["transform"] or ("o" if d["pool"]["base"]["w"]["transform"] == "o" else d["pool"]["base"]["w"]["transform"])
        b, text = cat.run(name, I, seed)
        c, text2 = cat.run(name, J, seed)
        got, want = cat.whole(b, text), cat.whole(c, text2)
        cat.agree(got, want, f"{name} on inputs changed in place after a first call")
    try:
        cat.agree(first, want, "")
        moved = False
    except Exception:
        moved = True
    return moved, [f"call:{name}"] + ["different result"] * moved


PROPERTY = Property(
    "C35",
    [
        # first: its children are forked while the worker itself has made no call
        Facet("fresh processes", fresh_cases(), check_fresh, 960),
        Facet("histories", history_cases(), check_history, 2000),
        Facet("access orders", access_cases(), check_access, 1000),
        Facet("changed inputs", change_cases(), check_change, 2400),
    ],
    rule="Calls as for C34: repeated from the same seed with 1-4 other calls between, on other and "
    "on shared inputs; up to 40 attribute accesses of two objects in turn against the first access "
    "on a fresh object; a call on inputs reversed in place after a first call against the call on "
    "fresh inputs. Non-trivial: any completed history; at least two different lazy attributes; a "
    "result which differs from that before the change.",
    assumptions=["the transform of a weights object is part of the inputs"],
    warmup=cat.warm,
)
