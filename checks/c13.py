"""C13 Homogeneity summaries print and export the computed numbers and names."""

import os
import re
import shutil
import tempfile

import numpy as np
from giddy.markov import homogeneity
from hypothesis import strategies as st

from checks import spatial as sp
from harness.core import Facet, Property, captured, need, same, sut

NUM = r"([-+]?(?:\d+\.\d+|nan|inf))"


def rounds(text, value, digits=3):
    """text is value printed to that many digits."""
    v = float(text)
    if np.isnan(value):
        return np.isnan(v)
    if np.isinf(value):
        return v == value
    return len(text.split(".")[1]) == digits and abs(v - value) <= 0.5 * 10**-digits * (1 + 1e-9) + 1e-9


def one(pattern, text, what):
    g = re.findall(pattern, text, flags=re.M)
    need(len(g) == 1, f"{what}: {len(g)} matches of {pattern!r} in {text!r}")
    return g[0]


def parse_tables(lines, k, split):
    """Blocks 'P(name) c1..ck' followed by k rows 'c v1..vk'."""
    out, i = [], 0
    while i < len(lines):
        f = split(lines[i])
        if f and re.fullmatch(r"P\(.*\)", f[0]) and len(f) == k + 1:
            rows = [split(l) for l in lines[i + 1 : i + 1 + k]]
            out.append((f[0][2:-1], f[1:], rows))
            i += 1 + k
        else:
            i += 1
    return out


def check_tables(tables, h, regimes, classes, what):
    k, m = len(classes), len(regimes)
    need(
        [t[0] for t in tables] == ["H0"] + regimes,
        f"{what}: matrices {[t[0] for t in tables]}, expected {['H0'] + regimes}",
    )
    mats = [h.p_h0] + [h.p_h1[r] for r in range(m)]
    for (name, heads, rows), M in zip(tables, mats):
        need(heads == classes, f"{what}: P({name}) has columns {heads}")
        need(len(rows) == k, f"{what}: P({name}) has {len(rows)} rows")
        for i, row in enumerate(rows):
            need(row[0] == classes[i], f"{what}: row {i} of P({name}) is named {row[0]!r}")
            need(len(row) == k + 1, f"{what}: row {i} of P({name}) has {len(row) - 1} values")
            for j in range(k):
                need(
                    rounds(row[j + 1], float(M[i][j])),
                    f"{what}: P({name})[{i},{j}] is {row[j + 1]}, expected {float(M[i][j]):.3f}",
                )


def check_text(text, h, regimes, classes, title, total):
    k, m = len(classes), len(regimes)
    need(title in text, f"title {title!r} not printed")
    need(int(one(r"Number of classes: (\d+)$", text, "classes")) == k, "number of classes")
    need(int(one(r"Number of regimes: (\d+)$", text, "regimes")) == m, "number of regimes")
    need(int(one(r"Number of transitions: (\d+)$", text, "transitions")) == total, "number of transitions")
    names = one(r"^Regime names: (.*)$", text, "regime names")
    need(names == ", ".join(regimes), f"regime names: {names!r}")
    need(re.search(r"Test\s+LR\s+Chi-2", text), "no heading of the tests")
    lr, q = one(rf"^\s*Stat\.\s+{NUM}\s+{NUM}\s*$", text, "statistics")
    need(rounds(lr, float(h.LR)) and rounds(q, float(h.Q)), f"statistics {lr}, {q}; LR={h.LR}, Q={h.Q}")
    a, b = one(r"^\s*DOF\s+(-?\d+)\s+(-?\d+)\s*$", text, "dof")
    need(int(a) == int(b) == int(h.dof), f"dof {a}, {b}; expected {h.dof}")
    a, b = one(rf"^\s*p-value\s+{NUM}\s+{NUM}\s*$", text, "p-values")
    need(rounds(a, float(h.LR_p_value)) and rounds(b, float(h.Q_p_value)), f"p-values {a}, {b}")
    check_tables(parse_tables(text.split("\n"), k, str.split), h, regimes, classes, "text")


def check_tex(tex, h, regimes, classes, title, total):
    k, m = len(classes), len(regimes)
    cols = one(r"\\begin\{tabular\}\{\|(r*)\|\}", tex, "tabular")
    need(len(cols) == k + 1, f"LaTeX: {len(cols)} columns for {k} classes")
    need(tex.rstrip().endswith("\\end{tabular}"), "LaTeX: no \\end{tabular} at the end")
    need(tex.count("\\end{tabular}") == 1, "LaTeX: more than one \\end{tabular}")
    need("{%s}" % title in tex, f"LaTeX: title {title!r}")
    need(int(one(r"Number of classes: (\d+)\}", tex, "classes")) == k, "LaTeX: number of classes")
    need(int(one(r"Number of regimes: (\d+)\}", tex, "regimes")) == m, "LaTeX: number of regimes")
    need(int(one(r"Number of transitions: (\d+)\}", tex, "transitions")) == total, "LaTeX: transitions")
    names = one(r"Regime names: (.*?)\}\\\\$", tex, "regime names")
    need(names == ", ".join(regimes), f"LaTeX: regime names {names!r}")
    cell = r"\{(?:[lrc|]+)\}\{%s\}"
    need(re.search(r"\{Test\}.*\{LR\}.*\{Q\}", tex), "LaTeX: heading")
    lr, q = one(r"\{Stat\.\}&" + rf"\\multicolumn\{{2\}}\{{r\}}\{{{NUM}\}}&\\multicolumn\{{2\}}\{{r\|\}}\{{{NUM}\}}", tex, "statistics")
    need(rounds(lr, float(h.LR)) and rounds(q, float(h.Q)), f"LaTeX: statistics {lr}, {q}")
    a, b = one(r"\{DOF\}&\\multicolumn\{2\}\{r\}\{(-?\d+)\}&\\multicolumn\{2\}\{r\|\}\{(-?\d+)\}", tex, "dof")
    need(int(a) == int(b) == int(h.dof), f"LaTeX: dof {a}, {b}")
    a, b = one(r"\{p-value\}&" + rf"\\multicolumn\{{2\}}\{{r\}}\{{{NUM}\}}&\\multicolumn\{{2\}}\{{r\|\}}\{{{NUM}\}}", tex, "p-values")
    need(rounds(a, float(h.LR_p_value)) and rounds(b, float(h.Q_p_value)), f"LaTeX: p-values {a}, {b}")
    lines = [re.sub(r"\\\\$", "", l) for l in tex.split("\n")]
    split = lambda l: [x.strip() for x in l.split("&")]  # noqa: E731
    check_tables(parse_tables(lines, k, split), h, regimes, classes, "LaTeX")


def run_summary(call, h, regimes, classes, title, total, to_file, times=1, old=False):
    """call(**kw) prints a summary; check it and the files it writes (old: over
    a file that is there already)."""
    d = tempfile.mkdtemp(prefix="verif-c13-")
    cwd = os.getcwd()
    try:
        os.chdir(d)
        os.mkdir("sub")
        name = {"cwd": "res", "path": os.path.join(d, "sub", "res.v1")}.get(to_file)
        want = {"cwd": ["res.tex"], "path": ["sub/res.v1.tex"]}.get(to_file, [])
        if want and old:
            with open(want[0], "w") as f:
                f.write("An older table\n" * 400)
        for _ in range(times):
            with captured() as out:
                call(file_name=name) if name else call()
            check_text(out.getvalue(), h, regimes, classes, title, total)
            files = sorted(
                os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs
            )
            need(files == want, f"files written: {files}, expected {want}")
            if want:
                with open(os.path.join(d, want[0])) as f:
                    check_tex(f.read(), h, regimes, classes, title, total)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


NAMES = ["low", "a_very_long_regime_name", "Z", "1990-1995", "mid", "N-E", "r7", "ß", "x.y", "south"]
TITLES = [None, "A title", "Test of Q: 100"]
TITLES += ["A title which is a good deal longer than the tables printed below it, and says so at length"]
NAMES += [f"g{i}" for i in range(30)]


@st.composite
def cases(draw, max_k=6, max_m=5, **kw):
    T = draw(sp.count_stacks(max_k=max_k, max_m=max_m, **kw, hi=draw(st.sampled_from([2, 12, 900])), irreducible=False))
    perm = draw(st.permutations(NAMES))
    perm2 = draw(st.permutations(NAMES))
    return {
        "T": T,
        "regimes": list(perm[: len(T)]) if draw(st.booleans()) else None,
        "classes": list(perm2[: len(T[0])]) if draw(st.booleans()) else None,
        "numbers": draw(st.booleans()),
        "years": draw(st.booleans()),
        "as": draw(st.sampled_from(["list", "list", "tuple", "array"])),
        "title": draw(st.sampled_from(TITLES)),
        "file": draw(st.sampled_from([None, "cwd", "path"])),
        "twice": draw(st.booleans()),
        "old": draw(st.booleans()),
    }


def check(d):
    T = np.array(d["T"], dtype=float)
    m, k = len(T), T.shape[1]
    kw, classes = {}, [str(i) for i in range(k)]
    regimes = [str(i) for i in range(m)]
    if d["regimes"]:
        kw["regime_names"] = regimes = d["regimes"]
    if d["classes"]:
        kw["class_names"] = classes = d["classes"]
    elif d["numbers"]:
        kw["class_names"] = [3 * i + 1 for i in range(k)]
        classes = [str(3 * i + 1) for i in range(k)]
    if d["years"] and not d["regimes"]:
        kw["regime_names"] = [1990 + 5 * i for i in range(m)]
        regimes = [str(1990 + 5 * i) for i in range(m)]
    kw = {a: {"list": list, "tuple": tuple, "array": np.array}[d["as"]](v) for a, v in kw.items()}
    title = d["title"] or "Markov Homogeneity Test"
    with sut("homogeneity summary"):
        h = homogeneity(T, **kw)
        extra = {"title": d["title"]} if d["title"] else {}
        run_summary(
            lambda **f: h.summary(**f, **extra),
            h,
            regimes,
            classes,
            title,
            int(T.sum()),
            d["file"],
            1 + d["twice"],
            d["old"],
        )
    tags = [f"names as {d['as']}", f"file:{d['file']}", f"regimes:{'given' if d['regimes'] else 'default'}"]
    tags.append(f"classes:{'given' if d['classes'] else 'default'}")
    if m != k:
        tags.append("m != k")
    return m > 1, tags


@st.composite
def crafted(draw):
    return {
        "T": draw(sp.count_stacks()),
        "fill": draw(st.booleans()),
        "name": draw(st.sampled_from([None, "income", "rel. GDP", "gross domestic product relative to the mean of all the regions"])),
        "file": draw(st.sampled_from([None, "cwd", "path"])),
    }


def check_sm(d):
    with sut("Spatial_Markov.summary"):
        s, T = sp.craft(d["T"], fill=d["fill"], variable_name=d["name"])
        m, k = len(T), T.shape[1]
        h = homogeneity(T.astype(float))
        title = "Spatial Markov Test" + (f": {d['name']}" if d["name"] else "")
        run_summary(
            s.summary,
            h,
            [f"LAG{i}" for i in range(m)],
            [f"C{i}" for i in range(k)],
            title,
            int(T.sum()),
            d["file"],
        )
        same(s.T, T, "T afterwards")
    return m > 1, [f"file:{d['file']}", "m != k" if m != k else "m == k"]


PROPERTY = Property(
    "C13",
    [
        Facet("homogeneity", cases(), check, 2600),
        Facet("larger stacks", cases(13, 14, min_k=8, min_m=8), check, 180),
        Facet("Spatial_Markov", crafted(), check_sm, 1200),
    ],
    rule="Stacks of 1-5 count matrices over 2-6 classes (or 8-14 over 8-13), names given or not (strings, numbers; lists, tuples, arrays), titles, output to a "
    "file in a fresh directory or over an older file, once or twice; the printed text and the LaTeX file are "
    "parsed and compared with the result object. Non-trivial: more than one regime.",
    assumptions=["names contain no white space or LaTeX special characters"],
)
