"""The data sets that come with the package."""
import csv
import importlib
import os
import shutil
import sys
import tempfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import core, models as M
from ..core import Sub, require

PROPERTY = "C29"
RULE = ("'packaged' reads the packaged files with the csv module and compares every feature, name and label with what the loaders return, over sequences of loads whose "
        "results are overwritten in between. 'files' does so in a scratch copy of the package whose files were replaced by generated ones of the same columns (row order, "
        "values, missing values in used and unused columns, labels). Non-trivial: results were overwritten, or the file has missing values or unsorted labels.")
ASSUMPTIONS = ["labels contain no text that pandas takes for a missing value", "the file of chaetocnema has no missing values"]

FLEA = ["X10", "X12", "X14", "X18", "X40", "X48"]
PENG = ["bill_length_mm", "bill_depth_mm", "flipper_length_mm", "body_mass_g"]
NA = ("", "NA", "NaN", "nan", "N/A", "null")


def expected(path, name):
    """(index, features, labels) from the text."""
    with open(path, newline="") as f:
        rows = list(csv.reader(f))
    head, rows = rows[0], [r for r in rows[1:] if r]
    if name == "flea":
        i = [head.index(c) for c in FLEA]
        return [int(r[0]) for r in rows], [[float(r[j]) for j in i] for r in rows], [r[head.index("species")] for r in rows]
    i = [head.index(c) for c in PENG]
    s = head.index("species")
    keep = [k for k, r in enumerate(rows) if all(r[j] not in NA for j in i + [s])]
    return keep, [[float(rows[k][j]) for j in i] for k in keep], [rows[k][s] for k in keep]


def compare(got, want, name, W):
    X, lab = got
    idx, feats, labels = want
    require(isinstance(X, pd.DataFrame) and isinstance(lab, np.ndarray), W + "types %s and %s", type(X).__name__, type(lab).__name__)
    require(list(X.columns) == (FLEA if name == "flea" else PENG), W + "columns %s", list(X.columns))
    require(X.shape == (len(feats), len(X.columns)) and lab.shape == (len(labels),), W + "shapes %s and %s for %d complete rows", X.shape, lab.shape, len(feats))
    a = X.to_numpy(dtype=float)
    b = np.array(feats, float).reshape(a.shape)
    require(np.allclose(a, b, rtol=1e-12, atol=0), W + "features differ from the file's, e.g. in row %s", np.argwhere(~np.isclose(a, b, rtol=1e-12, atol=0))[:1])
    bad = [i for i in range(len(labels)) if lab[i] != labels[i]]
    require(not bad, W + "the label of complete row %s is %r instead of %r", bad[:1], lab[bad[0]] if bad else None, labels[bad[0]] if bad else None)
    if name == "flea":
        require(list(X.index) == idx, W + "the index is not that of the file")


def spoil(got):
    got[0].iloc[:, :] = -1
    if got[1].flags.writeable:
        got[1][...] = "?"


def check_packaged(case, rec):
    from pyrichlet.utils import load_chaetocnema, load_penguins
    rec.classify(*case["loads"])
    rec.nontriv(any(case["spoil"][:len(case["loads"]) - 1]))
    d = os.path.join(os.path.dirname(importlib.import_module("pyrichlet.utils").__file__), "_data")
    for i, name in enumerate(case["loads"]):
        f, p = (load_chaetocnema, "chaetocnema.csv") if name == "flea" else (load_penguins, "penguins.csv")
        got = f()
        compare(got, expected(os.path.join(d, p), name), name, "load %d of %s: " % (i + 1, name))
        n = len(got[1])
        require(n == (74 if name == "flea" else 342), "%d complete rows of %s", n, name)
        for j, k in case["rows"]:      # what a fit of some rows sees
            r = sorted({j % n, k % n})
            require(np.array_equal(got[0].iloc[r].to_numpy(), got[0].to_numpy()[r]), "rows %s of %s", r, name)
        if case["spoil"][i]:
            spoil(got)


def write(path, name, case):
    g = np.random.default_rng(case["seed"])
    n = case["n"]
    labs = [["A", "B", " C", "x y", "Ω"], ["Adelie", "Gentoo", "Chinstrap"]][name != "flea"]
    with open(path, "w", newline="", encoding="utf-8") as f:
        w = csv.writer(f, quoting=csv.QUOTE_MINIMAL if case["quote"] else csv.QUOTE_NONNUMERIC)
        if name == "flea":
            w.writerow([""] + FLEA + ["species", "area"])
            for i in range(n):
                w.writerow([str(1 + i)] + [int(v) for v in g.integers(1, 300, 6)] + [str(g.choice(labs)), str(g.choice([" N", " O", "NA"]))])
        else:
            w.writerow(["species", "island"] + PENG + ["sex"])
            for i in range(n):
                v = [float(np.round(x, 1)) for x in g.normal(50, 9, 3)] + [int(g.integers(2000, 6000))]
                v = ["NA" if g.uniform() < case["missing"] else x for x in v]
                w.writerow([str(g.choice(labs)), str(g.choice(["Biscoe", "NA", ""]))] + v + [str(g.choice(["MALE", "FEMALE", "NA", ""]))])


def check_files(case, rec):
    name = case["name"]
    rec.classify(name, "missing values" if case["missing"] and name != "flea" else "complete")
    rec.nontriv(case["n"] > 2)
    W = tempfile.mkdtemp(prefix="vf-data-")
    held = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "pyrichlet" or k.startswith("pyrichlet.")}
    try:
        shutil.copytree(os.path.join(core.REPO, "pyrichlet"), os.path.join(W, "pyrichlet"), ignore=shutil.ignore_patterns("__pycache__", "tests"))
        p = os.path.join(W, "pyrichlet", "utils", "_data", "chaetocnema.csv" if name == "flea" else "penguins.csv")
        write(p, name, case)
        sys.path.insert(0, W)
        importlib.invalidate_caches()
        u = importlib.import_module("pyrichlet.utils")
        require(os.path.realpath(u.__file__).startswith(os.path.realpath(W)), "harness: the scratch copy was not imported")
        f = u.load_chaetocnema if name == "flea" else u.load_penguins
        for i in range(2):
            got = f()
            compare(got, expected(p, name), name, "%s, %d rows: " % (name, case["n"]))
            spoil(got)
    finally:
        if W in sys.path:
            sys.path.remove(W)
        for k in list(sys.modules):
            if k == "pyrichlet" or k.startswith("pyrichlet."):
                del sys.modules[k]
        sys.modules.update(held)
        shutil.rmtree(W)


pcases = st.fixed_dictionaries({"loads": st.lists(st.sampled_from(["flea", "penguins"]), min_size=1, max_size=4), "spoil": st.lists(st.booleans(), min_size=4, max_size=4),
                                "rows": st.lists(st.tuples(M.seeds, M.seeds).map(list), max_size=4)})
fcases = st.fixed_dictionaries({"name": st.sampled_from(["flea", "penguins"]), "n": st.integers(1, 40), "missing": st.sampled_from([0, 0.05, 0.3]), "quote": st.booleans(), "seed": M.seeds})
SUBS = [Sub("packaged", pcases, check_packaged, quick=150, thorough=1500), Sub("files", fcases, check_files, quick=150, thorough=3000)]
