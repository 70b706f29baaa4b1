import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import gibbs as G, mixdata, models as M, session as S
from ..core import Sub, require

PROPERTY = "C14"
RULE = ("'containers' fits the same numbers as a contiguous float array and as a list, frame, series, one-dimensional array, integer, Fortran-ordered, "
        "strided, reversed-view or read-only array (odd, repeated or compound row and column labels), and asks the same queries in different containers: results must "
        "agree. 'ownership' compares every object passed in with a copy after each call, then overwrites it and asks everything again. 'labels' "
        "does the same for the label vectors and responsibilities of weighting models. Non-trivial: the container is not the plain array.")
ASSUMPTIONS = ["memory layouts that change the order of summation may change results by rounding (1e-6 relative is allowed there)",
               "single precision and objects of other dtypes are not covered"]

KINDS = ["list", "frame", "int", "fortran", "strided", "reversed", "readonly", "mixedframe", "1d", "1dlist", "series", "1dstrided", "dupframe", "multiframe", "numlist", "tuplelist", "arraylist", "num1dlist"]
EXACT = ("list", "readonly", "1d", "1dlist", "series", "int", "numlist", "tuplelist", "arraylist", "num1dlist")


def number(v):
    return int(v) if v == int(v) else v


def contain(kind, x):
    """x in another container; None when it cannot hold it."""
    n, D = x.shape
    if kind == "list":
        return x.tolist()
    if kind == "numlist":      # whole numbers as int
        return [[number(v) for v in r] for r in x.tolist()]
    if kind == "tuplelist":
        return [tuple(r) for r in x.tolist()]
    if kind == "arraylist":    # rows of whole numbers as integer arrays
        return [r.astype(np.int64) if np.all(r == np.round(r)) else r.copy() for r in x]
    if kind == "frame":
        return pd.DataFrame(x.copy(), index=[("r%d" % ((7 * i) % n)) for i in range(n)], columns=["z%d" % (9 - i) for i in range(D)])
    if kind == "mixedframe":   # one column of another dtype when it holds integers
        f = pd.DataFrame({"b%d" % i: x[:, i].copy() for i in range(D)}, index=np.arange(n) * 3)
        if np.all(x[:, 0] == np.round(x[:, 0])):
            f["b0"] = f["b0"].astype(np.int64)
        return f
    if kind == "dupframe":     # repeated row and column labels
        return pd.DataFrame(x.copy(), index=[i // 2 for i in range(n)], columns=["z%d" % (i // 2) for i in range(D)])
    if kind == "multiframe":   # tuples as labels
        return pd.DataFrame(x.copy(), index=pd.MultiIndex.from_tuples([("r", -i) for i in range(n)]), columns=pd.MultiIndex.from_tuples([("c%d" % (i % 2), 5 - i) for i in range(D)]))
    if kind == "int":
        return x.astype(np.int64) if np.all(x == np.round(x)) else None
    if kind == "fortran":
        return np.array(x, order="F", copy=True)
    if kind == "strided":
        b = np.full((2 * n, 3 * D), np.nan)
        b[::2, ::3] = x
        return b[::2, ::3]
    if kind == "reversed":
        return x[::-1, ::-1].copy()[::-1, ::-1]
    if kind == "readonly":
        r = x.copy()
        r.setflags(write=False)
        return r
    if D == 1:
        if kind == "1d":
            return x[:, 0].copy()
        if kind == "1dlist":
            return x[:, 0].tolist()
        if kind == "num1dlist":
            return [number(v) for v in x[:, 0].tolist()]
        if kind == "series":
            return pd.Series(x[:, 0].copy(), index=np.arange(n)[::-1] + 2, name="height")
        if kind == "1dstrided":
            b = np.full(2 * n, np.nan)
            b[::2] = x[:, 0]
            return b[::2]
    return None


def fit(m, s, Y, case):
    k = s["n"] if s["m"] in M.FINITE else 1 + case["k"]
    if case["kind"] == "var" and s["m"] in M.VARIATIONAL:
        m.fit_variational(Y, n_groups=k, init_method=["kmeans", "random"][case["k"] % 2])
        return "var"
    m.fit_gibbs(Y, **G.start_kwargs(s, case["init"], None))
    return "gibbs"


def ask(m, how, X, dims=None):
    """All queries that take points."""
    if how == "gibbs":
        return [m.gibbs_eap_density(X), m.gibbs_map_density(X), m.gibbs_eap_affinity_matrix(X), list(m.gibbs_map_cluster(X, full=True)),
                m.gibbs_eap_density(X, dim=dims), m.gibbs_eap_density(X, component=0)]
    return [m.var_eap_density(X), m.var_map_density(X) if mode_exists(m) else 0, m.var_eap_affinity_matrix(X), list(m.var_map_cluster(X, full=True)),
            m.var_eap_density(X, dim=dims), m.var_eap_density(X, component=0)]


def mode_exists(m):
    try:
        for j in range(len(m.var_theta)):
            m.weight_model.variational_mode_w_j(j)
    except ValueError:
        return False
    return True


def state(m, how):
    return S.gibbs_state(m) if how == "gibbs" else S.var_state(m)


def data(case):
    y = mixdata.make(case["data"])
    if case["round"]:
        y = np.round(y * 50 / case["data"]["scale"])
        y += np.random.default_rng(case["seed"]).integers(-1, 2, size=y.shape)
    return whole(y, case["part"])


def whole(y, part):
    """Some of the entries as whole numbers."""
    if part == 1:
        y[0] = np.round(y[0])
    elif part == 2 and len(np.unique(np.round(y[:, 0]))) > 2:
        y[:, 0] = np.round(y[:, 0])
    elif part == 3:
        y[1:-1] = np.round(y[1:-1] * 10)
    return y


def check_containers(case, rec):
    s = case["spec"]
    y = data(case)
    D = y.shape[1]
    Y = contain(case["as"], y)
    g = np.random.default_rng([case["seed"], 3])
    x = y[g.integers(0, len(y), 5)] + (np.round(g.normal(size=(5, D)) * 20) if case["round"] else g.normal(size=(5, D)) * np.std(y) * 0.3)
    x = whole(x, case["part"])
    qa = case["qas"]
    X = contain(qa, x)
    rec.classify("model " + s["m"], "data as " + case["as"] if Y is not None else "data as array", "points as " + qa if X is not None else "points as array")
    rec.nontriv(Y is not None or X is not None)
    ma = G.build(s, case["seed"], case["opts"], {"lambda_prior": case["lam"]})
    how = fit(ma, s, y.copy(), case)
    mb = G.build(s, case["seed"], case["opts"], {"lambda_prior": case["lam"]})
    fit(mb, s, y.copy() if Y is None else Y, case)
    tol = 0.0 if Y is None or case["as"] in EXACT else 1e-6
    sd = float(np.abs(y).max())
    W = "%s, %d features, data as %s: " % (s["m"], D, case["as"])
    d = S.diff(state(ma, how), state(mb, how), rtol=tol, atol=tol * (1e-3 + 0 * sd))
    require(d is None, W + "the fit differs from that of the plain array (%s)", d)
    dims = list(range(D))
    A = ask(ma, how, x.copy(), dims)
    B = ask(ma, how, x.copy() if X is None else X, dims)
    qt = 0.0 if X is None or qa in EXACT else 1e-8
    d = S.diff(A, B, rtol=qt, atol=qt * 1e-6)
    require(d is None, W + "queries at points given as %s differ from those at the plain array (%s)", qa, d)
    if D == 1:
        v = float(x[0, 0])
        one = ask(ma, how, x[:1].copy(), [0])
        for sc, name in ((v, "float"), (np.float64(v), "NumPy scalar"), (np.array(v), "0-d array")) + (((int(v), "int"), (np.int64(v), "NumPy int")) if v == int(v) else ()):
            d = S.diff(one, ask(ma, how, sc, [0]))
            require(d is None, W + "queries at a %s differ from those at an array of one point (%s)", name, d)
        rec.count("scalar points")


def freeze(o):
    return copy.deepcopy(o)


def same(a, b):
    if isinstance(a, (pd.DataFrame, pd.Series)):
        return type(a) is type(b) and a.equals(b) and a.index.equals(b.index)
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and np.array_equal(a, b)
    return type(a) is type(b) and a == b


def smash(o):
    """Overwrite in place."""
    if isinstance(o, pd.DataFrame):
        o.iloc[:, :] = 12345
        for c in o.columns:
            o[c].to_numpy()    # touch
    elif isinstance(o, pd.Series):
        o.iloc[:] = 12345
    elif isinstance(o, np.ndarray):
        if o.flags.writeable:
            o[...] = 12345
    elif isinstance(o, list):
        for i in range(len(o)):
            if isinstance(o[i], list):
                smash(o[i])
            else:
                o[i] = 12345.0


def check_ownership(case, rec):
    s = case["spec"]
    if s["m"] == "DD" and case["alpha_array"] and not isinstance(s["alpha"], list):
        s = dict(s, alpha=[s["alpha"]] * s["n"])
    y = data(case)
    D = y.shape[1]
    base = None if case["as"] == "plain" else contain(case["as"], y)
    Y = y.copy() if base is None else base
    buf = Y.base if isinstance(Y, np.ndarray) and Y.base is not None else None
    g = np.random.default_rng([case["seed"], 4])
    A = g.normal(size=(D, D + 1))
    psi = (A @ A.T + 0.3 * np.eye(D)) * np.var(y)
    pri = {}
    if case["priors"]:
        pri = {"mu_prior": y.mean(axis=0).tolist() if case["list_priors"] else y.mean(axis=0),
               "psi_prior": psi.tolist() if case["list_priors"] else psi}
    alpha = np.array(s["alpha"], float) if s["m"] == "DD" and isinstance(s["alpha"], list) else None
    kw = dict(pri, lambda_prior=case["lam"])
    if alpha is not None:
        m = M.mm.DirichletDistributionMixture(n=s["n"], alpha=alpha, rng=case["seed"], total_iter=case["opts"]["total"], burn_in=case["opts"]["burn"],
                                              subsample_steps=case["opts"]["sub"], **kw)
    else:
        m = G.build(s, case["seed"], case["opts"], kw)
    passed = {"the data": Y, "mu_prior": pri.get("mu_prior"), "psi_prior": pri.get("psi_prior"), "alpha": alpha}
    passed = {k: v for k, v in passed.items() if v is not None}
    if buf is not None:
        passed["the memory around the data"] = buf
    copies = {k: freeze(v) for k, v in passed.items()}
    W = "%s, data as %s: " % (s["m"], case["as"])

    def intact(when):
        for k, v in passed.items():
            ok = np.array_equal(v, copies[k], equal_nan=True) if isinstance(v, np.ndarray) else same(v, copies[k])
            require(ok, W + "%s was modified by %s", k, when)

    how = fit(m, s, Y, case)
    intact("the fit")
    x = y[:4] + 0.125 * np.std(y)
    X = x.copy() if base is None else contain(case["as"], x)
    X = x.copy() if X is None else X
    xc = freeze(X)
    dims = np.arange(D) if case["k"] % 2 else list(range(D))
    dc = freeze(dims)
    first = copy.deepcopy(ask(m, how, X, dims))
    own = copy.deepcopy([G.queries(m, y, q, s) if how == "gibbs" else S.var_query(m, y, q) for q in range(G.N_QUERIES if how == "gibbs" else S.VQ)])
    before = state(m, how)
    require(same(X, xc) if not isinstance(X, np.ndarray) else np.array_equal(X, xc), W + "the query points were modified by a query")
    require(np.array_equal(dims, dc), W + "dim was modified by a query")
    intact("a query")
    rec.classify("model " + s["m"], "as " + case["as"], "explicit priors" if case["priors"] else "data priors")
    rec.nontriv()
    for v in passed.values():
        smash(v)
    d = S.diff(before, state(m, how))
    require(d is None, W + "overwriting the arguments after the fit changed the fitted state (%s)", d)
    second = ask(m, how, xc, dc)
    d = S.diff(first, second)
    require(d is None, W + "overwriting the arguments after the fit changed query results (%s)", d)
    again = [G.queries(m, y, q, s) if how == "gibbs" else S.var_query(m, y, q) for q in range(G.N_QUERIES if how == "gibbs" else S.VQ)]
    d = S.diff(own, again)
    require(d is None, W + "overwriting the arguments after the fit changed query results (%s)", d)
    # continuing does not use the overwritten priors either
    if case["opts"]["total"] > 1 or how == "var":
        m2 = G.build(s, case["seed"], case["opts"], dict(lambda_prior=case["lam"], **{k: copies[k] for k in pri}))
        fit(m2, s, y.copy() if base is None else contain(case["as"], y), case)
        for mm in (m, m2):
            yy = y.copy() if base is None else contain(case["as"], y)
            if how == "gibbs":
                mm.fit_gibbs(yy, warm_start=True)
            else:
                mm.fit_variational(yy, warm_start=True)
        d = S.diff(state(m2, how), state(m, how))
        require(d is None, W + "overwriting the arguments after the fit changed a warm start (%s)", d)


INT = ["list", "int64", "int32", "uint8", "uint64", "int8", "tuple", "strided", "readonly", "series"]


def labels(kind, lab):
    if kind == "list":
        return list(lab)
    if kind == "tuple":
        return tuple(lab)
    if kind == "series":
        return pd.Series(lab, index=np.arange(len(lab)) + 4)
    if kind == "strided":
        b = np.full(2 * len(lab), 99)
        b[::2] = lab
        return b[::2]
    if kind == "readonly":
        a = np.array(lab)
        a.setflags(write=False)
        return a
    return np.array(lab, dtype=kind)


def check_labels(case, rec):
    s = case["spec"]
    lab = [v % s["n"] for v in case["labels"]] if s["m"] in M.FINITE else case["labels"]
    out = []
    W = "%s, labels as %s: " % (s["m"], case["as"])
    for kind in ("int64", case["as"]):
        wm = M.weight(s, case["seed"])
        d = labels(kind, lab)
        c = freeze(d)
        wm.fit(d)
        r = [np.array(wm.random())]
        if isinstance(d, np.ndarray):
            require(np.array_equal(d, c), W + "the labels were modified")
            if d.flags.writeable and kind == case["as"] and case["smash"]:
                d[...] = 0
        elif isinstance(d, list) and case["smash"]:
            d[:] = [0] * len(d)
        r += [np.array(wm.random()), np.array(wm.complete(max(lab) + 3)), float(wm.assignation_log_likelihood()), float(wm.assignation_log_likelihood(c)),
              float(wm.weighting_log_likelihood())]
        out.append(r)
    d = S.diff(*out)
    require(d is None, W + "results differ from those of an integer array (%s)", d)
    if s["m"] in M.VARIATIONAL:
        k = s["n"] if s["m"] == "DD" else 3
        R = np.random.default_rng(case["seed"]).dirichlet(np.ones(k), size=len(lab)).T.copy()
        wm = M.weight(s, case["seed"])
        wm.fit_variational(R)
        keep = R.copy()

        def exps():
            return [[float(wm.variational_mean_log_w_j(j)), float(wm.variational_mean_w_j(j))] for j in range(k)] + [
                float(wm.variational_mean_log_p_d__w()), float(wm.variational_mean_log_p_w()), float(wm.variational_mean_log_q_w()),
                float(wm.variational_mean_log_p_d__w(variational_d=keep))]
        a = exps()
        require(np.array_equal(R, keep), W + "the responsibilities were modified")
        R[...] = 1 / k
        d = S.diff(a, exps())
        require(d is None, W + "overwriting the responsibilities after the fit changed the expectations (%s)", d)
    rec.classify("model " + s["m"], "as " + case["as"])
    rec.nontriv(case["as"] != "int64")


BAD = {"None": None, "str": "1,2,3", "tuple": ((1.0,), (2.0,), (3.0,)), "dict": {"a": [1.0, 2.0]}, "set": {1.0, 2.0}, "object": object(), "generator": range(4)}


def check_types(case, rec):
    s = case["spec"]
    y = data(case)
    m = G.build(s, case["seed"], case["opts"], {})
    bad = BAD[case["bad"]]
    rec.classify("model " + s["m"], "a " + case["bad"], "fit" if case["where"] == 0 else "query")
    rec.nontriv()

    def refused(what, f):
        try:
            f()
        except TypeError:
            return
        except Exception as e:  # noqa: BLE001
            require(False, "%s: %s with a %s raised %s instead of TypeError", s["m"], what, case["bad"], type(e).__name__)
        require(False, "%s: %s accepted a %s", s["m"], what, case["bad"])

    if case["where"] == 0:
        refused("fit_gibbs", lambda: m.fit_gibbs(bad))
        if s["m"] in M.VARIATIONAL:
            refused("fit_variational", lambda: m.fit_variational(bad, n_groups=s.get("n", 2)))
        return
    if case["bad"] == "None":
        return
    how = fit(m, s, y, case)
    names = (["gibbs_eap_density", "gibbs_map_density", "gibbs_eap_affinity_matrix", "gibbs_map_cluster", "gibbs_eap_spectral_consensus_cluster"] if how == "gibbs"
             else ["var_eap_density", "var_map_density", "var_eap_affinity_matrix", "var_map_cluster", "var_eap_spectral_consensus_cluster"])
    for nm in names:
        refused(nm, lambda: getattr(m, nm)(bad))


def check_names(case, rec):
    """Axis labels of the pair plot: the column names of the data."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    s = case["spec"]
    y = data(case)
    D = y.shape[1]
    if D < 2:
        return
    m = G.build(s, case["seed"], case["opts"], {})
    Y = contain("frame", y) if case["frame"] else y
    names = ["z%d" % (9 - i) for i in range(D)] if case["frame"] else [str(i) for i in range(D)]
    m.fit_gibbs(Y, **G.start_kwargs(s, case["init"], None))
    rec.classify("model " + s["m"], "frame" if case["frame"] else "array")
    rec.nontriv(case["frame"])
    plt.close("all")
    m.gibbs_map_pairplot()
    fig = plt.gcf()
    axes = np.array(fig.axes).reshape(D, D)
    xs = [a.get_xlabel() for a in axes[-1]]
    ys_ = [a.get_ylabel() for a in axes[:, 0]]
    plt.close("all")
    require(xs == names and ys_ == names, "%s: the pair plot labels the features %s and %s instead of %s", s["m"], xs, ys_, names)


common = {"spec": G.spec(), "data": mixdata.data(nmax=10, kinds=["blobs", "gauss", "uniform"]), "round": st.booleans(), "part": st.integers(0, 3), "opts": G.fit_opts(6), "lam": M.pos(0.1, 4),
          "kind": st.sampled_from(["gibbs", "var"]), "init": st.sampled_from(["kmeans", "random", "variational"]), "k": st.integers(0, 4), "seed": M.seeds}
ccases = G.fixed(dict(common, **{"as": st.sampled_from(KINDS), "qas": st.sampled_from(KINDS)}))
ocases = G.fixed(dict(common, **{"as": st.sampled_from(["plain", "list", "frame", "mixedframe", "fortran", "strided", "1d", "series", "1dlist"]),
                                               "priors": st.booleans(), "list_priors": st.booleans(), "alpha_array": st.booleans()}))
lcases = G.fixed({"spec": G.spec(), "labels": st.lists(st.integers(0, 6), min_size=1, max_size=12), "as": st.sampled_from(INT), "smash": st.booleans(),
                                "seed": M.seeds})
tcases = G.fixed(dict(common, bad=st.sampled_from(sorted(BAD)), where=st.integers(0, 1)))
ncases = G.fixed(dict(common, frame=st.booleans()))

SUBS = [Sub("containers", ccases, check_containers, quick=700, thorough=15000),
        Sub("ownership", ocases, check_ownership, quick=400, thorough=10000),
        Sub("labels", lcases, check_labels, quick=700, thorough=10000),
        Sub("other types", tcases, check_types, quick=250, thorough=2000),
        Sub("column names", ncases, check_names, quick=24, thorough=200, shrink=False)]
