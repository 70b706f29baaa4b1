import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import mixdata, models as M, varmix as V
from ..core import Sub, as_float_array, as_int_array, require, require_close
from ..varrefs import WeightQ
from .c20 import live, lives, point_kinds

PROPERTY = "C21"
RULE = ("A case is a fitted variational mixture (1-3 features; also after earlier fits, queries and warm starts), one to three sets of query points (fitted, near, far outliers, one or many points) in some container, and a split of "
        "them over calls; labels, uncertainties and affinities are compared with the stored responsibilities or the coordinate-optimal ones computed "
        "independently. Non-trivial: two or more groups and two or more query points. The consensus sub uses well separated blobs.")
ASSUMPTIONS = ["points whose two highest responsibilities agree up to rounding may go to either"]


def contain(kind, x):
    if kind == "frame":
        return pd.DataFrame(x, index=np.arange(len(x))[::-1] + 5, columns=["c%d" % i for i in range(x.shape[1])])
    if kind == "list":
        return x.tolist()
    if x.shape[1] == 1:
        if kind == "1d":
            return x[:, 0].copy()
        if kind == "series":
            return pd.Series(x[:, 0], index=np.arange(len(x)) + 3)
        if kind == "1dlist":
            return x[:, 0].tolist()
    if kind == "fortran":
        return np.asfortranarray(x)
    return x.copy()


def qpoints(case, y):
    g = M.gen([case["seed"], 6])
    sd, D = mixdata.spread(y), y.shape[1]
    kind = case["points"]
    if kind == "fitted":
        return y.copy()
    if kind in ("near", "lots"):
        n = 7 if kind == "near" else case["lots"]
        return y[g.integers(0, len(y), n)] + g.normal(size=(n, D)) * sd * 0.5
    if kind == "one":
        return y[:1] + g.normal(size=(1, D)) * sd
    return y.mean(axis=0) + g.normal(size=(6, D)) * sd * np.array([1, 5, 20, 100, 1000, 1e4])[:, None]


def labels_ok(lab, unc, R, W, tol=1e-8):
    lab = as_int_array(lab, W + "labels", shape=(R.shape[1],))
    require(np.all((lab >= 0) & (lab < len(R))), W + "labels out of range: %s", lab)
    top = R.max(axis=0)
    at = R[lab, range(R.shape[1])]
    bad = at < top - tol
    if np.any(bad):
        i = int(np.flatnonzero(bad)[0])
        require(False, W + "point %d goes to group %d of responsibility %.10g, the highest being %.10g of group %d", i, lab[i], at[i], top[i], int(R[:, i].argmax()))
    if unc is not None:
        require_close(as_float_array(unc, W + "uncertainties", shape=lab.shape), 1 - top, W + "uncertainties", rtol=0, atol=tol)


def check(case, rec):
    s = case["spec"]
    k = V.n_groups(s, case["k"])
    y = mixdata.make(case["data"])
    kw, pr = mixdata.prior_kwargs(case["prior"], y)
    m = V.build(s, case["seed"], case["iters"], kw)
    live(m, case["life"], y, mixdata.vary(y, case["vary"]), n_groups=k, init_method=case["init"], tol=1e-12)
    R = as_float_array(m.var_d, "var_d", shape=(k, len(y))).copy()
    W = "%s k=%d, %d features, " % (s["m"], k, y.shape[1])
    rec.classify("model " + s["m"], "points " + case["points"], "as " + case["as"], "converged" if m.var_converged else "not converged")
    # the fitted data
    lab, unc = m.var_map_cluster(full=True)
    labels_ok(lab, unc, R, W + "fitted data: ")
    require(np.array_equal(m.var_map_cluster(), lab), W + "fitted data: labels differ with and without full")
    require_close(as_float_array(m.var_eap_affinity_matrix(), W + "affinity", shape=(len(y), len(y))), R.T @ R, W + "affinity of the fitted data", atol=1e-10)
    for i, q in enumerate([{}] + case["more"]):
        explicit(dict(case, seed=case["seed"] + i, **q), rec, m, R, y, pr, W)


def explicit(case, rec, m, R, y, pr, W):
    s, k = case["spec"], len(R)
    x = qpoints(case, y)
    rec.nontriv(k > 1 and len(x) > 1)
    X = contain(case["as"], x)
    Rx = V.resp(WeightQ(s, R).elogw(), V.theta_opt(R, y, pr), x)
    # rounding of large quadratic forms
    tol = 1e-8 + 1e-11 * float(np.abs(V.log_rho(np.zeros(k), V.theta_opt(R, y, pr), x)).max())
    W += "%s points as %s: " % (case["points"], case["as"])
    lab, unc = m.var_map_cluster(X, full=True)
    labels_ok(lab, unc, Rx, W, tol)
    labels_ok(m.var_map_cluster(X), None, Rx, W, tol)
    A = as_float_array(m.var_eap_affinity_matrix(X), W + "affinity", shape=(len(x), len(x)))
    require_close(A, Rx.T @ Rx, W + "affinity", rtol=1e-6, atol=2 * tol)
    require(np.all(A >= -1e-12) and np.all(A <= 1 + 1e-12), W + "affinity outside [0,1]")
    require_close(A, A.T, W + "affinity against its transpose", atol=1e-12)
    if len(x) > 1:
        c = 1 + case["cut"] % (len(x) - 1)
        parts = [m.var_map_cluster(contain(case["as"], p), full=True) for p in (x[:c], x[c:])]
        labels_ok(np.concatenate([np.atleast_1d(p[0]) for p in parts]), np.concatenate([np.atleast_1d(p[1]) for p in parts]), Rx, W + "split after %d: " % c, tol)


def blobs(case, k):
    g = M.gen(case["dseed"])
    sizes = [int(v) for v in g.integers(3, 7, size=k)]
    lab = np.repeat(np.arange(k), sizes)
    D = case["D"]
    centers = np.array([[80.0 * j if c == 0 else float(g.normal()) for c in range(D)] for j in range(k)])
    y = centers[lab] + g.normal(size=(len(lab), D))
    p = g.permutation(len(lab))
    return y[p], lab[p], centers, g


def same_partition(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return np.array_equal(np.equal.outer(a, a), np.equal.outer(b, b))


def check_consensus(case, rec):
    s = case["spec"]
    k = V.n_groups(s, case["k"])
    y, lab, centers, g = blobs(case, k)
    # priors well inside a block, so that the responsibilities are hard
    kw = {"psi_prior": np.eye(case["D"]), "nu_prior": case["D"] + 2}
    m = V.build(s, case["seed"], 30, kw)
    m.fit_variational(y, n_groups=k)
    W = "%s, %d separate blobs of %d features: " % (s["m"], k, case["D"])
    x, xl = y, lab
    if case["new"]:
        xl = np.repeat(np.arange(k), 3)
        x = centers[xl] + g.normal(size=(len(xl), case["D"])) * 0.5
    A = m.var_eap_affinity_matrix(x if case["new"] else None)
    block = np.equal.outer(xl, xl)
    if not (np.all(A[block] > 0.99) and np.all(A[~block] < 1e-6)):
        rec.classify("affinity not block diagonal")
        nc = 1
    else:
        rec.classify("block diagonal")
        nc = k
    rec.nontriv(k > 1)
    rec.classify("model " + s["m"])
    c = as_int_array(m.var_eap_spectral_consensus_cluster(x if case["new"] else None, n_clusters=nc), W + "consensus", shape=(len(x),))
    require(len(np.unique(c)) <= nc, W + "more than %d consensus clusters", nc)
    if nc == k:
        require(same_partition(c, xl), W + "consensus %s does not recover the blocks %s of the affinity", c, xl)
    if nc == 1:
        return
    c1 = m.var_eap_spectral_consensus_cluster(n_clusters=1)
    require(len(np.unique(c1)) == 1, W + "more than one consensus cluster")


kinds = st.sampled_from(["array", "frame", "list", "1d", "series", "1dlist", "fortran"])
queries = st.fixed_dictionaries({"as": kinds, "points": point_kinds})
cases = st.fixed_dictionaries({
    "spec": M.spec(M.VARIATIONAL, nmax=5), "k": st.integers(1, 5), "data": mixdata.data(few=True), "prior": mixdata.priors,
    "init": st.sampled_from(["kmeans", "kmeans", "random"]), "iters": st.sampled_from([1, 2, 60]), "points": point_kinds,
    "as": kinds, "lots": st.sampled_from([33, 101, 257, 600, 1300]), **lives, "more": st.lists(queries, max_size=2), "cut": st.integers(0, 8), "seed": M.seeds})
cc = st.fixed_dictionaries({
    "spec": M.spec(M.VARIATIONAL, nmax=4), "k": st.integers(1, 4), "D": st.integers(1, 2), "dseed": M.seeds, "new": st.booleans(), "seed": M.seeds})

SUBS = [Sub("labels and affinities", cases, check, quick=2000, thorough=40000),
        Sub("consensus", cc, check_consensus, quick=300, thorough=4000)]
