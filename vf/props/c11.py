import numpy as np
from hypothesis import strategies as st

from .. import gibbs as G, mixdata, models as M
from ..core import Sub, as_float_array, as_int_array, require, require_close
from ..refs import normal_logpdf
from .c20 import point_kinds
from .c21 import blobs, contain, kinds, qpoints, queries, same_partition

PROPERTY = "C11"
RULE = ("A case is a Gibbs-fitted mixture (1-3 features, possibly after warm starts, refits or a variational fit) and one to three sets of query points (fitted, near, far outliers with underflowing densities, one or many points) in some "
        "container, split over calls; labels, uncertainties and affinities are recomputed from the MAP state and the saved draws. The consensus "
        "sub uses well separated blobs. Non-trivial: two or more query points and a state with two or more weights.")
ASSUMPTIONS = ["points whose two best components agree up to rounding may go to either"]


def log_post(p, x):
    """(points, components) log weighted densities and a rounding tolerance."""
    with np.errstate(divide="ignore"):
        parts = [normal_logpdf(x, *p["theta"][j]) for j in range(len(p["w"]))]
        L = np.array([lp + np.log(p["w"][j]) for j, (lp, _) in enumerate(parts)]).T.reshape(len(x), -1)
    fin = L[np.isfinite(L)]
    near = [np.max(e[lp + np.log(p["w"][j]) >= L.max(axis=1) - 40], initial=0) for j, (lp, e) in enumerate(parts) if p["w"][j] > 0]
    return L, max(near) + 1e-8 + 1e-11 * (float(np.abs(fin).max()) if len(fin) else 0)


def match(lab, L, tol, W):
    """lab must be the rank of an (almost) best component among the used ones; returns the components chosen."""
    n = len(L)
    lab = as_int_array(lab, W + "labels", shape=(n,))
    best = L.argmax(axis=1)
    top = L.max(axis=1)
    ok = L >= top[:, None] - tol
    if np.all(ok.sum(axis=1) == 1):
        used = np.unique(best)
        want = np.searchsorted(used, best)
        if not np.array_equal(lab, want):
            i = int(np.flatnonzero(lab != want)[0])
            require(False, W + "labels %s, the best components are %s, renumbered %s (point %d)", lab, best, want, i)
    return ok


def check(case, rec):
    s = case["spec"]
    y = mixdata.make(case["data"])
    kw, _ = mixdata.prior_kwargs(case["prior"], y)
    m = G.build(s, case["seed"], case["opts"], kw)
    m.fit_gibbs(y, **G.start_kwargs(s, case["init"], case["groups"]))
    for again in case["more"]:
        if again == "warm":
            m.fit_gibbs(y, warm_start=True)
        elif again == "cold":
            m.fit_gibbs(y)
        elif s["m"] in M.VARIATIONAL:
            m.fit_variational(y, n_groups=None if s["m"] in M.FINITE else 2)
    rec.classify("model " + s["m"])
    for i, q in enumerate([{}] + case["queries"]):
        asked(dict(case, seed=case["seed"] + i, **q), rec, m, y)


def asked(case, rec, m, y):
    s = case["spec"]
    draws, mp = m.get_sim_params(), m.map_sim_params
    x = qpoints(case, y)
    X = contain(case["as"], x)
    rec.classify("ten or more clusters" if len(np.unique(m.gibbs_map_cluster())) > 9 else "fewer than ten clusters", "points " + case["points"], "as " + case["as"])
    rec.nontriv(len(x) > 1 and len(mp["w"]) > 1)
    W = "%s, %d features, %s points as %s: " % (s["m"], y.shape[1], case["points"], case["as"])

    def one(arg, pts, W):
        L, tol = log_post(mp, pts)
        lab, unc = m.gibbs_map_cluster(*arg, full=True)
        match(lab, L, tol, W)
        p = np.exp(L - L.max(axis=1)[:, None])
        want = 1 - 1 / p.sum(axis=1)
        require_close(as_float_array(unc, W + "uncertainties", shape=(len(pts),)), want, W + "uncertainties", rtol=0, atol=tol + 1e-7)
        require(np.array_equal(m.gibbs_map_cluster(*arg), lab), W + "labels differ with and without full")
        return lab

    one((), y, W + "the fitted data: ")
    lab = one((X,), x, W)
    if len(x) > 1:
        c = 1 + case["cut"] % (len(x) - 1)
        one((contain(case["as"], x[:c]),), x[:c], W + "first %d: " % c)
        one((contain(case["as"], x[c:]),), x[c:], W + "from %d: " % c)
    # affinities
    n = len(y)
    A0 = np.mean([np.equal.outer(p["d"], p["d"]) for p in draws], axis=0)
    require_close(as_float_array(m.gibbs_eap_affinity_matrix(), W + "affinity", shape=(n, n)), A0, W + "affinity of the fitted data", atol=1e-12)
    A = as_float_array(m.gibbs_eap_affinity_matrix(X), W + "affinity", shape=(len(x), len(x)))
    require(np.array_equal(A, A.T), W + "affinity not symmetric")
    require_close(np.diag(A), np.ones(len(x)), W + "diagonal of the affinity", atol=1e-12)
    require(np.all((A >= 0) & (A <= 1 + 1e-12)), W + "affinity outside [0,1]")
    lo, hi = np.zeros_like(A), np.zeros_like(A)
    for p in draws:
        L, tol = log_post(p, x)
        ok = L >= L.max(axis=1)[:, None] - tol
        amb = ok.sum(axis=1) > 1
        eq = np.equal.outer(L.argmax(axis=1), L.argmax(axis=1)).astype(float)
        u = np.logical_or.outer(amb, amb)
        lo += np.where(u, 0, eq)
        hi += np.where(u, 1, eq)
    lo, hi = lo / len(draws), hi / len(draws)
    np.fill_diagonal(lo, 0)
    np.fill_diagonal(hi, 1)
    bad = (A < lo - 1e-9) | (A > hi + 1e-9)
    if np.any(bad):
        i, j = np.argwhere(bad)[0]
        require(False, W + "affinity of points %d and %d is %r instead of %r", i, j, float(A[i, j]), float(hi[i, j]))
    _ = lab


def check_consensus(case, rec):
    s = case["spec"]
    k = min(case["k"], s["n"]) if s["m"] in M.FINITE else case["k"]
    y, lab, centers, g = blobs(case, k)
    kw = {"psi_prior": np.eye(case["D"]), "nu_prior": case["D"] + 2, "lambda_prior": 0.01}
    m = G.build(s, case["seed"], {"total": 12, "burn": 8, "sub": 1}, kw)
    m.fit_gibbs(y, **G.start_kwargs(s, "kmeans", k))
    W = "%s, %d separate blobs of %d features: " % (s["m"], k, case["D"])
    x, xl = y, lab
    if case["new"]:
        xl = np.repeat(np.arange(k), 3)
        x = centers[xl] + g.normal(size=(len(xl), case["D"])) * 0.5
    A = np.asarray(m.gibbs_eap_affinity_matrix(x if case["new"] else None))
    block = np.equal.outer(xl, xl)
    exact = bool(np.array_equal(A, block.astype(float)))
    rec.classify("model " + s["m"], "affinity exactly block diagonal" if exact else "affinity not block diagonal")
    rec.nontriv(exact and k > 1)
    nc = k if exact else case["nc"]
    if nc > len(x):
        return
    c = as_int_array(m.gibbs_eap_spectral_consensus_cluster(x if case["new"] else None, n_clusters=nc), W + "consensus", shape=(len(x),))
    require(len(np.unique(c)) <= nc, W + "more than %d consensus clusters", nc)
    if exact:
        require(same_partition(c, xl), W + "consensus %s does not recover the blocks %s of the affinity", c, xl)
    c1 = m.gibbs_eap_spectral_consensus_cluster()
    require(len(c1) == len(y) and len(np.unique(c1)) == 1, W + "default consensus has more than one cluster")


cases = G.fixed({
    "spec": G.spec(), "data": mixdata.data(nmax=12, few=True), "prior": mixdata.priors, "opts": G.fit_opts(10), "init": G.starts,
    "groups": st.sampled_from([None, None, 1, 3]),
    "more": st.lists(st.sampled_from(["warm", "cold", "variational"]), max_size=2), "points": point_kinds,
    "as": kinds, "lots": st.sampled_from([33, 101, 257, 600, 1300]), "queries": st.lists(queries, max_size=2), "cut": st.integers(0, 8), "seed": M.seeds})
cc = G.fixed({
    "spec": G.spec(), "k": st.integers(1, 4), "D": st.integers(1, 2), "dseed": M.seeds, "new": st.booleans(), "nc": st.integers(1, 4), "seed": M.seeds})

SUBS = [Sub("labels and affinities", cases, check, quick=1200, thorough=30000),
        Sub("consensus", cc, check_consensus, quick=500, thorough=4000)]
