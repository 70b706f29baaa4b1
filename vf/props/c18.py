import numpy as np
from hypothesis import strategies as st

from .. import mixdata, models as M, varmix as V
from ..core import Sub, ks_2samp, require, require_close, two_stage
from ..varrefs import WeightQ

PROPERTY = "C18"
RULE = ("A case is a variational mixture (six weighting models), a data set of 1-3 features (blobs, Gaussian, uniform, repeated values, an outlier; "
        "several scales and origins), explicit or default priors, a number of groups, an initialization and a number of iterations, taken one "
        "iteration at a time by warm starts. Every state is compared with an independent coordinate ascent implementation. Non-trivial: at least "
        "two groups and two iterations.")
ASSUMPTIONS = ["responsibilities are floored at machine epsilon before normalization, so bounds are compared up to that effect",
               "data of full rank with at least two more observations than features when priors are taken from the data"]


def elbo_tol(e, R, theta, y):
    return 1e-7 * (1 + abs(e)) + 4 * R.size * V.EPS * np.abs(V.log_rho(np.zeros(len(R)), theta, y)).max()


def check_steps(case, rec):
    s = case["spec"]
    k = V.n_groups(s, case["k"])
    y = mixdata.make(case["data"])
    kw, pr = mixdata.prior_kwargs(case["prior"], y)
    T = case["iters"]
    rec.classify("model " + s["m"], "init " + case["init"], "%d features" % y.shape[1], "k=%d" % k if k < 3 else "k>2")
    rec.nontriv(k > 1 and T > 1)
    m = V.build(s, case["seed"], 1, kw)
    prev = None
    e_prev = None
    for t in range(T):
        W = "%s k=%d init %s iteration %d: " % (s["m"], k, case["init"], t + 1)
        give = None if s["m"] in M.FINITE and s["n"] == k and case["default_k"] else k
        m.fit_variational(y, n_groups=give, warm_start=t > 0, tol=0, init_method=case["init"])
        R, q, theta = V.check_state(s, m, y, pr, k, W)
        if prev is not None:
            want = V.resp(prev[0].elogw(), prev[1], y)
            require_close(R, want, W + "responsibilities", rtol=1e-5, atol=1e-8)
        e = V.elbo(s, R, theta, y, pr)
        if e_prev is not None and s["m"] != "FR":
            require(e >= e_prev - elbo_tol(e, R, theta, y), W + "evidence lower bound decreased from %r to %r", e_prev, e)
            rec.count("bound ascents")
        prev, e_prev = (q, theta), e
    rec.count("iterations", T)
    # the same in one fit
    m2 = V.build(s, case["seed"], T, kw)
    m2.fit_variational(y, n_groups=k, tol=0, init_method=case["init"])
    if not m2.var_converged:
        require_close(m2.var_d, m.var_d, "%s: responsibilities of one fit of %d iterations" % (s["m"], T), rtol=1e-5, atol=1e-7)


def check_evidence(case, rec):
    s = case["spec"]
    k = V.n_groups(s, case["k"])
    y = mixdata.make(case["data"])
    kw, pr = mixdata.prior_kwargs(case["prior"], y)
    rec.classify("model " + s["m"])
    rec.nontriv(k > 1)
    m = V.build(s, case["seed"], case["iters"], kw)
    m.fit_variational(y, n_groups=k, tol=1e-10, init_method=case["init"])
    W = "%s k=%d: " % (s["m"], k)
    R, q, theta = V.check_state(s, m, y, pr, k, W)
    e = V.elbo(s, R, theta, y, pr)
    ev = V.log_evidence(s, y, pr, k)
    require(e <= ev + elbo_tol(e, R, theta, y), W + "the bound %r exceeds the log evidence %r", e, ev)


def check_kmeans_start(case, rec):
    """Well separated blobs of distinct sizes: the k-means partition is known, labels by decreasing size."""
    s = case["spec"]
    k = V.n_groups(s, case["k"])
    g = M.gen(case["dseed"])
    D = case["D"]
    sizes = np.array([2 + 2 * (k - j) + int(g.integers(0, 2)) for j in range(k)])
    lab = np.repeat(np.arange(k), sizes)
    centers = np.array([[60.0 * j if c == 0 else float(g.normal()) for c in range(D)] for j in g.permutation(k)])
    y = centers[lab] + g.normal(size=(len(lab), D))
    perm = g.permutation(len(lab))
    y, lab = y[perm], lab[perm]
    kw, pr = mixdata.prior_kwargs(case["prior"], y)
    rec.classify("model " + s["m"], "k=%d" % k)
    rec.nontriv(k > 1)
    m = V.build(s, case["seed"], 1, kw)
    m.fit_variational(y, n_groups=k)
    W = "%s k=%d: " % (s["m"], k)
    R, q, theta = V.check_state(s, m, y, pr, k, W)
    R0 = np.zeros((k, len(y)))
    R0[lab, range(len(y))] = 1
    th0 = V.theta_opt(R0, y, pr)
    R1 = V.resp(WeightQ(s, np.empty((k, 0))).elogw(), th0, y)
    R2 = V.resp(WeightQ(s, R1).elogw(), th0, y)
    require_close(R, R2, W + "responsibilities after the first iteration from the k-means partition", rtol=1e-5, atol=1e-8)


def check_random_start(case, rec):
    """Law of the first responsibilities from prior atoms against a simulation of it."""
    s = case["spec"]
    k = V.n_groups(s, case["k"])
    y = mixdata.make(case["data"])
    kw, pr = mixdata.prior_kwargs(case["prior"], y)
    D = y.shape[1]
    pts = y[:4]
    rec.classify("model " + s["m"], "%d features" % D)
    rec.nontriv(k > 1)
    from scipy.stats import invwishart

    def ours(n, g):
        out = []
        sh = M.gen(int(g.integers(2 ** 31)))
        for _ in range(n):
            m = V.build(s, sh, 1, kw)
            m.fit_variational(y, n_groups=k, tol=0, init_method="random")
            out.append(np.log(np.asarray(m.var_d, float)[:, :4]).ravel())
        return np.array(out)

    def theirs(n, g):
        sig = invwishart.rvs(pr["nu"], pr["psi"], size=n * k, random_state=g).reshape(n, k, D, D)
        mu = pr["mu"] + np.einsum("nkij,nkj->nki", np.linalg.cholesky(sig / pr["lam"]), g.normal(size=(n, k, D)))
        elw = WeightQ(s, np.full((k, len(y)), 1 / k)).elogw()
        return np.array([np.log(V.resp(elw, [(mu[i, j], pr["lam"], sig[i, j], pr["nu"]) for j in range(k)], pts)).ravel() for i in range(n)])

    def run(n, stage):
        g = M.gen([case["seed"], stage])
        a, b = ours(n, g), theirs(2 * n, g)
        for j in range(a.shape[1]):
            x, z = np.round(a[:, j], 6), np.round(b[:, j], 6)
            yield "log responsibility %d of point %d" % divmod(j, len(pts)), *ks_2samp(x, z)

    two_stage(run, rec, 250, 2500, "%s k=%d, random initialization" % (s["m"], k))


spec_v = M.spec(M.VARIATIONAL, nmax=5)
cases = st.fixed_dictionaries({
    "spec": spec_v, "k": st.integers(1, 6), "data": mixdata.data(few=True), "prior": mixdata.priors, "iters": st.integers(1, 9),
    "init": st.sampled_from(["kmeans", "random"]), "default_k": st.booleans(), "seed": M.seeds})
ev_cases = st.fixed_dictionaries({
    "spec": M.spec(["DD", "DP", "PY", "GP", "EQ"], nmax=3), "k": st.integers(1, 3), "data": mixdata.data(dmax=2, nmax=5, few=True, big=False),
    "prior": mixdata.priors, "iters": st.sampled_from([1, 3, 30]), "init": st.sampled_from(["kmeans", "random"]), "seed": M.seeds})
km_cases = st.fixed_dictionaries({
    "spec": spec_v, "k": st.integers(1, 4), "D": st.integers(1, 3), "dseed": M.seeds, "prior": mixdata.priors, "seed": M.seeds})
rs_cases = st.fixed_dictionaries({
    "spec": M.spec(M.VARIATIONAL, nmax=3, nmin=2), "k": st.integers(2, 3), "data": mixdata.data(dmax=2, nmax=6, big=False), "prior": mixdata.priors, "seed": M.seeds})

SUBS = [Sub("steps", cases, check_steps, quick=2000, thorough=15000),
        Sub("evidence", ev_cases, check_evidence, quick=400, thorough=3000),
        Sub("kmeans start", km_cases, check_kmeans_start, quick=400, thorough=3000),
        Sub("random start", rs_cases, check_random_start, quick=96, thorough=600, shrink=False)]
