import numpy as np
from hypothesis import strategies as st

from .. import mixdata, models as M, varmix as V
from ..core import Sub, as_float_array, require_close
from ..varrefs import WeightQ

PROPERTY = "C20"
RULE = ("A case is a fitted variational mixture (1-3 features; also after earlier fits, queries and warm starts), one to three sets of query points (fitted data, near, far, one or many points) and a list of coordinates given as an "
        "int, NumPy integer, tuple, list or array; the EAP density is compared with SciPy's multivariate t, the MAP density with the Gaussian "
        "mixture at the modes, in total and per component. Non-trivial: two or more groups, and two or more features or a marginal.")
ASSUMPTIONS = ["the modal precision needs at least as many prior degrees of freedom as features",
               "groups whose modal weight is undefined (multimodal Beta) are left out"]


def pick_dim(case, D):
    g = M.gen([case["seed"], 5])
    k = case["dim"]
    if k is None:
        return None, list(range(D))
    if k in ("int", "npint"):
        d = int(g.integers(0, D))
        return (d if k == "int" else np.int64(d)), [d]
    dims = [int(x) for x in g.permutation(D)[:int(g.integers(1, D + 1))]]
    return {"list": list, "tuple": tuple, "array": np.array}[k](dims), dims


def points(case, y, dims):
    """Points in full feature space, and how they are given."""
    g = M.gen([case["seed"], 6])
    sd = mixdata.spread(y)
    kind = case["points"]
    if kind == "fitted":
        return None, y[:, dims]
    if kind in ("near", "lots"):
        n = 6 if kind == "near" else case["lots"]
        x = y[g.integers(0, len(y), n)] + g.normal(size=(n, y.shape[1])) * sd * 0.5
    elif kind == "one":
        x = y[:1] + g.normal(size=(1, y.shape[1])) * sd
    else:
        x = y.mean(axis=0) + g.normal(size=(5, y.shape[1])) * sd * np.array([1, 5, 20, 100, 1000])[:, None]
    x = x[:, dims]
    if x.shape[1] == 1 and case["flat"]:
        return x[:, 0].copy(), x
    return x.copy(), x


def standardized(law, x, m, S, **kw):
    """SciPy's density in units in which no feature has a small variance."""
    sd = np.sqrt(np.diagonal(S))
    return np.exp(np.atleast_1d(law.logpdf((x - m) / sd, np.zeros(len(m)), S / np.outer(sd, sd), **kw)) - np.log(sd).sum())


def t_pdf(x, m, b, Wi, nu, dims):
    from scipy.stats import multivariate_t
    df = nu + 1 - len(m)
    shape = Wi * (1 + b) / (b * df)
    return standardized(multivariate_t, x, m[dims], shape[np.ix_(dims, dims)], df=df)


def n_pdf(x, m, b, Wi, nu, dims):
    from scipy.stats import multivariate_normal
    cov = Wi / (nu - len(m))
    return standardized(multivariate_normal, x, m[dims], cov[np.ix_(dims, dims)])


def live(m, ops, y, y2, **fit):
    """A life of the object around the fit to y; it must not show in the answers."""
    for op in ops[0]:
        if op == "fit":
            m.fit_variational(y2, **fit)
        elif m.var_fitted:
            m.var_eap_density(), m.var_map_cluster(), m.var_eap_affinity_matrix(y2)
    m.fit_variational(y, **fit)
    for op in ops[1]:
        if op == "fit":
            m.fit_variational(y, warm_start=True, **{k: v for k, v in fit.items() if k == "tol"})
        else:
            m.var_eap_density(y2), m.var_map_cluster(), m.var_eap_affinity_matrix()


def check(case, rec):
    s = case["spec"]
    k = V.n_groups(s, case["k"])
    y = mixdata.make(case["data"])
    kw, pr = mixdata.prior_kwargs(case["prior"], y)
    m = V.build(s, case["seed"], case["iters"], kw)
    live(m, case["life"], y, mixdata.vary(y, case["vary"]), n_groups=k, init_method=case["init"])
    rec.classify("model " + s["m"])
    for i, q in enumerate([{}] + case["more"]):
        densities(dict(case, seed=case["seed"] + i, **q), rec, m, k, y, pr)


def densities(case, rec, m, k, y, pr):
    s, D = case["spec"], y.shape[1]
    R = as_float_array(m.var_d, "var_d", shape=(k, len(y)))
    q, theta = WeightQ(s, R), V.theta_opt(R, y, pr)
    dim, dims = pick_dim(case, D)
    given, x = points(case, y, dims)
    rec.classify("dim " + str(case["dim"]), "points " + case["points"], "%d of %d features" % (len(dims), D))
    rec.nontriv(k > 1 and (D > 1))
    W = "%s k=%d, %d features, dim=%r, %s points: " % (s["m"], k, D, dim, case["points"])
    comp = [t_pdf(x, *t, dims) * w for t, w in zip(theta, q.ew())]
    peak = [float(t_pdf(t[0][dims][None], *t, dims)[0]) for t in theta]

    def cmp(got, want, pk, what):
        got = as_float_array(got, W + what, shape=(len(x),))
        require_close(got, want, W + what, rtol=1e-6, atol=1e-12 * max(pk, 1e-290))

    def ask(f, comp, peak, name):
        kwd = {} if dim is None and case["flat"] else {"dim": dim}
        if all(c is not None for c in comp):
            cmp(f(given, **kwd) if given is not None else f(**kwd), np.sum(comp, axis=0), max(peak), name + " density")
        for j in range(k):
            if comp[j] is not None:
                cmp(f(given, component=j, **kwd), comp[j], peak[j], "%s density of component %d" % (name, j))

    ask(m.var_eap_density, comp, peak, "EAP")
    if pr["nu"] >= D:
        mw = q.mode_w()
        nz = [t[3] - D > 1e-9 for t in theta]
        comp = [None if w is None or not ok else n_pdf(x, *t, dims) * w for t, w, ok in zip(theta, mw, nz)]
        peak = [0 if c is None else float(n_pdf(t[0][dims][None], *t, dims)[0]) for t, c in zip(theta, comp)]
        if all(c is not None for c in comp):
            rec.count("MAP in total")
        ask(m.var_map_density, comp, peak, "MAP")


dim_kinds = st.sampled_from([None, "int", "npint", "list", "tuple", "array"])
point_kinds = st.sampled_from(["fitted", "near", "far", "one"] * 4 + ["lots"])
op = st.sampled_from(["fit", "query"])
lives = {"life": st.one_of(st.just([[], []]), st.tuples(st.lists(op, max_size=3), st.lists(op, max_size=3)).map(list)), "vary": st.sampled_from(mixdata.VARY)}
queries = st.fixed_dictionaries({"dim": dim_kinds, "points": point_kinds, "flat": st.booleans()})
cases = st.fixed_dictionaries({
    "spec": M.spec(M.VARIATIONAL, nmax=5), "k": st.integers(1, 5), "data": mixdata.data(few=True), "prior": mixdata.priors,
    "init": st.sampled_from(["kmeans", "kmeans", "random"]), "iters": st.sampled_from([1, 2, 20]),
    "dim": dim_kinds, "points": point_kinds,
    "flat": st.booleans(), "lots": st.sampled_from([33, 101, 257, 600, 2100]), **lives, "more": st.lists(queries, max_size=2), "seed": M.seeds})

SUBS = [Sub("densities", cases, check, quick=2500, thorough=40000)]
