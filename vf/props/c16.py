"""Equivariance under changes of units, origin, order of features and of observations."""
import numpy as np
from hypothesis import strategies as st

from .. import gibbs as G, mixdata, models as M, session as S
from ..core import Sub, fail, require

PROPERTY = "C16"
RULE = ("A case fits the same mixture with the same seed to a data set and to its image under a scaling by a power of two, a shift, or both (data "
        "driven priors, or given ones transformed alike) and compares every draw, variational parameter and query after transforming it back; or it "
        "permutes the features of the data (variational k-means start) or the observations (variational start from random atoms). Non-trivial: at "
        "least two groups in a draw or factor, and a transformation other than the identity.")
ASSUMPTIONS = ["data lie on a dyadic grid, so that the transformed data are exact; results are compared with a relative tolerance of 1e-6",
               "where rounding could change the chosen k-means solution (shifts, permutations), the data have clusters of different sizes that are "
               "far apart and no more groups than clusters are asked for",
               "variational fits do a fixed number of steps (tol below zero): the bound may repeat by rounding sooner in other units",
               "a difference counts unless errors in the original data of the relative size of rounding make one as well"]


def grid(y):
    """Rounded to 12 bits below its spread."""
    e = 2.0 ** (np.floor(np.log2(np.std(y))) - 12)
    return np.round(y / e) * e


def separated(case, g):
    """Clusters of pairwise different sizes (and sums of sizes), far apart."""
    D = case["data"]["D"]
    sizes = [70, 40, 20] if case["data"]["n"] > 30 else [7, 4, 2]
    centres = g.normal(size=(3, D)) * 0.5 + np.array([[0.0], [12.0], [31.0]]) * np.resize([1.0, -0.8, 0.6], D)
    y = np.concatenate([c + g.normal(size=(k, D)) * 0.4 for c, k in zip(centres, sizes)])
    return y[g.permutation(len(y))]


def make(case, sep):
    g = np.random.default_rng([case["seed"], 9])
    if sep:
        return grid(separated(case, g))
    y = mixdata.make(case["data"])
    return grid(y + g.normal(size=y.shape) * np.std(y) * 1e-2)


def priors(case, y, c, t, y0, perm=None):
    """Prior arguments of the case for the transformed data c * y0 + t (y0[:, perm])."""
    p = case["prior"]
    kw, _ = mixdata.prior_kwargs(dict(p, mu="array" if p["mu"] else None), y0)
    if "mu_prior" in kw:
        kw["mu_prior"] = kw["mu_prior"] * c + t
    if "psi_prior" in kw:
        kw["psi_prior"] = kw["psi_prior"] * c ** 2
    if perm is not None:
        if "mu_prior" in kw:
            kw["mu_prior"] = kw["mu_prior"][perm]
        if "psi_prior" in kw:
            kw["psi_prior"] = kw["psi_prior"][np.ix_(perm, perm)]
    return kw


def points(case, y):
    g = np.random.default_rng([case["seed"], 10])
    return y[g.integers(0, len(y), size=6)] + g.normal(size=(6, y.shape[1])) * np.std(y) * 0.7


def differ(a, b, tol):
    for k in a:
        sc = np.max(np.abs(np.asarray(b[k], float)), initial=0) if k.startswith(("density", "marg")) else 0
        d = S.diff(a[k], b[k], "", rtol=tol, atol=tol * 1e-3 + tol * sc * 1e-3)
        if d is not None:
            return k + d
    return None


def compare(a, b, what, tol, rec, again):
    """again(e): the results for the original data with errors of relative size e of the transformed data, as rounding makes."""
    d = differ(a, b, tol)
    if d is None:
        return
    for i in range(4):
        if differ(again(i), b, tol / 10) is not None:
            rec.classify("sensitive to rounding")
            return
    fail(what + "%s", d)


def rounded(case, y0, t, c, i):
    g = np.random.default_rng([case["seed"], 13, i])
    return y0 + g.uniform(-1, 1, size=y0.shape) * 2.0 ** (-45 if y0.shape[1] > 7 else -48) * np.maximum(np.abs(y0).max(0), np.abs(t / c))


def gibbs_results(m, x, c, t, D):
    """Everything observable, transformed back to the original units."""
    st_ = S.gibbs_state(m)
    draws = [{"w": p["w"], "d": p["d"], "u": p["u"], "theta": {j: ((v[0] - t) / c, v[1] / c ** 2) for j, v in p["theta"].items()}} for p in st_["draws"] + [st_["map"]]]
    n = len(m.get_sim_params()[0]["d"])
    X = x * c + t
    out = {"draws ": draws, "map_ll ": st_["map_ll"] + n * D * np.log(c), "groups ": [st_["n_groups"], st_["n_theta"]], "affinity ": st_["affinity"],
           "density EAP ": m.gibbs_eap_density(X) * c ** D, "density MAP ": m.gibbs_map_density(X) * c ** D, "density of the data ": m.gibbs_eap_density() * c ** D,
           "marginal EAP ": m.gibbs_eap_density(X[:, -1:], dim=D - 1) * c, "marginal MAP ": m.gibbs_map_density(dim=0) * c,
           "density of a component ": m.gibbs_map_density(X, component=0) * c ** D,
           "clusters ": m.gibbs_map_cluster(X), "uncertainty ": m.gibbs_map_cluster(full=True)[1] + 1, "affinity of points ": m.gibbs_eap_affinity_matrix(X),
           "consensus ": m.gibbs_eap_spectral_consensus_cluster(n_clusters=2)}
    return out


def var_results(m, x, c, t, D):
    X = x * c + t
    s = S.var_state(m)
    return {"responsibilities ": s["d"], "expected weights ": s["weights"], "factors ": [[(v[0] - t) / c, v[1], v[2] * c ** 2, v[3]] for v in s["theta"]],
            "density EAP ": m.var_eap_density(X) * c ** D, "density of the data ": m.var_eap_density() * c ** D,
            "marginal EAP ": m.var_eap_density(X[:, -1:], dim=D - 1) * c, "density of a component ": m.var_eap_density(X, component=0) * c ** D,
            "clusters ": m.var_map_cluster(X), "uncertainty ": m.var_map_cluster(full=True)[1] + 1, "affinity ": m.var_eap_affinity_matrix(),
            "affinity of points ": m.var_eap_affinity_matrix(X)}


def change(case, y):
    """Scale and shift of the case."""
    D = y.shape[1]
    lim = 700 // D     # the densities themselves stay in range
    c = 2.0 ** max(-lim, min(lim, case["pow"]))
    t = np.zeros(D)
    if case["shift"]:
        g = np.random.default_rng([case["seed"], 11])
        e = 2.0 ** np.floor(np.log2(np.std(y)))
        t = np.round(g.normal(size=D) * 2.0 ** case["shift"]) * e * c
    return c, t


def check_gibbs(case, rec):
    s = case["spec"]
    init = case["init"]
    sep = case["shift"] > 0 and init != "random"
    y0 = make(case, sep)
    D = y0.shape[1]
    c, t = change(case, y0)
    gr = min(case["groups"], 3) if sep else case["groups"]
    if sep and s["m"] in M.FINITE and s["n"] > 3:
        init = "random"
    if sep and init == "variational":
        init = "random"      # its number of groups comes from the prior weights
    x = points(case, y0)
    zero = np.zeros(D)

    def run(y, cc, tt):
        m = G.build(s, case["seed"], case["opts"], priors(case, None, cc, tt, y0))
        yy = y * cc + tt
        m.fit_gibbs(yy, **G.start_kwargs(s, init, gr))
        if case["warm"]:
            m.fit_gibbs(yy, warm_start=True)
        return gibbs_results(m, x, cc, tt, D)

    res = [run(y0, 1.0, zero), run(y0, c, t)]
    rec.classify("model " + s["m"], "init %s" % init, "scaled" if c != 1 else "", "shifted" if np.any(t) else "", "given priors" if case["prior"]["mu"] else "")
    rec.nontriv((c != 1 or bool(np.any(t))) and max(res[0]["groups "][0]) > 1)
    compare(res[1], res[0], "%s, data times %r plus %s: " % (s["m"], c, t), 1e-6, rec, lambda i: run(rounded(case, y0, t, c, i), 1.0, zero))


def check_var(case, rec):
    s = case["spec"]
    init = "kmeans" if case["init"] in ("kmeans", None) else "random"
    sep = case["shift"] > 0 and init == "kmeans"
    k = s["n"] if s["m"] in M.FINITE else case["k"]
    if sep and k > 3:
        init = "random"
    y0 = make(case, sep)
    D = y0.shape[1]
    c, t = change(case, y0)
    x = points(case, y0)
    zero = np.zeros(D)

    def run(y, cc, tt):
        m = M.mixture(s, case["seed"], total_iter=case["iters"], burn_in=0, **priors(case, None, cc, tt, y0))
        m.fit_variational(y * cc + tt, n_groups=k, tol=-1, init_method=init)
        return var_results(m, x, cc, tt, D)

    res = [run(y0, 1.0, zero), run(y0, c, t)]
    rec.classify("model " + s["m"], "init " + init, "scaled" if c != 1 else "", "shifted" if np.any(t) else "")
    rec.nontriv((c != 1 or bool(np.any(t))) and k > 1)
    compare(res[1], res[0], "%s, k=%d, data times %r plus %s: " % (s["m"], k, c, t), 1e-6, rec, lambda i: run(rounded(case, y0, t, c, i), 1.0, zero))


def check_perm(case, rec):
    s = case["spec"]
    k = s["n"] if s["m"] in M.FINITE else case["k"]
    g = np.random.default_rng([case["seed"], 12])
    feats = case["feats"] and k <= 3
    y0 = make(case, feats)
    n, D = y0.shape
    x = points(case, y0)
    perm = g.permutation(D) if feats else np.arange(D)
    rows = np.arange(n) if feats else g.permutation(n)
    fit = {"n_groups": k, "tol": -1, "init_method": "kmeans" if feats else "random"}
    pr = priors(case, None, 1.0, np.zeros(D), y0)
    if not feats:      # the data driven priors would differ by rounding only, but the atoms drawn from them must be the same
        pr.setdefault("mu_prior", y0.mean(axis=0))
        pr.setdefault("psi_prior", np.atleast_2d(np.cov(y0.T)))

    def run(y, pp, rr, kw):
        m = M.mixture(s, case["seed"], total_iter=case["iters"], burn_in=0, **{a: np.copy(b) if isinstance(b, np.ndarray) else b for a, b in kw.items()})
        m.fit_variational(y[rr][:, pp], n_groups=k, **{a: b for a, b in fit.items() if a != "n_groups"})
        inv, ri = np.argsort(pp), np.argsort(rr)
        r = var_results(m, x[:, pp], 1.0, np.zeros(D), D)
        r.pop("marginal EAP ")
        r["factors "] = [[v[0][inv], v[1], v[2][np.ix_(inv, inv)], v[3]] for v in r["factors "]]
        r["marginal EAP "] = m.var_eap_density(x[:, [D - 1]], dim=int(inv[D - 1]))
        r["responsibilities "] = r["responsibilities "][:, ri]
        r["affinity "] = r["affinity "][np.ix_(ri, ri)]
        r["density of the data "], r["uncertainty "] = r["density of the data "][ri], r["uncertainty "][ri]
        return r

    same = (np.arange(D), np.arange(n), pr)
    res = [run(y0, *same), run(y0, perm, rows, priors(case, None, 1.0, np.zeros(D), y0, perm) if feats else pr)]
    rec.classify("model " + s["m"], "features permuted" if feats else "observations permuted")
    rec.nontriv(k > 1 and (not np.array_equal(perm, np.arange(D)) or not np.array_equal(rows, np.arange(n))))
    compare(res[1], res[0], "%s, k=%d, %s permuted: " % (s["m"], k, "features" if feats else "observations"), 1e-5, rec,
            lambda i: run(rounded(case, y0, np.zeros(D), 1.0, i), *same))


base = {"data": mixdata.data(nmax=18, kinds=["blobs", "gauss", "uniform", "outlier"]), "prior": mixdata.priors, "pow": st.one_of(st.integers(-5, 6), st.integers(-24, 24), st.integers(-120, 120)),
        "shift": st.sampled_from([0, 0, 1, 4, 8, 20]), "init": st.sampled_from(["kmeans", "random", "random", "variational", None]), "seed": M.seeds,
        "k": st.integers(1, 4), "iters": st.sampled_from([1, 2, 4, 8])}
gcases = G.fixed(dict(base, spec=G.spec(nmax=5), opts=G.fit_opts(6), groups=st.sampled_from([None, None, 1, 3]).map(lambda v: v or 0), warm=st.booleans()))
vcases = G.fixed(dict(base, spec=M.spec(M.VARIATIONAL, nmax=4)))
pcases = G.fixed(dict(base, spec=M.spec(M.VARIATIONAL, nmax=4), feats=st.booleans()))

@st.composite
def wide(draw):
    """Many features."""
    D = draw(st.integers(8, 40))
    return {"D": D, "n": 2 * D + draw(st.integers(5, 60)), "kind": draw(st.sampled_from(["blobs", "gauss", "uniform"])), "scale": draw(st.sampled_from([1.0, 0.05, 30.0])),
            "loc": draw(st.sampled_from([0.0, 3.0])), "seed": draw(M.seeds)}


wgcases = G.fixed(dict(base, data=wide(), spec=G.spec(nmax=4), opts=G.fit_opts(3), groups=st.sampled_from([None, 1, 3]).map(lambda v: v or 0), warm=st.booleans(),
                       shift=st.just(0), pow=st.integers(-120, 120)))
wvcases = G.fixed(dict(base, data=wide(), spec=M.spec(M.VARIATIONAL, nmax=4), shift=st.just(0), pow=st.integers(-120, 120)))

SUBS = [Sub("many features", wgcases, check_gibbs, quick=120, thorough=3000),
        Sub("many features variational", wvcases, check_var, quick=150, thorough=4000),
        Sub("gibbs", gcases, check_gibbs, quick=1200, thorough=15000),
        Sub("variational", vcases, check_var, quick=800, thorough=10000),
        Sub("permutations", pcases, check_perm, quick=800, thorough=10000)]
