import numpy as np
from hypothesis import strategies as st
from scipy.special import gammaln, multigammaln
from scipy.stats import beta as beta_d
from scipy.stats import chi2, norm

from .. import models as M
from ..core import Sub, as_float_array, as_int_array, binom_p, ks_1samp, require, require_close, two_stage
from pyrichlet.mixture_models import _utils as U

PROPERTY = "C22"
RULE = ("'conjugacy': prior parameters (dimension 1-4) and up to 12 observations in random batches and orders; the posterior parameters are "
        "compared between splits and with Bayes' rule at random parameter values. 'niw draws', 'gumbel', 'rejection': the law of 1500 "
        "draws against closed forms (KS and binomial tests, confirmed with 30000 at p<1e-10). 'k-means': label structure. Non-trivial: "
        "two or more observations, categories, dimensions or clusters.")
ASSUMPTIONS = ["sampler laws are tested statistically"]


def spd(rng, d, scale=1.0):
    a = rng.normal(size=(d, d + 2))
    return scale * (a @ a.T / (d + 2) + 0.1 * np.eye(d))


def log_niw(mu, sigma, mu0, lam, psi, nu):
    """Normal inverse-Wishart log density from its definition."""
    d = len(mu0)
    ld = np.linalg.slogdet(sigma)[1]
    inv = np.linalg.inv(sigma)
    r = nu / 2 * np.linalg.slogdet(psi)[1] - nu * d / 2 * np.log(2) - multigammaln(nu / 2, d)
    r += -(nu + d + 1) / 2 * ld - np.trace(psi @ inv) / 2
    e = mu - mu0
    r += -d / 2 * np.log(2 * np.pi) + d / 2 * np.log(lam) - ld / 2 - lam / 2 * e @ inv @ e
    return r


def log_gauss(y, mu, sigma):
    d = len(mu)
    e = y - mu
    return np.sum(-d / 2 * np.log(2 * np.pi) - np.linalg.slogdet(sigma)[1] / 2 - np.sum((e @ np.linalg.inv(sigma)) * e, axis=1) / 2)


def check_conj(case, rec):
    rng = np.random.default_rng(case["seed"])
    d = case["d"]
    n = case["n"]
    sc = 10.0 ** case["scale"]
    psi = spd(rng, d, sc ** 2)
    mu0 = rng.normal(size=d) * sc
    lam, nu = case["lam"], d - 1 + case["nu"]
    y = rng.normal(size=(n, d)) * sc * case["spread"] + sc * case["shift"]
    rec.nontriv(n > 1)
    rec.classify("d=%d" % d, "n=%s" % ("1" if n == 1 else "2+"))
    args = [np.array(mu0), lam, np.array(psi), nu]
    p = U.posterior_norm_invw_params(np.array(y), mu=args[0], lam=args[1], psi=args[2], nu=args[3])
    require(np.array_equal(args[0], mu0) and np.array_equal(args[2], psi), "the prior parameters were modified")
    as_float_array(p["mu"], "posterior mu", (d,))
    as_float_array(p["psi"], "posterior psi", (d, d))
    # batches in another order
    perm = rng.permutation(n)
    cuts = sorted(set(int(c * n) for c in case["cuts"]) - {0, n})
    q = {"mu": mu0, "lambda": lam, "psi": psi, "nu": nu}
    for part in np.split(y[perm], cuts):
        q = U.posterior_norm_invw_params(part, mu=q["mu"], lam=q["lambda"], psi=q["psi"], nu=q["nu"])
    s2 = np.abs(p["psi"]).max()
    require_close(q["mu"], p["mu"], "posterior mu in %d batches" % (len(cuts) + 1), rtol=1e-8, atol=1e-9 * np.abs(p["mu"]).max())
    require_close(q["psi"], p["psi"], "posterior psi in %d batches" % (len(cuts) + 1), rtol=1e-8, atol=1e-9 * s2)
    require_close([q["lambda"], q["nu"]], [p["lambda"], p["nu"]], "posterior lambda, nu in batches")
    # Bayes' rule: log prior + log likelihood - log posterior is one constant
    consts = []
    for _ in range(4):
        sig = spd(rng, d, sc ** 2 * float(np.exp(rng.normal())))
        mu = p["mu"] + rng.normal(size=d) * sc
        consts.append(log_niw(mu, sig, mu0, lam, psi, nu) + log_gauss(y, mu, sig) - log_niw(mu, sig, p["mu"], p["lambda"], p["psi"], p["nu"]))
        got = U.log_likelihood_normal_invw(mu=mu, sigma=sig, mu0=mu0, lam0=lam, psi0=psi, nu0=nu)
        require_close(float(np.asarray(got).reshape(())), log_niw(mu, sig, mu0, lam, psi, nu), "normal inverse-Wishart log density", rtol=1e-7, atol=1e-7)
    big = 1 + max(abs(c) for c in consts) + abs(log_gauss(y, mu, sig))
    require(max(consts) - min(consts) < 1e-8 * big * max(1, n), "Bayes' rule: the normalizing constant varies: %s", consts)
    # and it is the marginal likelihood
    ml = (-n * d / 2 * np.log(np.pi) + multigammaln((nu + n) / 2, d) - multigammaln(nu / 2, d) + nu / 2 * np.linalg.slogdet(psi)[1]
          - (nu + n) / 2 * np.linalg.slogdet(p["psi"])[1] + d / 2 * np.log(lam / (lam + n)))
    require_close(consts[0], ml, "marginal likelihood", rtol=1e-7, atol=1e-7 * big)


conj = st.fixed_dictionaries({"d": st.one_of(st.integers(1, 4), st.integers(1, 7)), "n": st.one_of(st.integers(1, 12), st.integers(1, 12), st.sampled_from([40, 150])),
                               "lam": st.one_of(st.integers(1, 5), M.pos(0.01, 20)), "nu": st.one_of(st.integers(1, 6), M.pos(0.1, 20)),
                              "scale": st.sampled_from([0, 0, -2, 2]), "spread": M.pos(0.1, 10), "shift": M.unit(-5, 5),
                              "cuts": st.lists(M.unit(0, 1), max_size=4), "seed": M.seeds})


def check_niw(case, rec):
    d = case["d"]
    g = np.random.default_rng(case["seed"])
    psi, mu0 = spd(g, d, case["sc"]), g.normal(size=d)
    lam, nu = case["lam"], d + case["nu"] if case["frac"] else d + int(case["nu"])
    a, b = g.normal(size=d), g.normal(size=d)
    rec.nontriv(d > 1)
    rec.classify("d=%d" % d)
    rng = np.random.default_rng(case["seed"] + 1)

    def run(n, stage):
        mus, sigs = [], []
        for _ in range(n):
            m, s = U.random_normal_invw(mu=mu0, lam=lam, psi=psi, nu=nu, rng=rng)
            mus.append(np.atleast_1d(m))
            sigs.append(np.atleast_2d(s))
        mus = as_float_array(mus, "means", (n, d))
        sigs = as_float_array(sigs, "covariances", (n, d, d))
        require(np.all(np.abs(sigs - sigs.transpose(0, 2, 1)) <= 1e-9 * np.abs(sigs).max(axis=(1, 2))[:, None, None]), "covariance not symmetric")
        inv = np.linalg.inv(sigs)
        res = []

        def t(name, x, cdf):
            p, D = ks_1samp(x, cdf)
            res.append((name, p, "KS distance %.4f" % D))

        t("a'psi a / a'Sigma a", (a @ psi @ a) / np.einsum("i,nij,j->n", a, sigs, a), chi2(nu - d + 1).cdf)
        t("a'inv(Sigma) a", np.einsum("i,nij,j->n", a, inv, a) / (a @ np.linalg.inv(psi) @ a), chi2(nu).cdf)
        e = mus - mu0
        m2 = lam * np.einsum("ni,nij,nj->n", e, inv, e)
        t("Mahalanobis distance of mu", m2, chi2(d).cdf)
        z = (e @ b) * np.sqrt(lam) / np.sqrt(np.einsum("i,nij,j->n", b, sigs, b))
        t("standardized b'mu", z, norm.cdf)
        u1 = chi2(d).cdf(m2)
        u2 = chi2(nu - d + 1).cdf((a @ psi @ a) / np.einsum("i,nij,j->n", a, sigs, a))
        t("mu independent of Sigma", np.abs(u1 - u2), lambda x: 1 - (1 - np.clip(x, 0, 1)) ** 2)
        t("consecutive draws", np.abs(u2[1:] - u2[:-1])[::2], lambda x: 1 - (1 - np.clip(x, 0, 1)) ** 2)
        t("consecutive means", np.abs(u1[1:] - u1[:-1])[::2], lambda x: 1 - (1 - np.clip(x, 0, 1)) ** 2)
        return res

    two_stage(run, rec, 800, 20000, "normal inverse-Wishart draws (d=%d, nu=%s, lambda=%s)" % (d, nu, lam))


niw = st.fixed_dictionaries({"d": st.integers(1, 4), "lam": M.pos(0.05, 20), "nu": M.unit(0, 8), "frac": st.booleans(),
                             "sc": M.pos(0.01, 100), "seed": M.seeds})


def check_gumbel(case, rec):
    rng = np.random.default_rng(case["seed"])
    g = np.random.default_rng(case["seed"] + 1)
    k, m = case["k"], case["m"]
    lp = g.normal(size=(k, m)) * case["spread"] + case["offset"]
    mask = g.uniform(size=(k, m)) < case["holes"]
    mask[g.integers(k, size=m), range(m)] = False
    lp[mask] = -np.inf
    q = np.exp(lp - lp.max(axis=0))
    q /= q.sum(axis=0)
    rec.nontriv(k > 1)
    mode = case["mode"]
    rec.classify("mode " + mode, "with -inf" if mask.any() else "finite")

    def run(n, stage):
        inp = np.array(lp) if mode == "matrix" else np.array(lp[:, 0])
        keep = inp.copy()
        if mode == "matrix":
            n = n // m + 1
            D = np.array([as_int_array(U.gumbel_max_sampling(inp, rng=rng), "indices", (m,)) for _ in range(n)])
        elif mode == "vector":
            D = np.array([U.gumbel_max_sampling(inp, rng=rng) for _ in range(n)]).reshape(n, 1)
        else:
            D = as_int_array(U.gumbel_max_sampling(inp, n, rng=rng), "indices", (n,)).reshape(n, 1)
        require(np.array_equal(inp, keep), "log probabilities were modified")
        require(D.min() >= 0 and D.max() < k, "index out of range")
        res = []
        for c in range(D.shape[1]):
            for j in range(k):
                cnt = int((D[:, c] == j).sum())
                require(cnt == 0 or not mask[j, c], "index of probability zero drawn")
                res.append(("index %d of column %d" % (j, c), binom_p(cnt, n, q[j, c]), "%d of %d, expected %.1f" % (cnt, n, n * q[j, c])))
            h = n // 2
            same = int((D[:h, c] == D[h:2 * h, c]).sum())
            res.append(("repeat in column %d" % c, binom_p(same, h, float((q[:, c] ** 2).sum())), "%d of %d" % (same, h)))
        for c in range(1, D.shape[1]):
            same = int((D[:, 0] == D[:, c]).sum())
            res.append(("columns 0 and %d" % c, binom_p(same, n, float((q[:, 0] * q[:, c]).sum())), "%d of %d equal" % (same, n)))
        return res

    two_stage(run, rec, 1500, 40000, "Gumbel-max sampling (%s)" % mode)


gum = st.fixed_dictionaries({"k": st.integers(1, 6), "m": st.integers(1, 5), "spread": st.sampled_from([0.0, 1.0, 3.0]),
                             "offset": st.sampled_from([0.0, -1e4, 500.0, -3.0]), "holes": st.sampled_from([0.0, 0.3, 0.7]),
                             "mode": st.sampled_from(["matrix", "vector", "size"]), "seed": M.seeds})


def check_rej(case, rec):
    rng = np.random.default_rng(case["seed"])
    a, w = case["lo"], case["width"]
    p, q = case["p"], case["q"]
    c = case["c"]
    grid = np.linspace(0, 1, 2001)
    peak = (beta_d.pdf(grid, p, q)).max() * 1.0001 + 1e-9

    norm_ = np.exp(gammaln(p + q) - gammaln(p) - gammaln(q))

    def f(x):
        t = (np.asarray(x) - a) / w
        return c * norm_ * t ** (p - 1) * (1 - t) ** (q - 1)

    rec.nontriv(True)
    rec.classify("vector" if case["size"] else "scalar", "low acceptance" if case["slack"] > 2 else "high acceptance")
    top = c * peak * case["slack"]

    def run(n, stage):
        if case["slack"] > 2 and case["size"] < 50:
            n = n // 10
        if case["size"]:
            m = case["size"]
            x = np.concatenate([as_float_array(U.rejection_sample(f, top, a, a + w, m, rng=rng), "sample", (m,)) for _ in range(n // m + 1)])
        else:
            x = np.array([U.rejection_sample(f, top, a, a + w, rng=rng) for _ in range(n // 4)])
        res = []
        u = beta_d.cdf((x - a) / w, p, q)
        pv, D = ks_1samp(u, "uniform")
        res.append(("value", pv, "KS distance %.4f" % D))
        pv, D = ks_1samp(np.abs(u[1::2][:len(u) // 2] - u[0::2][:len(u) // 2]), lambda t: 1 - (1 - np.clip(t, 0, 1)) ** 2)
        res.append(("consecutive values", pv, "KS distance %.4f" % D))
        return res

    two_stage(run, rec, 1500, 40000, "rejection sampling from Beta(%s,%s) on [%s,%s]" % (p, q, a, a + w))


rej = st.fixed_dictionaries({"lo": st.sampled_from([0.0, -3.0, 5.0]), "width": st.sampled_from([1.0, 4.0]), "p": M.pos(1, 6), "q": M.pos(1, 6),
                             "c": st.sampled_from([1.0, 0.2, 30.0]), "slack": st.sampled_from([1.0, 1.5, 1.0, 40.0, 300.0]),
                             "size": st.sampled_from([0, 1, 5, 50, 500]), "seed": M.seeds})


def check_kmeans(case, rec):
    g = np.random.default_rng(case["seed"])
    n, d, k = case["n"], case["d"], case["k"]
    k = min(k, n)
    centers = g.normal(size=(max(k, 1), d)) * case["sep"]
    y = centers[g.choice(max(k, 1), size=n, p=np.arange(1, k + 1) / sum(range(1, k + 1)))] + g.normal(size=(n, d))
    if case["ties"]:
        y = np.round(y)
    distinct = len(np.unique(y, axis=0))
    rec.nontriv(k > 1)
    rec.classify("k=%d" % k, "fewer distinct points than clusters" if distinct < k else "enough points")
    keep = y.copy()
    lab = as_int_array(U.kmeans_cluster_size_biased(y, k, np.random.default_rng(case["seed"])), "k-means labels", (n,))
    require(np.array_equal(keep, y), "the data were modified")
    cnt = np.bincount(lab)
    require(np.all(cnt > 0), "k-means labels skip a value: sizes %s", cnt)
    require(len(cnt) <= k, "%d labels for %d clusters", len(cnt), k)
    if distinct >= k:
        require(len(cnt) == k, "%d labels for %d clusters of %d distinct points", len(cnt), k, distinct)
    require(np.all(np.diff(cnt) <= 0), "cluster sizes %s are not in non-increasing order", cnt)
    # equal points share a label; in a k-means optimum every point is nearest to its own cluster mean
    _, inv = np.unique(y, axis=0, return_inverse=True)
    for g_ in range(inv.max() + 1):
        require(len(set(lab[inv.ravel() == g_])) == 1, "equal points got different labels")
    means = np.array([y[lab == j].mean(axis=0) for j in range(len(cnt))])
    dist = ((y[:, None] - means[None]) ** 2).sum(axis=2)
    ok = dist[range(n), lab] <= dist.min(axis=1) + 1e-6 * (1 + dist.max()) + 0.05 * dist.max()
    require(np.all(ok), "a point is far from its own cluster's mean and near another's")
    again = U.kmeans_cluster_size_biased(y, k, np.random.default_rng(case["seed"]))
    require(np.array_equal(again, lab), "k-means is not reproducible from the generator")


km = st.fixed_dictionaries({"n": st.one_of(*[st.integers(1, 40)] * 9, st.sampled_from([150, 320])), "d": st.integers(1, 3), "k": st.one_of(*[st.integers(1, 5)] * 9, st.sampled_from([9, 14])), "sep": st.sampled_from([0.0, 3.0, 20.0]),
                            "ties": st.booleans(), "seed": M.seeds})

SUBS = [Sub("conjugacy", conj, check_conj, quick=3000, thorough=40000),
        Sub("niw draws", niw, check_niw, quick=60, thorough=1000, cpu_s=600),
        Sub("gumbel", gum, check_gumbel, quick=400, thorough=4000, cpu_s=600),
        Sub("rejection", rej, check_rej, quick=200, thorough=2000, cpu_s=120),
        Sub("k-means", km, check_kmeans, quick=300, thorough=3000)]
