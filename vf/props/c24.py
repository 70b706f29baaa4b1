"""Distribution helpers against independent formulas, normalization and quadrature."""
from math import comb, lgamma, log

import numpy as np
from hypothesis import strategies as st
from scipy import integrate, special, stats

from .. import models as M, refs
from ..core import Sub, as_float_array, require, require_close
from pyrichlet.mixture_models import _utils as U
from pyrichlet.utils import functions as F

PROPERTY = "C24"
RULE = ("A case is a helper with generated parameters (dimension one to four, scalars or vectors of points, large and small parameters) whose values are "
        "compared with formulas written from the definitions, with SciPy's distributions, and with sums over all partitions or outcomes and integrals. "
        "Non-trivial: a matrix case of dimension two or more, a partition of three or more blocks, or a vector argument.")
ASSUMPTIONS = ["points are inside the support; Wishart degrees of freedom exceed the dimension minus one"]


def lbeta(a, b):
    return lgamma(a) + lgamma(b) - lgamma(a + b)


def spd(g, D, scale):
    A = g.normal(size=(D, D + 1))
    return (A @ A.T + 0.2 * np.eye(D)) * scale


def c_beta(case, rec, g):
    a, b = case["a"], case["b"]
    v = g.uniform(0.001, 0.999, size=case["k"]) if case["vec"] else float(g.uniform(0.001, 0.999))
    keep = np.copy(v)
    want = (a - 1) * np.log(v) + (b - 1) * np.log1p(-np.asarray(v)) - lbeta(a, b)
    require_close(F.log_likelihood_beta(v, a, b), want, "beta log density (%g, %g)" % (a, b), rtol=1e-9, atol=1e-8)
    e = F.mean_log_beta(a, b)
    require_close(e, special.digamma(a) - special.digamma(a + b), "mean log beta (%g, %g)" % (a, b), rtol=1e-9)
    if 0.5 <= a <= 50 and 0.5 <= b <= 50:
        num = integrate.quad(lambda x: np.log(x) * np.exp((a - 1) * np.log(x) + (b - 1) * np.log1p(-x) - lbeta(a, b)), 0, 1, limit=200)[0]
        require_close(e, num, "mean log beta (%g, %g) by quadrature" % (a, b), rtol=1e-5, atol=1e-6)
    av = np.array([a, b, a + b])
    require_close(F.mean_log_beta(av, b), [special.digamma(q) - special.digamma(q + b) for q in av], "mean log beta of a vector", rtol=1e-9)
    require(np.array_equal(v, keep), "the argument was modified")
    rec.nontriv(case["vec"])


def c_binom(case, rec, g):
    a, b, n = case["a"], case["b"], case["n"]
    x = np.arange(n + 1)
    want = np.array([log(comb(n, int(i))) + lbeta(a + i, b + n - i) - lbeta(a, b) for i in x])
    got = F.log_likelihood_beta_binom(x, n, a, b)
    require_close(got, want, "beta-binomial log probabilities (%d, %g, %g)" % (n, a, b), rtol=1e-7, atol=1e-7)
    p = float(g.choice([0.0, 1.0, g.uniform(), 1e-9, 1 - 1e-9]))
    with np.errstate(all="ignore"):
        want = np.array([log(comb(n, int(i))) + special.xlogy(i, p) + special.xlog1py(n - i, -p) for i in x])
    require_close(F.log_likelihood_binom(x, n, p), want, "binomial log probabilities (%d, %g)" % (n, p), rtol=1e-7, atol=1e-7)
    i = int(g.integers(0, n + 1))
    require_close(F.log_likelihood_binom(i, n, p), want[i], "binomial log probability (%d of %d, %g)" % (i, n, p), rtol=1e-7, atol=1e-7)
    require_close(F.log_likelihood_beta_binom(i, n, a, b), got[i], "beta-binomial log probability of a scalar", rtol=1e-9, atol=1e-9)
    rec.nontriv(n > 1)


def c_eppf(case, rec, g):
    al = case["a"]
    sizes = [int(t) for t in g.integers(1, case["big"] + 1, size=case["k"])]
    as_ = {"list": list, "array": np.array, "tuple": tuple}[case["how"]]
    e = float(F.dirichlet_log_eppf(al, as_(sizes)))
    W = "Dirichlet log EPPF (%g, %s): " % (al, sizes)
    # sequential prediction: Chinese restaurant
    want, seen = 0.0, 0
    for n in sizes:
        for i in range(n):
            want += np.log(al if i == 0 else i) - np.log(al + seen)
            seen += 1
    require_close(e, want, W + "value", rtol=1e-8, atol=1e-7)
    perm = [sizes[i] for i in g.permutation(len(sizes))]
    require_close(F.dirichlet_log_eppf(al, as_(perm)), e, W + "value after reordering the blocks", rtol=1e-10, atol=1e-9)
    ext = [list(sizes) for _ in sizes] + [sizes + [1]]
    for i in range(len(sizes)):
        ext[i][i] += 1
    require_close(special.logsumexp([float(F.dirichlet_log_eppf(al, as_(x))) for x in ext]), e, W + "sum over the extensions", rtol=1e-8, atol=1e-7)
    n = case["n"] % 6 + 1
    tot = 0.0
    for rgs in refs.set_partitions(n):
        tot += np.exp(float(F.dirichlet_log_eppf(al, as_([rgs.count(b) for b in range(max(rgs) + 1)]))))
    require_close(tot, 1.0, "sum of the Dirichlet EPPF (%g) over the partitions of %d" % (al, n), rtol=1e-8)
    rec.nontriv(len(sizes) > 2)


def c_normal(case, rec, g):
    D, k = case["D"], case["k"]
    prec = spd(g, D, case["scale"])
    mu = g.normal(size=D) / np.sqrt(case["scale"])
    L = np.linalg.cholesky(np.linalg.inv(prec))
    x = mu + g.normal(size=(k, D)) @ L.T * case["spread"]
    keep = [x.copy(), mu.copy(), prec.copy()]
    W = "%d points, dimension %d: " % (k, D)
    want = np.exp(stats.multivariate_normal.logpdf(x, mu, np.linalg.inv(prec)))
    got = as_float_array(F.density_normal(x, mu, prec), W + "normal density", shape=(k,))
    require_close(got, np.atleast_1d(want), W + "normal density", rtol=1e-6, atol=1e-290)
    nu = case["b"] if case["a"] < 5 else case["b"] * 100
    ld = np.linalg.slogdet(prec)[1]
    q = np.array([float((t - mu) @ prec @ (t - mu)) for t in x])
    want = np.exp(lgamma((nu + D) / 2) - lgamma(nu / 2) + ld / 2 - D / 2 * np.log(nu * np.pi) - (nu + D) / 2 * np.log1p(q / nu))
    got = as_float_array(F.density_students_t(x, mu, prec, nu), W + "Student-t density", shape=(k,))
    require_close(got, want, W + "Student-t density with %g degrees of freedom" % nu, rtol=1e-6, atol=1e-290)
    sp = stats.multivariate_t.logpdf(x, mu, np.linalg.inv(prec), df=nu)
    require_close(got, np.atleast_1d(np.exp(sp)), W + "Student-t density with %g degrees of freedom (SciPy)" % nu, rtol=1e-5, atol=1e-290)
    require(all(np.array_equal(u, v) for u, v in zip(keep, [x, mu, prec])), W + "the arguments were modified")
    rec.nontriv(D > 1)


def c_wishart(case, rec, g):
    D = case["wide"] or case["D"]
    scale = case["scale"] if case["far"] == 0 else 10.0 ** case["far"]
    V = spd(g, D, scale)
    df = D - 1 + case["b"]
    keep = V.copy()
    W = "Wishart(%g) of dimension %d: " % (df, D)
    # log density at V' is log B + (df-D-1)/2 log|V'| - tr(V^-1 V')/2
    X = spd(g, D, scale * df)
    # neighbours that share some of the arguments, before and after
    twins = [(V, df + 1), ((V + np.diag(np.diag(V))) / 2, df), (V * 2, df)]
    def logdets():  # noqa: E306
        for A, f in twins:
            e = sum(special.digamma((f - i) / 2) for i in range(D)) + D * np.log(2) + np.linalg.slogdet(A)[1]
            require_close(float(U.e_log_norm_wishart(A, f)), e, W + "expected log determinant of a neighbour", rtol=1e-8, atol=1e-8)
            t = -f * D / 2 * np.log(2) - special.multigammaln(f / 2, D) - f / 2 * np.linalg.slogdet(A)[1]
            require_close(float(U.log_wishart_normalization_term(A, f)), t, W + "normalization term of a neighbour", rtol=1e-8, atol=1e-7 * (1 + abs(t)))
    if case["vec"]:
        logdets()
    logb = float(U.log_wishart_normalization_term(V, df))
    want = stats.wishart.logpdf(X, df, V)
    got = logb + (df - D - 1) / 2 * np.linalg.slogdet(X)[1] - np.trace(np.linalg.solve(V, X)) / 2
    sc = 1e-8 * (1 + abs(want) + abs(logb))
    require_close(got, want, W + "normalization term", rtol=1e-8, atol=sc)
    e = sum(special.digamma((df - i) / 2) for i in range(D)) + D * np.log(2) + np.linalg.slogdet(V)[1]
    require_close(float(U.e_log_norm_wishart(V, df)), e, W + "expected log determinant", rtol=1e-8, atol=1e-8)
    require_close(float(U.entropy_wishart(V, df)), stats.wishart.entropy(df, V), W + "entropy", rtol=1e-7, atol=sc)
    require_close(float(U.entropy_wishart(V, df)), -logb - (df - D - 1) / 2 * e + df * D / 2, W + "entropy", rtol=1e-8, atol=sc)
    if D == 1:
        c = lambda t: stats.gamma.logpdf(t, df / 2, scale=2 * V[0, 0])  # noqa: E731
        require_close(logb + (df / 2 - 1) * np.log(2.5) - 2.5 / V[0, 0] / 2, c(2.5), W + "normalization term (gamma)", rtol=1e-8, atol=sc)
    logdets()
    require(np.array_equal(V, keep), W + "the argument was modified")
    rec.nontriv(D > 1)


def c_niw(case, rec, g):
    D = case["D"]
    psi = spd(g, D, case["scale"])
    nu = D - 1 + case["b"]
    lam = case["a"]
    mu0 = g.normal(size=D)
    S = spd(g, D, case["scale"])
    mu = mu0 + g.normal(size=D) * np.sqrt(case["scale"])
    keep = [psi.copy(), mu0.copy(), S.copy(), mu.copy()]
    got = float(U.log_likelihood_normal_invw(mu, S, mu0, lam, psi, nu))
    ls, lp = np.linalg.slogdet(S)[1], np.linalg.slogdet(psi)[1]
    iw = nu / 2 * lp - nu * D / 2 * np.log(2) - special.multigammaln(nu / 2, D) - (nu + D + 1) / 2 * ls - np.trace(np.linalg.solve(S, psi)) / 2
    no = D / 2 * np.log(lam) - D / 2 * np.log(2 * np.pi) - ls / 2 - lam / 2 * (mu - mu0) @ np.linalg.solve(S, mu - mu0)
    require_close(got, iw + no, "normal inverse-Wishart log density (dimension %d, nu %g, lambda %g)" % (D, nu, lam), rtol=1e-7,
                  atol=1e-8 * (1 + abs(iw) + abs(no)))
    require(all(np.array_equal(u, v) for u, v in zip(keep, [psi, mu0, S, mu])), "the arguments were modified")
    rec.nontriv(D > 1)


KINDS = {"beta": c_beta, "binomial": c_binom, "partition": c_eppf, "point densities": c_normal, "Wishart": c_wishart, "normal inverse-Wishart": c_niw}


def check(case, rec):
    rec.classify(case["kind"])
    KINDS[case["kind"]](case, rec, np.random.default_rng([case["seed"], 24]))


par = st.one_of(st.sampled_from([1, 2, 1.0, 0.5]), M.pos(0.05, 400))
cases = st.fixed_dictionaries({
    "kind": st.sampled_from(sorted(KINDS)), "a": par, "b": par, "n": st.one_of(st.integers(0, 12), st.integers(0, 80)), "k": st.integers(1, 7),
    "big": st.sampled_from([1, 3, 10, 200]), "how": st.sampled_from(["list", "array", "tuple"]), "vec": st.booleans(), "D": st.integers(1, 4),
    "wide": st.one_of(*[st.just(0)] * 6, st.sampled_from([8, 20, 40])), "far": st.sampled_from([0, 0, 0, 0, -30, 30, 90]),
    "scale": st.sampled_from([1.0, 1e-3, 250.0]), "spread": st.sampled_from([1.0, 1.0, 5.0, 0.0]), "seed": M.seeds})
SUBS = [Sub("helpers", cases, check, quick=12000, thorough=150000)]
