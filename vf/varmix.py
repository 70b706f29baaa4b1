"""Reference mean-field variational inference for Gaussian mixtures with normal-Wishart atoms (Bishop, PRML 10.2),
written from the definitions, with the weight factors of varrefs."""
import itertools

import numpy as np
from scipy.special import betaln, digamma, gammaln, logsumexp, multigammaln, xlogy

from . import models as M
from .core import as_float_array, require, require_close
from .varrefs import WeightQ

EPS = np.finfo(float).eps


def theta_opt(R, y, pr):
    out = []
    for r in R:
        N = r.sum()
        xb = r @ y / N if N > 0 else np.zeros(y.shape[1])
        c = y - xb
        S = (c * r[:, None]).T @ c
        beta = pr["lam"] + N
        m = (pr["lam"] * pr["mu"] + N * xb) / beta
        dm = xb - pr["mu"]
        Winv = pr["psi"] + S + pr["lam"] * N / beta * np.outer(dm, dm)
        out.append((m, beta, Winv, pr["nu"] + N))
    return out


def elogdet(Winv, nu):
    D = len(Winv)
    return digamma((nu - np.arange(D)) / 2).sum() + D * np.log(2) - np.linalg.slogdet(Winv)[1]


def quad(x, Winv):
    return np.sum(x.T * np.linalg.solve(Winv, x.T), axis=0)


def log_rho(elogw, theta, y):
    D = y.shape[1]
    return np.array([lw + 0.5 * elogdet(Wi, nu) - D / 2 * np.log(2 * np.pi) - D / (2 * b) - nu / 2 * quad(y - m, Wi)
                     for lw, (m, b, Wi, nu) in zip(elogw, theta)])


def resp(elogw, theta, y):
    """Optimal responsibilities, floored at machine epsilon to stay positive."""
    lr = log_rho(elogw, theta, y)
    r = np.exp(lr - lr.max(axis=0)) + EPS
    return r / r.sum(axis=0)


def log_b(Winv, nu):
    """log normalizing constant of the Wishart density with scale inv(Winv)."""
    D = len(Winv)
    return nu / 2 * np.linalg.slogdet(Winv)[1] - nu * D / 2 * np.log(2) - multigammaln(nu / 2, D)


def elbo(s, R, theta, y, pr):
    D = y.shape[1]
    q = WeightQ(s, R)
    zero = np.zeros(len(R))
    e = float(np.sum(R * log_rho(zero, theta, y)))              # E log p(y | d, theta)
    e += float(q.elog_pd(R)) + float(q.elog_pw()) - float(q.elog_qw())
    e -= float(np.sum(xlogy(R, R)))
    for m, b, Wi, nu in theta:
        el = elogdet(Wi, nu)
        W = np.linalg.inv(Wi)
        dm = m - pr["mu"]
        # E log p(mu, Lambda)
        e += 0.5 * (D * np.log(pr["lam"] / (2 * np.pi)) + el - D * pr["lam"] / b - pr["lam"] * nu * dm @ W @ dm)
        e += log_b(pr["psi"], pr["nu"]) + (pr["nu"] - D - 1) / 2 * el - nu / 2 * np.trace(pr["psi"] @ W)
        # - E log q(mu, Lambda)
        e -= 0.5 * (el + D * np.log(b / (2 * np.pi)) - D)
        e -= log_b(Wi, nu) + (nu - D - 1) / 2 * el - nu * D / 2
    return e


def log_marginal_niw(y, pr):
    """log of the integral of prod N(y_i | mu, Lambda) over the normal-Wishart prior."""
    n, D = y.shape
    if n == 0:
        return 0.0
    (m, b, Wi, nu), = theta_opt(np.ones((1, n)), y, pr)
    return (-n * D / 2 * np.log(np.pi) + multigammaln(nu / 2, D) - multigammaln(pr["nu"] / 2, D) + pr["nu"] / 2 * np.linalg.slogdet(pr["psi"])[1]
            - nu / 2 * np.linalg.slogdet(Wi)[1] + D / 2 * (np.log(pr["lam"]) - np.log(b)))


def log_p_labels(s, lab, k):
    """log prior probability of a label vector (truncated structure for the Dirichlet process)."""
    N = np.bincount(lab, minlength=k).astype(float)
    after = np.array([N[j + 1:].sum() for j in range(k)])
    m = s["m"]
    if m == "DD":
        a = np.array(s["alpha"], float) if isinstance(s["alpha"], list) else np.full(k, float(s["alpha"]))
        return gammaln(a.sum()) - gammaln(a.sum() + N.sum()) + np.sum(gammaln(a + N) - gammaln(a))
    if m == "DP":
        return float(np.sum(betaln(1 + N, s["alpha"] + after)[:k - 1] - betaln(1, s["alpha"])))
    if m == "PY":
        j = np.arange(1, k + 1)
        return float(np.sum(betaln(1 - s["pyd"] + N, s["alpha"] + j * s["pyd"] + after) - betaln(1 - s["pyd"], s["alpha"] + j * s["pyd"])))
    if m == "GP":
        return float(betaln(s["a"] + N.sum(), s["b"] + np.sum(lab)) - betaln(s["a"], s["b"]))
    return -N.sum() * np.log(k)


def log_evidence(s, y, pr, k):
    """Exact evidence, summing over all label vectors with labels below k."""
    n = len(y)
    cache = {}
    tot = []
    for lab in itertools.product(range(k), repeat=n):
        lab = np.array(lab)
        lp = log_p_labels(s, lab, k)
        for j in set(lab.tolist()):
            key = (lab == j).tobytes()
            if key not in cache:
                cache[key] = log_marginal_niw(y[lab == j], pr)
            lp += cache[key]
        tot.append(lp)
    return logsumexp(tot)


# ---------------------------------------------------------------- the code under test
def n_groups(s, k):
    return s["n"] if s["m"] == "DD" else k


def build(s, seed, total_iter, kw, **more):
    return M.mixture(s, seed, total_iter=total_iter, burn_in=0, **kw, **more)


def check_state(s, m, y, pr, k, W, rtol=1e-7):
    """Validity of the stored factors and optimality of weights and atoms given the responsibilities."""
    R = as_float_array(m.var_d, W + "var_d", shape=(k, len(y)))
    require(np.all(R > 0), W + "responsibilities not positive: min %r", float(R.min()))
    require_close(R.sum(axis=0), np.ones(len(y)), W + "sum of responsibilities", rtol=0, atol=1e-12)
    ref = theta_opt(R, y, pr)
    require(len(m.var_theta) == k, W + "%d atoms instead of %d", len(m.var_theta), k)
    sd = np.maximum(np.std(y, axis=0), 1e-300)
    for j, ((mu, lam, prec, nu), (rm, rb, rWi, rnu)) in enumerate(zip(m.var_theta, ref)):
        A = "%satom %d: " % (W, j)
        mu = as_float_array(mu, A + "mean", shape=rm.shape)
        prec = as_float_array(prec, A + "precision", shape=rWi.shape)
        require(np.allclose(prec, prec.T, rtol=1e-9, atol=1e-12 * np.abs(prec).max()), A + "precision not symmetric")
        ps = np.sqrt(np.maximum(np.diagonal(prec), 0))
        require(ps.min() > 0 and np.linalg.eigvalsh((prec + prec.T) / 2 / np.outer(ps, ps)).min() > 0, A + "precision not positive definite")
        require_close(mu, rm, A + "mean", rtol=rtol, atol=rtol * sd + 1e-12 * np.abs(y).max(axis=0))
        require_close(float(lam), rb, A + "lambda", rtol=1e-9)
        require_close(float(nu), rnu, A + "degrees of freedom", rtol=1e-9)
        L = np.linalg.cholesky(rWi)
        require_close(L.T @ prec @ L, np.eye(len(rm)), A + "whitened precision", rtol=0, atol=1e-6)
    q = WeightQ(s, R)
    wm = m.weight_model
    require_close([float(wm.variational_mean_log_w_j(j)) for j in range(k)], q.elogw(), W + "mean of log w", rtol=1e-8, atol=1e-8)
    return R, q, ref
