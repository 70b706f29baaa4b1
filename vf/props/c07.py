"""Long-run Gibbs averages against exact enumeration of all partitions of a small data set."""
import itertools
import signal
from functools import lru_cache

import numpy as np
from hypothesis import strategies as st
from scipy import stats
from scipy.special import gammaln, logsumexp

from .. import models as M, refs, varmix as V
from ..core import Inconclusive, Sub, derive_seed, fail, require

PROPERTY = "C07"
RULE = ("A case is a model with its parameters, 2 to 4 observations in one or two dimensions (now and then one of them in other units), explicit priors, an initialization, thinning and a warm "
        "start or not. Independent chains are run; the averages of co-clustering indicators, of the number of groups and of the EAP density (joint and of "
        "one coordinate, plus the prior predictive times the mass the truncated weights leave out) are compared by t-tests over chains with the exact "
        "posterior summed over all set partitions, with the model's exchangeable partition probabilities. A violation needs p < 1e-10 on the largest "
        "sample after failing two screens. Non-trivial: the exact co-clustering probabilities differ by 0.05 or more from the prior's and lie in (0.02, 0.98).")
ASSUMPTIONS = ["chains are started from the initialization under test and the first fifth or more is burn-in; the priors chosen let the chains mix within tens of iterations",
               "beta-in-beta is covered for x=0 and x=1 only (for other x the inner parameter is updated by the configured heuristic)",
               "partition probabilities of the beta-Bernoulli, beta-binomial and beta-in-Dirichlet models are averages over 100000 prior weight sequences"]


# ---------------------------------------------------------------- exchangeable partition probabilities
def from_power_sums(ps, sizes):
    """E of the sum over distinct labels of prod w_label^size, from arrays ps[m] = sum_j w_j^m."""
    tot = 0.0
    for rgs in refs.set_partitions(len(sizes)):
        term = 1.0
        for b in range(max(rgs) + 1):
            mem = [sizes[i] for i in range(len(sizes)) if rgs[i] == b]
            term = term * ((-1) ** (len(mem) - 1) * float(np.prod(np.arange(1, len(mem)))) * ps[sum(mem)])
        tot = tot + term
    return float(np.mean(tot))


@lru_cache(maxsize=64)
def power_sums(key):
    s = dict(key)
    if s["m"] in ("GP", "BB"):
        v = refs.prior_sticks(dict(s), 1, 1, np.random.default_rng(0))
        q = (np.arange(20000) + 0.5) / 20000
        v = stats.beta.ppf(q, s["a"], s["b"])
        return {m: (np.ones_like(v) if m == 1 else v ** m / -np.expm1(m * np.log1p(-v))) for m in range(1, 7)}
    g = np.random.default_rng(11)
    out = {m: [] for m in range(1, 7)}
    for _ in range(5):
        w = refs.prior_weights(s, 20000, 90, g)
        for m in out:
            out[m].append(np.ones(len(w)) if m == 1 else (w ** m).sum(axis=1))
    return {m: np.concatenate(v) for m, v in out.items()}


def eppf(s, sizes):
    m, n, k = s["m"], sum(sizes), len(sizes)
    if m == "DP" or (m == "BB" and s["x"] == 0):
        return float(np.exp(refs.log_eppf_dp(sizes, s["alpha"])))
    if m == "PY":
        d, a = s["pyd"], s["alpha"]
        r = 1.0
        for i in range(1, k):
            r *= a + i * d
        for c in sizes:
            for i in range(1, c):
                r *= i - d
        for i in range(1, n):
            r /= a + i
        return r
    if m == "EQ":
        return float(np.prod([s["n"] - i for i in range(k)])) / s["n"] ** n
    if m == "DD":
        a = refs.alpha_vec(s)
        r = 0.0
        for comps in itertools.permutations(range(len(a)), k):
            r += np.exp(gammaln(a.sum()) - gammaln(a.sum() + n) + sum(gammaln(a[c] + z) - gammaln(a[c]) for c, z in zip(comps, sizes)))
        return float(r)
    return from_power_sums(power_sums(tuple(sorted((x, y) for x, y in s.items()))), tuple(sizes))


@lru_cache(maxsize=256)
def _eppf(key, sizes):
    return eppf({k: (list(v) if isinstance(v, tuple) else v) for k, v in key}, sizes)


def prob(s, sizes):
    key = tuple(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in s.items()))
    return max(_eppf(key, tuple(sorted(sizes, reverse=True))), 0.0)


# ---------------------------------------------------------------- exact posterior
def t_logpdf(x, mem, pr, dims):
    """Predictive density of the coordinates dims given the members of a block."""
    D = len(pr["mu"])
    if len(mem):
        (m, b, Wi, nu), = V.theta_opt(np.ones((1, len(mem))), mem, pr)
    else:
        m, b, Wi, nu = pr["mu"], pr["lam"], pr["psi"], pr["nu"]
    df = nu - D + 1
    S = Wi * (b + 1) / (b * df)
    return np.atleast_1d(stats.multivariate_t.logpdf(x, m[dims], S[np.ix_(dims, dims)], df))


def exact(s, y, pr, X, dims_list):
    """Posterior of the statistics; also the prior co-clustering probability."""
    n = len(y)
    parts = refs.set_partitions(n)
    lp, prior = [], []
    for p in parts:
        sizes = np.bincount(p)
        q = prob(s, sizes)
        prior.append(q)
        lp.append(np.log(q) + sum(V.log_marginal_niw(y[np.array(p) == b], pr) for b in range(len(sizes))) if q > 0 else -np.inf)
    lp = np.array(lp) - logsumexp(lp)
    P = np.exp(lp)
    eq = {(i, j): np.array([p[i] == p[j] for p in parts], float) for i in range(n) for j in range(i)}
    out = {"co%d%d" % ij: float(v @ P) for ij, v in eq.items()}
    ng = np.array([max(p) + 1 for p in parts])
    out["groups"] = float(ng @ P)
    out["one group"] = float(P[ng == 1].sum())
    dens = [np.zeros(len(X)) for _ in dims_list]
    for p, w, q in zip(parts, P, prior):
        if w <= 0:
            continue
        sizes = np.bincount(p)
        for b in range(len(sizes) + 1):
            ext = np.append(sizes, 0)
            ext[b] += 1
            c = w * prob(s, ext[ext > 0]) / q
            mem = y[np.array(p) == b] if b < len(sizes) else y[:0]
            for i, dims in enumerate(dims_list):
                if c > 0:
                    dens[i] += c * np.exp(t_logpdf(X[:, dims], mem, pr, dims))
    for i, v in enumerate(dens):
        for j, d in enumerate(v):
            out["density %d at %d" % (i, j)] = float(d)
    return out, float(sum(q for p, q in zip(parts, prior) if p[0] == p[1]) / sum(prior))


# ---------------------------------------------------------------- chains
def chain(s, y, pr, case, X, dims_list, seed, iters):
    sub = case["sub"]
    burn = max(20, iters // 5)
    total = burn + iters
    if case["warm"]:
        total = burn + iters // 2
    init = case["init"]
    if init == "variational" and s["m"] not in M.VARIATIONAL:
        init = "random"
    kw = {"init_method": init}
    if case["groups"]:
        kw["init_groups"] = case["groups"] if s["m"] not in M.FINITE else min(case["groups"], s["n"])
    u = np.ones(y.shape[1])
    u[-1] = 10.0 ** case["unit"]     # the chain runs in other units of the last feature
    args = dict(mu_prior=pr["mu"] * u, lambda_prior=pr["lam"], psi_prior=pr["psi"] * np.outer(u, u), nu_prior=pr["nu"], subsample_steps=sub)
    m = M.mixture(s, seed, total_iter=total, burn_in=burn, **args)
    m.fit_gibbs(y * u, **kw)
    if case["warm"]:
        m.burn_in, m.total_iter = 0, iters - iters // 2
        m.fit_gibbs(y * u, warm_start=True)
    A = np.asarray(m.gibbs_eap_affinity_matrix())
    n = len(y)
    out = {"co%d%d" % (i, j): A[i, j] for i in range(n) for j in range(i)}
    ng = np.asarray(m.get_n_groups())
    out["groups"] = ng.mean()
    out["one group"] = np.mean(ng == 1)
    rest = 1 - np.mean([np.sum(p["w"]) for p in m.get_sim_params()])
    for i, dims in enumerate(dims_list):
        d = m.gibbs_eap_density((X * u)[:, dims], dim=None if len(dims) == y.shape[1] else (dims if len(dims) > 1 else dims[0]))
        d = d * np.prod(u[dims]) + rest * np.exp(t_logpdf(X[:, dims], y[:0], pr, dims))
        for j, v in enumerate(d):
            out["density %d at %d" % (i, j)] = v
    return out


class _Slow(BaseException):
    pass


def _slow(signum, frame):
    raise _Slow()


def timed_chain(rec, s, y, pr, case, X, dims_list, key, T):
    """A chain, started anew if it needs excessively many weights: the shared fractions of a beta-in-Dirichlet structure can be so small that an
    iteration takes minutes (probability about 1e-4 per chain, so leaving such chains out does not show)."""
    old = signal.signal(signal.SIGPROF, _slow)
    try:
        for again in range(4):
            signal.setitimer(signal.ITIMER_PROF, 15)
            try:
                return chain(s, y, pr, case, X, dims_list, derive_seed(*key, *[again] * (again > 0)) % 2 ** 31, T)
            except _Slow:
                rec.count("chain replaced")
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
    finally:
        signal.signal(signal.SIGPROF, old)
    raise Inconclusive("four chains in a row needed more than 15 s of CPU time")


STAGES = [(24, 220, 5e-3), (40, 400, 1e-3), (64, 500, 1e-10)]


def setup(case):
    D = case["D"]
    g = np.random.default_rng([case["seed"], 21])
    y = np.round(g.normal(size=(case["n"], D)) * case["spread"], 2)
    A = np.eye(D) + 0.4 * np.tril(g.normal(size=(D, D)), -1)
    pr = {"mu": np.round(g.normal(size=D) * 0.4, 2), "lam": case["lam"], "psi": np.round(A @ A.T * case["psi"], 3), "nu": float(D + case["nu"])}
    X = np.concatenate([y[:1] + 0.2, np.round(g.normal(size=(1, D)) * 1.5, 2)])
    dims_list = [list(range(D))] + ([[1]] if D == 2 else [])
    return y, pr, X, dims_list


def check(case, rec, stages=STAGES):
    if not case["go"]:      # Hypothesis starts each shard with the simplest case
        rec.classify("skipped")
        return
    s = case["spec"]
    y, pr, X, dims_list = setup(case)
    want, prior = exact(s, y, pr, X, dims_list)
    co = [v for k, v in want.items() if k.startswith("co")]
    rec.nontriv(max(abs(v - prior) for v in co) > 0.05 and any(0.02 < v < 0.98 for v in co))
    rec.classify("model " + s["m"], "init " + case["init"], "warm" if case["warm"] else "", "thinned" if case["sub"] > 1 else "", "%d points" % len(y), "D=%d" % y.shape[1], "other units" if case["unit"] else "")
    sus = None
    for level, (C, T, cut) in enumerate(stages):
        got = [timed_chain(rec, s, y, pr, case, X, dims_list, ("C07", case["seed"], level, c), T) for c in range(C)]
        bad = {}
        for k, v in want.items():
            x = np.array([r[k] for r in got])
            require(np.all(np.isfinite(x)), "%s: %s not finite", s["m"], k)
            se = np.std(x, ddof=1) / np.sqrt(C)
            # numerical error of the exact value (Monte Carlo partition probabilities)
            slack = (0.004 if s["m"] in ("BD", "BE", "BN") else 1e-4) * max(abs(v), 1e-3 if k.startswith("density") else 1)
            dev = max(0.0, abs(x.mean() - v) - slack)
            p = 2 * stats.t.sf(dev / se, C - 1) if se > 0 else (0.0 if dev > 1e-6 else 1.0)
            if sus is None:
                rec.count("statistics")
            if p < cut and (sus is None or k in sus):
                bad[k] = (p, x.mean(), v, se)
        if not bad:
            return
        sus = set(bad)
        if level + 1 < len(stages):
            rec.count("stage %d" % (level + 2))
    k = min(bad, key=lambda z: bad[z][0])
    p, mean, v, se = bad[k]
    fail("%s with %s, y=%s, priors %s, init %s: Gibbs average of '%s' is %.4f (standard error %.4f) instead of %.4f (p=%.1e, %d iterations)",
         s["m"], {a: b for a, b in s.items() if a != "m"}, y.tolist(), {a: np.asarray(b).tolist() for a, b in pr.items()}, case["init"], k, mean, se, v, p,
         stages[-1][0] * stages[-1][1])


MODELS = {
    "DP": st.fixed_dictionaries({"m": st.just("DP"), "alpha": st.sampled_from([0.5, 1, 2.0])}),
    "PY": st.fixed_dictionaries({"m": st.just("PY"), "pyd": st.sampled_from([0, 0.1, 0.2]), "alpha": st.sampled_from([0.5, 1.0])}),
    "GP": st.fixed_dictionaries({"m": st.just("GP"), "a": st.sampled_from([3.0, 4.0]), "b": st.sampled_from([1.0, 2.0])}),
    "BB": st.one_of(st.fixed_dictionaries({"m": st.just("BB"), "x": st.just(0), "alpha": st.sampled_from([0.5, 2.0]), "a": st.just(2.0), "b": st.just(1.0), "p": st.just(0.5), "p_method": st.just("geometric")}),
                    st.fixed_dictionaries({"m": st.just("BB"), "x": st.just(1), "alpha": st.just(1.0), "a": st.sampled_from([3.0, 4.0]), "b": st.sampled_from([1.0, 2.0]), "p": st.just(0.5), "p_method": st.just("geometric")})),
    "BD": st.fixed_dictionaries({"m": st.just("BD"), "alpha": st.sampled_from([0.5, 1.0]), "a": st.sampled_from([0, 1.0, 4.0])}),
    "BE": st.fixed_dictionaries({"m": st.just("BE"), "p": st.sampled_from([0.4, 0.8, 1]), "alpha": st.sampled_from([0.5, 1.0])}),
    "BN": st.fixed_dictionaries({"m": st.just("BN"), "n": st.sampled_from([0, 2, 5]), "alpha": st.sampled_from([0.5, 1.0])}),
    "DD": st.one_of(st.fixed_dictionaries({"m": st.just("DD"), "n": st.just(3), "alpha": st.sampled_from([0.6, 1.0, 3])}),
                    st.fixed_dictionaries({"m": st.just("DD"), "n": st.just(2), "alpha": st.just([0.7, 2.5])}),
                    st.fixed_dictionaries({"m": st.just("DD"), "n": st.just(3), "alpha": st.just([2.0, 1.0, 0.5])})),
    "EQ": st.fixed_dictionaries({"m": st.just("EQ"), "n": st.sampled_from([2, 3, 4])})}


def cases(kinds):
    return st.fixed_dictionaries({
        "spec": st.one_of(*[MODELS[k] for k in kinds]), "n": st.sampled_from([3, 4, 2]), "D": st.sampled_from([1, 2]), "spread": st.sampled_from([0.7, 1.3]),
        "lam": st.sampled_from([0.5, 1, 2.0]), "psi": st.sampled_from([0.4, 1.0]), "nu": st.sampled_from([1, 2, 4.5]), "seed": M.seeds,
        "init": st.sampled_from(["kmeans", "random", "random", "variational"]), "groups": st.sampled_from([0, 0, 1, 3]), "sub": st.sampled_from([1, 1, 2, 3]), "warm": st.booleans(),
        "unit": st.sampled_from([0, 0, 0, 6]), "go": st.integers(0, 1000)})


SUBS = [Sub(k, cases([k]), check, quick=2 * q, thorough=16 * q, cpu_s=2000, shards=q, shrink=False)
        for k, q in (("DP", 3), ("PY", 3), ("GP", 3), ("BB", 2), ("BD", 3), ("BE", 3), ("BN", 3), ("DD", 4), ("EQ", 2))]
_ = require
