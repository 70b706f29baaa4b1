"""Reference models written from the definitions, independently of the code under test."""
import numpy as np
from scipy.special import betaln, digamma, gammaln


def sticks_to_w(v):
    v = np.asarray(v, dtype=float)
    rem = np.cumprod(1 - v, axis=-1)
    rem = np.concatenate([np.ones(v.shape[:-1] + (1,)), rem[..., :-1]], axis=-1)
    return v * rem


def w_to_sticks(w):
    """Fractions v_j = w_j / (1 - w_1 - ... - w_{j-1}), computed by peeling off fractions."""
    w = np.asarray(w, dtype=float)
    out = np.empty_like(w)
    rem = np.ones(w.shape[:-1])
    for j in range(w.shape[-1]):
        with np.errstate(all="ignore"):
            out[..., j] = np.where(rem > 0, w[..., j] / rem, 0.0)
        rem = rem * (1 - out[..., j])
    return np.clip(out, 0, 1)


def alpha_vec(s):
    a = s["alpha"]
    return np.array(a, float) if isinstance(a, list) else np.full(s["n"], float(a))


def prior_sticks(s, n, k, rng):
    """n independent prior draws of the first k stick fractions."""
    m = s["m"]
    if m == "DP":
        return rng.beta(1, s["alpha"], size=(n, k))
    if m == "PY":
        j = np.arange(1, k + 1)
        return rng.beta(1 - s["pyd"], s["alpha"] + j * s["pyd"], size=(n, k))
    if m == "GP":
        return np.repeat(rng.beta(s["a"], s["b"], size=(n, 1)), k, axis=1)
    if m == "BB":
        x = s["x"]
        if x == 0:
            return rng.beta(1, s["alpha"], size=(n, k))
        p = rng.beta(s["a"], s["b"], size=(n, 1))
        if x == 1:
            return np.repeat(p, k, axis=1)
        c = x / (1 - x)
        return rng.beta(1 + c * p, s["alpha"] + c * (1 - p), size=(n, k))
    if m == "BD":
        out = np.empty((n, k))
        out[:, 0] = rng.beta(1, s["alpha"], size=n)
        for j in range(1, k):
            # Blackwell-MacQueen urn: copy a uniformly chosen earlier fraction or draw a new one
            new = rng.uniform(size=n) < s["a"] / (s["a"] + j)
            pick = rng.integers(0, j, size=n)
            out[:, j] = np.where(new, rng.beta(1, s["alpha"], size=n), out[np.arange(n), pick])
        return out
    if m == "BE":
        out = np.empty((n, k))
        out[:, 0] = rng.beta(1, s["alpha"], size=n)
        for j in range(1, k):
            new = rng.uniform(size=n) < s["p"]
            out[:, j] = np.where(new, rng.beta(1, s["alpha"], size=n), out[:, j - 1])
        return out
    if m == "BN":
        out = np.empty((n, k))
        out[:, 0] = rng.beta(1, s["alpha"], size=n)
        for j in range(1, k):
            b = rng.binomial(s["n"], out[:, j - 1])
            out[:, j] = rng.beta(1 + b, s["alpha"] + s["n"] - b)
        return out
    raise KeyError(m)


def prior_weights(s, n, k, rng):
    m = s["m"]
    if m == "DD":
        return rng.dirichlet(alpha_vec(s), size=n)
    if m in ("EQ", "FR"):
        return np.full((n, s["n"]), 1 / s["n"])
    return sticks_to_w(prior_sticks(s, n, k, rng))


def label_counts(d, k):
    d = np.asarray(d)
    a = np.array([np.sum(d == j) for j in range(k)], float)
    b = np.array([np.sum(d > j) for j in range(k)], float)
    return a, b


def set_partitions(n):
    """All restricted growth strings of length n."""
    out = [[0]]
    for _ in range(n - 1):
        out = [p + [c] for p in out for c in range(max(p) + 2)]
    return out


def log_eppf_dp(sizes, a):
    n = sum(sizes)
    return len(sizes) * np.log(a) + sum(gammaln(x) for x in sizes) - gammaln(a + n) + gammaln(a)


def posterior_sticks(s, d, n, k, rng, p=None):
    """n independent exact posterior draws of the first k stick fractions given labels d.

    For BB with 0<x<1 `p` must be the value of the inner parameter (scalar or (n,1) array)."""
    m = s["m"]
    kk, k = k, max(k, int(np.max(d)) + 1)
    out = _posterior_sticks(s, d, n, k, rng, p)
    return out[:, :kk]


def _posterior_sticks(s, d, n, k, rng, p):
    m = s["m"]
    a, b = label_counts(d, k)
    if m == "DP":
        return rng.beta(1 + a, s["alpha"] + b, size=(n, k))
    if m == "PY":
        j = np.arange(1, k + 1)
        return rng.beta(1 - s["pyd"] + a, s["alpha"] + j * s["pyd"] + b, size=(n, k))
    if m == "GP":
        return np.repeat(rng.beta(s["a"] + len(d), s["b"] + np.sum(d), size=(n, 1)), k, axis=1)
    if m == "BB":
        x = s["x"]
        if x == 0:
            return rng.beta(1 + a, s["alpha"] + b, size=(n, k))
        if x == 1:
            return np.repeat(rng.beta(s["a"] + len(d), s["b"] + np.sum(d), size=(n, 1)), k, axis=1)
        c = x / (1 - x)
        return rng.beta(1 + c * p + a, s["alpha"] + c * (1 - p) + b, size=(n, k))
    if m == "BD":
        parts, lw = [], []
        L = int(np.max(d)) + 1 if len(d) else 1
        for g in (set_partitions(L) if s["a"] > 0 else [[0] * L]):
            g = np.array(g)
            sizes = np.bincount(g)
            A = np.bincount(g, a[:L])
            B = np.bincount(g, b[:L])
            l = log_eppf_dp(sizes, s["a"]) if s["a"] > 0 else 0.0
            l += np.sum(betaln(1 + A, s["alpha"] + B) - betaln(1, s["alpha"]))
            parts.append((g, A, B))
            lw.append(l)
        lw = np.array(lw)
        pr = np.exp(lw - lw.max())
        pr /= pr.sum()
        which = rng.choice(len(parts), size=n, p=pr)
        out = np.empty((n, max(k, L)))
        for i, (g, A, B) in enumerate(parts):
            idx = np.flatnonzero(which == i)
            if len(idx):
                atoms = rng.beta(1 + A, s["alpha"] + B, size=(len(idx), len(A)))
                out[idx[:, None], np.arange(L)] = atoms[:, g]
        for j in range(L, k):
            new = rng.uniform(size=n) < s["a"] / (s["a"] + j)
            pick = rng.integers(0, j, size=n)
            out[:, j] = np.where(new, rng.beta(1, s["alpha"], size=n), out[np.arange(n), pick])
        return out[:, :k]
    if m == "BE" and np.max(d) > 6:
        return _be_long(s, a, b, int(np.max(d)) + 1, n, k, rng)
    if m == "BE":
        L = int(np.max(d)) + 1
        pats, lw = [], []
        for code in range(2 ** (L - 1)):
            change = np.array([0] + [(code >> i) & 1 for i in range(L - 1)])
            nch = change.sum()
            if (s["p"] == 0 and nch) or (s["p"] == 1 and nch < L - 1):
                continue
            g = np.cumsum(change)
            A = np.bincount(g, a[:L])
            B = np.bincount(g, b[:L])
            l = np.sum(betaln(1 + A, s["alpha"] + B) - betaln(1, s["alpha"]))
            if 0 < s["p"] < 1:
                l += nch * np.log(s["p"]) + (L - 1 - nch) * np.log1p(-s["p"])
            pats.append((g, A, B))
            lw.append(l)
        lw = np.array(lw)
        pr = np.exp(lw - lw.max())
        pr /= pr.sum()
        which = rng.choice(len(pats), size=n, p=pr)
        out = np.empty((n, max(k, L)))
        for i, (g, A, B) in enumerate(pats):
            idx = np.flatnonzero(which == i)
            if len(idx):
                atoms = rng.beta(1 + A, s["alpha"] + B, size=(len(idx), len(A)))
                out[idx[:, None], np.arange(L)] = atoms[:, g]
        for j in range(L, k):
            new = rng.uniform(size=n) < s["p"]
            out[:, j] = np.where(new, rng.beta(1, s["alpha"], size=n), out[:, j - 1])
        return out[:, :k]
    if m == "BN":
        # enumerate all link counts between consecutive fractions (L-1 links, n+1 values each)
        L = int(np.max(d)) + 1
        N, al = s["n"], s["alpha"]
        grids = np.indices((N + 1,) * (L - 1)).reshape(L - 1, -1).T if L > 1 else np.zeros((1, 0), int)
        lbin = gammaln(N + 1) - gammaln(np.arange(N + 1) + 1) - gammaln(N - np.arange(N + 1) + 1)
        prev = np.concatenate([np.full((len(grids), 1), -1), grids], axis=1)   # link into fraction j
        nxt = np.concatenate([grids, np.full((len(grids), 1), -1)], axis=1)    # link out of fraction j
        pb = np.where(prev >= 0, prev, 0)
        pn = np.where(prev >= 0, N, 0)
        ob = np.where(nxt >= 0, nxt, 0)
        on = np.where(nxt >= 0, N, 0)
        A = 1 + pb + ob + a[:L]
        B = al + (pn - pb) + (on - ob) + b[:L]
        lw = np.sum(betaln(A, B) - betaln(1 + pb, al + pn - pb), axis=1) + lbin[grids].sum(axis=1)
        pr = np.exp(lw - lw.max())
        pr /= pr.sum()
        which = rng.choice(len(grids), size=n, p=pr)
        out = np.empty((n, max(k, L)))
        out[:, :L] = rng.beta(A[which], B[which])
        for j in range(L, k):
            bb = rng.binomial(N, out[:, j - 1])
            out[:, j] = rng.beta(1 + bb, al + N - bb)
        return out[:, :k]
    raise KeyError(m)


def _be_long(s, a, b, L, n, k, rng):
    """Beta-Bernoulli posterior for many groups, by a recursion over the runs of equal fractions."""
    al, p = s["alpha"], s["p"]
    lp = np.log(p) if p > 0 else -np.inf
    lq = np.log1p(-p) if p < 1 else -np.inf
    run = np.full((L, L + 1), -np.inf)      # a run of groups i..e-1
    for i in range(L):
        for e in range(i + 1, L + 1):
            run[i, e] = betaln(1 + a[i:e].sum(), al + b[i:e].sum()) - betaln(1, al) + (lq * (e - i - 1) if e - i > 1 else 0) + (lp if e < L else 0)
    z = np.zeros(L + 1)
    for i in range(L - 1, -1, -1):
        z[i] = np.logaddexp.reduce(run[i, i + 1:] + z[i + 1:])
    out = np.empty((n, k))
    at = np.zeros(n, int)                   # where the next run of each draw begins
    for i in range(L):
        idx = np.flatnonzero(at == i)
        if not len(idx):
            continue
        pr = np.exp(run[i, i + 1:] + z[i + 1:] - z[i])
        ends = i + 1 + rng.choice(L - i, size=len(idx), p=pr / pr.sum())
        for e in np.unique(ends):
            rows = idx[ends == e]
            out[rows, i:e] = rng.beta(1 + a[i:e].sum(), al + b[i:e].sum(), size=(len(rows), 1))
        at[idx] = ends
    for j in range(L, k):
        new = rng.uniform(size=n) < p
        out[:, j] = np.where(new, rng.beta(1, al, size=n), out[:, j - 1])
    return out


def normal_logpdf(x, mu, S):
    """Log density of a normal distribution at the rows of x, feature by feature given the earlier ones, in extended precision; and the error that
    rounding may make in double precision."""
    S, mu = np.atleast_2d(np.asarray(S, float)), np.atleast_1d(np.asarray(mu, float))
    D = len(mu)
    x = np.asarray(x, float).reshape(-1, D)
    sd = np.sqrt(np.diagonal(S))
    A, E = S.astype(np.longdouble), x.astype(np.longdouble) - mu
    lp, maha = np.zeros(len(x), np.longdouble), np.zeros(len(x), np.longdouble)
    for i in range(D):
        v = A[i, i]
        z = E[:, i] ** 2 / v
        lp -= (np.log(2 * np.pi * v) + z) / 2
        maha += z
        b = A[i + 1:, i] / v
        E[:, i + 1:] -= E[:, [i]] * b
        A[i + 1:, i + 1:] -= np.outer(b, A[i, i + 1:])
    worst = float(np.linalg.cond(S / np.outer(sd, sd)))
    return lp.astype(float), 1e-14 * worst * (1 + maha.astype(float))
