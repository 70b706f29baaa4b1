"""Reference variational weight factors: optimal q(w) given responsibilities and expectations under it."""
import numpy as np
from scipy.special import betaln, digamma, gammaln, xlogy

from .refs import alpha_vec


class BetaQ:
    def __init__(self, a, b):
        self.a, self.b = np.asarray(a, float), np.asarray(b, float)
        self.elog = digamma(self.a) - digamma(self.a + self.b)
        self.elog1 = digamma(self.b) - digamma(self.a + self.b)
        self.mean = self.a / (self.a + self.b)

    def elogpdf(self, a, b):
        """E_q log Beta(v; a, b)"""
        return (a - 1) * self.elog + (b - 1) * self.elog1 - betaln(a, b)

    def mode(self):
        out = []
        for a, b in zip(np.atleast_1d(self.a), np.atleast_1d(self.b)):
            if a <= 1 and b <= 1:
                out.append(None)
            elif a <= 1:
                out.append(0.0)
            elif b <= 1:
                out.append(1.0)
            else:
                out.append((a - 1) / (a + b - 2))
        return out


class WeightQ:
    """q(w) given responsibilities R (k, n)."""

    def __init__(self, s, R):
        R = np.asarray(R, float)
        self.s, self.k, self.n = s, R.shape[0], R.shape[1]
        self.N = R.sum(axis=1)
        N = self.N
        after = np.array([N[j + 1:].sum() for j in range(self.k)])
        m = s["m"]
        k = self.k
        if m == "DD":
            self.alpha0 = alpha_vec(s)
            self.post = self.alpha0 + N
        elif m == "DP":
            self.q = BetaQ(1 + N[:k - 1], s["alpha"] + after[:k - 1])
            self.pr = (np.ones(k - 1), np.full(k - 1, float(s["alpha"])))
        elif m == "PY":
            j = np.arange(1, k + 1)
            self.q = BetaQ(1 - s["pyd"] + N, s["alpha"] + j * s["pyd"] + after)
            self.pr = (np.full(k, 1.0 - s["pyd"]), s["alpha"] + j * s["pyd"])
        elif m == "GP":
            self.q = BetaQ(s["a"] + self.n, s["b"] + np.sum(np.arange(k) * N))

    def params(self):
        m = self.s["m"]
        if m == "DD":
            return self.post
        if m in ("DP", "PY", "GP"):
            return np.stack([np.atleast_1d(self.q.a), np.atleast_1d(self.q.b)], axis=-1)
        return None

    def freq(self):
        return np.full(self.k, 1 / self.k) if self.n == 0 else self.N / self.N.sum()

    def elogw(self):
        m, k = self.s["m"], self.k
        if m == "DD":
            return digamma(self.post) - digamma(self.post.sum())
        if m in ("DP", "PY"):
            prev = np.concatenate([[0.0], np.cumsum(self.q.elog1)])[:k]
            own = np.append(self.q.elog, 0.0)[:k]
            return prev + own
        if m == "GP":
            return self.q.elog + np.arange(k) * self.q.elog1
        if m == "EQ":
            return np.full(k, -np.log(k))
        with np.errstate(divide="ignore"):
            return np.log(self.freq())

    def ew(self):
        m, k = self.s["m"], self.k
        if m == "DD":
            return self.post / self.post.sum()
        if m in ("DP", "PY"):
            prev = np.concatenate([[1.0], np.cumprod(1 - self.q.mean)])[:k]
            return prev * np.append(self.q.mean, 1.0)[:k]
        if m == "GP":
            j = np.arange(k)
            return np.exp(betaln(self.q.a + 1, self.q.b + j) - betaln(self.q.a, self.q.b))
        if m == "EQ":
            return np.full(k, 1 / k)
        return self.freq()

    def elog_pd(self, R):
        N = np.asarray(R, float).sum(axis=1)
        if self.s["m"] == "FR":
            return np.sum(xlogy(N, self.freq()))
        return np.sum(N * self.elogw())

    def elog_pw(self):
        m = self.s["m"]
        if m == "DD":
            a = self.alpha0
            return gammaln(a.sum()) - gammaln(a).sum() + np.sum((a - 1) * self.elogw())
        if m in ("DP", "PY"):
            return float(np.sum(self.q.elogpdf(*self.pr)))
        if m == "GP":
            return float(self.q.elogpdf(self.s["a"], self.s["b"]))
        return 0.0

    def elog_qw(self):
        m = self.s["m"]
        if m == "DD":
            a = self.post
            return gammaln(a.sum()) - gammaln(a).sum() + np.sum((a - 1) * self.elogw())
        if m in ("DP", "PY", "GP"):
            return float(np.sum(self.q.elogpdf(self.q.a, self.q.b)))
        return 0.0

    def mode_w(self):
        """Modal weights; None where a needed fraction has no mode."""
        m, k = self.s["m"], self.k
        if m == "DD":
            return [BetaQ(a, self.post.sum() - a).mode()[0] if k > 1 else (1.0 if a > 1 else None) for a in self.post]
        if m in ("DP", "PY"):
            v = self.q.mode() + ([1.0] if m == "DP" else [])
            out = []
            for j in range(k):
                pre = v[:j]
                if any(x == 1.0 for x in pre) and not any(x is None for x in pre[:pre.index(1.0)]):
                    out.append(0.0)
                elif any(x is None for x in v[:j + 1]):
                    out.append(None)
                else:
                    out.append(float(np.prod([1 - x for x in pre]) * v[j]))
            return out
        if m == "GP":
            p = self.q.mode()[0]
            return [None] * k if p is None else [float((1 - p) ** j * p) for j in range(k)]
        return list(self.ew())
