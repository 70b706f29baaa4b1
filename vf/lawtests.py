"""Comparison of samples of weight vectors with a reference sampler."""
import itertools

import numpy as np

from .core import binom_p_2, ks_2samp, require, two_stage
from .refs import w_to_sticks


def features(W, sequential=False, idx=None):
    """Named scalar features of n weight vectors (n, k); 'tie' features are 0/1.  idx: the positions looked at (all)."""
    W = np.asarray(W, float)
    rem = 1 - np.concatenate([np.zeros((len(W), 1)), np.cumsum(W, axis=1)[:, :-1]], axis=1)
    V = np.where(rem > 1e-6, w_to_sticks(W), 0.5)  # fractions of a vanishing rest are numerical noise
    V = np.round(V, 7)
    out = {}
    if idx is not None:
        out["rest"] = np.round(rem[:, -1], 10)
        out["mean fraction"] = np.round(V.mean(axis=1), 7)
        out["number of ties"] = (np.abs(V[:, 1:] - V[:, :-1]) < 1e-6).sum(axis=1).astype(float)
        out["number of distinct fractions"] = 1.0 + (np.diff(np.sort(V, axis=1), axis=1) > 1e-6).sum(axis=1)
    names = list(range(W.shape[1])) if idx is None else list(idx)
    W, V = W[:, names], V[:, names]
    k = len(names)
    for j in range(k):
        out["weight %d" % j] = np.round(W[:, j], 10)
        if j:
            out["fraction %d" % j] = V[:, j]
    pairs = list(itertools.combinations(range(k), 2))
    for i, j in pairs:
        dif = V[:, i] - V[:, j]
        out["tie %d,%d" % (i, j)] = (np.abs(dif) < 1e-6).astype(float)
        out["difference of fractions %d,%d" % (i, j)] = np.round(dif, 6)
        out["product of fractions %d,%d" % (i, j)] = np.round(V[:, i] * V[:, j], 7)
    for i, j, l in itertools.combinations(range(k), 3):
        out["tie %d,%d,%d" % (i, j, l)] = ((np.abs(V[:, i] - V[:, j]) < 1e-6) & (np.abs(V[:, j] - V[:, l]) < 1e-6)).astype(float)
    if sequential:
        for j in (0, k - 1):
            out["consecutive draws of fraction %d" % j] = np.round(V[1:, j] * V[:-1, j], 7)
            out["consecutive draws of fraction %d apart" % j] = np.round(V[1::2, j] - V[:-1:2, j], 6)
    return out


def compare(draw, ref, rec, n1, n2, what, seed, sequential=False, extra=None, mult=5, idx=None):
    """draw(n) -> (n,k) weights from the code; ref(n, rng) -> (n,k) reference weights."""

    def run(n, stage):
        got = np.asarray(draw(n), float)
        want = np.asarray(ref(mult * n, np.random.default_rng([seed, stage, 77])), float)
        require(got.shape[1] == want.shape[1], "%s: %d weights instead of %d", what, got.shape[1], want.shape[1])
        require(np.all(np.isfinite(got)), "%s: weights are not finite", what)
        f, g = features(got, sequential, idx), features(want, sequential, idx)
        if extra is not None:
            f.update(extra(got, "got"))
            g.update(extra(want, "ref"))
        res = []
        for name in f:
            x, y = f[name], g[name]
            if name.startswith("tie"):
                p = binom_p_2(int(x.sum()), len(x), int(y.sum()), len(y))
                det = "frequency %.4f, expected %.4f" % (x.mean(), y.mean())
            else:
                p, d = ks_2samp(x, y)
                det = "KS distance %.4f; mean %.5g, expected %.5g" % (d, x.mean(), y.mean())
            res.append((name, p, det))
        return res

    two_stage(run, rec, n1, n2, what)
