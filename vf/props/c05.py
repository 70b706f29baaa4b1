import numpy as np
from hypothesis import strategies as st
from scipy.special import betaln, gammaln, xlog1py, xlogy
from scipy.stats import beta, betabinom, binom, dirichlet

from .. import history as H
from .. import models as M
from .. import refs
from ..core import Sub, require, require_close

PROPERTY = "C05"
RULE = ("A case is a weighting model with its parameters (nested special cases included), a history of fits, draws, completions and tail "
        "requests, and label vectors; after each draw the reported log-likelihood is compared with the log density computed from the "
        "weights alone (inner parameter and link counts read from their public attributes), and the assignment log-likelihood with the sum "
        "of log weights. Non-trivial: a comparison on at least three weights was made.")
ASSUMPTIONS = ["structures whose unassigned rest is below 1e-7 are skipped: their fractions cannot be recovered from the weights",
               "labels beyond the components of a fixed-size model are outside the domain"]


def reference_ll(s, wm):
    w = np.asarray(wm.get_weights(), float)
    m = s["m"]
    if m in ("EQ", "FR"):
        return 0.0
    if m == "DD":
        a = refs.alpha_vec(s)
        if np.any(w <= 0):
            return None
        return gammaln(a.sum()) - gammaln(a).sum() + np.sum((a - 1) * np.log(w))
    if 1 - w[:-1].sum() < 1e-7:
        return None
    v = refs.w_to_sticks(w)
    if m == "GP":
        return beta.logpdf(w[0], s["a"], s["b"])
    if m == "BB" and s["x"] == 1:
        return beta.logpdf(w[0], s["a"], s["b"])
    if np.any(v >= 1) or np.any(v <= 0) or 1 - w.sum() < 1e-9:
        return None
    if m == "DP" or (m == "BB" and s["x"] == 0):
        return np.sum(beta.logpdf(v, 1, s["alpha"]))
    if m == "PY":
        j = np.arange(1, len(v) + 1)
        return np.sum(beta.logpdf(v, 1 - s["pyd"], s["alpha"] + j * s["pyd"]))
    if m == "BB":
        c = s["x"] / (1 - s["x"])
        p = float(np.asarray(wm.p))
        return np.sum(beta.logpdf(v, 1 + c * p, s["alpha"] + c * (1 - p))) + beta.logpdf(p, s["a"], s["b"])
    tol = 1e-7
    if m == "BE":
        ch = np.abs(np.diff(v)) > tol
        return (beta.logpdf(v[0], 1, s["alpha"]) + np.sum(beta.logpdf(v[1:][ch], 1, s["alpha"]))
                + np.sum(xlogy(ch, s["p"]) + xlog1py(~ch, -s["p"])))
    if m == "BD":
        left = list(v)
        sizes, atoms = [], []
        while left:
            x = left[0]
            g = [y for y in left if abs(y - x) <= tol]
            left = [y for y in left if abs(y - x) > tol]
            sizes.append(len(g))
            atoms.append(x)
        r = np.sum(beta.logpdf(np.array(atoms), 1, s["alpha"]))
        return r + (refs.log_eppf_dp(sizes, s["a"]) if s["a"] > 0 else 0.0)
    if m == "BN":
        b = np.asarray(wm.binomials)
        require(len(b) == len(v), "%d link counts for %d fractions", len(b), len(v))
        require(np.all((b >= 0) & (b <= s["n"])), "link counts %s out of range", b)
        r = betabinom.logpmf(b[0], s["n"], 1, s["alpha"])
        r += np.sum(binom.logpmf(b[1:], s["n"], v[:-1]))
        return r + np.sum(beta.logpdf(v, 1 + b, s["alpha"] + s["n"] - b))
    raise KeyError(m)


def check(case, rec):
    s = case["spec"]
    wm = M.weight(s, case["seed"])
    fixed = M.n_fixed(s)
    fitted = None
    rec.classify("model " + s["m"])
    fresh_labels = False
    for i, op in enumerate(case["ops"]):
        where = "%s, step %d %s" % (s["m"], i, op)
        name = op[0]
        if name == "fit":
            fitted = [v % s["n"] for v in op[1]] if fixed is not None else op[1]
            wm.fit(fitted)
            fresh_labels = True
        elif name == "reset":
            wm.reset()
            fitted = None
            fresh_labels = True
        elif name == "random":
            wm.random(op[1] if op[1] or fitted is not None else 3)
            fresh_labels = False
        elif name == "complete":
            wm.complete(op[1])
        elif name == "tail":
            if len(wm.get_weights()) and wm.get_weights()[0] > 0.01:
                wm.tail(op[1])
        elif name == "assign":
            if not len(wm.get_weights()):
                continue
            if fixed is not None:
                k = max(fitted) + 1 if s["m"] == "FR" and fitted is not None else s["n"]
                lab = [v % k for v in op[1]]
            else:
                lab = [int(v * op[2]) for v in op[1]]
            before = np.array(wm.get_weights(), float)
            got = wm.assignation_log_likelihood(np.array(lab) if op[3] else lab)
            w = np.asarray(wm.get_weights(), float)
            require(len(w) > max(lab), "%s: %d weights for label %d", where, len(w), max(lab))
            if not (s["m"] == "FR" and fresh_labels):
                require(np.array_equal(w[:len(before)], before), "%s: weights changed", where)
            want = np.sum(np.log(w[lab]))
            require_close(got, want, where + ": assignment log-likelihood", rtol=1e-9, atol=1e-9)
            if want == -np.inf:
                rec.count("minus infinity")
            elif len(w) > len(before):
                rec.count("completed by labels")
            continue
        elif name == "assign fitted":
            if fitted is None or not len(wm.get_weights()):
                continue
            got = wm.assignation_log_likelihood()
            want = np.sum(np.log(np.asarray(wm.get_weights(), float)[list(fitted)]))
            require_close(got, want, where + ": assignment log-likelihood of the fitted labels", rtol=1e-9, atol=1e-9)
            continue
        if not len(wm.get_weights()):
            continue
        want = reference_ll(s, wm)
        if want is None or not np.isfinite(want):
            rec.count("skipped")
            continue
        got = wm.weighting_log_likelihood()
        w = np.asarray(wm.get_weights(), float)
        require(np.ndim(got) == 0 or np.size(got) == 1, "%s: log-likelihood is not a number: %r", where, got)
        require_close(float(np.asarray(got).reshape(())), float(want), "%s: log-likelihood of %d weights" % (where, len(w)), rtol=1e-4, atol=1e-4)
        rec.count("compared")
        rec.count("compared with data" if fitted is not None else "compared without data")
        rec.nontriv(len(w) >= 3)


NESTED = {
    "PY": st.one_of(st.fixed_dictionaries({"m": st.just("PY"), "pyd": st.just(0), "alpha": M.pos(0.3, 5)}), M.py_params()),
    "BN": st.fixed_dictionaries({"m": st.just("BN"), "n": st.one_of(st.just(0), st.integers(0, 8)), "alpha": M.pos(0.3, 6)}),
    "BE": st.fixed_dictionaries({"m": st.just("BE"), "p": st.one_of(st.just(1), st.just(0), M.unit(0.02, 0.98)), "alpha": M.pos(0.3, 6)}),
    "GP": st.fixed_dictionaries({"m": st.just("GP"), "a": M.pos(1, 6), "b": M.pos(0.5, 6)}),
}
labels = st.one_of(*[st.lists(st.integers(0, 5), min_size=1, max_size=10)] * 9, st.lists(st.sampled_from([0, 1, 3, 9, 18]), min_size=20, max_size=70))
op = st.one_of(
    st.tuples(st.just("fit"), labels), st.tuples(st.just("reset")),
    st.tuples(st.just("random"), st.one_of(st.none(), st.integers(1, 8))), st.tuples(st.just("random"), st.one_of(st.none(), st.integers(3, 8))),
    st.tuples(st.just("complete"), st.one_of(st.integers(1, 9), st.integers(1, 9), st.sampled_from([2, 25, 60]))), st.tuples(st.just("tail"), st.sampled_from([0.3, 0.8, 0.95])),
    st.tuples(st.just("assign"), labels, st.sampled_from([1, 1, 2, 400]), st.booleans()), st.tuples(st.just("assign fitted"))).map(list)
cases = st.fixed_dictionaries({"spec": M.spec(override=NESTED), "ops": st.lists(op, min_size=2, max_size=9), "seed": M.seeds})

SUBS = [Sub("likelihoods", cases, check, quick=6000, thorough=80000)]
_ = (betaln, dirichlet, H)
