import numpy as np
from hypothesis import strategies as st
from scipy.stats import beta

from .. import history as H
from .. import models as M
from .. import refs
from ..core import Sub, fail, ks_1samp, require, require_close, two_stage
from ..lawtests import compare

PROPERTY = "C04"
RULE = ("A case is a weighting model, its parameters, labels d (up to 12 labels of up to 5 groups, replicated up to 200 times), an earlier "
        "history and a draw size. Draws after fit(d) are compared with an exact posterior sampler built by enumeration of the latent "
        "structure (700 draws, confirmed with 14000 at p<1e-10); Markov chain updates are tested both from many independent chains and "
        "by one-step invariance of the joint prior; frequencies, equal weights and refusals are exact. Non-trivial: a random structure "
        "with labels in at least two groups.")
ASSUMPTIONS = ["laws are tested statistically: a deviation too small to show in 14000 draws (KS distance below about 0.03) passes",
               "p_method 'rejection-sampling' is accepted by the constructor but implemented nowhere; it is left out",
               "completions of weights drawn before the latest fit are not compared: they keep the weights of another posterior"]

SIZES = ("none", "short", "long", "exact")


def expand(case):
    s = case["spec"]
    lab = list(case["labels"]) * case["rep"]
    if s["m"] == "DD":
        lab = [v % s["n"] for v in lab]
    elif s["m"] in ("BN", "BD") or s["m"] == "BE" and "look" not in case:  # enumerated
        lab = [v % (7 if s["m"] == "BD" else 5) for v in lab]
    return lab


def size_of(case, lab):
    L = max(lab) + 1
    return {"none": None, "short": max(1, L - 1), "long": L + 2, "exact": L}[case["size"]]


def prepare(case, wm, lab, fresh=False):
    """Earlier history that must not matter (without draws, for fresh structures)."""
    s = case["spec"]
    other = case["other"] if s["m"] != "DD" else [v % s["n"] for v in case["other"]]
    for h in case["before"]:
        if fresh and h in ("fit other", "prior"):
            continue
        if h == "fit other":
            wm.fit(other)
            wm.random()
        elif h == "fit other only":
            wm.fit(np.array(other))
        elif h == "prior":
            wm.reset()
            wm.random(3)
        elif h == "reset":
            wm.reset()
    wm.fit(np.array(lab) if case["arr"] else lab)


def width(case, lab, size):
    s = case["spec"]
    if s["m"] == "DD":
        return s["n"]
    return min(size if size is not None else max(lab) + 1, 80 if "look" in case else 6)


def check_exact(case, rec):
    s = case["spec"]
    lab = expand(case)
    size = size_of(case, lab)
    rec.classify("model " + s["m"], "size " + case["size"], "rep %d" % case["rep"])
    if s["m"] in ("EQ", "FR"):
        wm = M.weight(s, case["seed"])
        prepare(case, wm, lab)
        w = wm.random(size)
        want = np.full(s["n"], 1 / s["n"]) if s["m"] == "EQ" else np.bincount(lab) / len(lab)
        require_close(w, want, "weights after fit", rtol=1e-12)
        require_close(wm.complete(len(want)), want, "completed weights after fit", rtol=1e-12)
        return
    rec.nontriv(len(set(lab)) > 1)
    via = case["via"] if s["m"] != "DD" or case["via"] != "grown" else "random"
    rec.classify("via " + via)
    if via != "random":
        size = max(lab) + 1 + 2 * (case["size"] == "long")
    k = width(case, lab, size)
    rng = np.random.default_rng(case["seed"])
    wm = M.weight(s, rng)
    prepare(case, wm, lab)

    def draw(n):
        out = []
        for i in range(n):
            if via in ("completed", "tail"):
                # a structure first drawn by a completion or a tail after the fit
                fw = M.weight(s, rng)
                prepare(case, fw, lab, True)
                if via == "tail":
                    fw.tail(case["tail"])
                w = fw.complete(k)
                out.append(np.array(w[:k]))
                continue
            if via == "grown":
                w = wm.random(1 + i % min(k, 3))
                for j in case["grow"]:
                    wm.complete(min(j, k))
                w = wm.complete(k)
                out.append(np.array(w[:k]))
                continue
            w = wm.random(size)
            if case["complete"] and case["size"] != "short" and s["m"] != "DD":
                w = wm.complete(k + 1)
                out.append(np.array(w[:k + 1]))
            else:
                out.append(np.array(w[:k]))
        return out

    idx = sorted({int(x * (k - 1)) for x in case["look"]} | {k - 1}) if "look" in case else None
    kk = k + 1 if case["complete"] and via == "random" and case["size"] != "short" and s["m"] != "DD" else k

    def ref(n, rng):
        if s["m"] == "DD":
            return rng.dirichlet(refs.alpha_vec(s) + np.bincount(lab, minlength=s["n"]), size=n)
        return refs.sticks_to_w(refs.posterior_sticks(s, lab, n, kk, rng))

    compare(draw, ref, rec, 700 if idx is None else 400, 14000 if idx is None else 6000,
            "%s posterior weights given labels %s (size %s, %s)" % (s["m"], lab[:12], size, via), case["seed"], sequential=True, idx=idx)


EXACT = M.spec(("DD", "DP", "PY", "GP", "BB", "BE", "BN", "EQ", "FR"), override={
    "BB": st.fixed_dictionaries({"m": st.just("BB"), "x": st.sampled_from([0, 1]), "alpha": M.pos(0.3, 6), "a": M.pos(0.7, 5),
                                 "b": M.pos(0.7, 5), "p": M.unit(0.05, 0.95), "p_method": st.sampled_from(["geometric", "static"])}),
    "BN": st.fixed_dictionaries({"m": st.just("BN"), "n": st.integers(0, 5), "alpha": M.pos(0.3, 6)}),
})
common = {
    "labels": st.one_of(*[st.lists(st.integers(0, 4), min_size=1, max_size=12)] * 5, st.lists(st.sampled_from([0, 1, 2, 7, 12]), min_size=1, max_size=20)), "rep": st.sampled_from([1, 1, 1, 3, 20, 200]),
    "size": st.sampled_from(SIZES), "other": st.lists(st.integers(0, 6), min_size=1, max_size=8),
    "before": st.lists(st.sampled_from(["fit other", "fit other only", "prior", "reset"]), max_size=2),
    "arr": st.booleans(), "complete": st.booleans(), "seed": M.seeds, "via": st.sampled_from(["random", "random", "random", "grown", "grown", "completed", "tail"]),
    "grow": st.lists(st.integers(1, 6), max_size=2), "tail": M.unit(0, 0.95)}
exact_cases = st.fixed_dictionaries(dict(common, spec=EXACT))

long_cases = st.fixed_dictionaries(dict(
    common, spec=M.slow(("DD", "DP", "PY", "GP", "BB", "BE", "BE"), BB=st.fixed_dictionaries(
        {"m": st.just("BB"), "x": st.sampled_from([0, 1]), "alpha": M.pos(8, 200), "a": M.pos(1, 5), "b": M.pos(30, 500), "p": M.unit(0.01, 0.05),
         "p_method": st.just("static")})),
    labels=st.one_of(st.lists(st.integers(0, 40), min_size=8, max_size=60), st.integers(8, 40).map(lambda n: list(range(n))),
                     st.integers(8, 40).flatmap(lambda n: st.lists(st.integers(0, 2), min_size=1, max_size=8).map(lambda r: r + [n]))),
    rep=st.sampled_from([1, 1, 2, 30]), look=st.lists(M.unit(0, 1), min_size=2, max_size=4)))


# ---------------------------------------------------------------- Markov chain updates
def check_chain(case, rec):
    """Independent chains of the beta-in-Dirichlet posterior converge to the enumerated posterior."""
    s = case["spec"]
    lab = expand(case)
    size = size_of(case, lab)
    k = kk = width(case, lab, size)
    if case["size"] == "short" and case["via"] != "random":
        k = kk = min(max(lab) + 2, 6)
        rec.classify("short draw completed")
    rec.classify("model " + s["m"], "size " + case["size"])
    rec.nontriv(len(set(lab)) > 1)
    calls = [0]

    def draw(n):
        calls[0] += 1
        rng = np.random.default_rng([case["seed"], calls[0]])
        out = []
        for i in range(n):
            wm = M.weight(s, rng)
            prepare(case, wm, lab)
            for _ in range(16 if calls[0] == 1 else 30):
                w = wm.random(size) if case["size"] != "short" else wm.random()
            if case["size"] == "short":
                w = wm.random(size)
                if case["via"] != "random":
                    w = wm.complete(kk)
            out.append(np.array(w[:k]))
        return out

    compare(draw, lambda n, rng: refs.sticks_to_w(refs.posterior_sticks(s, lab, n, k, rng)), rec, 250, 2500,
            "%s posterior weights given labels %s (size %s) over independent chains" % (s["m"], lab, size), case["seed"], mult=20)


chain_cases = st.fixed_dictionaries(dict(
    common, spec=M.spec(("BD",)), rep=st.sampled_from([1, 1, 2]),
    labels=st.one_of(st.lists(st.integers(0, 3), min_size=1, max_size=8), st.permutations(list(range(7))), st.permutations([0, 1, 2, 3, 4, 5, 5, 5]))))


def check_invariance(case, rec):
    """(weights, labels) from the prior, then one posterior draw: the weights keep their joint law with the labels."""
    s = case["spec"]
    n_lab, k = case["n_lab"], case.get("k", 3)
    rec.classify("model " + s["m"])
    rec.nontriv(True)
    calls = [0]
    rng_o = {}

    def ref(n, rng):
        # prior weights and labels drawn from them, by the reference; labels appended as features
        W = refs.prior_weights(s, n, 60, rng)
        D = draw_labels(W, n_lab, rng)
        rng_o["ref"] = D
        return W[:, :k]

    def draw_labels(W, m, rng):
        c = np.cumsum(W, axis=1)
        u = rng.uniform(size=(len(W), m))
        return np.array([np.searchsorted(c[i], u[i] * 1.0) for i in range(len(W))])

    def draw(n):
        calls[0] += 1
        rng = np.random.default_rng([case["seed"], calls[0]])
        out, lab = [], []
        for _ in range(n):
            wm = M.weight(s, rng)
            u = rng.uniform(size=n_lab)
            wm.random(1)
            while wm.get_weights().sum() <= u.max() and wm.get_size() < 60:
                wm.complete(wm.get_size() + 1)
            d = np.minimum(np.searchsorted(np.cumsum(wm.get_weights()), u), 59)
            wm.fit(d)
            for _ in range(case["steps"]):
                w = wm.random(max(k, int(d.max()) + 1))
            out.append(np.array(w[:k]))
            lab.append(d)
        rng_o["got"] = np.array(lab)
        return out

    def extra(W, which):
        D = rng_o[which]
        D = np.minimum(D, 6).astype(float)
        m = D.mean(axis=1)
        e0 = (D == 0).mean(axis=1)
        return {"mean label * first weight": np.round(m * W[:, 0], 8), "zeros * first weight": np.round(e0 * W[:, 0], 8),
                "zeros - first weight": np.round(e0 - W[:, 0], 8), "ones - second weight": np.round((D == 1).mean(axis=1) - W[:, 1], 8),
                "first label * second weight": np.round((D[:, 0] == 0) * W[:, 1] + (D[:, 0] == 1) * W[:, 2], 8)}

    compare(draw, ref, rec, 500, 8000, "%s: one posterior step from the joint prior of weights and %d labels" % (s["m"], n_lab),
            case["seed"], extra=extra, idx=[0, 1, 2, 5, 9] if k > 3 else None)


inv_cases = st.fixed_dictionaries({
    "spec": st.one_of(M.spec(("BD",), override={"BD": st.fixed_dictionaries(
        {"m": st.just("BD"), "alpha": M.pos(0.3, 3), "a": M.pos(0.2, 6)})}), M.spec(("DP", "PY", "GP", "BD", "BE", "BN"), override={
            "PY": M.py_params(0.2), "GP": st.fixed_dictionaries({"m": st.just("GP"), "a": M.pos(2, 6), "b": M.pos(0.5, 3)}),
            "BD": st.fixed_dictionaries({"m": st.just("BD"), "alpha": M.pos(0.3, 3), "a": M.pos(0.2, 6)}),
            "BE": st.fixed_dictionaries({"m": st.just("BE"), "p": M.unit(0.3, 1), "alpha": M.pos(0.3, 3)}),
            "BN": st.fixed_dictionaries({"m": st.just("BN"), "n": st.integers(0, 5), "alpha": M.pos(0.3, 3)})})),
    "n_lab": st.integers(1, 8), "steps": st.sampled_from([1, 1, 2, 2, 8]), "seed": M.seeds})
inv_many = st.fixed_dictionaries({
    "spec": M.spec(("BD", "BD", "BD", "BE", "BN"), override={
        "BD": st.fixed_dictionaries({"m": st.just("BD"), "alpha": M.pos(2, 8), "a": M.pos(0.5, 15)}),
        "BE": st.fixed_dictionaries({"m": st.just("BE"), "p": M.unit(0.2, 1), "alpha": M.pos(2, 8)}),
        "BN": st.fixed_dictionaries({"m": st.just("BN"), "n": st.integers(1, 15), "alpha": M.pos(2, 8)})}),
    "n_lab": st.integers(6, 25), "steps": st.sampled_from([1, 3, 6]), "k": st.just(10), "seed": M.seeds})


# ---------------------------------------------------------------- beta-in-beta with 0 < x < 1
def log_p_density(s, v, grid):
    c = s["x"] / (1 - s["x"])
    lp = beta.logpdf(grid, s["a"], s["b"])
    for vj in v:
        lp = lp + beta.logpdf(vj, 1 + c * grid, s["alpha"] + c * (1 - grid))
    return lp


def p_cdf(s, v, p):
    """Conditional distribution function of p given the fractions v, by midpoint quadrature in the Beta(a,b) quantile scale."""
    m = 4000
    q = (np.arange(m) + 0.5) / m
    grid = beta.ppf(q, s["a"], s["b"])
    c = s["x"] / (1 - s["x"])
    l = np.zeros(m)
    for vj in v:
        l += beta.logpdf(vj, 1 + c * grid, s["alpha"] + c * (1 - grid))
    l = np.exp(l - l.max())
    t = beta.cdf(p, s["a"], s["b"]) * m
    cum = np.concatenate([[0], np.cumsum(l)])
    return np.interp(t, np.arange(m + 1), cum) / cum[-1]


def check_bb(case, rec):
    s = case["spec"]
    lab = expand(case)
    size = size_of(case, lab)
    k = width(case, lab, size)
    meth = s["p_method"]
    grown = case["via"] != "random"
    rec.classify("p_method " + meth, "size " + case["size"], "rep %d" % case["rep"], "via " + ("grown" if grown else "random"))
    rec.nontriv(len(set(lab)) > 1)
    c = s["x"] / (1 - s["x"])
    L = max(lab) + 1
    a_c, b_c = refs.label_counts(lab, k)
    wm = M.weight(s, np.random.default_rng(case["seed"]))
    prepare(case, wm, lab)

    def run(n, stage):
        us, ps = [], []
        for i in range(n):
            old_p = wm.p
            old_w = np.array(wm.get_weights(), float)
            if grown:
                wm.random(1 + i % k)
                w = np.array(wm.complete(k), float)
            else:
                w = np.array(wm.random(size), float)
            require(len(w) >= k, "%d weights returned", len(w))
            p = float(np.asarray(wm.p))
            require(0 <= p <= 1, "inner parameter %r outside [0,1]", p)
            v = refs.w_to_sticks(w[:k])
            us.append(beta.cdf(v, 1 + c * p + a_c, s["alpha"] + c * (1 - p) + b_c))
            if meth == "static":
                require(p == float(np.asarray(old_p)), "static inner parameter changed from %r to %r", old_p, p)
            elif meth == "max-likelihood":
                if len(old_w):
                    vo = refs.w_to_sticks(old_w)
                    if np.all((vo > 1e-9) & (vo < 1 - 1e-9)) and 1 - old_w.sum() > 1e-7:
                        q = np.linspace(0.001, 0.999, 400)
                        lp = log_p_density(s, vo, np.clip(np.array([p]), 1e-9, 1 - 1e-9))[0]
                        lo = log_p_density(s, vo, np.clip(np.array([old_p], float).ravel(), 1e-9, 1 - 1e-9))[0]
                        require(lp >= lo - 1e-5 - 1e-7 * abs(lo), "max-likelihood moved p from %r (log density %.6g) to %r (%.6g)",
                                old_p, lo, p, lp)
                        del q
            elif meth == "independent":
                ps.append(beta.cdf(p, s["a"], s["b"]))
            elif meth == "geometric":
                ps.append(beta.cdf(p, s["a"] + len(lab), s["b"] + sum(lab)))
            elif meth == "inverse-sampling":
                vo = refs.w_to_sticks(old_w)
                if len(vo) == 0 or (np.all((vo > 1e-7) & (vo < 1 - 1e-7)) and 1 - old_w.sum() > 1e-6):
                    ps.append(p_cdf(s, vo, p))
        us = np.array(us)
        res = []
        for j in range(k):
            pv, d = ks_1samp(us[:, j], "uniform")
            res.append(("fraction %d given the inner parameter" % j, pv, "KS distance %.4f" % d))
        if len(ps) > 20:
            pv, d = ks_1samp(np.array(ps), "uniform")
            res.append(("inner parameter", pv, "KS distance %.4f" % d))
            x = np.array(ps)
            pv, d = ks_1samp(np.abs(x[1:] - x[:-1]), lambda t: 1 - (1 - t) ** 2)
            res.append(("consecutive inner parameters", pv, "KS distance %.4f" % d))
        return res

    slow = meth in ("inverse-sampling", "max-likelihood")
    two_stage(run, rec, 60 if slow else 700, 600 if slow else 10000, "beta-in-beta posterior given labels %s" % lab[:12])


BBMIX = st.fixed_dictionaries({"m": st.just("BB"), "x": st.one_of(st.just(0.5), M.unit(0.05, 0.9)), "alpha": M.pos(0.3, 6),
                               "a": M.pos(0.7, 5), "b": M.pos(0.7, 5), "p": M.unit(0.05, 0.95),
                               "p_method": st.sampled_from(["independent", "static", "geometric"])})
BBSLOW = st.fixed_dictionaries({"m": st.just("BB"), "x": st.one_of(st.just(0.5), M.unit(0.05, 0.9)), "alpha": M.pos(0.3, 6),
                                "a": M.pos(1, 5), "b": M.pos(1, 5), "p": M.unit(0.05, 0.95),
                                "p_method": st.sampled_from(["inverse-sampling", "max-likelihood"])})
bb_cases = st.fixed_dictionaries(dict(common, spec=BBMIX, rep=st.sampled_from([1, 1, 5])))
bb_slow = st.fixed_dictionaries(dict(common, spec=BBSLOW, rep=st.just(1)))


def check_refusal(case, rec):
    s = case["spec"]
    wm = M.weight(s, case["seed"])
    lab = case["labels"]
    bad = max(lab) >= s["n"]
    rec.classify("refused" if bad else "accepted")
    rec.nontriv(bad and min(lab) < s["n"])
    try:
        if case["draw_first"]:
            wm.random()
        wm.fit(lab)
        w = wm.random()
    except ValueError:
        require(bad, "labels %s of a Dirichlet distribution with %d components were refused", lab, s["n"])
        return
    if bad:
        fail("labels %s of a Dirichlet distribution with %d components were accepted: weights %s", lab, s["n"], w)
    require(len(w) == s["n"], "%d weights", len(w))


ref_cases = st.fixed_dictionaries({"spec": M.dd_params(1, 6), "labels": st.lists(st.integers(0, 6), min_size=1, max_size=8),
                                   "draw_first": st.booleans(), "seed": M.seeds})

SUBS = [Sub("exact posterior", exact_cases, check_exact, quick=480, thorough=8000, cpu_s=600),
        Sub("many groups", long_cases, check_exact, quick=120, thorough=2400, cpu_s=900),
        Sub("chains", chain_cases, check_chain, quick=24, thorough=400, cpu_s=900),
        Sub("one-step invariance", inv_cases, check_invariance, quick=160, thorough=1600, cpu_s=900),
        Sub("invariance, many groups", inv_many, check_invariance, quick=24, thorough=240, cpu_s=900),
        Sub("beta-in-beta", bb_cases, check_bb, quick=120, thorough=1200, cpu_s=600),
        Sub("beta-in-beta slow", bb_slow, check_bb, quick=24, thorough=480, cpu_s=900),
        Sub("refusal", ref_cases, check_refusal, quick=300, thorough=2000)]
_ = H
