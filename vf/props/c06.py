import numpy as np
from hypothesis import strategies as st

from .. import models as M
from ..core import Sub, as_float_array, as_int_array, binom_p, require, require_close, two_stage

PROPERTY = "C06"
RULE = ("A case is a weighting model with parameters and a way to reach its current weights (prior or posterior draw, completion, tail, long "
        "completion with underflowing weights), then normalized weights are compared with their definition, and the frequency of every label "
        "and of every pair of consecutive labels among 3000 assignments with its exact probability (binomial tests, confirmed with 60000 at "
        "p<1e-10). 'extreme uniforms' drives the generator to its smallest and largest outputs. Non-trivial: at least two positive weights.")
ASSUMPTIONS = ["'extreme uniforms' sets the state of a Mersenne twister so that its outputs are extreme"]


def build(case, rng):
    s = case["spec"]
    wm = M.weight(s, rng)
    lab = case["labels"]
    if s["m"] in ("DD", "EQ"):
        lab = [v % s["n"] for v in lab]
    r = case["route"]
    if case["before"]:  # a life before, with reads and draws of labels
        if r.startswith("fit"):
            wm.fit(lab)
        wm.random(None if r.startswith("fit") else case["k"])
        if case["before"] != "draw":
            wm.get_normalized_weights()
            wm.get_normalized_cumulative_weights()
        if case["before"] != "read":
            wm.random_assignment(2)
    if r in ("fit", "fit+complete", "fit+tail"):
        wm.fit(lab)
        wm.random()
        if r == "fit+complete":
            wm.complete(max(lab) + 4)
        if r == "fit+tail" and wm.get_weights()[0] > 0.02:
            wm.tail(0.9)
    elif r == "prior":
        wm.random(case["k"])
    elif r == "prior+tail":
        wm.random(case["k"])
        if wm.get_weights()[0] > 0.02:
            wm.tail(0.95)
    elif r == "long":
        wm.random(2)
        if s["m"] in ("BD", "BE", "BN"):
            wm.complete(60)
        else:
            wm.complete(800)
    return wm


def probs(wm):
    w = np.array(wm.get_weights(), float)
    return w, w / w.sum()


def check(case, rec):
    rng = np.random.default_rng(case["seed"])
    wm = build(case, rng)
    w, q = probs(wm)
    if not w.sum() > 0:
        return
    rec.classify("model " + case["spec"]["m"], "route " + case["route"], "total below 0.9" if w.sum() < 0.9 else "total above 0.9")
    rec.nontriv((w > 0).sum() > 1)
    nw = as_float_array(wm.get_normalized_weights(), "normalized weights", q.shape)
    require_close(nw, q, "normalized weights", rtol=1e-12, atol=0)
    cw = as_float_array(wm.get_normalized_cumulative_weights(), "cumulative normalized weights", q.shape)
    require_close(cw, np.cumsum(q), "cumulative normalized weights", rtol=1e-11, atol=0)
    require(abs(cw[-1] - 1) <= 1e-12, "cumulative normalized weights end at %r", float(cw[-1]))
    require(np.array_equal(np.array(wm.get_weights(), float), w), "reading changed the weights")
    for one in (wm.random_assignment(), wm.random_assignment(None), wm.random_assignment(size=None)):
        require(np.size(one) == 1 and np.ndim(one) == 0, "assignment without size is %r", one)
        one = as_int_array(one, "assignment without size")
        require(0 <= one < len(w) and w[one] > 0, "label %s drawn among %d weights", one, len(w))
    # lump labels of small probability
    big = np.flatnonzero(q > 0.005)[:12]

    def run(n, stage):
        batch = case["batch"]
        if batch == "single":
            d = np.array([wm.random_assignment() for _ in range(n)])
        elif batch == "chunks":
            d = np.concatenate([wm.random_assignment(7) for _ in range(n // 7)])
        else:
            d = wm.random_assignment(n)
            as_int_array(d, "assignments", (n,))
        d = as_int_array(d, "assignments")
        require(d.min() >= 0 and d.max() < len(w), "label %d..%d drawn among %d weights", d.min(), d.max(), len(w))
        require(np.all(w[d] > 0), "a label of weight zero was drawn")
        m = len(d)
        res = []
        for j in big:
            k = int((d == j).sum())
            res.append(("label %d" % j, binom_p(k, m, q[j]), "%d of %d, expected %.1f" % (k, m, m * q[j])))
        k = int((~np.isin(d, big)).sum())
        rest = float(1 - q[big].sum())
        if rest > 1e-12:
            res.append(("other labels", binom_p(k, m, rest), "%d of %d, expected %.1f" % (k, m, m * rest)))
        h = m // 2
        for a, b, nm in ((d[0:2 * h:2], d[1:2 * h:2], "consecutive"), (d[:h], d[h:2 * h], "far apart")):
            for j in big[:3]:
                k = int(((a == j) & (b == j)).sum())
                res.append(("pair of label %d %s" % (j, nm), binom_p(k, h, q[j] ** 2), "%d of %d, expected %.1f" % (k, h, h * q[j] ** 2)))
        return res

    two_stage(run, rec, 700 if case["batch"] == "single" else 3000, 60000, "assignments from weights %s" % np.round(w[:6], 4))
    require(np.array_equal(np.array(wm.get_weights(), float), w), "drawing assignments changed the weights")


LABELS = st.one_of(*[st.lists(st.integers(0, 6), min_size=1, max_size=12)] * 5, st.lists(st.sampled_from([0, 1, 2, 9, 17]), min_size=2, max_size=40))
cases = st.fixed_dictionaries({
    "spec": M.spec(), "labels": LABELS, "k": st.one_of(st.integers(1, 8), st.integers(1, 8), st.sampled_from([3, 20, 70])),
    "route": st.sampled_from(["fit", "fit+complete", "fit+tail", "prior", "prior+tail", "long"]),
    "batch": st.sampled_from(["array", "chunks", "single"]), "before": st.sampled_from([None, None, "read", "draw", "both"]), "seed": M.seeds})


def _untemper(y):
    """State word whose tempered output is y (inverse of the Mersenne twister's tempering)."""
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9d2c5680)
    y = x & 0xffffffff
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xffffffff


def check_extreme(case, rec):
    bg = np.random.MT19937(case["seed"])
    rng = np.random.Generator(bg)
    wm = build(case, rng)
    w, q = probs(wm)
    if not w.sum() > 0:
        return
    rec.classify("model " + case["spec"]["m"])
    rec.nontriv((w > 0).sum() > 1)
    out = []
    for word in (0, 0xffffffff):
        st_ = bg.state
        key = np.array(st_["state"]["key"], dtype=np.uint32)
        key[:] = _untemper(word)
        st_["state"]["key"] = key
        st_["state"]["pos"] = 0
        bg.state = st_
        d = wm.random_assignment(3) if case["vec"] else wm.random_assignment()
        d = as_int_array(np.atleast_1d(d), "assignments")
        require(d.min() >= 0 and d.max() < len(w), "label %d drawn among %d weights when the generator returns %s", d.max(), len(w),
                "its largest values" if word else "zeros")
        require(np.all(w[d] > 0), "label %s of weight zero drawn when the generator returns %s", d, "its largest values" if word else "zeros")
        out.append(d)


ext = st.fixed_dictionaries({
    "spec": M.spec(), "labels": LABELS, "k": st.one_of(st.integers(1, 8), st.integers(1, 8), st.sampled_from([3, 20, 70])),
    "route": st.sampled_from(["fit", "fit+complete", "fit+tail", "prior", "prior+tail", "long"]), "vec": st.booleans(), "before": st.sampled_from([None, None, "read", "draw", "both"]), "seed": M.seeds})

SUBS = [Sub("assignments", cases, check, quick=1200, thorough=12000, cpu_s=400),
        Sub("extreme uniforms", ext, check_extreme, quick=3000, thorough=30000)]
