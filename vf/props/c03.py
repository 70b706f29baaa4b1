import numpy as np
from hypothesis import strategies as st

from .. import history as H
from .. import models as M
from .. import refs
from ..core import Sub, require_close
from ..lawtests import compare

PROPERTY = "C03"
RULE = ("A case is a weighting model, its parameters, a way of obtaining k<=5 prior weights (one draw, draw then completion, fresh completion "
        "at once or in steps, tail then completion, after fit and reset) and a seed; 700 weight vectors are compared with an independent "
        "sampler of the stated law by Kolmogorov-Smirnov and tie-frequency tests, suspicious statistics again with 14000 fresh vectors at "
        "p<1e-10. 'late weights' does so with up to 90 weights of slowly decaying structures, looking at random positions. Non-trivial: a random (not constant) structure with at least two weights.")
ASSUMPTIONS = ["laws are tested statistically: a deviation too small to show in 14000 draws (KS distance below about 0.03) passes"]

ROUTES = ("random", "random+complete", "fresh complete", "fresh complete twice", "random+tail+complete", "fresh tail+complete",
          "fit+random+reset+random", "longer random", "fresh fit+reset+complete", "one by one", "random+tail+random")


def shared(s):
    return s["m"] in ("GP", "BD", "BE") or (s["m"] == "BB" and s["x"] > 0.9)


def draw_many(case, n, seed):
    s, route, k = case["spec"], case["route"], case["k"]
    j = case["j"] % k + 1
    rng = np.random.default_rng(seed)
    wm = M.weight(s, rng)
    lab = [v % s["n"] for v in case["labels"]] if s["m"] in ("DD", "FR") else case["labels"]
    out = []
    x = case["x"]

    def lev(wm):
        # a stopping rule that depends on the weights already drawn only, so that it does not bias later ones
        if not shared(s):
            return x
        w1 = wm.get_weights()[0]
        return min(x, 1 - (1 - w1) ** 20, 0.9)

    for _ in range(n):
        if route.startswith("fresh"):
            wm = M.weight(s, rng)
        if route == "random":
            w = wm.random(k)
        elif route == "longer random":
            w = wm.random(k + 3)
        elif route == "random+complete":
            wm.random(j)
            w = wm.complete(k)
        elif route == "fresh complete":
            w = wm.complete(k)
        elif route == "fresh complete twice":
            wm.complete(j)
            w = wm.complete(k)
        elif route == "one by one":
            wm.random(1)
            for i in range(2, k + 1):
                w = wm.complete(i)
            w = wm.get_weights()
        elif route == "random+tail+complete":
            wm.random(j)
            wm.tail(lev(wm))
            w = wm.complete(k)
        elif route == "random+tail+random":
            wm.random(1)
            wm.tail(lev(wm))
            w = wm.random(k)
        elif route == "fresh tail+complete":
            wm.tail(0.0 if shared(s) else x)
            w = wm.complete(k)
        elif route == "fit+random+reset+random":
            wm.fit(lab)
            wm.random()
            wm.reset()
            w = wm.random(k)
        elif route == "fresh fit+reset+complete":
            wm.fit(lab)
            wm.reset()
            w = wm.complete(k)
        out.append(np.array(w[:k], float))
    return out


def check(case, rec):
    s = case["spec"]
    fixed = M.n_fixed(s)
    if fixed is not None:
        case = dict(case, k=fixed)
    k = case["k"]
    idx = sorted({int(x * (k - 1)) for x in case["look"]} | {k - 1}) if "look" in case else None
    rec.classify("model " + s["m"], "route " + case["route"])
    if s["m"] in ("EQ", "FR"):
        for w in draw_many(case, 3, case["seed"]):
            require_close(w, np.full(fixed, 1 / fixed), "weights by %s" % case["route"], rtol=1e-12)
        return
    rec.nontriv(k > 1)
    calls = [0]

    def draw(n):
        calls[0] += 1
        return draw_many(case, n, [case["seed"], calls[0]])

    compare(draw, lambda n, rng: refs.prior_weights(s, n, case["k"], rng), rec, 700 if idx is None else 400,
            14000 if idx is None else 6000, "%s prior weights by %s" % (s["m"], case["route"]), case["seed"],
            sequential=not case["route"].startswith("fresh"), idx=idx)


SPEC = H.SPEC
cases = st.fixed_dictionaries({
    "spec": SPEC, "route": st.sampled_from(ROUTES), "k": st.sampled_from([3, 4, 2, 5, 1]), "j": st.integers(0, 4),
    "x": st.sampled_from([0.0, 0.3, 0.6, 0.85]), "labels": st.lists(st.integers(0, 4), min_size=1, max_size=8), "seed": M.seeds})
long_cases = st.fixed_dictionaries({
    "spec": M.slow(), "route": st.sampled_from([r for r in ROUTES if "tail" not in r]), "k": st.integers(12, 90), "j": st.integers(0, 80),
    "x": st.just(0.0), "look": st.lists(M.unit(0, 1), min_size=2, max_size=4), "labels": st.lists(st.integers(0, 30), min_size=1, max_size=40), "seed": M.seeds})

SUBS = [Sub("prior law", cases, check, quick=900, thorough=12000, cpu_s=600),
        Sub("late weights", long_cases, check, quick=160, thorough=3000, cpu_s=900)]
