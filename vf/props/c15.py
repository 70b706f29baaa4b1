"""Refusals: queries of unfitted objects and invalid arguments."""
import numpy as np
from hypothesis import strategies as st

from .. import gibbs as G, mixdata, models as M
from ..core import Sub, require
from pyrichlet.exceptions import NotFittedError

PROPERTY = "C15"
RULE = ("'mixtures' plays histories of completed and failing fits of both methods (bad types, bad options, unusable data) on a mixture and asks "
        "every query after each step: those of a method that has not completed a fit must raise NotFittedError, those of one that has must answer. "
        "'weights' does the same for the variational expectations of the weighting models. 'arguments' builds and calls with arguments just "
        "outside and just inside the accepted range. Non-trivial: a failing fit or a fit of the other method came before the queries, or an "
        "argument at the boundary.")
ASSUMPTIONS = ["the type of the exception is checked for NotFittedError only; elsewhere any exception counts as refusal",
               "a failing fit of an object that was fitted before is not covered"]

GQ = ["gibbs_eap_density", "gibbs_map_density", "gibbs_eap_affinity_matrix", "gibbs_eap_spectral_consensus_cluster", "gibbs_map_cluster"]
VQ = ["var_eap_density", "var_map_density", "var_eap_affinity_matrix", "var_eap_spectral_consensus_cluster", "var_map_cluster"]
FIT = ["gibbs", "var", "var", "bad type gibbs", "bad type var", "bad init gibbs", "bad init var", "nan gibbs", "nan var", "no groups var",
       "variational init", "empty gibbs", "empty var", "inf gibbs"]


class Bad:
    pass


def raises(f, *exc):
    """The exception f raises, or None."""
    try:
        f()
    except exc or Exception as e:  # noqa: BLE001
        return e
    return None


def ask(m, name, y, how):
    f = getattr(m, name)
    if how == 0:
        return f()
    if how == 1:
        return f(y[:3])
    if how == 2:
        return f(y=None)
    if name.endswith("density"):
        return f(y[:3], component=0) if how == 3 else f(dim=0)
    if name.endswith("map_cluster"):
        return f(y, full=True)
    return f(y[:4].tolist())


def check_mixture(case, rec):
    s = case["spec"]
    y = mixdata.make(case["data"])
    kw, _ = mixdata.prior_kwargs(case["prior"], y)
    kw.pop("nu_prior", None)
    m = G.build(s, case["seed"], case["opts"], kw)
    done = {"g": False, "v": False}
    log = []

    def probe():
        for names, key, other in ((GQ + ["gibbs_map_pairplot"], "g", "v"), (VQ, "v", "g")):
            for name in names:
                W = "%s after %s: %s" % (s["m"], ", ".join(log) or "nothing", name)
                if done[key]:
                    if name == "gibbs_map_pairplot" or name == "var_map_density":
                        continue
                    ask(m, name, y, case["how"])
                    continue
                if name == "gibbs_map_pairplot":
                    e = raises(m.gibbs_map_pairplot)
                else:
                    e = raises(lambda: ask(m, name, y, case["how"]))
                require(e is not None, W + " answered without a completed fit")
                require(isinstance(e, NotFittedError), W + " raised %s instead of NotFittedError", type(e).__name__ + ": " + str(e)[:80])
                if log:
                    rec.nontriv()
                rec.count("refused " + ("with the other method fitted" if done[other] else "unfitted"))

    probe()
    for op in case["ops"]:
        var = "var" in op.split()
        key = "v" if var else "g"
        if var and s["m"] not in M.VARIATIONAL:
            continue
        k = s["n"] if s["m"] in M.FINITE else 2
        if op == "gibbs":
            m.fit_gibbs(y, **G.start_kwargs(s, case["init"], None))
            done["g"] = True
            if case["init"] == "variational" and s["m"] in M.VARIATIONAL:
                done["v"] = True
        elif op == "var":
            m.fit_variational(y, n_groups=k, init_method="random")
            done["v"] = True
        elif op == "variational init":
            if s["m"] in M.VARIATIONAL:
                m.fit_gibbs(y, init_method="variational")
                done["g"] = done["v"] = True
        else:
            if done[key]:
                continue
            fit = m.fit_variational if var else m.fit_gibbs
            a = {"n_groups": k} if var else {}
            if op.startswith("bad type"):
                f = lambda: fit(Bad(), **a)  # noqa: E731
            elif op.startswith("bad init"):
                f = lambda: fit(y, init_method="kmeens", **a)  # noqa: E731
            elif op.startswith("nan") or op.startswith("inf"):
                z = y.copy()
                z[-1, -1] = np.nan if op.startswith("nan") else np.inf
                f = lambda: fit(z, **a)  # noqa: E731
            elif op.startswith("empty"):
                f = lambda: fit(y[:0], **a)  # noqa: E731
            else:
                if s["m"] in M.FINITE:
                    continue
                f = lambda: fit(y)  # noqa: E731
            e = raises(f)
            if not op.startswith(("nan", "empty", "inf")):
                require(e is not None, "%s: %s was accepted", s["m"], op)
            if e is None:       # unusable data may or may not be refused; the object then counts as fitted
                return
        log.append(op)
        rec.classify(op)
        probe()
    rec.classify("model " + s["m"])


mcases = G.fixed({
    "spec": G.spec(nmax=4), "data": mixdata.data(nmax=10, few=True), "prior": mixdata.priors, "opts": G.fit_opts(4), "init": G.starts,
    "ops": st.lists(st.sampled_from(FIT), max_size=4), "how": st.integers(0, 4), "seed": M.seeds})


# ---------------------------------------------------------------- weighting models
EXP = ["variational_mean_log_w_j", "variational_mean_w_j", "variational_mode_w_j", "variational_mean_log_p_d__w", "variational_mean_log_p_w",
       "variational_mean_log_q_w"]


def check_weights(case, rec):
    s = case["spec"]
    wm = M.weight(s, case["seed"])
    W = "%s after %s: " % (s["m"], case["ops"])
    nfix = M.n_fixed(s)
    for op in case["ops"]:
        if op == "draw":
            wm.random(3)
        elif op == "fit":
            wm.fit([v % (nfix or 5) for v in case["labels"]])
            wm.random()
        elif op == "tail":
            wm.tail(0.5)
        elif op == "reset":
            wm.reset()
        elif op == "bad" and s["m"] == "DD":
            e = raises(lambda: wm.fit_variational(np.full((nfix + 1, 4), 1 / (nfix + 1))))
            require(e is not None, W + "a variational distribution of another number of groups was accepted")
            if nfix > 1:
                e = raises(lambda: wm.fit_variational(np.full((nfix - 1, 4), 1 / (nfix - 1))))
                require(e is not None, W + "a variational distribution of another number of groups was accepted")
        elif op == "query":
            raises(lambda: wm.variational_mean_w_j(0))
    rec.nontriv(bool(case["ops"]))
    rec.classify("model " + s["m"])
    R = np.full((nfix or 3, 4), 1 / (nfix or 3))
    for name in EXP:
        f = getattr(wm, name)
        calls = [lambda: f(case["j"])] if name.endswith("_j") else [f]
        if name.endswith("d__w"):
            calls.append(lambda: f(variational_d=R))
        for c in calls:
            e = raises(c)
            if s["m"] == "EQ":      # equal weights need no fit
                if name.endswith("d__w") and c is f:
                    require(isinstance(e, NotFittedError), W + name + " without a fit gave %r", e)
                else:
                    require(e is None, W + name + " raised %r", e)
            elif s["m"] in M.VARIATIONAL:
                require(e is not None, W + "%s answered without a variational fit", name)
                require(isinstance(e, NotFittedError), W + "%s raised %s instead of NotFittedError without a variational fit", name, type(e).__name__)
            else:
                require(e is not None, W + "%s answered although this model has no variational inference", name)
    if s["m"] in M.VARIATIONAL and "bad" not in case["ops"]:
        wm.fit_variational(R)
        for name in EXP:
            if name != "variational_mode_w_j":
                f = getattr(wm, name)
                v = f(0) if name.endswith("_j") else f()
                require(np.isfinite(v) and np.ndim(v) == 0, W + "%s gives %r after a variational fit", name, v)


wcases = G.fixed({
    "spec": M.spec(M.ALL, nmax=4), "labels": st.lists(st.integers(0, 4), min_size=1, max_size=5), "j": st.integers(0, 4),
    "ops": st.lists(st.sampled_from(["draw", "fit", "tail", "reset", "bad", "query"]), max_size=4), "seed": M.seeds})


# ---------------------------------------------------------------- arguments
eps = st.one_of(st.sampled_from([1e-9, 1e-6, 0.25, 1.0]), M.pos(1e-9, 3))


class Fake:
    def uniform(self, *a, **k):
        return 0.5


def bad_rng(kind):
    return {"str": "abc", "float": 1.5, "RandomState": np.random.RandomState(0), "module": np.random, "list": [1], "object": Fake(),
            "BitGenerator": np.random.PCG64(0), "class": np.random.Generator, "digit": "3", "whole": 2.0, "tuple": (1, 2), "seq": np.random.SeedSequence(1),
            "method": np.random.default_rng}[kind]


def bad_size(kind):
    return {"float": 2.0, "frac": 2.5, "str": "3", "list": [3], "np": np.float64(4), "array": np.array([2, 3]), "complex": 2j, "tuple": (2,)}[kind]


def refused(f, what, *a):
    e = raises(f)
    require(e is not None, what + " was accepted", *a)


def check_args(case, rec):
    s, kind, seed = case["spec"], case["kind"], case["seed"]
    y = mixdata.make(case["data"])
    total, e = case["total"], case["eps"]
    rec.classify(kind)
    rec.nontriv()
    if kind == "burn in":
        over = case["over"]
        refused(lambda: M.mixture(s, seed, total_iter=total, burn_in=total + over), "%s: burn_in=%d of total_iter=%d", s["m"], total + over, total)
        refused(lambda: M.mixture(s, seed, total_iter=-over, burn_in=0), "%s: total_iter=%d with no burn-in", s["m"], -over)
        m = M.mixture(s, seed, total_iter=total, burn_in=total - 1)
        m.fit_gibbs(y)
        require(len(m.get_sim_params()) == 1, "%s: %d draws saved with burn_in=total_iter-1", s["m"], len(m.get_sim_params()))
        m = M.mixture(s, seed, total_iter=total, burn_in=0)
        m.fit_gibbs(y)
        require(len(m.get_sim_params()) == total, "%s: %d draws saved with burn_in=0, total_iter=%d", s["m"], len(m.get_sim_params()), total)
    elif kind == "Pitman-Yor":
        pyd = case["pyd"]
        for a in ([-pyd, -pyd - e, -pyd - 1] + ([0, -0.0] if pyd == 0 else [])):
            refused(lambda: M.weight({"m": "PY", "pyd": pyd, "alpha": a}, seed), "Pitman-Yor weights with alpha=%r, pyd=%r", a, pyd)
            refused(lambda: M.mixture({"m": "PY", "pyd": pyd, "alpha": a}, seed), "a Pitman-Yor mixture with alpha=%r, pyd=%r", a, pyd)
        a = -pyd + max(e, 1e-3)
        w = M.weight({"m": "PY", "pyd": pyd, "alpha": a}, seed).random(3)
        require(len(w) == 3 and np.all(np.isfinite(w)), "Pitman-Yor weights with alpha=%r, pyd=%r: %s", a, pyd, w)
        M.mixture({"m": "PY", "pyd": pyd, "alpha": a}, seed)
    elif kind == "p-method":
        for p in ("gibbs", "", None, "Geometric", "geometric ", 0, "max_likelihood", "staticc"):
            b = {"m": "BB", "x": case["x"], "alpha": 1.0, "a": 1, "b": 1, "p_method": p}
            refused(lambda: M.weight(b, seed), "beta-in-beta weights with p_method=%r", p)
            refused(lambda: M.mixture(dict(b, p=0), seed), "a beta-in-beta mixture with p_method=%r", p)
        for p in ("static", "independent", "geometric", "max-likelihood", "inverse-sampling", "rejection-sampling"):
            b = {"m": "BB", "x": case["x"], "alpha": 1.0, "a": 1, "b": 1, "p_method": p}
            w = M.weight(b, seed).random(2)
            require(len(w) == 2, "beta-in-beta weights with p_method=%r", p)
            M.mixture(dict(b, p=0), seed)
    elif kind == "init method":
        for name in ("kmeens", "", "Random", 3, "k-means", "prior", "map"):
            m = M.mixture(s, seed, total_iter=total, burn_in=0)
            refused(lambda: m.fit_gibbs(y, init_method=name), "%s: fit_gibbs with init_method=%r", s["m"], name)
            if s["m"] in M.VARIATIONAL:
                m = M.mixture(s, seed, total_iter=total, burn_in=0)
                refused(lambda: m.fit_variational(y, n_groups=s.get("n", 2), init_method=name), "%s: fit_variational with init_method=%r", s["m"], name)
        if s["m"] in M.VARIATIONAL:
            m = M.mixture(s, seed, total_iter=total, burn_in=0)
            refused(lambda: m.fit_variational(y, n_groups=s.get("n", 2), init_method="variational"), "%s: fit_variational with init_method='variational'", s["m"])
        for name in ("kmeans", "random") + (("variational",) if s["m"] in M.VARIATIONAL else ()):
            M.mixture(s, seed, total_iter=total, burn_in=0).fit_gibbs(y, init_method=name)
    elif kind == "generator":
        for b in case["rngs"]:
            refused(lambda: M.weight(s, bad_rng(b)), "%s weights with a generator of kind %s", s["m"], b)
            refused(lambda: M.mixture(s, bad_rng(b)), "%s mixture with a generator of kind %s", s["m"], b)
        for g in (None, 0, seed, np.random.default_rng(seed), np.random.Generator(np.random.MT19937(seed))):
            M.weight(s, g).random(2)
            M.mixture(s, g)
    elif kind == "size":
        wm = M.weight(s, seed)
        labels = [v % (M.n_fixed(s) or 5) for v in case["labels"]]
        if case["fitted"]:
            wm.fit(labels)
            wm.random()
        elif case["drawn"]:
            wm.random(case["drawn"])
        for b in case["sizes"]:
            refused(lambda: wm.complete(bad_size(b)), "%s: complete with a size of kind %s", s["m"], b)
            if s["m"] not in M.FINITE and b not in ("list", "array", "tuple"):
                refused(lambda: wm.random(bad_size(b)), "%s: random with a size of kind %s%s", s["m"], b, " after a fit" if case["fitted"] else "")
        w = wm.complete(6)
        require(len(w) >= min(6, M.n_fixed(s) or 6) or case["fitted"], "%s: complete(6) gives %d weights", s["m"], len(w))
    elif kind == "groups":
        if s["m"] in M.VARIATIONAL:
            m = M.mixture(s, seed, total_iter=total, burn_in=0)
            if s["m"] not in M.FINITE:
                refused(lambda: m.fit_variational(y), "%s: fit_variational without a number of groups", s["m"])
                refused(lambda: m.fit_variational(y, n_groups=None, init_method="random"), "%s: fit_variational without a number of groups", s["m"])
                m.fit_variational(y, n_groups=1)
                m.fit_variational(y, n_groups=len(y) + 2)
            else:
                m.fit_variational(y)
                require(np.shape(m.var_d) == (s["n"], len(y)), "%s: %s responsibilities by default", s["m"], np.shape(m.var_d))
                if s["m"] == "DD":
                    for k in {s["n"] + 1, s["n"] + 3, max(1, s["n"] - 1)} - {s["n"]}:
                        m = M.mixture(s, seed, total_iter=total, burn_in=0)
                        for init in ("kmeans", "random"):
                            refused(lambda: m.fit_variational(y, n_groups=k, init_method=init), "DD with %d components: fit_variational with %d groups", s["n"], k)
                            require(isinstance(raises(m.var_eap_density), NotFittedError), "DD: a query answered after a refused fit")
    elif kind == "boundaries":
        for b in ({"m": "BB", "x": 0}, {"m": "BB", "x": 1}, {"m": "BE", "p": 0}, {"m": "BE", "p": 1}, {"m": "BD", "a": 0}, {"m": "BN", "n": 0}, {"m": "PY", "pyd": 0},
                  {"m": "DD", "n": 1}, {"m": "EQ", "n": 1}, {"m": "FR", "n": 1}):
            wm = M._W[b["m"]](rng=seed, **{k: v for k, v in b.items() if k != "m"})
            w = wm.random(3)
            require(np.all(np.isfinite(w)) and len(w) == b.get("n", 3) or b["m"] == "BN", "%s with %s: weights %s", b["m"], b, w)
            wm.fit([0, 0, 0] if b["m"] in M.FINITE else [0, 1, 0])
            require(np.all(np.isfinite(wm.random())), "%s with %s: weights not finite after a fit", b["m"], b)
        for b in ({"m": "BB", "x": 0}, {"m": "BB", "x": 1}, {"m": "BE", "p": 1}, {"m": "BD", "a": 0}, {"m": "BN", "n": 0}, {"m": "PY", "pyd": 0}):
            m = M._M[b["m"]](rng=seed, total_iter=total, burn_in=total - 1, **{k: v for k, v in b.items() if k != "m"})
            m.fit_gibbs(y)
            require(np.all(np.isfinite(m.gibbs_eap_density())), "%s with %s: density not finite", b["m"], b)
        wm = M.weight(s, seed)
        wm.tail(0)
        for x in (1, 1.0, -1e-12, 1 + e, -e, 2):
            refused(lambda: wm.tail(x), "%s: tail(%r)", s["m"], x)


acases = G.fixed({
    "spec": G.spec(nmax=4), "kind": st.sampled_from(["burn in", "Pitman-Yor", "p-method", "init method", "generator", "size", "size", "groups", "boundaries"]),
    "data": mixdata.data(nmax=8, kinds=["blobs", "gauss"]), "total": st.integers(1, 4), "over": st.integers(0, 3), "eps": eps,
    "pyd": st.one_of(st.just(0), M.unit(0.01, 0.8)), "x": st.one_of(st.sampled_from([0, 1, 0.5]), M.unit()),
    "rngs": st.lists(st.sampled_from(["str", "float", "RandomState", "module", "list", "object", "BitGenerator", "class", "digit", "whole", "tuple", "seq", "method"]),
                     min_size=3, max_size=6, unique=True),
    "sizes": st.lists(st.sampled_from(["float", "frac", "str", "list", "np", "array", "complex", "tuple"]), min_size=3, max_size=6, unique=True),
    "labels": st.lists(st.integers(0, 4), min_size=1, max_size=5), "fitted": st.booleans(), "drawn": st.integers(0, 4), "seed": M.seeds})

SUBS = [Sub("mixtures", mcases, check_mixture, quick=600, thorough=8000),
        Sub("weights", wcases, check_weights, quick=1500, thorough=20000),
        Sub("arguments", acases, check_args, quick=900, thorough=10000)]
