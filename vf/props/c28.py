"""Constructor parameters, documented defaults and ways of passing them."""
import numpy as np
from hypothesis import strategies as st

from .. import gibbs as G, history as H, mixdata, models as M, session as S
from ..core import Sub, require
from .c12 import play_weights, wops
from .c17 import resp

PROPERTY = "C28"
RULE = ("'mixtures' builds a mixture twice, once leaving out a random part of the options, once passing their documented defaults (priors: sample mean, covariance and "
        "dimension), whole numbers as ints, floats or NumPy scalars, fits both and compares every result. 'arguments' does the same for the arguments of fits and queries, "
        "by position and by name. 'weights' plays a history on a weighting model with parameters left out, passed by position or by name. 'composition' compares the "
        "weighting model inside a mixture with a separate one of the same parameters. 'long run' checks the default number of draws, 'many observations' repeats 'mixtures' with up to 2100 observations and default priors. Non-trivial: something is left out "
        "or passed in another form.")
ASSUMPTIONS = ["rounding differences (1e-6 relative) between a default prior and the passed one are allowed", "the default of p_optim_max_steps is not claimed"]

DEFAULTS = {"DD": {"n": 1, "alpha": 1}, "DP": {"alpha": 1}, "PY": {"pyd": 0, "alpha": 1}, "GP": {"a": 1, "b": 1}, "BD": {"alpha": 1, "a": 0}, "BE": {"p": 1, "alpha": 1},
            "BN": {"n": 0, "alpha": 1}, "EQ": {"n": 1}, "FR": {"n": 1}, "BB": {"x": 0, "alpha": 1, "a": 1, "b": 1, "p": 0, "p_method": "geometric"}}
ORDER = {"DD": ["n", "alpha"], "DP": ["alpha"], "PY": ["pyd", "alpha"], "GP": ["a", "b"], "BD": ["alpha", "a"], "BE": ["p", "alpha"], "BN": ["n", "alpha"], "EQ": ["n"], "FR": ["n"],
         "BB": ["x", "alpha", "a", "b", "p", "p_method"]}


def params(s, drop, mixture=False):
    """(parameters with some left out, all parameters)."""
    full = {k: v for k, v in s.items() if k != "m"}
    if mixture:
        full.pop("p", None) if s["m"] == "BB" else None
    names = [k for i, k in enumerate(ORDER[s["m"]]) if drop >> i & 1 and k in full]
    if s["m"] == "DD" and "n" in names and isinstance(full["alpha"], list):
        names.remove("n")
    for k in names:
        full[k] = DEFAULTS[s["m"]][k]
    if s["m"] == "GP" and mixture and names:      # heavy tails take too many weights
        full, names = {k: v for k, v in s.items() if k != "m"}, []
    if s["m"] == "PY" and not full["alpha"] > -full["pyd"]:
        full["alpha"] = 1
        if "alpha" not in names:
            names.append("alpha")
    return {k: v for k, v in full.items() if k not in names}, full, names


def whole(v, how):
    return [int, float, np.int64, np.float64, np.int32][how % 5](v)


def fit_both(ms, s, y, case):
    out = []
    for m in ms:
        if case["kind"] == "var" and s["m"] in M.VARIATIONAL:
            m.fit_variational(y, n_groups=m.n if s["m"] in M.FINITE else 1 + case["k"], init_method=["kmeans", "random"][case["k"] % 2])
            out.append([S.var_state(m), [np.array(S.var_query(m, y, q)) for q in range(S.VQ)]])
        else:
            init = ["kmeans", "random", "variational"][case["k"] % 3]
            m.fit_gibbs(y, **G.start_kwargs(dict(s, n=getattr(m, "n", 1)), init, None))
            out.append([S.gibbs_state(m), [np.array(G.queries(m, y, q, s)) for q in range(G.N_QUERIES)]])
    return out


def check_mixtures(case, rec):
    s = case["spec"]
    y = mixdata.make(case["data"])
    D = y.shape[1]
    few, full, names = params(s, case["drop"], True)
    n = full.get("n") if s["m"] in M.FINITE else None
    prior = {"mu_prior": y.mean(axis=0), "psi_prior": np.atleast_2d(np.cov(y.T)), "nu_prior": D, "lambda_prior": 1, "subsample_steps": 1}
    given = dict(prior, lambda_prior=case["lam"], subsample_steps=case["opts"]["sub"])
    given["mu_prior"] = y.mean(axis=0) + 0.3
    given["psi_prior"] = given["psi_prior"] * 1.5 + 0.1 * np.eye(D)
    given["nu_prior"] = D + 1.5
    left = [k for i, k in enumerate(sorted(prior)) if case["left"] >> i & 1]
    a = {k: v for k, v in given.items() if k not in left}
    b = {k: prior[k] if k in left else given[k] for k in given}
    T, B = case["opts"]["total"], case["opts"]["burn"]
    h = case["how"]
    a.update(total_iter=whole(T, h), burn_in=whole(B, h // 5))
    if "subsample_steps" in a:
        a["subsample_steps"] = whole(a["subsample_steps"], h // 7)
    b.update(total_iter=T, burn_in=B)
    c = M._M[s["m"]]
    show = s["m"] not in ("BB", "BN") and case["left"] % 2
    ga, gb = M.gen(case["seed"]), M.gen(case["seed"])
    ma = c(rng=ga, **few, **a)
    mb = c(rng=gb, **full, **b, **({"show_progress": False} if show else {}))
    rec.classify("model " + s["m"], *["without " + k for k in names + left])
    rec.nontriv(bool(names or left) or h > 0)
    s = dict(s, **({"n": n} if n else {}))
    A, Bq = fit_both((ma, mb), s, y, case)
    tol = 1e-6 if {"mu_prior", "psi_prior"} & set(left) else 0.0
    d = S.diff(A, Bq, rtol=tol, atol=tol * 1e-3)
    require(d is None, "%s: the fit without %s, total_iter=%r, burn_in=%r differs from that with the defaults passed (%s)", s["m"], ", ".join(names + left) or "nothing",
            a["total_iter"], a["burn_in"], d)
    for k in ("total_iter", "burn_in", "subsample_steps"):
        require(getattr(ma, k) == b[k], "%s: %s=%r is kept as %r", s["m"], k, a.get(k), getattr(ma, k))
    require(ma.lambda_prior == b["lambda_prior"], "%s: lambda_prior is %r instead of %r", s["m"], ma.lambda_prior, b["lambda_prior"])


def check_arguments(case, rec):
    """The defaults of the arguments of methods, by position and by name."""
    s = case["spec"]
    y = mixdata.make(case["data"])
    D = y.shape[1]
    x = y[:4] + 0.1
    var = case["kind"] == "var" and s["m"] in M.VARIATIONAL
    rec.classify("model " + s["m"], "variational" if var else "Gibbs")
    rec.nontriv()
    ms = [G.build(s, M.gen(case["seed"]), case["opts"], {"lambda_prior": case["lam"]}) for _ in range(3)]
    W = s["m"] + ": "
    if var:
        k = s["n"] if s["m"] in M.FINITE else 1 + case["k"]
        ms[0].fit_variational(y, k)
        ms[1].fit_variational(y, n_groups=k, warm_start=False, show_progress=None, tol=1e-8, init_method="kmeans")
        ms[2].fit_variational(y, k, False, False, 1e-8, "kmeans")
        st_ = [S.var_state(m) for m in ms]
    else:
        g = [None, 1, 3][case["k"] % 3]
        g = g if s["m"] not in M.FINITE or g is None else min(g, s["n"])
        ms[0].fit_gibbs(y, g)
        ms[1].fit_gibbs(y=y, init_groups=g, warm_start=False, show_progress=None, init_method="kmeans")
        ms[2].fit_gibbs(y, g, False, False, "kmeans")
        st_ = [S.gibbs_state(m) for m in ms]
    for i in (1, 2):
        d = S.diff(st_[0], st_[i])
        require(d is None, W + "the fit with default arguments differs from that with them passed by %s (%s)", ("name", "position")[i - 1], d)
    m, o = ms[0], ms[1]
    n = len(m.sim_params)

    def same(name, f, *others):
        r = f()
        for i, g in enumerate(others):
            d = S.diff(np.array(r) if not isinstance(r, tuple) else [np.array(v) for v in r], np.array(g()) if not isinstance(r, tuple) else [np.array(v) for v in g()], rtol=1e-12)
            require(d is None, W + "%s with default arguments differs from form %d with them passed (%s)", name, i, d)

    al = list(range(D))
    if var:
        same("var_eap_density", lambda: m.var_eap_density(x), lambda: o.var_eap_density(y=x, dim=None, component=None), lambda: o.var_eap_density(x, None, None), lambda: o.var_eap_density(x, al))
        same("var_eap_density", lambda: m.var_eap_density(), lambda: o.var_eap_density(y))
        same("var_eap_density", lambda: m.var_eap_density(x[:, :1], 0, 0), lambda: o.var_eap_density(y=x[:, :1], dim=0, component=0))
        same("var_eap_affinity_matrix", lambda: m.var_eap_affinity_matrix(x), lambda: o.var_eap_affinity_matrix(y=x))
        same("var_map_cluster", lambda: m.var_map_cluster(x), lambda: o.var_map_cluster(y=x, full=False), lambda: o.var_map_cluster(x, False), lambda: o.var_map_cluster(x, True)[0])
        same("var_map_cluster", lambda: m.var_map_cluster(x, True), lambda: o.var_map_cluster(x, full=True))
        same("consensus", lambda: m.var_eap_spectral_consensus_cluster(x), lambda: o.var_eap_spectral_consensus_cluster(y=x, n_clusters=1), lambda: o.var_eap_spectral_consensus_cluster(x, 1))
    else:
        same("gibbs_eap_density", lambda: m.gibbs_eap_density(x), lambda: o.gibbs_eap_density(y=x, dim=None, component=None, periods=None), lambda: o.gibbs_eap_density(x, None, None, None),
             lambda: o.gibbs_eap_density(x, al), lambda: o.gibbs_eap_density(x, periods=n), lambda: o.gibbs_eap_density(x, periods=n + 5))
        same("gibbs_eap_density", lambda: m.gibbs_eap_density(), lambda: o.gibbs_eap_density(y))
        same("gibbs_eap_density", lambda: m.gibbs_eap_density(x[:, :1], 0, 0, 1), lambda: o.gibbs_eap_density(y=x[:, :1], dim=0, component=0, periods=1))
        same("gibbs_map_density", lambda: m.gibbs_map_density(x), lambda: o.gibbs_map_density(y=x, dim=None, component=None), lambda: o.gibbs_map_density(x, al, None))
        same("gibbs_map_density", lambda: m.gibbs_map_density(), lambda: o.gibbs_map_density(y))
        same("gibbs_eap_affinity_matrix", lambda: m.gibbs_eap_affinity_matrix(x), lambda: o.gibbs_eap_affinity_matrix(y=x))
        same("gibbs_map_cluster", lambda: m.gibbs_map_cluster(x), lambda: o.gibbs_map_cluster(y=x, full=False), lambda: o.gibbs_map_cluster(x, False), lambda: o.gibbs_map_cluster(x, True)[0])
        same("gibbs_map_cluster", lambda: m.gibbs_map_cluster(), lambda: o.gibbs_map_cluster(y))
        same("consensus", lambda: m.gibbs_eap_spectral_consensus_cluster(x), lambda: o.gibbs_eap_spectral_consensus_cluster(y=x, n_clusters=1),
             lambda: o.gibbs_eap_spectral_consensus_cluster(x, 1))


def check_weights(case, rec):
    s = case["spec"]
    few, full, names = params(s, case["drop"])
    n = full.get("n")
    t = dict(s, **full)
    c = M._W[s["m"]]
    first = [k for k in ORDER[s["m"]]]
    pos = first[:case["position"] % (len(first) + 1)]
    rec.classify("model " + s["m"], "%d by position" % len(pos), *["without " + k for k in names])
    rec.nontriv(bool(names or pos))
    out = []
    for wm in (c(rng=M.gen(case["seed"]), **few), c(*[full[k] for k in pos], rng=M.gen(case["seed"]), **{k: v for k, v in full.items() if k not in pos})):
        r = play_weights(wm, t, case["ops"])
        if len(wm.get_weights()):
            wm.complete(6)
            labels = np.array(case["labels"]) % (n if s["m"] in M.FINITE else 6)
            wm.fit(labels)
            r += [np.array(wm.random()), float(wm.assignation_log_likelihood())]
            if s["m"] not in ("EQ", "FR"):
                r.append(float(wm.weighting_log_likelihood() or 0))
        if s["m"] in M.VARIATIONAL:
            k = n if s["m"] == "DD" else 3
            wm.fit_variational(resp({"seed": case["seed"], "n": 5, "kind": "soft", "empty": 0}, k))
            r.append([float(wm.variational_mean_w_j(j)) for j in range(k)])
            r.append([float(wm.variational_mean_log_p_w()), float(wm.variational_mean_log_q_w())])
        out.append(r)
    d = S.diff(out[0], out[1])
    require(d is None, "%s: without %s it differs from the one with them passed, %s by position (%s)", s["m"], ", ".join(names) or "nothing", ", ".join(pos) or "none", d)


def check_composition(case, rec):
    """A mixture's weighting model is the one of its name and parameters."""
    s = case["spec"]
    rec.classify("model " + s["m"])
    rec.nontriv()
    g, g2 = M.gen(case["seed"]), M.gen(case["seed"])
    m = M.mixture(s, g, total_iter=3, burn_in=0)
    s2 = {k: v for k, v in s.items() if not (s["m"] == "BB" and k == "p")}
    wm = M.weight(s2, g2)
    require(type(m.weight_model) is type(wm), "%s: the weighting model is a %s", s["m"], type(m.weight_model).__name__)
    out = []
    for w in (m.weight_model, wm):
        r = play_weights(w, s, case["ops"])
        if s["m"] in M.VARIATIONAL:
            k = s["n"] if s["m"] == "DD" else 3
            w.fit_variational(resp({"seed": case["seed"], "n": 5, "kind": "soft", "empty": 0}, k))
            r.append([float(w.variational_mean_w_j(j)) for j in range(k)])
            r.append([float(w.variational_mean_log_p_w()), float(w.variational_mean_log_q_w())])
        out.append(r)
    d = S.diff(out[0], out[1])
    require(d is None, "%s: the weighting model of the mixture differs from a separate one (%s)", s["m"], d)
    require(g.bit_generator.state == g2.bit_generator.state, "%s: the mixture and its weighting model do not share the generator passed", s["m"])


def check_long(case, rec):
    s = case["spec"]
    y = np.random.default_rng(case["seed"]).normal(size=(3, 1))
    rec.classify("model " + s["m"])
    rec.nontriv()
    out = []
    for kw in ({}, {"total_iter": 1000, "burn_in": 100, "subsample_steps": 1}):
        m = M.mixture(s, M.gen(case["seed"]), **kw)
        m.fit_gibbs(y)
        out.append(G.snapshot(m.get_sim_params()))
    require(len(out[0]) == 900, "%s: %d draws are saved by default", s["m"], len(out[0]))
    require(G.same_history(out[0], out[1]), "%s: the default chain differs from that of 1000 iterations with 100 discarded", s["m"])


base = {"data": mixdata.data(nmax=10), "opts": G.fit_opts(6), "lam": M.pos(0.1, 4), "kind": st.sampled_from(["gibbs", "gibbs", "var"]), "k": st.integers(0, 8), "seed": M.seeds}


def short(case):
    return dict(case, opts={"total": 10, "burn": min(5, case["opts"]["burn"]), "sub": case["opts"]["sub"]}) if case["opts"]["total"] > 12 else case


cases = G.fixed(dict(base, spec=G.spec(), drop=st.integers(0, 63), left=st.integers(0, 31), how=st.integers(0, 200))).map(short)
acases = G.fixed(dict(base, spec=G.spec())).map(short)
wcases = G.fixed({"spec": H.SPEC, "drop": st.integers(0, 63), "position": st.integers(0, 6), "ops": st.lists(wops.map(list), max_size=5),
                  "labels": st.lists(st.integers(0, 5), min_size=1, max_size=8), "seed": M.seeds})
ccases = G.fixed({"spec": G.spec(), "ops": st.lists(wops.map(list), min_size=1, max_size=6), "seed": M.seeds})
LONG = [{"m": "DD", "n": 2, "alpha": 1}, {"m": "DP", "alpha": 1}, {"m": "PY", "pyd": 0.1, "alpha": 1}, {"m": "GP", "a": 6, "b": 2}, {"m": "BD", "alpha": 1, "a": 1}, {"m": "BE", "p": 0.8, "alpha": 1},
        {"m": "BN", "n": 2, "alpha": 1}, {"m": "EQ", "n": 2}, {"m": "FR", "n": 2}, {"m": "BB", "x": 0, "alpha": 1, "a": 2, "b": 1, "p": 0.5, "p_method": "geometric"}]
lcases = st.fixed_dictionaries({"spec": st.sampled_from(LONG), "seed": st.integers(0, 50)})

many = st.builds(lambda c, n, left: dict(c, data=dict(c["data"], n=n), opts={"total": 2, "burn": 0, "sub": 1}, left=left | 10, k=c["k"] % 3),
                 cases, st.sampled_from([520, 1100, 2100]), st.integers(0, 31))

SUBS = [Sub("mixtures", cases, check_mixtures, quick=700, thorough=15000), Sub("arguments", acases, check_arguments, quick=300, thorough=6000),
        Sub("weights", wcases, check_weights, quick=1200, thorough=20000), Sub("composition", ccases, check_composition, quick=500, thorough=8000),
        Sub("many observations", many, check_mixtures, quick=24, thorough=400, cpu_s=900), Sub("long run", lcases, check_long, quick=16, thorough=150)]
