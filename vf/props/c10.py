import numpy as np
from hypothesis import strategies as st

from .. import gibbs as G, mixdata, models as M
from ..core import Sub, as_float_array, require_close
from ..refs import normal_logpdf
from .c20 import dim_kinds, pick_dim, point_kinds, points

PROPERTY = "C10"
RULE = ("A case is a Gibbs-fitted mixture (1-3 features), one to three sets of query points (fitted data, near, far, one or many points), coordinates (none, int, NumPy integer, "
        "tuple, list, array), a number of periods and a component; the density is recomputed from the saved draws or MAP state, feature by "
        "feature in extended precision. Non-trivial: at least two draws and a marginal, or two draws with components of different weight.")
ASSUMPTIONS = ["a component is one that exists in all draws used"]


def mix(p, x, dims, comps):
    """Density and its uncertainty by rounding."""
    out = np.zeros((2, len(x)))
    for j in comps:
        mu, S = np.atleast_1d(p["theta"][j][0]), np.atleast_2d(p["theta"][j][1])
        lp, e = normal_logpdf(x, mu[dims], S[np.ix_(dims, dims)])
        out[0] += p["w"][j] * np.exp(lp)
        out[1] += p["w"][j] * np.exp(lp) * np.minimum(e, 1)
    return out


def check(case, rec):
    s = case["spec"]
    y = mixdata.make(case["data"])
    kw, _ = mixdata.prior_kwargs(case["prior"], y)
    m = G.build(s, case["seed"], case["opts"], kw)
    m.fit_gibbs(y, **G.start_kwargs(s, case["init"], case["groups"]))
    if case["warm"]:
        m.fit_gibbs(y, warm_start=True)
    rec.classify("model " + s["m"])
    for i, q in enumerate([{}] + case["more"]):
        densities(dict(case, seed=case["seed"] + i, **q), rec, m, y)


def densities(case, rec, m, y):
    s = case["spec"]
    draws = m.get_sim_params()
    dim, dims = pick_dim(case, y.shape[1])
    given, x = points(case, y, dims)
    per = case["periods"]
    used = draws if per is None else draws[-per:]
    rec.classify("dim " + str(case["dim"]), "points " + case["points"], "periods" if per else "all draws")
    rec.nontriv(len(draws) > 1 and (len(dims) < y.shape[1] or max(len(p["w"]) for p in used) > 1))
    W = "%s, %d draws, %d features, dim=%r, periods=%r, %s points: " % (s["m"], len(draws), y.shape[1], dim, per, case["points"])
    kwd = {} if dim is None and case["flat"] else {"dim": dim}
    kmin = min(len(p["w"]) for p in used)
    comp = None if case["component"] is None else case["component"] % kmin

    def cmp(got, want, what):
        got = as_float_array(got, W + what, shape=(len(x),))
        want, err = want
        require_close(got, want, W + what, rtol=1e-7, atol=err + 1e-13 * max(1e-280, float(np.max(want))))

    def go(f, ps, name, kmax, **k2):
        a = () if given is None else (given,)
        sel = [range(len(p["w"])) for p in ps]
        cmp(f(*a, **kwd, **k2), np.mean([mix(p, x, dims, c) for p, c in zip(ps, sel)], axis=0), name + " density")
        c = None if comp is None else min(comp, kmax - 1)
        if c is not None:
            cmp(f(*a, component=c, **kwd, **k2), np.mean([mix(p, x, dims, [c]) for p in ps], axis=0), "%s density of component %d" % (name, c))

    go(m.gibbs_eap_density, used, "EAP", kmin, **({} if per is None else {"periods": per}))
    mp = m.map_sim_params
    go(m.gibbs_map_density, [mp], "MAP", len(mp["w"]))
    if case["sum"]:
        a = () if given is None else (given,)
        tot = np.sum([m.gibbs_map_density(*a, component=j, **kwd) for j in range(len(mp["w"]))], axis=0)
        require_close(tot, m.gibbs_map_density(*a, **kwd), W + "sum of the components of the MAP density", rtol=1e-9, atol=1e-290)


pers = st.sampled_from([None, None, 1, 2, 3, 7, 100])
comps = st.sampled_from([None, 0, 1, 2, 3, 9, 12])
queries = st.fixed_dictionaries({"periods": pers, "component": comps, "dim": dim_kinds, "points": point_kinds, "flat": st.booleans()})
cases = G.fixed({
    "spec": G.spec(), "data": mixdata.data(nmax=12, few=True), "prior": mixdata.priors, "opts": G.fit_opts(14), "init": G.starts,
    "groups": st.sampled_from([None, None, 1, 3]), "warm": st.booleans(), "periods": pers,
    "component": comps, "dim": dim_kinds,
    "points": point_kinds, "lots": st.sampled_from([33, 101, 257, 600, 2100]), "flat": st.booleans(), "more": st.lists(queries, max_size=2), "sum": st.booleans(), "seed": M.seeds})

SUBS = [Sub("densities", cases, check, quick=1500, thorough=30000)]
