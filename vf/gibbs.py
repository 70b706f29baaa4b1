"""Gibbs-fitted mixtures of generated cases."""
import copy

import numpy as np
from hypothesis import strategies as st

from . import mixdata, models as M
from .core import as_float_array, as_int_array, require
from .refs import normal_logpdf

# moderate parameters: the slice sampler needs few enough weights per iteration
OVERRIDE = {
    "GP": st.fixed_dictionaries({"m": st.just("GP"), "a": M.pos(1.5, 6), "b": M.pos(0.5, 4)}),
    "PY": M.py_params(0.3),
    "DP": st.fixed_dictionaries({"m": st.just("DP"), "alpha": st.one_of(st.integers(1, 3), M.pos(0.3, 4))}),
    "BB": st.fixed_dictionaries({"m": st.just("BB"), "x": st.one_of(st.sampled_from([0, 1, 0.5]), M.unit(0.02, 0.9)),
                                 "alpha": M.pos(0.3, 3), "a": M.pos(1.5, 5), "b": M.pos(0.7, 4), "p": M.unit(0.05, 0.95),
                                 "p_method": st.sampled_from(["static", "geometric", "max-likelihood", "inverse-sampling"])}),
    "BD": st.fixed_dictionaries({"m": st.just("BD"), "alpha": M.pos(0.3, 3), "a": st.one_of(st.just(0), M.pos(0.3, 6))}),
    "BE": st.fixed_dictionaries({"m": st.just("BE"), "p": st.one_of(st.sampled_from([1, 0, 0.5]), M.unit(0.2, 0.98)), "alpha": M.pos(0.3, 3)}),
    "BN": st.fixed_dictionaries({"m": st.just("BN"), "n": st.integers(0, 8), "alpha": M.pos(0.3, 3)}),
}


def spec(kinds=M.ALL, nmax=5, **kw):
    return M.spec(kinds, override=OVERRIDE, nmax=nmax, **kw)


@st.composite
def fit_opts(draw, imax=12):
    if draw(st.sampled_from([False] * 19 + [True])):  # a longer chain
        total = draw(st.sampled_from([25, 55, 105, 300]))
        return {"total": total, "burn": draw(st.sampled_from([0, 1, 2, total // 2, total - 3])), "sub": draw(st.sampled_from([1, 1, 2, 7, 20]))}
    total = draw(st.integers(1, imax))
    return {"total": total, "burn": draw(st.integers(0, total - 1)), "sub": draw(st.one_of(st.just(1), st.integers(1, 5)))}


def tame(case):
    """Long chains only where an iteration is fast."""
    slow = any(case.get(k, {}).get("p_method") == "inverse-sampling" and 0 < case[k]["x"] < 1 for k in ("spec", "spec2"))
    return dict(case, opts=dict(case["opts"], total=12, burn=min(case["opts"]["burn"], 9))) if slow and case.get("opts", {}).get("total", 0) > 15 else case


def populate(case):
    """Now and then a mixture with many occupied components."""
    if not case.pop("many", False) or case["spec"]["m"] in ("PY", "BB", "BN"):
        return case
    s = dict(case["spec"])
    if s["m"] in M.FINITE:
        s["n"] = 13
        if s["m"] == "DD":
            s["alpha"] = 1.0
    elif s["m"] != "GP":
        s["alpha"] = 3.0
    c = dict(case, spec=s, data=dict(case["data"], kind="many", n=40, D=min(case["data"]["D"], 3)), init="kmeans", groups=13)
    if "prior" in c:
        c["prior"] = dict(case["prior"], psi="tight", lam=0.05)
    return c


def fixed(d):
    if all(k in d for k in ("spec", "data", "init", "groups", "opts")):
        d = dict(d, many=st.sampled_from([False] * 14 + [True]))
    return st.fixed_dictionaries(d).map(lambda c: populate(tame(c)))


starts = st.sampled_from(["kmeans", "kmeans", "random", "variational", None])


def build(s, seed, opts, kw, **more):
    return M.mixture(s, seed, total_iter=opts["total"], burn_in=opts["burn"], subsample_steps=opts["sub"], **kw, **more)


def start_kwargs(s, init, groups):
    if init == "variational" and s["m"] not in M.VARIATIONAL:
        init = "random"
    kw = {} if init is None else {"init_method": init}
    if groups:
        kw["init_groups"] = groups if s["m"] not in M.FINITE else min(groups, s["n"])
    return kw


def n_saved(opts):
    return -(-(opts["total"] - opts["burn"]) // opts["sub"])


def snapshot(draws):
    return copy.deepcopy([{"w": np.array(p["w"]), "d": np.array(p["d"]), "u": np.array(p["u"]),
                           "theta": {int(j): (np.array(t[0]), np.array(t[1])) for j, t in p["theta"].items()}} for p in draws])


def same_draw(a, b):
    return (np.array_equal(a["w"], b["w"]) and np.array_equal(a["d"], b["d"]) and set(a["theta"]) == set(b["theta"])
            and all(np.array_equal(a["theta"][j][0], b["theta"][j][0]) and np.array_equal(a["theta"][j][1], b["theta"][j][1]) for j in a["theta"]))


def same_history(a, b):
    return len(a) == len(b) and all(same_draw(x, y) for x, y in zip(a, b))


def check_draw(p, n, D, W):
    """Validity of one state of the chain."""
    w = as_float_array(p["w"], W + "weights")
    require(w.ndim == 1 and len(w) > 0 and np.all(w >= 0) and w.sum() <= 1 + 1e-9, W + "invalid weights %s", w)
    d = as_int_array(p["d"], W + "labels", shape=(n,))
    require(np.all((d >= 0) & (d < len(w))), W + "labels %s beyond the %d weights", d, len(w))
    for j in range(len(w)):
        require(j in p["theta"], W + "weight %d has no component", j)
    for j, (mu, sigma) in p["theta"].items():
        A = "%scomponent %d: " % (W, j)
        as_float_array(mu, A + "mean", shape=(D,))
        S = as_float_array(sigma, A + "covariance", shape=(D, D))
        require(np.allclose(S, S.T, rtol=1e-9, atol=0), A + "covariance not symmetric")
        sd = np.sqrt(np.maximum(np.diagonal(S), 0))
        require(sd.min() > 0 and np.linalg.eigvalsh(S / np.outer(sd, sd)).min() > 0, A + "covariance not positive definite")


def log_lik(p, y):
    """log p(y | d, theta) + log p(d | w), and the error that rounding may make."""
    r = err = 0.0
    with np.errstate(divide="ignore"):
        for i, j in enumerate(np.asarray(p["d"])):
            mu, S = p["theta"][int(j)]
            lp, e = normal_logpdf(y[i:i + 1], mu, S)
            r += lp[0] + np.log(p["w"][j])
            err += e[0]
    return float(r), float(err)


def queries(m, y, which, s):
    """Call a query; returns a comparable result."""
    x = y[:3] + 0.1
    if which == 0:
        return m.gibbs_eap_density()
    if which == 1:
        return m.gibbs_map_density(x)
    if which == 2:
        return m.gibbs_eap_affinity_matrix()
    if which == 3:
        return m.gibbs_eap_affinity_matrix(x)
    if which == 4:
        return np.concatenate(m.gibbs_map_cluster(full=True))
    if which == 5:
        return m.gibbs_map_cluster(x)
    if which == 6:
        return m.gibbs_eap_spectral_consensus_cluster(n_clusters=min(2, len(y)))
    if which == 7:
        return m.gibbs_eap_density(x, component=0)
    if which == 8:
        return m.gibbs_eap_density(x[:, :1], dim=0, periods=2)
    if which == 9:
        return np.array([float(v) for v in m.get_n_groups()] + [float(v) for v in m.get_n_theta()])
    if which == 10:
        return np.array([len(m.get_sim_params())])
    if which == 11:
        return m.gibbs_map_density(y, dim=list(range(y.shape[1])))
    raise KeyError(which)


N_QUERIES = 12
_ = mixdata
