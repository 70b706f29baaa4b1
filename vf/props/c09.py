import numpy as np
from hypothesis import strategies as st

from .. import gibbs as G, mixdata, models as M
from ..core import Sub, require

PROPERTY = "C09"
RULE = ("A case is a mixture, data, priors, an initialization and a history of cold fits, warm starts (mostly of one iteration, so that every state is "
        "saved), variational fits and queries; the reported maximum is recomputed from the definition and compared with every state observed "
        "since the last cold fit, also against a run of the same seed which discards the same states as burn-in or by thinning. Non-trivial: "
        "three or more states observed.")
ASSUMPTIONS = ["log-likelihoods agree up to 1e-9 relative rounding; ties within that may go to either state",
               "only the initial state of a fit is not observable; a maximum better than all observed states is taken for it, if it is the first"]


def check(case, rec):
    s = case["spec"]
    y, y2 = mixdata.make(case["data"]), mixdata.make(case["data2"])
    kw, _ = mixdata.prior_kwargs(case["prior"], y)
    if y.shape[1] != y2.shape[1]:
        y2 = y + 100.0
    one = {"total": 1, "burn": 0, "sub": 1}
    m = G.build(s, case["seed"], one, kw)
    rec.classify("model " + s["m"], "init %s" % case["init"])
    best = None            # largest observed log-likelihood since the last cold fit
    states = []
    init_ll = None         # a value never observed, reached at the start
    last = None

    def verify(W, fresh):
        nonlocal best, init_ll, last
        seen = m.get_sim_params()
        for p in seen[len(states):]:
            states.append((G.snapshot([p])[0],) + G.log_lik(p, y))
        p = m.map_sim_params
        require(p is not None, W + "no MAP state")
        G.check_draw(p, len(y), y.shape[1], W + "MAP state: ")
        ll, err = G.log_lik(p, y)
        rep = float(m.map_log_likelihood)
        tol = err + 1e-9 * (1 + abs(ll)) if np.isfinite(ll) else 0
        require(rep == ll or abs(rep - ll) <= tol, W + "reported log-likelihood %r, that of the MAP state is %r", rep, ll)
        top = max(v - e for _, v, e in states)
        require(rep >= top - tol, W + "a saved draw has log-likelihood %r, the MAP state only %r", top, rep)
        hit = any(G.same_draw(p, q) for q, _, _ in states)
        if not hit:
            # must be the initial state of this cold fit: seen at its first check and the same ever since
            if fresh:
                init_ll = G.snapshot([p])[0]
            require(init_ll is not None and G.same_draw(p, init_ll), W + "the MAP state is no state visited since the last cold fit")
            rec.count("initial state is the MAP")
        else:
            rec.count("a later state is the MAP")
        if last is not None and not fresh:
            require(rep >= last, W + "the maximum fell from %r to %r", last, rep)
        last = rep

    m.fit_gibbs(y, **G.start_kwargs(s, case["init"], case["groups"]))
    W0 = "%s: " % s["m"]
    verify(W0, True)
    for i, (op, arg) in enumerate(case["ops"]):
        W = "%sstep %d (%s): " % (W0, i + 1, op)
        if op == "warm":
            m.fit_gibbs(y, warm_start=True)
            verify(W, False)
        elif op in ("cold", "other"):
            if op == "other":
                y, y2 = y2, y
            states.clear()
            init_ll = last = None
            m.fit_gibbs(y, **G.start_kwargs(s, ["kmeans", "random", "variational"][arg % 3], case["groups"]))
            verify(W, True)
        elif op == "var":
            if s["m"] in M.VARIATIONAL:
                m.fit_variational(y, n_groups=s["n"] if s["m"] in M.FINITE else 1 + arg % 4)
                verify(W, False)
        else:
            G.queries(m, y, arg % G.N_QUERIES, s)
            verify(W, False)
    rec.nontriv(len(states) > 2)


def check_discarded(case, rec):
    """The maximum does not depend on which states are discarded."""
    s = case["spec"]
    y = mixdata.make(case["data"])
    kw, _ = mixdata.prior_kwargs(case["prior"], y)
    opts = case["opts"]
    st_kw = G.start_kwargs(s, case["init"], case["groups"])
    rec.classify("model " + s["m"], "burn-in" if opts["burn"] else "no burn-in", "thinned" if opts["sub"] > 1 else "all saved")
    rec.nontriv(opts["total"] > 2 and (opts["burn"] > 0 or opts["sub"] > 1))
    a = G.build(s, case["seed"], {"total": opts["total"], "burn": 0, "sub": 1}, kw)
    a.fit_gibbs(y, **st_kw)
    b = G.build(s, case["seed"], opts, kw)
    b.fit_gibbs(y, **st_kw)
    W = "%s %s: " % (s["m"], opts)
    lls = [G.log_lik(p, y) for p in a.get_sim_params()]
    top = max(v - e for v, e in lls)
    tol = 1e-9 * (1 + abs(top))
    require(float(b.map_log_likelihood) >= top - tol, W + "a discarded state has log-likelihood %r, the MAP state only %r", top, b.map_log_likelihood)
    require(float(a.map_log_likelihood) == float(b.map_log_likelihood) and G.same_draw(a.map_sim_params, b.map_sim_params),
            W + "the MAP state depends on the discarded states: %r with all saved, %r", a.map_log_likelihood, b.map_log_likelihood)


base = {"spec": G.spec(), "data": mixdata.data(nmax=12, few=True), "prior": mixdata.priors, "init": G.starts, "groups": st.sampled_from([None, None, 1, 2, 4]),
        "seed": M.seeds}
cases = G.fixed(dict(
    base, data2=mixdata.data(nmax=12),
    ops=st.lists(st.tuples(st.sampled_from(["warm"] * 6 + ["query", "cold", "other", "var"]), st.integers(0, 40)).map(list), max_size=12)))
dcases = G.fixed(dict(base, opts=G.fit_opts(15)))

SUBS = [Sub("maximum", cases, check, quick=700, thorough=20000),
        Sub("discarded states", dcases, check_discarded, quick=400, thorough=10000)]
