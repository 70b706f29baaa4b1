import numpy as np
from hypothesis import strategies as st

from .. import gibbs as G, mixdata, models as M, session as S
from ..core import Sub, require

PROPERTY = "C13"
RULE = ("'cold' plays a history of fits, warm starts and queries on a mixture (one to three data sets of different sizes and dimensions), then fits it "
        "cold, and fits a fresh object with the generator in the same state: all results must agree bit for bit. 'warm' compares repeated "
        "warm starts with one long fit. Non-trivial: the history contains a fit (cold), two or more draws or iterations (warm).")
ASSUMPTIONS = ["explicit priors of one dimension are only used with data of that dimension",
               "a warm start repeats the burn-in, so continuation is compared without burn-in and with thinning that divides the iterations"]


def explicit(case, D):
    g = np.random.default_rng([case["seed"], 9])
    kw = {"lambda_prior": case["lam"]}
    if "mu" in case["explicit"]:
        kw["mu_prior"] = g.normal(size=D)
    if "psi" in case["explicit"]:
        A = g.normal(size=(D, D + 1))
        kw["psi_prior"] = A @ A.T + 0.3 * np.eye(D)
    if "nu" in case["explicit"]:
        kw["nu_prior"] = D + 1.5
    return kw


def final_fit(m, s, y, f, before):
    kind, arg = f
    k = s["n"] if s["m"] in M.FINITE else 1 + arg % 4
    if kind == "var" and s["m"] in M.VARIATIONAL:
        m.fit_variational(y, n_groups=k, init_method=["kmeans", "random"][(arg // 4) % 2])
        return {"var": S.var_state(m), "queries": [np.array(S.var_query(m, y, q)) for q in range(S.VQ)]}
    m.fit_gibbs(y, **G.start_kwargs(s, ["kmeans", "random", "variational", None][arg % 4], [None, None, 1, 3][(arg // 4) % 4]))
    return {"gibbs": S.gibbs_state(m), "queries": [np.array(G.queries(m, y, q, s)) for q in range(G.N_QUERIES)]}


def check_cold(case, rec):
    s = case["spec"]
    ys = [mixdata.make(c) for c in case["data"]]
    yf = ys[case["last"] % len(ys)]
    if case["explicit"]:
        ys = [y for y in ys if y.shape[1] == yf.shape[1]]
    kw = explicit(case, yf.shape[1])
    g = M.gen(case["seed"])
    a = G.build(s, g, case["opts"], kw)
    done = S.play(a, s, ys, case["ops"])
    rec.classify("model " + s["m"], "final " + case["final"][0])
    rec.nontriv(len(done) > 0)
    state = g.bit_generator.state
    A = final_fit(a, s, yf, case["final"], done)
    g2 = M.gen(case["seed"] + 1)
    b = G.build(s, g2, case["opts"], explicit(case, yf.shape[1]))
    g2.bit_generator.state = state
    B = final_fit(b, s, yf, case["final"], done)
    d = S.diff(A, B)
    require(d is None, "%s: after %s a cold fit differs from that of a fresh object (%s)", s["m"], case["ops"], d)
    W = "%s: after %s: " % (s["m"], case["ops"])
    for name in ("mu_prior", "psi_prior", "nu_prior", "lambda_prior"):
        d = S.diff(getattr(a, name), getattr(b, name))
        require(d is None, W + "%s differs from that of a fresh object (%s)", name, d)
    # and it stays equal when continued
    if case["more"]:
        for m in (a, b):
            if "gibbs" in A:
                m.fit_gibbs(yf, warm_start=True)
            else:
                m.fit_variational(yf, warm_start=True)
        f = S.gibbs_state if "gibbs" in A else S.var_state
        d = S.diff(f(a), f(b))
        require(d is None, W + "the continued cold fit differs from that of a fresh object (%s)", d)


def check_warm(case, rec):
    s = case["spec"]
    y = mixdata.make(case["data"])
    kw, _ = mixdata.prior_kwargs(case["prior"], y)
    r, n = case["rounds"], case["n"]
    rec.classify("model " + s["m"], case["kind"])
    rec.nontriv(r * n > 1)
    if case["kind"] == "var" and s["m"] in M.VARIATIONAL:
        k = s["n"] if s["m"] in M.FINITE else 1 + case["k"]
        a = M.mixture(s, case["seed"], total_iter=n, burn_in=0, **kw)
        for i in range(r):
            a.fit_variational(y, n_groups=k, init_method=case["init"], tol=0, warm_start=i > 0)
            if a.var_converged:     # the change of the bound vanished: rounding decides when, so stop comparing
                rec.classify("bound constant")
                return
        b = M.mixture(s, case["seed"], total_iter=n * r, burn_in=0, **kw)
        b.fit_variational(y, n_groups=k, init_method=case["init"], tol=0)
        if b.var_converged:
            rec.classify("bound constant")
            return
        A, B = S.var_state(a), S.var_state(b)
        qa, qb = [[np.array(S.var_query(m, y, q)) for q in range(S.VQ)] for m in (a, b)]
    else:
        sub = case["sub"]
        n *= sub
        skw = G.start_kwargs(s, case["init"], case["groups"])
        a = M.mixture(s, case["seed"], total_iter=n, burn_in=0, subsample_steps=sub, **kw)
        for i in range(r):
            if i == 0:
                a.fit_gibbs(y, **skw)
            else:
                a.fit_gibbs(y, warm_start=True, **(skw if case["again"] else {}))
        b = M.mixture(s, case["seed"], total_iter=n * r, burn_in=0, subsample_steps=sub, **kw)
        b.fit_gibbs(y, **skw)
        A, B = S.gibbs_state(a), S.gibbs_state(b)
        qa, qb = [[np.array(G.queries(m, y, q, s)) for q in range(G.N_QUERIES)] for m in (a, b)]
    W = "%s: %d rounds of %d iterations: " % (s["m"], r, n)
    d = S.diff(A, B)
    require(d is None, W + "warm starts differ from one fit (%s)", d)
    d = S.diff(qa, qb)
    require(d is None, W + "queries after warm starts differ from those of one fit (%s)", d)


cold = G.fixed({
    "spec": G.spec(), "data": st.lists(mixdata.data(nmax=12), min_size=1, max_size=3), "last": st.integers(0, 2), "opts": G.fit_opts(8), "lam": M.pos(0.1, 4),
    "explicit": st.sampled_from([[], [], [], ["mu"], ["psi"], ["nu"], ["mu", "psi", "nu"]]), "ops": S.op_list,
    "final": st.tuples(st.sampled_from(["gibbs", "gibbs", "var"]), st.integers(0, 40)).map(list), "more": st.booleans(), "seed": M.seeds})
warm = G.fixed({
    "spec": G.spec(), "data": mixdata.data(nmax=12, few=True), "prior": mixdata.priors, "rounds": st.integers(2, 4), "n": st.integers(1, 4), "sub": st.integers(1, 3),
    "kind": st.sampled_from(["gibbs", "var"]), "init": st.sampled_from(["kmeans", "random"]), "groups": st.sampled_from([None, None, 1, 3]), "k": st.integers(0, 4),
    "again": st.booleans(), "seed": M.seeds})

SUBS = [Sub("cold", cold, check_cold, quick=600, thorough=15000),
        Sub("warm", warm, check_warm, quick=500, thorough=12000)]
