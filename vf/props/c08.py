import numpy as np
from hypothesis import strategies as st

from .. import gibbs as G, mixdata, models as M
from ..core import Sub, as_float_array, require, require_close

PROPERTY = "C08"
RULE = ("A case is one of the ten mixtures, data of 1-3 features, priors, iteration settings, an initialization and a history of warm starts (same data), "
        "cold refits (same or other data and dimension), variational fits and queries. After every step the whole saved history is validated, the "
        "reported counts and affinities are recomputed from it, and all draws saved before are compared bit for bit. Non-trivial: at least two "
        "draws saved and one step after the first fit.")
ASSUMPTIONS = ["the slice sampler's parameters are kept where one iteration needs a moderate number of weights"]


def check(case, rec):
    s = case["spec"]
    y = mixdata.make(case["data"])
    y2 = mixdata.make(case["data2"])
    kw = {"lambda_prior": case["lam"]}
    few = len(y) < y.shape[1] + 2
    if few:
        kw["psi_prior"] = np.eye(y.shape[1])
        rec.classify("few observations")
    opts = case["opts"]
    m = G.build(s, case["seed"], opts, kw)
    rec.classify("model " + s["m"], "init %s" % case["init"])
    m.fit_gibbs(y, **G.start_kwargs(s, case["init"], case["groups"]))
    W0 = "%s, %s: " % (s["m"], opts)
    kept = []         # (list object elements, snapshots) of all draws ever saved
    cur = []
    handed = []       # what was handed out before later cold fits
    expect = G.n_saved(opts)

    def verify(W):
        draws = m.get_sim_params()
        n, D = y.shape
        require(len(draws) == expect, W + "%d draws saved instead of %d", len(draws), expect)
        require(m.total_saved_steps == expect, W + "total_saved_steps is %s instead of %d", m.total_saved_steps, expect)
        for i, p in enumerate(draws):
            if i >= len(cur):
                G.check_draw(p, n, D, "%sdraw %d: " % (W, i))
                cur.append(G.snapshot([p])[0])
                kept.append((p, cur[-1]))
        require(G.same_history(draws, cur), W + "the saved draws changed")
        for p, old in kept:
            require(G.same_draw(p, old), W + "a draw saved earlier changed")
            require(np.array_equal(p["u"], old["u"]), W + "a slice variable saved earlier changed")
        for o, c in handed:
            require(len(o) == len(c) and all(a is b or np.array_equal(a, b) for a, b in zip(o, c)), W + "a result handed out before an earlier cold fit changed")
        require([int(v) for v in m.get_n_groups()] == [len(set(np.asarray(p["d"]).tolist())) for p in cur], W + "numbers of groups %s", m.get_n_groups())
        require([int(v) for v in m.get_n_theta()] == [len(p["theta"]) for p in cur], W + "numbers of components %s", m.get_n_theta())
        A = np.mean([np.equal.outer(p["d"], p["d"]) for p in cur], axis=0)
        require_close(as_float_array(m.gibbs_eap_affinity_matrix(), W + "affinity", shape=(n, n)), A, W + "affinity of the fitted data", rtol=1e-12, atol=1e-12)

    verify(W0)
    for i, (op, arg) in enumerate(case["ops"]):
        W = "%sstep %d (%s): " % (W0, i + 1, op)
        rec.count("op " + op)
        if op == "warm":
            m.fit_gibbs(y, warm_start=True)
            expect += G.n_saved(opts)
        elif op in ("cold", "other"):
            if op == "other" and not few:
                y, y2 = y2, y
            got = [m.get_sim_params(), m.get_n_groups(), m.get_n_theta(), m.gibbs_eap_affinity_matrix(), m.gibbs_map_cluster()]
            handed += [(o, list(o) if isinstance(o, list) else o.copy()) for o in got]
            m.fit_gibbs(y, **G.start_kwargs(s, ["kmeans", "random", "variational"][arg % 3], case["groups"]))
            cur.clear()
            expect = G.n_saved(opts)
        elif op == "var":
            if s["m"] in M.VARIATIONAL:
                m.fit_variational(y, n_groups=s["n"] if s["m"] in M.FINITE else 1 + arg % 4)
        else:
            G.queries(m, y, arg % G.N_QUERIES, s)
        verify(W)
    rec.nontriv(len(kept) > 1 and len(case["ops"]) > 0)


cases = G.fixed({
    "spec": G.spec(), "data": mixdata.data(nmax=14, few=True), "data2": mixdata.data(nmax=14), "lam": M.pos(0.1, 4), "opts": G.fit_opts(), "init": G.starts,
    "groups": st.sampled_from([None, None, 1, 2, 4]), "seed": M.seeds,
    "ops": st.lists(st.tuples(st.sampled_from(["warm", "warm", "query", "query", "query", "cold", "other", "var"]), st.integers(0, 40)).map(list),
                    max_size=6)})

SUBS = [Sub("history", cases, check, quick=700, thorough=20000)]
