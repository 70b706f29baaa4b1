import numpy as np
from hypothesis import strategies as st

from .. import gibbs as G, history as H, mixdata, models as M, session as S
from ..core import Sub, require

PROPERTY = "C12"
RULE = ("Mixtures: a case is a history of cold and warm Gibbs and variational fits and queries, played on two objects of the same seed with NumPy's "
        "global generator in different states (checked to be left alone), one of them showing progress; all results must agree bit for bit. "
        "'queries' plays the same fits with and without repeated queries in between. Weighting models: call histories played twice. "
        "Non-trivial: two or more results compared.")
ASSUMPTIONS = ["the mixtures over BetaInBeta and BetaBinomial take show_progress only when fitting"]


def rng_arg(kind, seed):
    return seed if kind == "int" else np.random.default_rng(seed)


def global_state(k):
    np.random.seed(1000 + k)
    np.random.normal()            # an odd number of normals: also the cached one is part of the state
    return np.random.get_state()


def same_global(a):
    b = np.random.get_state()
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]


def check_repro(case, rec):
    s = case["spec"]
    ys = [mixdata.make(c) for c in case["data"]]
    runs = []
    W = "%s, %s: " % (s["m"], case["ops"])
    for k in range(2):
        m = G.build(s, rng_arg(case["rng"], case["seed"]), case["opts"], {"lambda_prior": case["lam"]})
        st0 = global_state(k)
        show = case["show"] and k == 1
        with S.muted():
            runs.append(S.play(m, s, ys, case["ops"], show=show))
        require(same_global(st0), W + "NumPy's global generator was used")
    rec.classify("model " + s["m"], "rng " + case["rng"], "progress shown" if case["show"] else "no progress")
    rec.nontriv(len(runs[0]) > 1)
    rec.count("results", len(runs[0]))
    d = S.diff(runs[0], runs[1])
    require(d is None, W + "two runs of the same seed differ (%s)%s", d, " when progress is shown" if case["show"] else "")


def check_queries(case, rec):
    """Fits with and without queries in between; every query asked twice, in two orders."""
    s = case["spec"]
    ys = [mixdata.make(c) for c in case["data"]]
    W = "%s: " % s["m"]
    fits = []
    answers = []
    for k in range(2):
        m = G.build(s, rng_arg(case["rng"], case["seed"]), case["opts"], {"lambda_prior": case["lam"]})
        got = []
        have = None
        for op, arg in case["fits"]:
            if op == "var" and s["m"] not in M.VARIATIONAL:
                op = "gibbs"
            cur = [op, arg] if have is None or op in ("gibbs", "var") else (["warm", arg] if have == "gibbs" else ["varwarm", arg])
            y = ys[arg % len(ys)]
            if cur[0] == "gibbs":
                m.fit_gibbs(y, **G.start_kwargs(s, ["kmeans", "random"][(arg // 2) % 2], None))
                have, cy = "gibbs", y
            elif cur[0] == "var":
                m.fit_variational(y, n_groups=s["n"] if s["m"] in M.FINITE else 1 + arg % 4, init_method=["kmeans", "random"][(arg // 4) % 2])
                have, cy = "var", y
            elif cur[0] == "warm":
                m.fit_gibbs(cy, warm_start=True)
            elif cur[0] == "varwarm":
                m.fit_variational(cy, warm_start=True)
            else:
                m.fit_gibbs(y)
                have, cy = "gibbs", y
            got.append(S.gibbs_state(m) if have == "gibbs" else S.var_state(m))
            if k == 0:
                n = G.N_QUERIES if have == "gibbs" else S.VQ
                ask = (lambda q: G.queries(m, cy, q, s)) if have == "gibbs" else (lambda q: S.var_query(m, cy, q))
                order = np.random.default_rng(case["order"]).permutation(n)
                first = {int(q): np.array(ask(int(q)), copy=True) for q in order}
                for q in order[::-1]:
                    d = S.diff(first[int(q)], ask(int(q)))
                    require(d is None, W + "%s query %d gave different answers when asked again (%s)", have, q, d)
                d = S.diff(got[-1], S.gibbs_state(m) if have == "gibbs" else S.var_state(m))
                require(d is None, W + "queries changed the fitted state (%s)", d)
                answers.append(first)
        fits.append(got)
    rec.classify("model " + s["m"])
    rec.nontriv(len(case["fits"]) > 1)
    d = S.diff(fits[0], fits[1])
    require(d is None, W + "fits with and without queries in between differ (%s)", d)


def check_weights(case, rec):
    s = case["spec"]
    runs = []
    for k in range(2):
        wm = M.weight(s, rng_arg(case["rng"], case["seed"]))
        st0 = global_state(k)
        runs.append(play_weights(wm, s, case["ops"]))
        require(same_global(st0), "%s: NumPy's global generator was used", s["m"])
    rec.classify("model " + s["m"])
    rec.nontriv(len(runs[0]) > 1)
    d = S.diff(runs[0], runs[1])
    require(d is None, "%s, %s: two runs of the same seed differ (%s)", s["m"], case["ops"], d)


def play_weights(wm, s, ops):
    out = []
    for op, arg in ops:
        if op == "fit":
            wm.fit([v % s["n"] for v in arg] if s["m"] in M.FINITE else arg)
            out.append(np.array(wm.random()))
        elif op == "random":
            out.append(np.array(wm.random(arg)))
        elif op == "complete":
            if len(wm.get_weights()):
                out.append(np.array(wm.complete(arg)))
        elif op == "tail":
            x = H.tail_cap(s, wm, arg) if len(wm.get_weights()) else None
            if x is not None:
                out.append(np.array(wm.tail(x)))
        elif op == "assign":
            if np.sum(wm.get_weights()) > 0:
                out.append(np.array(wm.random_assignment(arg)))
        elif op == "read":
            a = [np.array(f()) for f in (wm.get_weights, wm.get_normalized_weights, wm.get_normalized_cumulative_weights)] if len(wm.get_weights()) else []
            b = [np.array(f()) for f in (wm.get_weights, wm.get_normalized_weights, wm.get_normalized_cumulative_weights)] if len(wm.get_weights()) else []
            d = S.diff(a, b)
            require(d is None, "%s: getters gave different answers (%s)", s["m"], d)
            out.append(a)
    return out


data2 = st.lists(mixdata.data(nmax=12), min_size=1, max_size=2)
base = {"spec": G.spec(), "data": data2, "opts": G.fit_opts(8), "lam": M.pos(0.1, 4), "rng": st.sampled_from(["int", "generator"]), "seed": M.seeds}
cases = G.fixed(dict(base, ops=S.op_list, show=st.booleans()))
qcases = G.fixed(dict(base, order=M.seeds, fits=st.lists(st.tuples(st.sampled_from(["gibbs", "var", "again", "again"]), st.integers(0, 40)).map(list),
                                                                      min_size=1, max_size=4)))
wops = st.one_of(st.tuples(st.just("fit"), H.labels), st.tuples(st.just("random"), st.integers(1, 12)), st.tuples(st.just("complete"), st.integers(1, 20)),
                 st.tuples(st.just("tail"), st.sampled_from([0.5, 0.9, 0.99])), st.tuples(st.just("assign"), st.one_of(st.none(), st.integers(1, 6))),
                 st.tuples(st.just("read"), st.none()))
wcases = G.fixed({"spec": H.SPEC, "rng": st.sampled_from(["int", "generator"]), "seed": M.seeds,
                                "ops": st.lists(wops.map(list), min_size=1, max_size=10)})

SUBS = [Sub("reproducibility", cases, check_repro, quick=500, thorough=15000),
        Sub("queries", qcases, check_queries, quick=250, thorough=6000),
        Sub("weighting models", wcases, check_weights, quick=1000, thorough=20000)]
