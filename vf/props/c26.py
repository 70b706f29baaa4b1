"""The two fitting methods of one object keep their results apart."""
import numpy as np
from hypothesis import strategies as st

from .. import gibbs as G, mixdata, models as M, session as S
from ..core import Sub, require
from .c12 import play_weights, wops
from .c13 import explicit
from .c17 import resp

PROPERTY = "C26"
RULE = ("'mixtures' fits an object by one method, asks every query, fits it by the other method (cold or warm, same or other data, often with another number "
        "of features or observations, with queries in between) and asks again: all answers of the first method must be bit-identical; when priors and data "
        "allow, a warm start of the first method must then go on as that of an object which never saw the other method (the generator being put back). "
        "'weights' merges draws and variational fits on one weighting model and compares each with its history alone. Non-trivial: the other method was "
        "fitted to other data or the warm start was compared (mixtures); both histories have results (weights).")
ASSUMPTIONS = ["a Gibbs fit initialized by the variational method replaces the variational fit",
               "warm starts are compared when the data are the same or all priors are given, since default priors are taken from the latest data"]


def first_fit(m, s, y, kind, arg):
    if kind == "gibbs":
        m.fit_gibbs(y, **G.start_kwargs(s, ["kmeans", "random", "variational", None][arg % 4], [None, None, 1, 3][(arg // 4) % 4]))
    else:
        m.fit_variational(y, n_groups=s["n"] if s["m"] in M.FINITE else 1 + arg % 4, init_method=["kmeans", "random"][(arg // 4) % 2])


def answers(m, s, y, kind):
    if kind == "gibbs":
        return {"state": S.gibbs_state(m), "queries": [np.array(G.queries(m, y, q, s)) for q in range(G.N_QUERIES)],
                "default": [np.array(m.gibbs_map_density()), np.array(m.gibbs_eap_density(dim=y.shape[1] - 1)), np.array(m.gibbs_map_cluster())]}
    r = {"state": S.var_state(m), "queries": [np.array(S.var_query(m, y, q)) for q in range(S.VQ)],
         "default": [np.array(m.var_eap_density(dim=y.shape[1] - 1)), np.array(m.var_map_cluster())],
         "points": [np.array(m.var_eap_density(y[::-1])), np.array(m.var_eap_affinity_matrix(y))]}
    if s["m"] in M.FINITE and min(t[3] for t in m.var_theta) - y.shape[1] > 0.1:
        try:
            r["map"] = np.array(m.var_map_density(y))
        except ValueError:      # no mode
            pass
    return r


def picture(m):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.close("all")
    m.gibbs_map_pairplot()
    fig = plt.gcf()
    out = [[np.array(c.get_offsets(), float) for c in ax.collections if len(c.get_offsets()) > 1] for ax in fig.axes]
    labels = [ax.get_xlabel() + "|" + ax.get_ylabel() for ax in fig.axes]
    plt.close("all")
    return {"points": out, "n": len(fig.axes), "labels": [sum(map(ord, t)) for t in labels]}


def check(case, rec):
    s = case["spec"]
    y = mixdata.make(case["data"])
    y2 = {"same": lambda: y, "vary": lambda: mixdata.vary(y, case["vary"]), "own": lambda: mixdata.make(case["data2"])}[case["other"]]()
    kind = case["first"]
    rest = "var" if kind == "gibbs" else "gibbs"
    given = list(case["explicit"]) if y2.shape[1] == y.shape[1] else []
    kw = explicit(dict(case, explicit=given), y.shape[1])
    g, g2 = M.gen(case["seed"]), M.gen(case["seed"])
    a, b = G.build(s, g, case["opts"], kw), G.build(s, g2, case["opts"], explicit(dict(case, explicit=given), y.shape[1]))
    for m in (a, b):
        first_fit(m, s, y, kind, case["arg"])
    before = answers(a, s, y, kind)
    plot = case["plot"] and kind == "gibbs" and y.shape[1] <= 3
    if plot:
        before["plot"] = picture(a)
    state = g.bit_generator.state
    flags = (bool(a.gibbs_fitted), bool(a.var_fitted))
    done = []
    for op, arg in [["fit", case["arg2"]]] + case["ops"]:
        done.append(op)
        if op == "fit":
            if rest == "gibbs" and arg % 4 == 2:
                arg += 1
            first_fit(a, s, y2, rest, arg)
        elif op == "warm":
            (a.fit_gibbs if rest == "gibbs" else a.fit_variational)(y2, warm_start=True)
        elif rest == "gibbs":
            G.queries(a, y2, arg % G.N_QUERIES, s)
        else:
            S.var_query(a, y2, arg % S.VQ)
    W = "%s: after %s by the other method on %s data (%s features, then %s), " % (s["m"], done, case["other"], y.shape[1], y2.shape[1])
    names = {"gibbs": "Gibbs", "var": "variational"}
    rec.classify("model " + s["m"], "first " + kind, "other data: " + case["other"], "features %s" % ("alike" if y2.shape[1] == y.shape[1] else "differ"))
    require(bool(a.gibbs_fitted) >= flags[0] and bool(a.var_fitted) >= flags[1], W + "an earlier fit is no longer reported")
    after = answers(a, s, y, kind)
    if plot:
        after["plot"] = picture(a)
    d = S.diff(before, after)
    require(d is None, W + "the answers of the %s fit changed (%s)", names[kind], d)
    cont = case["continue"] and (y2 is y or len(given) == 3)
    rec.nontriv(cont or y2 is not y)
    if cont:
        g.bit_generator.state = state
        for m in (a, b):
            (m.fit_gibbs if kind == "gibbs" else m.fit_variational)(y, warm_start=True)
        rec.count("warm start compared")
        d = S.diff(answers(a, s, y, kind), answers(b, s, y, kind))
        require(d is None, W + "a warm start of the %s fit goes on differently (%s)", names[kind], d)


def play_var(wm, s, op, arg, out):
    if op == "vfit":
        k = s["n"] if s["m"] in M.FINITE else 1 + arg % 6
        wm.fit_variational(resp({"seed": arg, "n": arg % 13, "kind": ["soft", "sharp", "hard"][arg % 3], "empty": 1}, k))
    k = wm.variational_k
    if k is None:
        return
    r = [[float(wm.variational_mean_w_j(j)), float(wm.variational_mean_log_w_j(j))] for j in range(k)]
    out.append(np.array(r))
    out.append(np.array([float(wm.variational_mean_log_p_w()), float(wm.variational_mean_log_q_w()), float(wm.variational_mean_log_p_d__w())]))


def check_weights(case, rec):
    s = case["spec"]
    merged = M.weight(s, case["seed"])
    alone_d = play_weights(M.weight(s, case["seed"]), s, case["draws"])
    alone_v = []
    wm = M.weight(s, case["seed"] + 1)
    for op, arg in case["fits"]:
        play_var(wm, s, op, arg, alone_v)
    dr, va = [], []
    todo = [list(case["draws"]), list(case["fits"])]
    order = list(case["order"]) + [False] * len(case["draws"]) + [True] * len(case["fits"])
    for which in order:
        if not todo[which]:
            continue
        op = todo[which].pop(0)
        if which:
            play_var(merged, s, op[0], op[1], va)
        else:
            dr += play_weights(merged, s, [op])
    rec.classify("model " + s["m"])
    rec.nontriv(len(dr) > 0 and len(va) > 0)
    d = S.diff(alone_d, dr)
    require(d is None, "%s: draws %s differ when variational fits %s come in between (%s)", s["m"], case["draws"], case["fits"], d)
    d = S.diff(alone_v, va)
    require(d is None, "%s: expectations after %s differ when draws %s come in between (%s)", s["m"], case["fits"], case["draws"], d)


ops = st.lists(st.tuples(st.sampled_from(["fit", "warm", "warm", "query", "query"]), st.integers(0, 40)).map(list), max_size=4)
cases = G.fixed({
    "spec": G.spec(M.VARIATIONAL), "data": mixdata.data(nmax=12), "data2": mixdata.data(nmax=12), "other": st.sampled_from(["same", "vary", "own", "own"]),
    "vary": st.sampled_from(mixdata.VARY), "first": st.sampled_from(["gibbs", "var"]), "arg": st.integers(0, 40), "arg2": st.integers(0, 40), "ops": ops,
    "opts": G.fit_opts(6), "lam": M.pos(0.1, 4), "explicit": st.sampled_from([[], [], ["mu", "psi", "nu"], ["mu", "psi", "nu"], ["psi"]]),
    "plot": st.sampled_from([False] * 7 + [True]), "continue": st.booleans(), "seed": M.seeds})
wcases = st.fixed_dictionaries({
    "spec": M.spec(M.VARIATIONAL), "draws": st.lists(wops.map(list), min_size=1, max_size=8),
    "fits": st.lists(st.tuples(st.sampled_from(["vfit", "vfit", "vask"]), st.integers(0, 1000)).map(list), min_size=1, max_size=4),
    "order": st.lists(st.booleans(), max_size=12), "seed": M.seeds})
SUBS = [Sub("mixtures", cases, check, quick=500, thorough=15000),
        Sub("weights", wcases, check_weights, quick=1500, thorough=30000)]
