"""Interrupted, failed and refused calls leave no traces."""
import numpy as np
from hypothesis import strategies as st

from pyrichlet.exceptions import NotFittedError

from .. import faults as F, gibbs as G, history as H, mixdata, models as M, session as S
from ..core import Sub, require
from .c12 import play_weights, wops
from .c13 import explicit, final_fit
from .c17 import resp
from .c26 import first_fit, picture

PROPERTY = "C27"
RULE = ("'mixtures' plays a history of fits, then breaks a cold fit or warm start: by an interruption at a random line of the package executed in the call "
        "(the lines are counted on a twin), by the random generator failing at a random use, by unusable data or by an invalid option. Then every query of the "
        "method must answer as before or raise NotFittedError, those of the other method answer as before, earlier draws survive a broken warm start, which can be "
        "resumed, and a later cold fit must equal that of a fresh object with the generator in the same state, bit for bit. 'refused' compares histories with and without refused "
        "queries and weighting model calls in between. 'weights' breaks a call of a weighting model and compares it after a reset with a fresh one. Non-trivial: "
        "the call broke on its way.")
ASSUMPTIONS = ["an interruption between two assignments at the very start or end of a fit is not held against it: for interruptions at a line, queries about the data of "
               "the last fit are not asked, later fits use the same data unless all priors are given, and the answers of the completed fit are accepted",
               "after a broken warm start only the earlier draws are compared, not the state of the chain",
               "a broken call may have used the random generator"]


class Bad:
    pass


def unusable(y, kind):
    z = y.copy()
    if kind in ("nan", "inf"):
        z[len(z) // 2, -1] = np.nan if kind == "nan" else np.inf
        return z
    if kind == "constant":
        z[:, 0] = 1.0
        return z
    return {"text": z.astype(str), "empty": z[:0], "type": Bad(), "one": z[:1], "none": None}[kind]


def where(at, total):
    """Fraction of the way, or steps from the start or the end."""
    if isinstance(at, float):
        return 1 + int(at * (total - 1e-9))
    return min(total, at) if at > 0 else max(1, total + 1 + at)


ats = st.one_of(st.floats(0, 1), st.integers(1, 60), st.integers(-30, -1), st.floats(0, 1))


DEFAULT = ["default eap", "default map", "affinity", "cluster", "consensus"]      # about the data used at fitting
POINTS = ["eap", "map", "affinity of points", "cluster of points", "component", "last"]


def alike(r, o):
    if isinstance(r, str) or isinstance(o, str):
        return isinstance(r, str) and isinstance(o, str) and r == o
    return S.diff(o, r) is None


def outcome(f):
    try:
        r = f()
    except NotFittedError:
        return "NotFittedError"
    except Exception as e:  # noqa: BLE001
        return type(e).__name__
    return np.array(r, float)


def asked(m, y, kind, consensus):
    x = y[::-1] + 0.1
    if kind == "gibbs":
        q = {"eap": lambda: m.gibbs_eap_density(x), "map": lambda: m.gibbs_map_density(x), "default eap": lambda: m.gibbs_eap_density(dim=0),
             "default map": m.gibbs_map_density, "affinity": m.gibbs_eap_affinity_matrix, "affinity of points": lambda: m.gibbs_eap_affinity_matrix(x),
             "cluster": lambda: m.gibbs_map_cluster(full=True), "cluster of points": lambda: m.gibbs_map_cluster(x), "component": lambda: m.gibbs_map_density(x, component=0),
             "last": lambda: m.gibbs_eap_density(x, periods=1)}
        if consensus:
            q["consensus"] = m.gibbs_eap_spectral_consensus_cluster
    else:
        q = {"eap": lambda: m.var_eap_density(x), "map": lambda: m.var_map_density(x), "default eap": lambda: m.var_eap_density(dim=0), "default map": m.var_map_density,
             "affinity": m.var_eap_affinity_matrix, "affinity of points": lambda: m.var_eap_affinity_matrix(x), "cluster": lambda: m.var_map_cluster(full=True),
             "cluster of points": lambda: m.var_map_cluster(x), "component": lambda: m.var_eap_density(x, component=0)}
        if consensus:
            q["consensus"] = m.var_eap_spectral_consensus_cluster
    with np.errstate(all="ignore"):
        return {k: outcome(f) for k, f in q.items()}


def consistent(m, W):
    draws = m.get_sim_params()
    n = len(draws)
    require(len(m.get_n_groups()) == n and len(m.get_n_theta()) == n, W + "%d draws, but %d group and %d component counts", n, len(m.get_n_groups()), len(m.get_n_theta()))
    if n:
        a = np.mean([np.equal.outer(np.asarray(p["d"]), np.asarray(p["d"])) for p in draws], axis=0)
        b = np.array(m.gibbs_eap_affinity_matrix())
        require(a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-12), W + "the affinity matrix is not that of the %d draws", n)


def check_mixtures(case, rec):
    s = case["spec"]
    ys = [mixdata.make(c) for c in case["data"]]
    yf = ys[case["last"] % len(ys)]
    if case["explicit"]:
        ys = [y for y in ys if y.shape[1] == yf.shape[1]]
    D = yf.shape[1]
    history = [[k if s["m"] in M.VARIATIONAL else "gibbs", i, arg] for k, i, arg in case["history"]]
    kind = case["call"] if s["m"] in M.VARIATIONAL else "gibbs"
    fault, at = case["fault"], case["at"]
    warm = case["warm"] and fault in ("line", "use")
    if warm:    # only of the latest fit
        history = history[:-1] + [[kind] + (history[-1][1:] if history else [case["which"], case["arg"]])]
    fitted = {"gibbs": None, "var": None}

    def make():
        g = M.gen(case["seed"])
        m = G.build(s, g, case["opts"], explicit(case, D))
        for k, i, arg in history:
            y = ys[i % len(ys)]
            first_fit(m, s, y, k, arg)
            fitted[k] = y
            if k == "gibbs" and arg % 4 == 2 and s["m"] in M.VARIATIONAL:
                fitted["var"] = y
        return m, g

    a, g = make()
    y = fitted[kind] if warm else ys[case["which"] % len(ys)]
    touches = {kind}
    arg = case["arg"]
    if kind == "gibbs" and not warm and s["m"] in M.VARIATIONAL and arg % 4 == 2:
        touches.add("var")

    def call(m):
        if warm:
            (m.fit_gibbs if kind == "gibbs" else m.fit_variational)(y, warm_start=True)
        elif fault == "data":
            first_fit(m, s, unusable(y, case["bad"]), kind, arg)
        elif fault == "option":
            if kind == "gibbs":
                m.fit_gibbs(y, init_method="kmeens")
            elif s["m"] in M.FINITE or arg % 2:
                m.fit_variational(y, n_groups=s.get("n", 2), init_method="kmeens")
            else:
                m.fit_variational(y)
        else:
            first_fit(m, s, y, kind, arg)

    cons = case["consensus"]
    before = {k: asked(a, v, k, cons) for k, v in fitted.items() if v is not None}
    plot = case["plot"] and fitted["gibbs"] is not None and fitted["gibbs"].shape[1] <= 2
    plot = plot and not (fault == "line" and kind == "gibbs")
    if plot:
        shown = picture(a)
    draws = G.snapshot(a.get_sim_params()) if warm and kind == "gibbs" else None
    W = "%s: after %s, %s %s broken by %s: " % (s["m"], ", ".join(k for k, _, _ in history) or "nothing", "a warm start of" if warm else "a cold", kind,
                                               {"data": "%s data" % case["bad"], "use": "the generator", "line": "an interruption", "option": "an invalid option"}[fault])
    if fault in ("line", "use"):
        b, gb = make()
        total = F.at_line(lambda: call(b))[0] if fault == "line" else F.at_use(lambda: call(b))[0]
        if not total:
            rec.classify("not reached")
            return
        n = where(at, total)
        broke = F.at_line(lambda: call(a), n)[1] if fault == "line" else F.at_use(lambda: call(a), n)[1]
    else:
        try:
            with np.errstate(all="ignore"):
                call(a)
            broke = False
        except Exception:  # noqa: BLE001
            broke = True
        require(broke or fault == "data", W + "accepted")

    def done(k, v, consensus):
        """The answers if the call had almost completed."""
        return asked(b, v, k, consensus) if fault in ("line", "use") and k == kind else dict.fromkeys(DEFAULT + POINTS, "NotFittedError")

    rec.classify("model " + s["m"], "fault " + fault if broke else "completed", *(["warm start" if warm else "cold"]))
    rec.nontriv(broke)
    if broke:
        for k, v in fitted.items():
            if k in touches and k != kind or warm and k == kind:    # the fit inside an initialization may have completed
                continue
            if v is None:
                late = done(k, ys[0], False)
                for name, r in asked(a, ys[0], k, False).items():
                    require(alike(r, "NotFittedError") or alike(r, late[name]), W + "%s query '%s' gives %s without a completed fit", k, name, r if isinstance(r, str) else "an answer")
                continue
            late = done(k, v, cons)
            for name, r in asked(a, v, k, cons).items():
                if name in DEFAULT and fault == "line" and k == kind:
                    continue
                if alike(r, "NotFittedError") and k == kind:
                    rec.count("not fitted any more")
                    continue
                require(alike(r, before[k][name]) or k == kind and alike(r, late[name]), W + "%s query '%s' neither answers as before nor %s", k, name,
                        "raises NotFittedError (%s)" % (r if isinstance(r, str) else "answers differ") if k == kind else "is available (%s)" % (r if isinstance(r, str) else "answers differ"))
        if plot and not (warm and kind == "gibbs"):
            try:
                d = S.diff(shown, picture(a))
                require(d is None, W + "the pair plot is another one (%s)", d)
            except NotFittedError:
                require("gibbs" in touches, W + "the pair plot is refused")
        if draws is not None:
            now = a.get_sim_params()
            require(len(now) >= len(draws) and G.same_history(draws, G.snapshot(now[:len(draws)])), W + "the %d earlier draws changed", len(draws))
            if fault == "use":
                consistent(a, W)
                if case["resume"]:
                    n0 = len(now)
                    call(a)
                    now = a.get_sim_params()
                    require(len(now) == n0 + G.n_saved(case["opts"]), W + "resumed with %d new draws instead of %d", len(now) - n0, G.n_saved(case["opts"]))
                    require(G.same_history(draws, G.snapshot(now[:len(draws)])), W + "the %d earlier draws changed when resumed", len(draws))
                    consistent(a, W + "resumed: ")
                    for p in now:
                        G.check_draw(p, len(y), y.shape[1], W + "resumed: ")
                        ll, err = G.log_lik(p, y)
                        require(a.map_log_likelihood >= ll - err - 1e-6 * (1 + abs(ll)), W + "resumed: the MAP log-likelihood %.8g is below a draw's %.8g", a.map_log_likelihood, ll)
                    rec.count("resumed")
    # nothing is left for a later cold fit
    if fault == "line" and len(case["explicit"]) < 3:
        yf = y
    state = g.bit_generator.state
    A = final_fit(a, s, yf, case["final"], None)
    g2 = M.gen(case["seed"] + 1)
    b = G.build(s, g2, case["opts"], explicit(case, D))
    g2.bit_generator.state = state
    B = final_fit(b, s, yf, case["final"], None)
    d = S.diff(A, B)
    require(d is None, W + "a later cold fit differs from that of a fresh object (%s)", d)
    for name in ("mu_prior", "psi_prior", "nu_prior", "lambda_prior"):
        d = S.diff(getattr(a, name), getattr(b, name))
        require(d is None, W + "%s after a later cold fit differs from that of a fresh object (%s)", name, d)


def short(case):
    if case["spec"].get("p_method") == "inverse-sampling" and case["opts"]["total"] > 3:
        return dict(case, opts={"total": 3, "burn": min(2, case["opts"]["burn"]), "sub": case["opts"]["sub"]})
    return dict(case, opts={"total": 10, "burn": min(5, case["opts"]["burn"]), "sub": case["opts"]["sub"]}) if case["opts"]["total"] > 12 else case


cases = G.fixed({
    "spec": G.spec(), "data": st.lists(mixdata.data(nmax=10), min_size=1, max_size=3), "last": st.integers(0, 2), "which": st.integers(0, 2), "opts": G.fit_opts(6),
    "lam": M.pos(0.1, 4), "explicit": st.sampled_from([[], [], [], ["mu"], ["psi"], ["nu"], ["mu", "psi", "nu"]]),
    "history": st.lists(st.tuples(st.sampled_from(["gibbs", "var"]), st.integers(0, 2), st.integers(0, 40)).map(list), max_size=2),
    "call": st.sampled_from(["gibbs", "gibbs", "var"]), "warm": st.sampled_from([False, False, True]), "arg": st.one_of(st.integers(0, 40), st.sampled_from([2, 6, 10, 14])),
    "fault": st.sampled_from(["line", "line", "line", "use", "use", "data", "option"]), "at": ats,
    "bad": st.sampled_from(["nan", "inf", "constant", "text", "empty", "type", "one", "none"]), "consensus": st.sampled_from([False, False, True]),
    "plot": st.sampled_from([False] * 9 + [True]), "resume": st.booleans(),
    "final": st.tuples(st.sampled_from(["gibbs", "gibbs", "var"]), st.integers(0, 40)).map(list), "seed": M.seeds}).map(short)


# ---------------------------------------------------------------- refusals in between
def refuse_weights(wm, s, which):
    """A call that must be refused (or None)."""
    inf = s["m"] not in M.FINITE
    return [lambda: wm.tail(1), lambda: wm.tail(-0.5), lambda: wm.complete(2.5), lambda: wm.complete("3"),
            (lambda: wm.random("2")) if inf else None, (lambda: wm.random(2.5)) if inf else None, lambda: wm.variational_mean_w_j("a"),
            (lambda: wm.fit_variational(np.full((s["n"] + 1, 3), 0.2))) if s["m"] == "DD" else None][which]


def refuse_mixture(m, y, which):
    return [lambda: m.gibbs_eap_density(Bad()), lambda: m.gibbs_map_density(y, component=10 ** 6), lambda: m.gibbs_map_cluster("abc"), lambda: m.gibbs_eap_affinity_matrix({1: 2}),
            lambda: m.gibbs_eap_density(dim=99), lambda: m.var_eap_density(Bad()), lambda: m.var_eap_density(y, component=10 ** 6), lambda: m.var_map_cluster("abc"),
            lambda: m.var_eap_affinity_matrix({1: 2}), lambda: m.var_map_density(dim=99), lambda: m.fit_gibbs(Bad(), warm_start=True), lambda: m.fit_variational(Bad(), warm_start=True)][which]


def try_out(f, rec, g):
    """Call f, which must be refused; the generator is put back."""
    if f is None:
        return
    state = g.bit_generator.state
    try:
        with np.errstate(all="ignore"):
            f()
    except Exception:  # noqa: BLE001
        rec.count("refused")
    g.bit_generator.state = state


def check_refused(case, rec):
    s = case["spec"]
    rec.classify("model " + s["m"], case["what"])
    out = []
    if case["what"] == "weights":
        for k in range(2):
            g = M.gen(case["seed"])
            wm = M.weight(s, g)
            r = []
            for i, op in enumerate(case["ops"]):
                if k:
                    for j, which in case["refused"]:
                        if j % len(case["ops"]) == i:
                            # a refused variational fit may discard the earlier one, but is not part of these histories
                            try_out(refuse_weights(wm, s, which % 8), rec, g)
                r += play_weights(wm, s, [op])
            out.append(r)
        rec.nontriv(bool(case["refused"]) and len(out[0]) > 0)
    else:
        y = mixdata.make(case["data"])
        for k in range(2):
            g = M.gen(case["seed"])
            m = G.build(s, g, case["opts"], explicit(case, y.shape[1]))
            r = []
            for i, (kind, arg) in enumerate(case["fits"]):
                if kind == "var" and s["m"] not in M.VARIATIONAL:
                    kind = "gibbs"
                if arg % 3 == 0 and i and case["fits"][i - 1][0] == kind:
                    (m.fit_gibbs if kind == "gibbs" else m.fit_variational)(y, warm_start=True)
                else:
                    first_fit(m, s, y, kind, arg)
                if k:
                    for j, which in case["refused"]:
                        if j % len(case["fits"]) == i and (which % 12 < 10 or len(case["explicit"]) == 3):
                            try_out(refuse_mixture(m, y, which % 12), rec, g)
                r.append(S.gibbs_state(m) if kind == "gibbs" else S.var_state(m))
                r.append(asked(m, y, kind, False))
            out.append(r)
        out = [[q if "eap" not in q else [v if isinstance(v, np.ndarray) else np.array([sum(map(ord, v))]) for v in q.values()] for q in r] for r in out]
        rec.nontriv(bool(case["refused"]))
    d = S.diff(out[0], out[1])
    require(d is None, "%s: results differ when refused calls %s come in between (%s)", s["m"], case["refused"], d)


rcases = G.fixed({
    "spec": G.spec(), "what": st.sampled_from(["weights", "weights", "mixture"]), "data": mixdata.data(nmax=10), "opts": G.fit_opts(5), "lam": M.pos(0.1, 4),
    "explicit": st.sampled_from([[], ["mu", "psi", "nu"]]), "ops": st.lists(wops.map(list), min_size=1, max_size=8),
    "fits": st.lists(st.tuples(st.sampled_from(["gibbs", "var"]), st.integers(0, 40)).map(list), min_size=1, max_size=3),
    "refused": st.lists(st.tuples(st.integers(0, 8), st.integers(0, 23)).map(list), max_size=5), "seed": M.seeds})


# ---------------------------------------------------------------- broken calls of weighting models
def check_weights(case, rec):
    s = case["spec"]

    def make():
        g = M.gen(case["seed"])
        wm = M.weight(s, g)
        play_weights(wm, s, case["ops"])
        return wm, g

    def call(wm):
        op, arg = case["call"]
        if op == "vfit":
            if s["m"] in M.VARIATIONAL:
                k = s["n"] if s["m"] in M.FINITE else 1 + arg % 5
                wm.fit_variational(resp({"seed": arg, "n": arg % 9, "kind": "soft", "empty": 1}, k))
        elif op == "loglik":
            if len(wm.get_weights()) and np.sum(wm.get_weights()) > 0:
                wm.assignation_log_likelihood([v % (M.n_fixed(s) or 6) for v in (arg, arg // 6, 0)])
        else:
            play_weights(wm, s, [[op, arg]])

    twin, gt = make()
    wm, g = make()
    at_line = case["fault"] == "line"
    total = F.at_line(lambda: call(twin))[0] if at_line else F.at_use(lambda: call(twin))[0]
    rec.classify("model " + s["m"], case["fault"])
    if not total:
        rec.classify("not reached")
        return
    n = where(case["at"], total)
    broke = F.at_line(lambda: call(wm), n)[1] if at_line else F.at_use(lambda: call(wm), n)[1]
    rec.nontriv(broke)
    wm.reset()
    state = g.bit_generator.state
    g2 = M.gen(case["seed"] + 1)
    fresh = M.weight(s, g2)
    g2.bit_generator.state = state
    W = "%s: after %s, %s broken at %d of %d and a reset: " % (s["m"], case["ops"], case["call"], n, total)
    A, B = [], []
    for m, out in ((wm, A), (fresh, B)):
        out.append(np.array(m.random(case["size"])))
        out.extend(play_weights(m, s, case["then"]))
        if s["m"] in M.VARIATIONAL:
            k = s["n"] if s["m"] in M.FINITE else 3
            m.fit_variational(resp({"seed": case["seed"], "n": 5, "kind": "soft", "empty": 1}, k))
            out.append(np.array([[float(m.variational_mean_w_j(j)), float(m.variational_mean_log_w_j(j))] for j in range(k)]))
            out.append(np.array([float(m.variational_mean_log_p_w()), float(m.variational_mean_log_q_w()), float(m.variational_mean_log_p_d__w())]))
    d = S.diff(A, B)
    require(d is None, W + "draws differ from those of a fresh object (%s)", d)


wcases = st.fixed_dictionaries({
    "spec": M.spec(), "ops": st.lists(wops.map(list), max_size=5), "call": st.one_of(wops.map(list), wops.map(list), st.tuples(st.sampled_from(["vfit", "loglik"]), st.integers(0, 200)).map(list)),
    "then": st.lists(wops.map(list), max_size=5), "size": st.integers(1, 6), "fault": st.sampled_from(["line", "line", "use"]), "at": ats, "seed": M.seeds})

SUBS = [Sub("mixtures", cases, check_mixtures, quick=2000, thorough=20000),
        Sub("refused", rcases, check_refused, quick=800, thorough=10000),
        Sub("weights", wcases, check_weights, quick=1500, thorough=30000)]
_ = H
