import numpy as np
from hypothesis import strategies as st

from .. import mixdata, models as M, varmix as V
from ..core import Sub, fail, require, require_close

PROPERTY = "C19"
RULE = ("A case is a variational mixture, a data set, priors and an initialization; its states after 1, 2, ... iterations (taken one at a time by "
        "warm starts) give the sequence of evidence lower bounds, recomputed from the definitions. Tolerances just above and just below one of "
        "the changes of the bound, and iteration limits around the resulting stopping time, are then fitted in one go and must stop at the "
        "predicted iteration with the predicted flag. Non-trivial: the fit stops by the tolerance at the third iteration or later.")
ASSUMPTIONS = ["tolerances closer to a change of the bound than its rounding error are not used",
               "an evidence bound off by a constant is not distinguishable and does not matter"]


def run(case, rec):
    s = case["spec"]
    k = V.n_groups(s, case["k"])
    y = mixdata.make(case["data"])
    kw, pr = mixdata.prior_kwargs(case["prior"], y)
    init = case["init"]
    g = M.gen(case["seed"])
    m = V.build(s, g, 1, kw)
    start = g.bit_generator.state
    states, E = [], []
    for t in range(case["horizon"]):
        m.fit_variational(y, n_groups=k, warm_start=t > 0, tol=0, init_method=init)
        R = np.array(m.var_d, float)
        states.append(R)
        E.append(V.elbo(s, R, V.theta_opt(R, y, pr), y, pr))
    d = np.abs(np.diff(E))                     # d[i]: change seen at iteration i + 2
    noise = 1e-10 * (1 + np.max(np.abs(E)))
    # candidate stopping points: changes smaller than all previous ones (otherwise the tolerance stops earlier)
    rec_low = [i for i in range(len(d)) if d[i] > 200 * noise and (i == 0 or d[i] < 0.97 * d[:i].min())]
    rec.classify("model " + s["m"], "init " + init)
    if not rec_low:
        rec.classify("bound constant from the start")
        return
    i = rec_low[case["pick"] % len(rec_low)]
    above = case["above"]
    tol = float(d[i] * (1.01 if above else 0.99))
    hit = np.flatnonzero(d <= tol)
    stop = int(hit[0]) + 2 if len(hit) else None      # iteration at which the tolerance is met, if within the horizon
    L = {"at": i + 2, "before": i + 1, "after": i + 3, "far": case["horizon"]}[case["limit"]]
    L = max(1, min(L, case["horizon"]))
    if np.any(np.abs(d[:L] - tol) < noise):
        rec.classify("ambiguous")
        return
    if stop is not None and stop < L:
        want_n, want_conv = stop, True
    else:
        want_n, want_conv = L, False
    rec.nontriv(want_conv and want_n >= 3)
    rec.classify("stops by the tolerance" if want_conv else "stops by the limit", "limit " + case["limit"])
    g = M.gen(case["seed"])
    m2 = V.build(s, g, L, kw)
    if case["before"]:
        # an earlier fit of the same object with the opposite outcome must leave no trace in the flag
        m2.fit_variational(y, n_groups=k, tol=0 if want_conv else 1e300, init_method=init)
        g.bit_generator.state = start
    m2.fit_variational(y, n_groups=k, tol=tol, init_method=init)
    R2 = np.asarray(m2.var_d, float)
    W = "%s k=%d, tol %.6g, limit %d (bound changes %s): " % (s["m"], k, tol, L, np.array2string(d[:L + 1], precision=4))
    dist = [float(np.max(np.abs(R2 - r))) for r in states]
    got = int(np.argmin(dist)) + 1
    if dist[want_n - 1] > 1e-9:
        if got != want_n and dist[got - 1] < 1e-9:
            fail(W + "stopped after %d iterations instead of %d", got, want_n)
        require_close(R2, states[want_n - 1], W + "responsibilities after %d iterations" % want_n, rtol=0, atol=1e-7)
    require(bool(m2.var_converged) == want_conv, W + "var_converged is %s after %d iterations", m2.var_converged, want_n)


cases = st.fixed_dictionaries({
    "spec": M.spec(M.VARIATIONAL, nmax=5, nmin=2), "k": st.integers(2, 6), "data": mixdata.data(few=True), "prior": mixdata.priors,
    "init": st.sampled_from(["kmeans", "kmeans", "random"]), "horizon": st.sampled_from([6, 12, 20]), "pick": st.integers(0, 19),
    "above": st.booleans(), "limit": st.sampled_from(["at", "before", "after", "far", "far"]), "before": st.booleans(), "seed": M.seeds})

SUBS = [Sub("stopping", cases, run, quick=4000, thorough=60000)]
