import numpy as np
from hypothesis import strategies as st

from .. import models as M
from ..core import Sub, close, require, require_close
from ..varrefs import WeightQ

PROPERTY = "C17"
RULE = ("A case is a variational weighting model with parameters, one or two responsibility matrices (k<=7 groups, 0-30 observations; soft, "
        "nearly hard, hard with empty groups) and an order in which the expectations are asked for; every value is compared with the closed "
        "form under the optimal factor computed independently. Non-trivial: at least two groups and two observations.")
ASSUMPTIONS = ["modes are compared only where the Beta distributions involved have one (a>1 or b>1)",
               "the mode of a Dirichlet weight is that of its marginal Beta distribution",
               "the Pitman-Yor factor has one fraction per group (its truncation does not force the last to one)"]


def resp(case, k):
    g = np.random.default_rng(case["seed"])
    n = case["n"]
    if n == 0:
        return np.empty((k, 0))
    if case["kind"] == "hard":
        R = np.zeros((k, n))
        lab = g.integers(0, max(1, k - case["empty"]), size=n)
        R[lab, range(n)] = 1
        return R
    R = g.dirichlet(np.full(k, {"soft": 1.0, "sharp": 0.05}[case["kind"]]) * g.uniform(0.3, 3, size=k), size=n).T
    R = R + 1e-14
    return R / R.sum(axis=0)


def check(case, rec):
    s = case["spec"]
    k = s["n"] if s["m"] in ("DD",) else case["k"]
    rec.classify("model " + s["m"], case["kind"] if case["n"] else "no observations")
    rec.nontriv(k > 1 and case["n"] > 1)
    wm = M.weight(s, case["seed"])
    if case["refit"]:
        wm.fit_variational(resp(dict(case, seed=case["seed"] + 1, n=case["n2"]), k if s["m"] == "DD" else case["k2"]))
        wm.variational_mean_w_j(0)
    R = resp(case, k)
    given = np.asfortranarray(R) if case["order"] % 2 else R.copy()
    wm.fit_variational(given)
    q = WeightQ(s, R)
    other = resp(dict(case, seed=case["seed"] + 2, n=case["n2"] if case["order"] % 3 else case["n"]), k)
    W = "%s, %d groups, %d observations: " % (s["m"], k, case["n"])
    tol = dict(rtol=1e-9, atol=1e-9)

    def ask():
        perm = np.random.default_rng(case["order"]).permutation(7)
        for i in perm:
            if i == 0:
                got = [float(wm.variational_mean_log_w_j(j)) for j in range(k)]
                require_close(got, q.elogw(), W + "mean of log w_j", **tol)
            elif i == 1:
                got = [float(wm.variational_mean_w_j(j)) for j in range(k)]
                require_close(got, q.ew(), W + "mean of w_j", **tol)
            elif i == 2:
                require_close(float(wm.variational_mean_log_p_d__w()), q.elog_pd(R), W + "mean of log p(d|w)", rtol=1e-9, atol=1e-8)
            elif i == 3:
                want = q.elog_pd(other)
                if np.isfinite(want):
                    require_close(float(wm.variational_mean_log_p_d__w(variational_d=other)), want,
                                  W + "mean of log p(d|w) for other responsibilities", rtol=1e-9, atol=1e-8)
            elif i == 4:
                require_close(float(wm.variational_mean_log_p_w()), q.elog_pw(), W + "mean of log p(w)", rtol=1e-9, atol=1e-8)
            elif i == 5:
                require_close(float(wm.variational_mean_log_q_w()), q.elog_qw(), W + "mean of log q(w)", rtol=1e-8, atol=1e-7)
            else:
                want = q.mode_w()
                for j in range(k):
                    if want[j] is None:
                        try:
                            wm.variational_mode_w_j(j)
                        except ValueError:
                            rec.count("no mode")
                        continue
                    require_close(float(wm.variational_mode_w_j(j)), want[j], W + "mode of w_%d" % j, rtol=1e-8, atol=1e-9)
                    rec.count("mode")

    def params():
        got, want = wm.variational_params, q.params()
        if want is None:
            return
        got = np.asarray(got, float)
        if s["m"] == "GP":
            got = got.reshape(1, 2)
        require_close(got[:len(want)], want, W + "variational parameters", **tol)

    def beyond():
        for j in (k, k + 1, k + 7):
            require(float(wm.variational_mean_w_j(j)) == 0, W + "mean of w_%d, beyond the groups, is %r", j, wm.variational_mean_w_j(j))
            try:
                mode = float(wm.variational_mode_w_j(j))
            except ValueError:
                require(s["m"] not in ("FR", "EQ"), W + "no mode of w_%d", j)
                rec.count("no mode")
            else:
                require(mode == 0, W + "mode of w_%d, beyond the groups, is %r", j, mode)
            if s["m"] in ("DP", "FR", "EQ"):
                require(float(wm.variational_mean_log_w_j(j)) == -np.inf, W + "mean of log w_%d, beyond the groups, is %r", j, wm.variational_mean_log_w_j(j))

    params()
    for i in range(2):
        if case["order"] % 2 == i:
            beyond()
        ask()
    params()
    require(np.array_equal(given, R), W + "the responsibilities were modified")


cases = st.fixed_dictionaries({
    "spec": M.spec(M.VARIATIONAL, override={"PY": st.one_of(M.py_params(), M.py_params(0.95))}, nmax=12),
    "k": st.one_of(*[st.integers(1, 7)] * 9, st.sampled_from([12, 20, 33])), "k2": st.integers(1, 7),
    "n": st.one_of(st.just(0), st.integers(1, 6), st.integers(1, 30), st.sampled_from([5, 90, 300])), "n2": st.integers(0, 9),
    "kind": st.sampled_from(["soft", "sharp", "hard"]), "empty": st.integers(0, 2), "refit": st.booleans(), "order": st.integers(0, 10 ** 6),
    "seed": M.seeds})

SUBS = [Sub("expectations", cases, check, quick=16000, thorough=100000)]
_ = close
