"""Histories of calls on mixtures: an interpreter returning every observable result, and comparisons of results."""
import contextlib
import io
import sys

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from . import gibbs as G, models as M
from .core import fail, require

VQ = 8


def var_query(m, y, which):
    x = y[:3] + 0.1
    k = len(m.var_theta)
    if which == 0:
        return m.var_eap_density()
    if which == 1:
        return m.var_eap_density(x, dim=0) if y.shape[1] == 1 else m.var_eap_density(x[:, :1], dim=[0])
    if which == 2:
        return m.var_eap_affinity_matrix()
    if which == 3:
        return m.var_eap_affinity_matrix(x)
    if which == 4:
        return np.concatenate(m.var_map_cluster(full=True))
    if which == 5:
        return m.var_map_cluster(x)
    if which == 6:
        return m.var_eap_spectral_consensus_cluster(n_clusters=min(2, len(y)))
    if which == 7:
        w = m.weight_model
        return np.array([[float(w.variational_mean_w_j(j)), float(w.variational_mean_log_w_j(j))] for j in range(k)])
    raise KeyError(which)


def gibbs_state(m):
    return {"draws": G.snapshot(m.sim_params), "map": G.snapshot([m.map_sim_params])[0], "map_ll": float(m.map_log_likelihood),
            "n_groups": [int(v) for v in m.get_n_groups()], "n_theta": [int(v) for v in m.get_n_theta()],
            "affinity": np.array(m.gibbs_eap_affinity_matrix()), "steps": int(m.total_saved_steps)}


def var_state(m):
    return {"d": np.array(m.var_d), "theta": [[np.array(v, float) for v in t] for t in m.var_theta], "converged": bool(m.var_converged),
            "weights": np.array([float(m.weight_model.variational_mean_w_j(j)) for j in range(len(m.var_theta))])}


def diff(a, b, path="", rtol=0.0, atol=0.0):
    """First difference between two results, or None."""
    if isinstance(a, dict):
        if set(a) != set(b):
            return "%s: keys %s and %s" % (path, sorted(map(str, a)), sorted(map(str, b)))
        for k in a:
            r = diff(a[k], b[k], "%s[%s]" % (path, k), rtol, atol)
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: lengths %d and %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, "%s[%d]" % (path, i), rtol, atol)
            if r:
                return r
        return None
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return "%s: shapes %s and %s" % (path, x.shape, y.shape)
    if x.dtype.kind in "iub" and y.dtype.kind in "iub":
        ok = x == y
    else:
        x, y = x.astype(float), y.astype(float)
        ok = (x == y) | (np.isnan(x) & np.isnan(y))
        if rtol or atol:
            ok = ok | (np.abs(x - y) <= atol + rtol * np.abs(y))
    if np.all(ok):
        return None
    i = np.argwhere(~ok)[0] if x.ndim else ()
    return "%s%s: %r and %r" % (path, tuple(int(v) for v in i), x[tuple(i)].item(), y[tuple(i)].item())


OPS = ["gibbs", "gibbs", "warm", "warm", "var", "varwarm", "gq", "gq", "gq", "vq", "vq"]
op_list = st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 40)).map(list), min_size=1, max_size=8)


class Holder:
    """The object a history is played on; may be exchanged for a copy on the way."""

    def __init__(self, m):
        self.m = m


def play(m, s, ys, ops, show=False, queries=True, before=lambda i: None):
    """Run the history; returns the observable results of each step.  Operations that need an earlier fit are skipped without it."""
    out = []
    for i in steps(Holder(m), s, ys, ops, out, show, queries):
        before(i)
    return out


def steps(h, s, ys, ops, out, show=False, queries=True):
    """Generator: yields before each operation, appends the results to out."""
    fit_y = {"g": None, "v": None}
    same = {"g": False, "v": False}    # a warm start is only meaningful on the object's latest data
    kw = {"show_progress": True} if show else {}
    for i, (op, arg) in enumerate(ops):
        yield i
        m = h.m
        y = ys[arg % len(ys)]
        if op == "gibbs":
            init = ["kmeans", "random", "variational", None][(arg // 2) % 4]
            m.fit_gibbs(y, **G.start_kwargs(s, init, [None, None, 1, 3][(arg // 8) % 4]), **kw)
            fit_y["g"], same["g"] = y, True
            if init == "variational" and s["m"] in M.VARIATIONAL:
                fit_y["v"], same["v"] = y, True
            else:
                same["v"] = False
            out.append(gibbs_state(m))
        elif op == "warm":
            if same["g"]:
                m.fit_gibbs(fit_y["g"], warm_start=True, **kw)
                same["v"] = same["v"] and fit_y["v"] is fit_y["g"]
                out.append(gibbs_state(m))
        elif op == "var":
            if s["m"] in M.VARIATIONAL:
                m.fit_variational(y, n_groups=s["n"] if s["m"] in M.FINITE else 1 + arg % 4, init_method=["kmeans", "random"][(arg // 4) % 2], **kw)
                fit_y["v"], same["v"] = y, True
                same["g"] = False
                out.append(var_state(m))
        elif op == "varwarm":
            if same["v"]:
                m.fit_variational(fit_y["v"], warm_start=True, **kw)
                same["g"] = same["g"] and fit_y["g"] is fit_y["v"]
                out.append(var_state(m))
        elif op == "gq":
            if queries and same["g"]:
                out.append(G.queries(m, fit_y["g"], arg % G.N_QUERIES, s))
        elif op == "vq":
            if queries and same["v"]:
                out.append(var_query(m, fit_y["v"], arg % VQ))


@contextlib.contextmanager
def muted():
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = o, e


_ = (fail, require, pd)
