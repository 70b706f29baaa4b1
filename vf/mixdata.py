"""Data sets and normal-inverse-Wishart priors of generated mixture cases."""
import numpy as np
from hypothesis import strategies as st

from . import models as M

KINDS = ["blobs", "gauss", "uniform", "grid", "outlier", "units"]


@st.composite
def data(draw, dmax=3, nmin=2, nmax=25, kinds=KINDS, few=False, big=True):
    """few: also data that need an explicit scale matrix (one observation, fewer than features, all alike); big: now and then
    many observations or features."""
    if big and draw(st.sampled_from([False] * 19 + [True])):
        return {"D": draw(st.sampled_from([1, 2, 3, 4, 5, 7])), "n": draw(st.sampled_from([33, 51, 70, 101, 130, 205, 260, 520, 1030])), "kind": draw(st.sampled_from(kinds)),
                "scale": draw(st.sampled_from([1.0, 0.05, 30.0])), "loc": draw(st.sampled_from([0.0, 3.0, -50.0])), "seed": draw(M.seeds)}
    D = draw(st.integers(1, dmax))
    if few and draw(st.integers(0, 9)) == 9:
        return {"D": D, "n": draw(st.integers(1, D + 1)), "kind": draw(st.sampled_from(["gauss", "same"])), "scale": draw(st.sampled_from([1.0, 30.0])),
                "loc": draw(st.sampled_from([0.0, 3.0])), "seed": draw(M.seeds)}
    n = draw(st.integers(max(nmin, D + 2), max(nmax, D + 2)))
    return {"D": D, "n": n, "kind": draw(st.sampled_from(kinds)), "scale": draw(st.sampled_from([1.0, 0.05, 30.0])),
            "loc": draw(st.sampled_from([0.0, 3.0, -50.0])), "seed": draw(M.seeds)}


def make(c):
    """The (n, D) array of a data case; full rank."""
    g = np.random.default_rng([c["seed"], 77])
    n, D = c["n"], c["D"]
    y = g.normal(size=(n, D))
    if c["kind"] == "blobs":
        y = y + g.normal(size=(3, D))[g.integers(0, 3, size=n)] * 4
    elif c["kind"] == "many":  # thirteen groups far apart
        y = y + (g.permutation(13)[:, None] * 60 + g.normal(size=(13, D)) * 15)[np.arange(n) % 13]
    elif c["kind"] == "uniform":
        y = g.uniform(-2, 2, size=(n, D))
    elif c["kind"] == "grid":  # repeated values; the jitter keeps the default scale matrix regular
        y = np.round(y * 1.5)
        y[: D + 2] += g.normal(size=(D + 2, D)) * 0.5
    elif c["kind"] == "same":
        y[:] = y[0]
    elif c["kind"] == "outlier":
        y[int(g.integers(0, n))] += 25
    if D > 1:
        A = np.eye(D) + 0.35 * np.tril(g.normal(size=(D, D)), -1)
        y = y @ A.T
    if c["kind"] == "units":   # features in units of different size
        y = y * 10.0 ** g.integers(-3, 4, size=D)
    return y * c["scale"] + c["loc"] * c["scale"]


def spread(y):
    """Standard deviation of the data, or of every feature when they are in different units."""
    sd = np.std(y, axis=0)
    if sd.max() > 50 * sd.min() > 0:
        return sd
    return float(np.std(y)) or 1.0


VARY = ["same", "reversed", "last feature", "one point", "negated", "scaled", "shifted", "one more"]


def vary(y, how):
    """Data that share some of their traits with y."""
    y = y.copy()
    if how == "reversed":
        return y[::-1].copy()
    if how == "last feature":
        y[:, -1] = y[::-1, -1] + 0.5 * np.arange(len(y)) % 3
    elif how == "one point":
        y[len(y) // 2] += 1.5 * y.std()
    elif how == "negated":
        return -y
    elif how == "scaled":
        return 2 * y
    elif how == "shifted":
        return y + 3 * y.std()
    elif how == "one more":
        return np.concatenate([y, y[:1] + 0.3 * y.std()])
    return y


priors = st.fixed_dictionaries({
    "mu": st.sampled_from([None, None, "list", "array"]), "lam": st.one_of(st.sampled_from([1, 1.0]), M.pos(0.05, 8)),
    "psi": st.sampled_from([None, None, "spd", "diag"]),
    "nu": st.one_of(st.none(), st.sampled_from([0, 1]), M.unit(0, 4)), "pseed": M.seeds})


def prior_kwargs(p, y, scale=None):
    """Keyword arguments for the mixture and the resolved values."""
    g = np.random.default_rng([p["pseed"], 78])
    D = y.shape[1]
    few = len(y) < D + 2
    sd = spread(y) if scale is None else scale
    if few:
        p = dict(p, psi=p["psi"] or "spd")
    kw, val = {"lambda_prior": p["lam"]}, {"lam": float(p["lam"])}
    if p["mu"] is None:
        val["mu"] = y.mean(axis=0)
    else:
        mu = y.mean(axis=0) + g.normal(size=D) * sd
        kw["mu_prior"] = [float(x) for x in mu] if p["mu"] == "list" else mu.copy()
        val["mu"] = mu
    if p["psi"] is None:
        val["psi"] = np.atleast_2d(np.cov(y.T))
    else:
        A = g.normal(size=(D, D + 1)) if p["psi"] == "spd" else np.diag(g.uniform(0.5, 2, size=D))
        psi = (A @ A.T + 0.3 * np.eye(D)) * np.outer(sd, sd) * g.uniform(0.2, 2)
        if p["psi"] == "tight":
            psi = (A @ A.T) * np.outer(sd, sd) / 1e4
        kw["psi_prior"] = psi.copy()
        val["psi"] = psi
    if p["nu"] is None:
        val["nu"] = float(D)
    else:
        kw["nu_prior"] = D + p["nu"]
        val["nu"] = float(D + p["nu"])
    return kw, val
