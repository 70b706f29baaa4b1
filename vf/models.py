"""Weighting/mixture model specifications shared by the properties: how to generate parameters and build objects.

A spec is a JSON-able dict {"m": kind, ...params}.  Kinds: DD DP PY GP BB BD BE BN EQ FR.
"""
from hypothesis import strategies as st

from . import core  # noqa: F401  (sets sys.path)
import numpy as np
from pyrichlet import mixture_models as mm
from pyrichlet import weight_models as wm

FINITE = ("DD", "EQ", "FR")
VARIATIONAL = ("DD", "DP", "PY", "GP", "EQ", "FR")
BAYES = ("DD", "DP", "PY", "GP", "BB", "BD", "BE", "BN", "EQ")
ALL = ("DD", "DP", "PY", "GP", "BB", "BD", "BE", "BN", "EQ", "FR")


def r(x):
    return float("%.4g" % x)


def pos(lo, hi):
    """log-uniform-ish positive floats with simple shrink targets."""
    return st.one_of(st.sampled_from([v for v in (1.0, 0.5, 2.0, 5.0) if lo <= v <= hi] or [r((lo * hi) ** 0.5)]),
                     st.floats(min_value=np.log(lo), max_value=np.log(hi)).map(lambda t: r(np.exp(t))))


def unit(lo=0.0, hi=1.0):
    return st.floats(min_value=lo, max_value=hi).map(r)


def dd_params(kmin=1, kmax=6):
    return st.integers(kmin, kmax).flatmap(lambda n: st.one_of(
        st.fixed_dictionaries({"m": st.just("DD"), "n": st.just(n), "alpha": pos(0.3, 10)}),
        st.fixed_dictionaries({"m": st.just("DD"), "n": st.just(n),
                               "alpha": st.lists(pos(0.3, 10), min_size=n, max_size=n)})))


@st.composite
def py_params(draw, pyd_max=0.6):
    pyd = draw(st.one_of(st.just(0), unit(0.02, pyd_max)))
    lo = 0.3 if pyd == 0 else -pyd + 0.25
    alpha = draw(st.one_of(st.sampled_from([1, 1.0, 0.5]), st.floats(min_value=lo, max_value=5).map(r)))
    return {"m": "PY", "pyd": pyd, "alpha": alpha}


def spec(kinds=ALL, nmax=6, **kw):
    """Strategy of specs over the given kinds."""
    s = {
        "DD": dd_params(kw.get("nmin", 1), nmax),
        "EQ": st.fixed_dictionaries({"m": st.just("EQ"), "n": st.integers(kw.get("nmin", 1), nmax)}),
        "FR": st.fixed_dictionaries({"m": st.just("FR"), "n": st.integers(kw.get("nmin", 1), nmax)}),
        "DP": st.fixed_dictionaries({"m": st.just("DP"), "alpha": st.one_of(st.integers(1, 3), pos(0.3, 10))}),
        "PY": py_params(),
        "GP": st.fixed_dictionaries({"m": st.just("GP"), "a": pos(0.7, 6), "b": pos(0.5, 6)}),
        "BB": st.fixed_dictionaries({"m": st.just("BB"), "x": st.one_of(st.sampled_from([0, 1, 0.5]), unit(0.02, 0.98)),
                                     "alpha": pos(0.3, 6), "a": pos(0.7, 5), "b": pos(0.7, 5), "p": unit(0.05, 0.95),
                                     "p_method": st.sampled_from(["static", "independent", "geometric",
                                                                  "max-likelihood", "inverse-sampling"])}),
        "BD": st.fixed_dictionaries({"m": st.just("BD"), "alpha": pos(0.3, 6),
                                     "a": st.one_of(st.just(0), pos(0.05, 6))}),
        "BE": st.fixed_dictionaries({"m": st.just("BE"), "p": st.one_of(st.sampled_from([1, 0, 0.5]), unit(0.02, 0.98)),
                                     "alpha": pos(0.3, 6)}),
        "BN": st.fixed_dictionaries({"m": st.just("BN"), "n": st.integers(0, 8), "alpha": pos(0.3, 6)}),
    }
    s.update(kw.get("override", {}))
    return st.one_of(*[s[k] for k in kinds])


# slowly decaying structures: tens to thousands of weights matter
SLOW = {
    "DD": st.integers(10, 45).flatmap(lambda n: st.one_of(
        st.fixed_dictionaries({"m": st.just("DD"), "n": st.just(n), "alpha": pos(0.3, 10)}),
        st.fixed_dictionaries({"m": st.just("DD"), "n": st.just(n), "alpha": st.lists(pos(0.3, 10), min_size=n, max_size=n)}))),
    "DP": st.fixed_dictionaries({"m": st.just("DP"), "alpha": pos(8, 200)}),
    "PY": st.fixed_dictionaries({"m": st.just("PY"), "pyd": unit(0.05, 0.8), "alpha": pos(0.5, 60)}),
    "GP": st.fixed_dictionaries({"m": st.just("GP"), "a": pos(1, 6), "b": pos(40, 4000)}),
    "BB": st.fixed_dictionaries({"m": st.just("BB"), "x": st.one_of(st.sampled_from([0, 1, 0.5]), unit(0.02, 0.98)), "alpha": pos(8, 200),
                                 "a": pos(1, 5), "b": pos(30, 500), "p": unit(0.01, 0.05), "p_method": st.sampled_from(["static", "geometric"])}),
    "BD": st.fixed_dictionaries({"m": st.just("BD"), "alpha": pos(8, 200), "a": st.one_of(st.just(0), pos(0.5, 60))}),
    "BE": st.fixed_dictionaries({"m": st.just("BE"), "p": st.one_of(st.sampled_from([1, 0, 0.5]), unit(0.02, 0.98)), "alpha": pos(8, 200)}),
    "BN": st.fixed_dictionaries({"m": st.just("BN"), "n": st.integers(0, 60), "alpha": pos(8, 200)}),
}


def slow(kinds=("DD", "DP", "PY", "GP", "BB", "BD", "BE", "BN"), **over):
    return st.one_of(*[over.get(k, SLOW[k]) for k in kinds])


def _kw(s):
    d = {k: v for k, v in s.items() if k != "m"}
    if s["m"] == "DD" and isinstance(d["alpha"], list):
        d["alpha"] = list(d["alpha"])
    return d


_W = {"DD": wm.DirichletDistribution, "DP": wm.DirichletProcess, "PY": wm.PitmanYorProcess, "GP": wm.GeometricProcess,
      "BB": wm.BetaInBeta, "BD": wm.BetaInDirichlet, "BE": wm.BetaBernoulli, "BN": wm.BetaBinomial,
      "EQ": wm.EqualWeighting, "FR": wm.FrequencyWeighting}
_M = {"DD": mm.DirichletDistributionMixture, "DP": mm.DirichletProcessMixture, "PY": mm.PitmanYorMixture,
      "GP": mm.GeometricProcessMixture, "BB": mm.BetaInBetaMixture, "BD": mm.BetaInDirichletMixture,
      "BE": mm.BetaBernoulliMixture, "BN": mm.BetaBinomialMixture, "EQ": mm.EqualWeightedMixture,
      "FR": mm.FrequencyWeightedMixture}


def weight(s, rng):
    return _W[s["m"]](rng=rng, **_kw(s))


def mixture(s, rng, **kw):
    d = _kw(s)
    if s["m"] == "BB":
        d.pop("p")  # the mixture does not take it
    return _M[s["m"]](rng=rng, **d, **kw)


def n_fixed(s):
    return s["n"] if s["m"] in FINITE else None


def gen(seed):
    return np.random.default_rng(seed)


seeds = st.integers(0, 2 ** 20)
