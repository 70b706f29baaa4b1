import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from .. import gibbs as G, history as H, mixdata, models as M, pristine, session as S
from ..core import Sub, require
from .c12 import play_weights, wops

PROPERTY = "C25"
RULE = ("'interleaved' plays two histories of fits and queries on two mixtures, or of draws on two weighting models (often of the same class and sharing the "
        "arrays passed), first one after the other and then merged in a random order: all results must agree bit for bit. 'copies' exchanges an object for its "
        "deep copy or pickled copy in the middle of a history while the original goes on differently; the results must be those of the undisturbed "
        "history. 'fresh processes' plays a history in a process of its own and in another one after a similar object (same or neighbouring parameters, data "
        "sharing some traits) was used; the results must agree bit for bit. Non-trivial: both histories have results (interleaved); results before and after the exchange (copies); two or more results (fresh processes).")
ASSUMPTIONS = ["the objects have generators of their own"]


def shared_kwargs(case, D):
    g = np.random.default_rng([case["seed"], 25])
    kw = {"lambda_prior": case["lam"]}
    if case["shared"]:
        A = g.normal(size=(D, D + 1))
        kw.update(mu_prior=g.normal(size=D), psi_prior=A @ A.T + 0.3 * np.eye(D), nu_prior=D + 1)
    return kw


def check_inter(case, rec):
    ys = [mixdata.make(c) for c in case["data"]]
    kw = shared_kwargs(case, ys[0].shape[1])
    if case["shared"]:
        ys = [y for y in ys if y.shape[1] == ys[0].shape[1]]
    specs = [case["spec"], dict(case["spec"]) if case["twin"] else case["spec2"]]
    seeds = [case["seed"], case["seed"] if case["sameseed"] else case["seed"] + 1]
    alone = []
    for i in range(2):
        m = G.build(specs[i], seeds[i], case["opts"], kw)
        alone.append(S.play(m, specs[i], ys, case["ops"][i]))
    ms = [G.build(specs[i], seeds[i], case["opts"], kw) for i in range(2)]
    outs = [[], []]
    its = [S.steps(S.Holder(ms[i]), specs[i], ys, case["ops"][i], outs[i]) for i in range(2)]
    g = np.random.default_rng([case["seed"], 26])
    live = [0, 1]
    while live:
        i = live[int(g.integers(len(live)))]
        try:
            next(its[i])
        except StopIteration:
            live.remove(i)
    rec.classify("models " + "+".join(sorted({s["m"] for s in specs})), "shared arrays" if case["shared"] else "own arrays")
    rec.nontriv(all(alone))
    for i in range(2):
        d = S.diff(alone[i], outs[i])
        require(d is None, "%s: playing %s next to a %s object played %s gives other results (%s)", specs[i]["m"], case["ops"][i], specs[1 - i]["m"],
                case["ops"][1 - i], d)


def clone(m, how):
    if how == "deepcopy":
        return copy.deepcopy(m)
    return pickle.loads(pickle.dumps(m, protocol=int(how)))


def check_copy(case, rec):
    s = case["spec"]
    ys = [mixdata.make(c) for c in case["data"]]
    kw = shared_kwargs(case, ys[0].shape[1])
    if case["shared"]:
        ys = [y for y in ys if y.shape[1] == ys[0].shape[1]]
    ops = case["ops"][0]
    plain = S.play(G.build(s, case["seed"], case["opts"], kw), s, ys, ops)
    h = S.Holder(G.build(s, case["seed"], case["opts"], kw))
    out = []
    at = case["at"] % (len(ops) + 1)
    n_before = 0
    for i in S.steps(h, s, ys, ops, out):
        if i == at:
            n_before = len(out)
            orig = h.m
            h.m = clone(orig, case["how"])
            S.play(orig, s, ys, case["ops"][1])     # the original goes its own way
    rec.classify("model " + s["m"], "copy " + case["how"])
    rec.nontriv(0 < n_before < len(out))
    d = S.diff(plain, out)
    require(d is None, "%s: after %s, a copy (%s) continues differently from the original (%s)", s["m"], ops[:at], case["how"], d)


def check_weights(case, rec):
    s, s2 = case["spec"], case["spec2"]
    if case["twin"]:
        s2 = s
    a, b = case["ops"]
    alone = play_weights(M.weight(s, case["seed"]), s, a)
    alone2 = play_weights(M.weight(s2, case["seed"] + 1), s2, b)
    rec.classify("model " + s["m"])
    rec.nontriv(bool(alone) and bool(alone2))
    m, m2 = M.weight(s, case["seed"]), M.weight(s2, case["seed"] + 1)
    out, out2 = [], []
    for i in range(max(len(a), len(b))):
        out += play_weights(m, s, a[i:i + 1])
        out2 += play_weights(m2, s2, b[i:i + 1])
    for x, y, n in ((alone, out, s), (alone2, out2, s2)):
        d = S.diff(x, y)
        require(d is None, "%s: results depend on calls to another object (%s)", n["m"], d)
    m = M.weight(s, case["seed"])
    at = case["at"] % (len(a) + 1)
    out = play_weights(m, s, a[:at])
    c = clone(m, case["how"])
    play_weights(m, s, b if s2 == s else a)
    out += play_weights(c, s, a[at:])
    d = S.diff(alone, out)
    require(d is None, "%s: a copy (%s) after %s continues differently from the original (%s)", s["m"], case["how"], a[:at], d)


# ---------------------------------------------------------------- fresh processes
def neighbour(s, which):
    """The same model with one parameter changed a little."""
    keys = [k for k in sorted(s) if k not in ("m", "p_method")]
    if not keys:
        return dict(s)
    k = keys[which % len(keys)]
    v = s[k]
    if isinstance(v, list):
        v = [v[0] * 1.25] + v[1:]
    elif k == "n":
        v = v + 1
    elif k in ("pyd", "x") or (k == "p" and s["m"] in ("BE", "BB")):
        v = round(v * 0.5 + 0.2, 4)
    else:
        v = v * 1.25
    t = dict(s, **{k: v})
    if isinstance(t.get("alpha"), list):
        t["alpha"] = (t["alpha"] * (t["n"] + 1))[:t["n"]]
    return t


def fresh_mixture(c):
    """Other objects live their lives, then the one looked at; its results."""
    keep = []
    for o in c["objects"]:
        m = G.build(o["spec"], o["seed"], c["opts"], o["kw"])
        keep.append(m)
        out = S.play(m, o["spec"], o["ys"], o["ops"])
        if not c["keep"]:
            keep.pop()
            del m
    return out


def check_fresh(case, rec):
    ys = [mixdata.make(c) for c in case["data"]]
    kw = shared_kwargs(case, ys[0].shape[1])
    if case["shared"]:
        ys = [y for y in ys if y.shape[1] == ys[0].shape[1]]
    s = case["spec"]
    obj = dict(spec=s, seed=case["seed"], ys=ys, ops=case["ops"][0], kw=kw)
    kw2 = dict(kw)
    if case["vary prior"] and case["shared"]:
        kw2["psi_prior"] = (kw["psi_prior"] + np.diag(np.diag(kw["psi_prior"]))) / 2
        kw2["mu_prior"] = kw["mu_prior"] * np.r_[1, np.zeros(len(kw["mu_prior"]) - 1)]
    other = dict(spec=neighbour(s, case["which"]) if case["neighbour"] else dict(s), seed=case["seed"] + (not case["sameseed"]),
                 ys=[mixdata.vary(y, case["vary"]) for y in ys], ops=case["ops"][0] if case["sameops"] else case["ops"][1], kw=kw2)
    alone = pristine.call(fresh_mixture, dict(opts=case["opts"], keep=True, objects=[obj]))
    after = pristine.call(fresh_mixture, dict(opts=case["opts"], keep=case["keep"], objects=[other, obj]))
    rec.classify("model " + s["m"], "other data " + case["vary"], "other model" if case["neighbour"] else "same model")
    rec.nontriv(len(alone) > 1)
    d = S.diff(alone, after)
    require(d is None, "%s: in a process of its own, %s gives other results than after another object was used with %s (%s)", s["m"], case["ops"][0],
            other["ops"], d)


def fresh_weights(objects, keep):
    kept = []
    for s, seed, ops in objects:
        m = M.weight(s, seed)
        out = play_weights(m, s, ops)
        if keep:
            kept.append(m)
    return out


def check_fresh_weights(case, rec):
    s = case["spec"]
    s2 = neighbour(s, case["which"]) if case["neighbour"] else s
    a, b = case["ops"]
    alone = pristine.call(fresh_weights, [(s, case["seed"], a)], True)
    after = pristine.call(fresh_weights, [(s2, case["seed"] + (not case["sameseed"]), a if case["sameops"] else b), (s, case["seed"], a)], case["keep"])
    rec.classify("model " + s["m"])
    rec.nontriv(len(alone) > 1)
    d = S.diff(alone, after)
    require(d is None, "%s: in a process of its own, %s gives other results than after another object was used (%s)", s["m"], a, d)


how = st.sampled_from(["deepcopy", "2", "5"])
base = {"spec": G.spec(), "data": st.lists(mixdata.data(nmax=10), min_size=1, max_size=2), "opts": G.fit_opts(6), "lam": M.pos(0.1, 4),
        "shared": st.booleans(), "ops": st.tuples(S.op_list, S.op_list).map(list), "seed": M.seeds}
icases = G.fixed(dict(base, spec2=G.spec(), twin=st.booleans(), sameseed=st.booleans()))
ccases = G.fixed(dict(base, how=how, at=st.integers(0, 7)))
wl = st.lists(wops.map(list), min_size=1, max_size=8)
wcases = G.fixed({"spec": H.SPEC, "spec2": H.SPEC, "twin": st.booleans(), "ops": st.tuples(wl, wl).map(list), "how": how, "at": st.integers(0, 8),
                                "seed": M.seeds})
fbase = {"neighbour": st.booleans(), "which": st.integers(0, 4), "sameseed": st.booleans(), "sameops": st.booleans(), "keep": st.booleans()}
fcases = G.fixed(dict(base, **fbase, vary=st.sampled_from(mixdata.VARY),
                      **{"vary prior": st.booleans()}))
fwcases = st.fixed_dictionaries(dict(fbase, spec=H.SPEC, ops=st.tuples(wl, wl).map(list), seed=M.seeds))
WORKER_INIT = pristine.start
SUBS = [Sub("interleaved", icases, check_inter, quick=400, thorough=12000),
        Sub("copies", ccases, check_copy, quick=400, thorough=12000),
        Sub("weighting models", wcases, check_weights, quick=1500, thorough=20000),
        Sub("fresh processes", fcases, check_fresh, quick=400, thorough=8000),
        Sub("fresh processes, weights", fwcases, check_fresh_weights, quick=400, thorough=8000)]
