"""The pair plot, read back from the matplotlib artists it leaves on the current figure."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.stats import chi2

from .. import gibbs as G, mixdata, models as M
from ..core import Sub, fail, require
from ..refs import normal_logpdf
from pyrichlet.exceptions import NotFittedError

PROPERTY = "C23"
RULE = ("A case is a Gibbs-fitted mixture of one to four features (array, list, series or data frame, also after an earlier fit to other data), with anything from one cluster to fourteen; the figure "
        "is drawn without a display and its artists are compared with densities, contours and clusters recomputed from the MAP state. Non-trivial: two or "
        "more features or clusters.")
ASSUMPTIONS = ["the figure is matplotlib's current figure after the call; points are one or more scatter collections, contours and densities are lines, "
               "cluster components on the diagonal are filled areas"]


def rgb(c):
    import matplotlib.colors as mc
    return tuple(np.round(mc.to_rgb(c), 6))


def state(m):
    p = m.map_sim_params
    return G.snapshot(m.get_sim_params()), G.snapshot([p]), m.map_log_likelihood, np.array(m.y), list(m._column_names) if hasattr(m, "_column_names") else None


def dens(p, dims, x, comps):
    return sum(p["w"][j] * np.exp(normal_logpdf(x, np.atleast_1d(p["theta"][j][0])[dims], np.atleast_2d(p["theta"][j][1])[np.ix_(dims, dims)])[0]) for j in comps)


def container(form, y):
    """The data in a container, and the names its features go by."""
    D = y.shape[1]
    names = [str(i) for i in range(D)]
    if form == "frame":
        names = ["feature %s" % c for c in "abcd"[:D]]
        return pd.DataFrame(y, columns=names, index=np.arange(len(y))[::-1] + 5), names
    if form == "int frame":
        names = [10 * (D - i) for i in range(D)]
        return pd.DataFrame(y, columns=names), [str(c) for c in names]
    if form == "list":
        return y.tolist(), names
    if D == 1:
        if form == "flat":
            return y[:, 0].copy(), names
        if form == "flat list":
            return y[:, 0].tolist(), names
        if form == "series":
            return pd.Series(y[:, 0], name="the feature", index=np.arange(len(y))[::-1]), ["the feature"]
        if form == "bare series":
            return pd.Series(y[:, 0]), names
    return y.copy(), names


def check(case, rec):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.collections import PathCollection, PolyCollection

    s, D = case["spec"], case["D"]
    g = np.random.default_rng([case["seed"], 31])
    k = case["k"]
    n = max(case["n"], k, D + 3)
    cent = g.normal(size=(k, D)) * 3 if case["near"] else np.arange(k)[:, None] * 40.0 + g.normal(size=(k, D)) * 3
    lab = np.concatenate([np.arange(k), g.integers(0, k, size=n - k)])
    y = (cent[lab] + g.normal(size=(n, D)) @ (np.eye(D) + 0.4 * np.tril(g.normal(size=(D, D)), -1)).T) * case["scale"]
    if case["out"] and k == 1:
        y[0] += 12 * case["scale"]
    obj, names = container(case["form"], y)
    if not case["near"]:
        psi = np.eye(D) * case["scale"] ** 2
        m = M.mixture(s, case["seed"], total_iter=case["iters"], burn_in=0, psi_prior=psi, lambda_prior=1e-3)
    else:
        m = M.mixture(s, case["seed"], total_iter=case["iters"], burn_in=0)
    W = "%s, %d features, " % (s["m"], D)
    plt.close("all")
    if case["before"]:
        if case["before"] == 2 and s["m"] in M.VARIATIONAL:
            m.fit_variational(obj, n_groups=s.get("n", 2))
        try:
            m.gibbs_map_pairplot()
            fail(W + "pair plot of a mixture without a Gibbs fit accepted")
        except NotFittedError:
            pass
        require(not plt.get_fignums(), W + "the refused pair plot left a figure")
    groups = min(k, s["n"]) if s["m"] in M.FINITE else k
    if case["earlier"]:  # a fit to other data, whose names must not stay
        other, _ = container(case["earlier"], y[::-1, :1] if case["narrow"] else y[::-1] + 1)
        m.fit_gibbs(other, init_groups=1) if not case["narrow"] or case["near"] else None
    m.fit_gibbs(obj, init_groups=groups, init_method=case["init"])
    before = state(m)
    p = m.map_sim_params
    m.gibbs_map_pairplot()
    after = state(m)
    require(G.same_history(before[0], after[0]) and G.same_history(before[1], after[1]) and before[2] == after[2]
            and np.array_equal(before[3], after[3]) and before[4] == after[4] and np.array_equal(np.asarray(obj).reshape(y.shape), y), W + "plotting changed the fitted mixture")
    require(len(plt.get_fignums()) == 1, W + "%d figures were drawn", len(plt.get_fignums()))
    fig = plt.gcf()
    if case["render"]:
        fig.canvas.draw()
    # the MAP clusters and their components
    lw = np.array([np.log(p["w"][j]) + normal_logpdf(y, *p["theta"][j])[0]
                   for j in range(len(p["w"]))]).T
    order = np.sort(lw, axis=1)
    if lw.shape[1] > 1 and np.any(order[:, -1] - order[:, -2] < 1e-6):
        rec.classify("tie")
        plt.close("all")
        return
    comp = np.argmax(lw, axis=1)
    comps = np.unique(comp)
    K = len(comps)
    W += "%d clusters: " % K
    rec.classify("model " + s["m"], "%d features" % D, "clusters " + ("1" if K == 1 else "2-9" if K < 10 else str(K) if K < 12 else "12+"))
    rec.nontriv(D > 1 or K > 1)
    axes = [a for a in fig.axes if a.get_subplotspec() is not None]
    require(len(axes) == D * D, W + "%d panels", len(axes))
    grid = {}
    for a in axes:
        ss = a.get_subplotspec()
        grid[ss.rowspan.start, ss.colspan.start] = a
    require(set(grid) == {(i, j) for i in range(D) for j in range(D)}, W + "panels at %s", sorted(grid))
    for i in range(D):
        require(grid[D - 1, i].get_xlabel() == names[i] and grid[i, 0].get_ylabel() == names[i],
                W + "panel labels %r, %r of feature %s", grid[D - 1, i].get_xlabel(), grid[i, 0].get_ylabel(), names[i])
    colour = {}
    for (r, c), a in sorted(grid.items()):
        if r == c:
            continue
        P = W + "panel (%d, %d): " % (r, c)
        sc = [q for q in a.collections if isinstance(q, PathCollection)]
        off, col = [], []
        for q in sc:
            o = np.asarray(q.get_offsets())
            f = q.get_facecolors()
            off.append(o)
            col += [rgb(f[i % len(f)]) for i in range(len(o))]
        off = np.concatenate(off) if off else np.zeros((0, 2))
        require(len(off) == n, P + "%d points instead of %d", len(off), n)
        want = y[:, [c, r]]
        a1, a2 = np.lexsort(off.T), np.lexsort(want.T)
        require(np.allclose(off[a1], want[a2], rtol=1e-12, atol=0), P + "the points are not the fitted data")
        for i, j in zip(a1, a2):
            kc = int(comp[j])
            require(colour.setdefault(kc, col[i]) == col[i], P + "points of the cluster of component %d have different colours", kc)
        require(K > 10 or len(set(colour.values())) == K, P + "%d colours for %d clusters", len(set(colour.values())), K)
        lines = [np.asarray(ln.get_xydata()) for ln in a.lines]
        cols = [rgb(ln.get_color()) for ln in a.lines]
        ok = [i for i, ln in enumerate(lines) if len(ln) >= 8]
        require(len(ok) == K, P + "%d contours", len(ok))
        used = set()
        for j in comps:
            mu = np.atleast_1d(p["theta"][j][0])[[c, r]]
            S = np.atleast_2d(p["theta"][j][1])[np.ix_([c, r], [c, r])]
            found = None
            for i in ok:
                z = lines[i] - mu
                q = np.einsum("ij,jk,ik->i", z, np.linalg.inv(S), z)
                if np.allclose(q, chi2.ppf(0.95, 2), rtol=1e-6):
                    t = np.linalg.solve(np.linalg.cholesky(S), z.T)
                    ang = np.sort(np.arctan2(t[1], t[0]))
                    gap = max(np.max(np.diff(ang)), ang[0] + 2 * np.pi - ang[-1])
                    require(gap < 0.7, P + "the contour of component %d is not closed", j)
                    if i not in used and cols[i] == colour[int(j)]:
                        found = i
                        break
            require(found is not None, P + "no 95%% contour of component %d in its cluster's colour", j)
            used.add(found)
    for i in range(D):
        a = grid[i, i]
        P = W + "diagonal panel %d: " % i
        tot = False
        for ln in a.lines:
            xy = np.asarray(ln.get_xydata())
            if len(xy) >= 20 and np.allclose(xy[:, 1], dens(p, [i], xy[:, 0], range(len(p["w"]))), rtol=1e-6, atol=1e-290):
                require(xy[:, 0].min() <= y[:, i].min() and xy[:, 0].max() >= y[:, i].max(), P + "the density covers only part of the data's range")
                tot = True
        require(tot, P + "no line shows the MAP density")
        areas = [q for q in a.collections if isinstance(q, PolyCollection)]
        for j in comps:
            good = False
            for q in areas:
                v = np.concatenate([pa.vertices for pa in q.get_paths()])
                up = v[v[:, 1] > 0]
                # the area reaches from zero to the component's density
                if len(up) == 0:
                    continue
                f = dens(p, [i], up[:, 0], [j])
                top = np.isclose(up[:, 1], f, rtol=1e-6, atol=1e-300)
                if top.mean() > 0.95 and (D == 1 or rgb(q.get_facecolors()[0]) == colour[int(j)]) and v[:, 1].max() >= 0.999 * dens(
                        p, [i], np.unique(v[:, 0]), [j]).max():
                    good = True
            require(good, P + "no area shows component %d in its cluster's colour", j)
        if D == 1:
            cs = {rgb(q.get_facecolors()[0]) for q in areas} - {(0.0, 0.0, 0.0)}
            require(K > 10 or len(cs) >= K, P + "%d colours for %d clusters", len(cs), K)
    # a later fit is not affected
    if case["later"]:
        twin = M.mixture(s, case["seed"], total_iter=case["iters"], burn_in=0, **({} if case["near"] else {"psi_prior": psi, "lambda_prior": 1e-3}))
        if case["before"] != 2 and not case["earlier"]:
            twin.fit_gibbs(obj, init_groups=groups, init_method=case["init"])
            twin.fit_gibbs(obj, warm_start=True)
            m.fit_gibbs(obj, warm_start=True)
            require(G.same_history(m.get_sim_params(), twin.get_sim_params()), W + "a warm start after plotting gives other draws")
    plt.close("all")


FORMS = ["array", "frame", "int frame", "list", "flat", "flat list", "series", "bare series"]
INITS = ["kmeans", "kmeans", "kmeans", "random"]


@st.composite
def cases(draw):
    k = draw(st.one_of(st.integers(1, 6), st.sampled_from([9, 10, 11, 12, 14])))
    near = draw(st.booleans()) if k <= 6 else False
    over = dict(G.OVERRIDE)
    over["DD"] = st.integers(k, k + 2).flatmap(lambda q: st.fixed_dictionaries({"m": st.just("DD"), "n": st.just(q), "alpha": M.pos(0.5, 4)}))
    over["EQ"] = st.fixed_dictionaries({"m": st.just("EQ"), "n": st.integers(k, k + 2)})
    over["FR"] = st.fixed_dictionaries({"m": st.just("FR"), "n": st.integers(k, k + 2)})
    s = draw(M.spec(M.ALL, override=over))
    return {"spec": s, "k": k, "near": near, "D": draw(st.sampled_from([1, 2, 2, 3, 4] if k <= 6 else [1, 2, 2, 3])), "n": draw(st.one_of(*[st.integers(4, 30)] * 7, st.sampled_from([60, 130, 260]))), "out": draw(st.booleans()),
            "scale": draw(st.sampled_from([1.0, 0.01, 200.0])), "form": draw(st.sampled_from(FORMS)),
            "earlier": draw(st.sampled_from([None] * 6 + FORMS)), "narrow": draw(st.booleans()), "init": draw(st.sampled_from(INITS)), "before": draw(st.sampled_from([0, 0, 0, 1, 2])),
            "iters": draw(st.integers(1, 4)), "render": draw(st.sampled_from([False, False, False, True])), "later": draw(st.booleans()),
            "seed": draw(M.seeds)}


SUBS = [Sub("pair plot", cases(), check, quick=240, thorough=4000)]

