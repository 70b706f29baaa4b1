"""Interpreter of call histories on a weighting model, used by C01 (validity) and C02 (append-only)."""
import numpy as np
from hypothesis import strategies as st

from . import models as M
from .core import as_float_array, fail, require


labels = st.one_of(*[st.lists(st.integers(0, 7), min_size=1, max_size=15)] * 9,
                   st.lists(st.sampled_from([0, 1, 2, 5, 11, 23, 40]), min_size=1, max_size=60))
XS = (0.0, 0.1, 0.5, 0.75, 0.9, 0.95, 0.99, 0.999, 1 - 1e-6, 1 - 1e-9, 1 - 2.0 ** -52, 1 - 2.0 ** -53)
xs = st.one_of(st.sampled_from(XS), M.unit(0.0, 0.99))
OPS = dict(
    fit=st.tuples(st.just("fit"), labels),
    reset=st.tuples(st.just("reset")),
    random=st.tuples(st.just("random"), st.one_of(st.none(), st.integers(1, 25), st.sampled_from([2, 3, 5, 60, 150]))),
    complete=st.tuples(st.just("complete"), st.one_of(st.integers(1, 30), st.sampled_from([1, 2, 20, 70, 200]))),
    tail=st.tuples(st.just("tail"), xs),
    badtail=st.tuples(st.just("badtail"), st.sampled_from([1, 1.0, 1.5, -0.1, -1e-9, 2])),
    read=st.tuples(st.just("read")),
    ll=st.tuples(st.just("ll")),
    assign=st.tuples(st.just("assign"), st.integers(1, 4)),
    dll=st.tuples(st.just("dll"), labels),
)

big = st.one_of(st.integers(30, 300), st.sampled_from([64, 128, 1000, 2500]))
OPS["bigrandom"] = st.tuples(st.just("random"), st.one_of(st.none(), big))
OPS["bigcomplete"] = st.tuples(st.just("complete"), big)
OPS["bigfit"] = st.tuples(st.just("fit"), st.one_of(st.lists(st.integers(0, 70), min_size=20, max_size=200), st.integers(20, 150).map(lambda n: list(range(n)))))


def ops(weights, min_size, max_size):
    pool = [OPS[k] for k, n in weights.items() for _ in range(n)]
    return st.lists(st.one_of(*pool).map(list), min_size=min_size, max_size=max_size)


# moderate parameters: tails stay short enough to enumerate
SPEC = M.spec(override={
    "GP": st.fixed_dictionaries({"m": st.just("GP"), "a": M.pos(1, 6), "b": M.pos(0.5, 6)}),
    "BB": st.fixed_dictionaries({"m": st.just("BB"), "x": st.one_of(st.sampled_from([0, 1, 0.5]), M.unit(0.02, 0.95)),
                                 "alpha": M.pos(0.3, 6), "a": M.pos(1, 5), "b": M.pos(0.7, 5), "p": M.unit(0.05, 0.95),
                                 "p_method": st.sampled_from(["static", "independent", "geometric", "max-likelihood",
                                                              "inverse-sampling"])}),
})


def tail_cap(s, wm, x):
    """A tail level that needs few enough sticks, or None to skip (a bound of the harness, not of the property)."""
    m = s["m"]
    if m == "GP" and s["b"] <= 6:
        return min(x, 0.999)
    if m == "PY" and s["alpha"] > 5 or m == "PY" and s["pyd"] > 0.6:
        return min(x, 1 - (2000 / (s["alpha"] + 1)) ** (1 - 1 / s["pyd"]))
    if m == "PY":
        return min(x, 0.99) if s["pyd"] > 0.25 else min(x, 1 - 1e-6)
    if m in ("BD", "BE", "GP") or (m == "BB" and s["x"] > 0.9):
        w = np.asarray(wm.get_weights(), float)
        rem = 1 - w.sum()
        if len(w) == 0 or rem <= 0:
            return x
        v = w[-1] / (rem + w[-1])
        need = np.log(max(1 - x, 1e-16) / rem) / np.log1p(-min(max(v, 1e-12), 1 - 1e-12))
        return x if need < (60000 if m == "GP" else 1500) else None
    return x


def run(case, rec, prop):
    s = case["spec"]
    fixed = M.n_fixed(s)
    wm = M.weight(s, case["seed"])
    d = None          # labels fitted
    base = None       # weights that must stay a prefix (C02)
    drawn = False
    n_app = 0
    stale = False     # frequency weights are recomputed from the labels by the next call after a fit or reset
    for i, op in enumerate(case["ops"]):
        name = op[0]
        before = np.array(wm.get_weights(), dtype=float, copy=True)
        where = "step %d %s" % (i, op)
        ret = None
        if name == "fit":
            lab = op[1] if s["m"] != "DD" else [v % s["n"] for v in op[1]]
            wm.fit(lab if case["seed"] % 2 else np.array(lab))
            d = lab
            base = None
            stale = s["m"] == "FR"
            rec.count("fit")
            continue
        if name == "reset":
            wm.reset()
            d = None
            base = None
            stale = s["m"] == "FR"
            continue
        if name == "random":
            size = op[1]
            if size is None and d is None and fixed is None:
                try:
                    wm.random() if i % 2 else wm.random(None)
                except ValueError:
                    after = np.asarray(wm.get_weights(), float)
                    if prop == "C01":
                        require(np.array_equal(before, after), "%s: refused draw changed the weights", where)
                    continue
                fail("%s: a draw without size before any fit was accepted", where)
            ret = wm.random(size)
            base = None
            drawn = True
            want = size
            if s["m"] == "FR" and d is not None:
                want = max(d) + 1
            elif fixed is not None:
                want = fixed
            elif size is None:
                want = None
            if prop == "C01":
                ret = as_float_array(ret, where + " return value")
                if want is not None:
                    require(len(ret) == want, "%s: %d weights returned, %d asked for", where, len(ret), want)
                else:
                    require(len(ret) >= max(d) + 1, "%s: %d weights do not cover the fitted labels up to %d", where,
                            len(ret), max(d))
                rec.count("posterior draw" if d is not None else "prior draw")
        elif name == "complete":
            ret = wm.complete(op[1])
            drawn = True
            if prop == "C01" and fixed is None:
                require(ret is not None and len(ret) >= op[1], "%s: returned %s weights", where,
                        None if ret is None else len(ret))
            rec.count("complete")
        elif name == "tail":
            if len(before) == 0 and s["m"] in ("BD", "BE", "BB", "GP")[:4 if s.get("b", 0) > 6 else 3]:
                wm.random(1)
                base = None
                before = np.array(wm.get_weights(), dtype=float, copy=True)
            x = tail_cap(s, wm, op[1])
            if x is None:
                rec.count("tail skipped: too many sticks")
                continue
            ret = wm.tail(x)
            drawn = True
            rec.count("tail")
            if prop == "C01":
                ret = as_float_array(ret, where + " return value")
                tol = 4e-16 * max(8, len(ret))
                require(ret.sum() >= x - tol, "%s: total %r is below %r", where, float(ret.sum()), x)
        elif name == "badtail":
            try:
                wm.tail(op[1])
            except ValueError:
                pass
            else:
                fail("%s: tail outside [0,1) was accepted", where)
        elif name == "read":
            wm.get_weights()
            if len(before):
                wm.get_normalized_weights()
                wm.get_normalized_cumulative_weights()
            wm.get_size()
        elif name == "ll":
            # (covered by C05; here only: it must not disturb the weights)
            if len(before) and drawn:
                wm.weighting_log_likelihood()
        elif name == "assign":
            if len(before):
                wm.random_assignment(op[1])
        elif name == "dll":
            lab = op[1]
            if fixed is not None:
                if not len(before):
                    continue
                k = max(d) + 1 if s["m"] == "FR" and d is not None else s["n"]
                lab = [v % k for v in lab]
            else:
                if not len(before):
                    continue
            wm.assignation_log_likelihood(np.array(lab))
        after = as_float_array(wm.get_weights(), where + ": current weights")
        if prop == "C01":
            if ret is not None:
                require(np.array_equal(np.asarray(ret, float), after), "%s: returned vector is not the current one", where)
            elif name in ("random", "complete", "tail"):
                fail("%s: returned nothing", where)
            require(wm.get_size() == len(after), "%s: size %s for %d weights", where, wm.get_size(), len(after))
            require(np.all(after >= 0), "%s: negative weight %r", where, float(after.min()) if len(after) else 0)
            require(after.sum() <= 1 + 1e-12 * max(1, len(after)), "%s: weights sum to %r", where, float(after.sum()))
            if fixed is not None and len(after):
                require(abs(after.sum() - 1) < 1e-11, "%s: weights sum to %r instead of 1", where, float(after.sum()))
        else:
            if stale:
                stale = name not in ("random", "complete", "dll")
                base = None
                continue
            if name == "random":
                base = after.copy()
                continue
            if name in ("complete", "tail"):
                want_more = (op[1] > len(before)) if name == "complete" else not (op[1] <= before.sum() - 1e-9)
                if base is not None or (len(before) and d is None) or len(before) == 0:
                    require(np.array_equal(after[:len(before)], before),
                            "%s: weights already drawn changed from %s to %s", where, before[:6], after[:6])
                    if not want_more:
                        require(len(after) == len(before), "%s: %d weights became %d although enough were there", where,
                                len(before), len(after))
                        rec.count("no-op request")
                    elif len(after) > len(before) > 0:
                        n_app += 1
                        rec.count("appended")
                    base = after.copy()
            elif name == "dll":
                require(base is None and d is not None or np.array_equal(after[:len(before)], before), "%s: weights already drawn changed", where)
            else:
                require(np.array_equal(after, before), "%s: a read-only call changed the weights from %s to %s", where,
                        before[:6], after[:6])
    rec.classify("model " + s["m"])
    if prop == "C01":
        kinds = {o[0] for o in case["ops"]}
        rec.nontriv(len(kinds & {"fit", "random", "complete", "tail"}) >= 3)
    else:
        rec.nontriv(n_app >= 1 or M.n_fixed(s) is not None and len(case["ops"]) >= 3)
