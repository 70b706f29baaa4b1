"""Harness: properties are lists of Sub checks; a Sub is a Hypothesis strategy of JSON-able cases plus check(case, rec).

check raises Violation when the code under test breaks the property.  Any exception whose traceback passes through
the code under test on a case of the valid domain is a violation as well; any other exception is a harness error.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
from collections import Counter

REPO = os.path.realpath(os.environ.get("VF_REPO", "/repo"))
if REPO not in sys.path:
    sys.path.insert(0, REPO)
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)  # only for hypothesis; /opt/venv's packages come first

import numpy as np  # noqa: E402

np.seterr(all="ignore")


class Violation(Exception):
    pass


class Inconclusive(Exception):
    """A CPU budget ran out: neither held nor violated."""


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not cond:
        fail(msg, *args)


class Rec:
    """Collects what a run covered."""

    def __init__(self):
        self.evaluations = 0
        self.nontrivial = 0
        self.keys = set()
        self.classes = Counter()
        self.samples = []
        self.stage2 = 0
        self.cur_nontrivial = False

    def classify(self, *labels):
        for lab in labels:
            self.classes[lab] += 1

    def count(self, label, n=1):
        self.classes[label] += n

    def nontriv(self, flag=True):
        if flag:
            self.cur_nontrivial = True


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None, cpu_s=60, hang_is_violation=False, shards=None,
                 max_shrinks=None, shrink=True):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough or quick * 10
        self.cpu_s = cpu_s
        self.hang = hang_is_violation
        self.shards = shards
        self.shrink = shrink


def case_key(case):
    c = {k: v for k, v in case.items() if k not in ("seed",)} if isinstance(case, dict) else case
    return hashlib.sha1(json.dumps(c, sort_keys=True, default=str).encode()).hexdigest()[:16]


def derive_seed(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


class _Hang(BaseException):
    pass


class _Stop(Exception):
    """Ends a shard whose cases run out of budget."""


def _alarm(signum, frame):
    raise _Hang()


def touches_repo(exc):
    """Does the traceback of exc pass through the code under test?"""
    pkg = os.path.join(REPO, "pyrichlet") + os.sep
    tb = exc.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(pkg):
            return True
        tb = tb.tb_next
    return False


SLOW = float(os.environ.get("VF_SLOW", "0"))  # report cases that take longer


def run_case(sub, case, rec):
    """Run one case; Violation for a violation, other exceptions for harness errors."""
    rec.evaluations += 1
    rec.cur_nontrivial = False
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, sub.cpu_s)
    t0 = time.process_time()
    try:
        # numpy's legacy global generator is used by third parties only; keep cases independent of each other
        np.random.seed(12345)
        sub.check(case, rec)
    except _Hang:
        if sub.hang:
            raise Violation("no answer after %d s of CPU time (such a case takes milliseconds)" % sub.cpu_s) from None
        raise Inconclusive("CPU budget of %d s ran out" % sub.cpu_s) from None
    except (Violation, Inconclusive):
        raise
    except (MemoryError, ImportError):
        raise
    except Exception as e:  # noqa: BLE001
        if type(e).__module__.startswith("hypothesis"):
            raise
        if touches_repo(e):
            tail = traceback.format_exception_only(type(e), e)[-1].strip()
            where = [f for f in traceback.extract_tb(e.__traceback__) if "pyrichlet" in f.filename]
            w = where[-1]
            raise Violation("raised %s at %s:%s on a valid case" % (
                tail, os.path.relpath(w.filename, REPO), w.name)) from e
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if SLOW and time.process_time() - t0 > SLOW:
            print("%.1f s in %s: %s" % (time.process_time() - t0, sub.name, case), file=sys.stderr, flush=True)
        signal.signal(signal.SIGVTALRM, old)
    if rec.cur_nontrivial:
        k = case_key(case)
        if k not in rec.keys:
            rec.keys.add(k)
            if len(rec.samples) < 2:
                rec.samples.append(case)


def run_shard(sub, seed, n_examples):
    """Generate n_examples cases; returns (rec, failure or None, error or None)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine as _engine
    _engine.MAX_SHRINKING_SECONDS = 40
    rec = Rec()
    state = {"fail": None, "err": None, "inconclusive": 0}

    def body(case):
        try:
            run_case(sub, case, rec)
        except Violation as v:
            state["fail"] = {"case": case, "message": str(v)}
            raise
        except Inconclusive as e:
            state["inconclusive"] += 1
            state["inc_msg"] = str(e)
            if state["inconclusive"] >= 2:
                raise _Stop from None
        except Exception:
            state["err"] = {"case": case, "trace": traceback.format_exc()}
            raise

    phases = [Phase.generate] + ([Phase.shrink] if sub.shrink else [])
    test = settings(max_examples=n_examples, deadline=None, database=None, phases=phases,
                    suppress_health_check=list(HealthCheck), report_multiple_bugs=False, print_blob=False,
                    verbosity=hypothesis.Verbosity.quiet)(given(sub.strategy)(body))
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except (Violation, _Stop):
        pass
    except Exception as e:
        if state["fail"] is None and state["err"] is None:
            state["err"] = {"case": None, "trace": traceback.format_exc()}
        elif type(e).__name__.startswith("Flaky") and state["fail"] is not None:
            state["fail"]["message"] += " (not reproduced on an immediate rerun of the same case: results depend on hidden state)"
        elif state["fail"] is None and state["err"] is None:
            state["err"] = {"case": None, "trace": traceback.format_exc()}
    return rec, state


# ---------------------------------------------------------------- output validators
def as_float_array(x, what, shape=None, finite=True):
    try:
        a = np.asarray(x, dtype=np.float64)
    except (TypeError, ValueError):
        fail("%s is not a numeric array: %r", what, type(x).__name__)
    if shape is not None and a.shape != tuple(shape):
        fail("%s has shape %s instead of %s", what, a.shape, tuple(shape))
    if finite and not np.all(np.isfinite(a)):
        fail("%s is not finite: %s", what, np.array2string(a.ravel()[:8]))
    return a


def as_int_array(x, what, shape=None):
    a = np.asarray(x)
    if a.dtype.kind not in "iu":
        fail("%s is not an integer array (dtype %s)", what, a.dtype)
    if shape is not None and a.shape != tuple(shape):
        fail("%s has shape %s instead of %s", what, a.shape, tuple(shape))
    return a


def close(a, b, rtol=1e-8, atol=1e-10):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    with np.errstate(invalid="ignore"):
        return a.shape == b.shape and bool(np.all((np.abs(a - b) <= atol + rtol * np.where(np.isfinite(b), np.abs(b), 0)) | (a == b)))


def require_close(a, b, what, rtol=1e-8, atol=1e-10):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    require(a.shape == b.shape, "%s: shape %s, expected %s", what, a.shape, b.shape)
    with np.errstate(invalid="ignore"):
        ok = (np.abs(a - b) <= atol + rtol * np.where(np.isfinite(b), np.abs(b), 0)) | (a == b)
    if not np.all(ok):
        i = tuple(np.argwhere(~ok)[0])
        fail("%s: got %r, expected %r (at %s of %s)", what, float(a[i]), float(b[i]), i, a.shape)


# ---------------------------------------------------------------- two-stage statistical tests
SCREEN = 1e-3
CONFIRM = 1e-10


def two_stage(run, rec, n1, n2, what, screen=SCREEN, confirm=CONFIRM):
    """run(n, stage) -> [(name, p-value, detail)].  A violation needs p < confirm on a fresh, larger sample for a
    statistic that already failed the screen, so a false alarm has probability about 1e-10 per statistic."""
    first = {name: p for name, p, _ in run(n1, 1)}
    rec.count("statistics", len(first))
    sus = {k for k, p in first.items() if not p >= screen}
    if not sus:
        return
    rec.count("stage2")
    for name, p, detail in run(n2, 2):
        if name in sus and not p >= confirm:
            fail("%s: %s does not follow its law (p=%.1e with %d draws; %s)", what, name, p, n2, detail)


def ks_1samp(x, cdf):
    from scipy.stats import kstest
    r = kstest(x, cdf)
    return r.pvalue, r.statistic


def ks_2samp(x, y):
    """Two-sample Kolmogorov-Smirnov (asymptotic) valid in the presence of ties (conservative)."""
    from scipy.stats import kstwo
    x = np.sort(x)
    y = np.sort(y)
    n, m = len(x), len(y)
    allv = np.concatenate([x, y])
    d = np.max(np.abs(np.searchsorted(x, allv, side="right") / n - np.searchsorted(y, allv, side="right") / m))
    en = n * m / (n + m)
    return float(np.clip(kstwo.sf(d, int(round(en))), 0, 1)), d


def binom_p(k, n, prob):
    """Two-sided p-value that k successes of n have probability prob (exact tails, doubled)."""
    from scipy.stats import binom
    prob = min(max(prob, 0.0), 1.0)
    return float(min(1.0, 2 * min(binom.cdf(k, n, prob), binom.sf(k - 1, n, prob))))


def binom_p_2(k1, n1, k2, n2):
    """Two-sample proportions: hypergeometric (Fisher) two-sided p-value, doubled tails."""
    from scipy.stats import hypergeom
    h = hypergeom(n1 + n2, k1 + k2, n1)
    return float(min(1.0, 2 * min(h.cdf(k1), h.sf(k1 - 1))))


def quiet():
    import warnings
    warnings.simplefilter("ignore")


quiet()
