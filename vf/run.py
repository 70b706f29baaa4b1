"""python -m vf.run C01 [--replay FILE] : decide one property; see DESIGN.md."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
from collections import Counter

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True

from . import core  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(pid):
    return importlib.import_module("vf.props." + pid.lower())


def _task(args):
    pid, idx, shard, seed, n = args
    t = time.time()
    try:
        sub = load(pid).SUBS[idx]
        rec, st = core.run_shard(sub, core.derive_seed(seed, pid, sub.name, shard), n)
        return dict(idx=idx, shard=shard, ev=rec.evaluations, keys=rec.keys, classes=dict(rec.classes),
                    samples=rec.samples, fail=st["fail"], err=st["err"], inc=st["inconclusive"],
                    inc_msg=st.get("inc_msg"), wall=time.time() - t)
    except BaseException:
        return dict(idx=idx, shard=shard, ev=0, keys=set(), classes={}, samples=[], fail=None,
                    err={"case": None, "trace": traceback.format_exc()}, inc=0, inc_msg=None, wall=time.time() - t)


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get("known", []) if k["property"] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--self-test", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--sub")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.self_test:
        import hypothesis
        import pyrichlet
        print("pyrichlet from %s, hypothesis %s" % (os.path.dirname(pyrichlet.__file__), hypothesis.__version__))
        return 0
    pid = a.property
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = load(pid)
    import pyrichlet
    got = os.path.realpath(pyrichlet.__file__)
    if not got.startswith(core.REPO + os.sep):
        print("harness error: imported %s" % got)
        return 3

    if a.replay:
        r = json.load(open(a.replay))
        sub = next(s for s in mod.SUBS if s.name == r["sub"])
        try:
            core.run_case(sub, r["case"], core.Rec())
        except core.Violation as v:
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            print("  %s: %s" % (r["sub"], v))
            return 1
        print("replay: property %s holds on this case" % pid)
        return 0

    nproc = min(8, os.cpu_count() or 1)
    tasks = []
    for i, s in enumerate(mod.SUBS):
        if a.sub and a.sub != s.name:
            continue
        n = int(max(1, (s.quick if tier == "quick" else s.thorough) * a.scale))
        shards = s.shards or min(n, 16 if n >= 160 else 8)
        if tier == "thorough":
            shards = min(n, shards * 4)
        for k in range(shards):
            m = n // shards + (1 if k < n % shards else 0)
            if m:
                tasks.append((pid, i, k, seed, m))
    # interleave so that long subs spread over the processes
    tasks.sort(key=lambda t: (t[2], t[1]))
    ctx = mp.get_context("fork")
    results = []
    limit = 780 if tier == "quick" else 0
    with ctx.Pool(nproc, initializer=getattr(mod, "WORKER_INIT", None)) as pool:
        stop = None
        it = pool.imap_unordered(_task, tasks, chunksize=1)
        for _ in tasks:
            try:
                r = it.next(timeout=limit - (time.time() - t0) if limit else None)
            except mp.TimeoutError:
                stop = time.time()
                break
            results.append(r)
            if r["fail"] and stop is None:
                # let shards already running finish shrinking for a while, then stop
                stop = time.time()
                break
        if stop is not None:
            pool.terminate()

    known = known_findings(pid)
    for k in known:
        sub = next(s for s in mod.SUBS if s.name == k["sub"])
        try:
            core.run_case(sub, k["case"], core.Rec())
        except core.Violation:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    results.sort(key=lambda r: (r["idx"], r["shard"]))
    fails = [r for r in results if r["fail"]]
    errs = [r for r in results if r["err"] and not r["fail"]]
    incs = [r for r in results if r["inc"]]
    by_sub = {}
    samples = []
    distinct = 0
    total = 0
    for i, s in enumerate(mod.SUBS):
        rs = [r for r in results if r["idx"] == i]
        if not rs:
            continue
        keys = set().union(*(r["keys"] for r in rs))
        cl = Counter()
        for r in rs:
            cl.update(r["classes"])
        by_sub[s.name] = dict(evaluations=sum(r["ev"] for r in rs), distinct_nontrivial=len(keys),
                              classes=dict(sorted(cl.items())), cpu_s=round(sum(r["wall"] for r in rs), 1))
        total += by_sub[s.name]["evaluations"]
        distinct += len(keys)
        for r in rs:
            if r["samples"]:
                samples.append({"sub": s.name, "case": r["samples"][0]})
                break
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=total, distinct_nontrivial=distinct, rule=mod.RULE, samples=samples,
                            by_sub=by_sub, inconclusive=sum(r["inc"] for r in incs), shards=len(tasks), shards_finished=len(results)),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 1), violations=len(fails))
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    if a.scale == 1.0 and not a.sub:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    if a.v or a.sub:
        print(json.dumps(by_sub, indent=1))
    if fails:
        seen = set()
        for r in fails:
            s = mod.SUBS[r["idx"]]
            if s.name in seen:
                continue
            seen.add(s.name)
            path = os.path.join(VERIF, "evidence", "replay", "%s-%s-%s.json" % (
                pid, s.name.replace(" ", "_"), core.case_key(r["fail"]["case"])))
            with open(path, "w") as f:
                json.dump(dict(property=pid, sub=s.name, case=r["fail"]["case"], message=r["fail"]["message"],
                               replay_cmd="cd /verif && ./check %s --replay %s" % (pid, path)), f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s: %s" % (s.name, r["fail"]["message"]))
            print("  case: %s" % json.dumps(r["fail"]["case"], default=str)[:600])
        return 1
    if errs:
        print("harness error in %s of %s:" % (mod.SUBS[errs[0]["idx"]].name, pid))
        print(errs[0]["err"]["trace"])
        print(json.dumps(errs[0]["err"]["case"], default=str)[:1000])
        return 3
    if incs:
        print("inconclusive: %s in %s (%d cases)" % (incs[0]["inc_msg"], mod.SUBS[incs[0]["idx"]].name, sum(r["inc"] for r in incs)))
    if len(results) < len(tasks):
        print("%d of %d shards did not finish in time" % (len(tasks) - len(results), len(tasks)))
    if sum(r["inc"] for r in incs) >= 4 or not distinct or 2 * len(results) < len(tasks):
        return 4
    print("%s held: %d cases, %d distinct non-trivial, %.1f s (%s, seed %d)" % (pid, total, distinct, time.time() - t0, tier, seed))
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
