"""Run checks against seeded bugs in scratch clones: python3 tools/try.py [--all] [--seed S] [id ...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = "--all" in args
seed = args[args.index("--seed") + 1] if "--seed" in args else "1"
ids = [a for a in args if not a.startswith("--") and a != seed] or sorted(os.listdir(ROOT + "/seeded"))
props = [c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]]
for i in ids:
    meta = json.load(open("%s/seeded/%s/meta.json" % (ROOT, i)))
    W = tempfile.mkdtemp(prefix="try-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", W + "/repo"], check=True)
        subprocess.run(["git", "-C", W + "/repo", "apply", "%s/seeded/%s/patch.diff" % (ROOT, i)], check=True)
        caught = []
        t0 = time.time()
        for p in (props if every else [meta["property"]]):
            r = subprocess.run([ROOT + "/check", p], cwd=ROOT, env=dict(os.environ, VF_REPO=W + "/repo", VERIF_SEED=seed), capture_output=True, text=True)
            if r.returncode == 1 and "VIOLATION property=" + p in r.stdout:
                caught.append(p)
            elif r.returncode != 0:
                caught.append(p + "?%d" % r.returncode)
        ok = meta["property"] in caught
        msg = [ln for ln in r.stdout.splitlines() if ln.startswith("  ")][:1]
        print("%-6s %-28s %s  by %s  %.0f s %s" % ("caught" if ok else "MISSED", i, meta["property"], ",".join(caught), time.time() - t0, "" if every else " ".join(msg)[:140]), flush=True)
    finally:
        shutil.rmtree(W)
