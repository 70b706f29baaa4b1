"""Plant seeded bugs: python3 tools/plant.py DEFS.py [id ...]

DEFS.py defines BUGS = {id: dict(property, needs, breaks, edits=[(path, old, new), ...], demo=source)}; a bug is written to
seeded/<id>/ only if its patch changes lines of the original commit only, the baseline tests pass with it, and its demo
passes on the unchanged tree and fails on the patched one.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "^6384951"
SH = 'PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def original(path, old):
    """Are all lines of `old` in /repo/path of the original commit?"""
    text = open("/repo/" + path).read()
    i = text.index(old)
    a = text.count("\n", 0, i) + 1
    b = a + old.rstrip("\n").count("\n")
    out = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-L", "%d,%d" % (a, b), path], capture_output=True, text=True, check=True).stdout
    return [ln for ln in out.splitlines() if not ln.startswith(BASE) and ln.split(")", 1)[1].strip()]


def run(pid, b):
    W = tempfile.mkdtemp(prefix="plant-")
    tree = os.path.join(W, "repo")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", tree], check=True)
        for path, old, new in b["edits"]:
            p = os.path.join(tree, path)
            s = open(p).read()
            if s.count(old) != 1:
                return "edit of %s matches %d times: %r" % (path, s.count(old), old[:60])
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", tree, "diff"], capture_output=True, text=True, check=True).stdout
        # lines removed by the patch must be original
        blame = {}
        for f in {e[0] for e in b["edits"]}:
            o = subprocess.run(["git", "-C", "/repo", "blame", "-s", f], capture_output=True, text=True, check=True).stdout.splitlines()
            blame[f] = [ln.split()[0] for ln in o]
        f = None
        removed = foreign = 0
        for ln in diff.splitlines():
            if ln.startswith("--- a/"):
                f = ln[6:]
            elif ln.startswith("@@"):
                n = int(re.match(r"@@ -(\d+)", ln).group(1))
            elif f and ln.startswith("-"):
                removed += 1
                foreign += blame[f][n - 1] != BASE
                n += 1
            elif f and ln.startswith(" "):
                n += 1
        if foreign or not removed:
            return "%d of %d removed lines are not original" % (foreign, removed)
        d = os.path.join(W, "demo")
        os.makedirs(d)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(SH)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        if r.returncode:
            return "demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-600:]
        r = subprocess.run(["bash", d + "/demo.sh"], cwd=tree, capture_output=True, text=True)
        if not r.returncode:
            return "demo passes with the patch: " + r.stdout[-300:]
        msg = (r.stdout + r.stderr).strip().splitlines()[-1:]
        env = dict(os.environ, PYTHONPATH=tree, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1")
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "pyrichlet"], cwd=tree, env=env, capture_output=True, text=True)
        if r.returncode or "32 passed" not in r.stdout:
            return "tests: " + r.stdout[-400:]
        dst = os.path.join(ROOT, "seeded", pid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        return "ok (%s)" % " ".join(msg)[:150]
    finally:
        shutil.rmtree(W)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:] or list(bugs)
    with ThreadPoolExecutor(4) as ex:
        for i, r in zip(ids, ex.map(lambda k: run(k, bugs[k]), ids)):
            print(i, bugs[i]["property"], r, flush=True)
