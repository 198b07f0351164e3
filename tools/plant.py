"""plant.py SPECFILE [id ...]: turns bug descriptions into /verif/seeded/<id>, after confirming each in a scratch copy of /repo.

SPECFILE defines BUGS = {id: {"property", "needs", "breaks", "edits": [(file, old, new)], "demo": python source}}.
A bug is kept only if it touches lines of the original repository, passes the stable tests, and its demonstration passes
without and fails with it; then the property's quick check is run against it and the outcome printed."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--reverse"], capture_output=True, text=True).stdout.split()[0]
STABLE = json.load(open("/opt/vp/BASELINE.json"))
RUN = '#!/bin/bash\n# the code under test is the one in the current directory\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)


def one(bid, b, check=True, keep=True):
    w = tempfile.mkdtemp(prefix="plant-%s-" % bid)
    tree = os.path.join(w, "repo")
    try:
        sh(["cp", "-a", "/repo", tree], "/")
        sh(["git", "checkout", "-q", "--", "."], tree)
        original = 0
        for f, old, new in b["edits"]:
            p = os.path.join(tree, f)
            s = open(p).read()
            n = b.get("count", 1)
            if s.count(old) != n:
                return bid, "BAD SPEC: %d matches in %s of %r" % (s.count(old), f, old[:60])
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], tree).stdout
        base = {f: sh(["git", "show", "%s:%s" % (BASE, f)], tree).stdout.splitlines() for f, _, _ in b["edits"]}
        cur = None
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
            elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] in base[cur]:
                original += 1
        keep = keep and not os.environ.get("PLANT_TRY")          # only tries it: nothing is written, and any line may be changed
        if keep and not original:
            return bid, "NO ORIGINAL LINE CHANGED"
        d = os.path.join(w, "demo")
        os.mkdir(d)
        open(os.path.join(d, "demo.sh"), "w").write(RUN)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        good = sh(["bash", os.path.join(d, "demo.sh")], "/repo")
        if good.returncode:
            return bid, "DEMO FAILS ON CLEAN TREE\n" + good.stdout[-500:] + good.stderr[-1500:]
        bad = sh(["bash", os.path.join(d, "demo.sh")], tree)
        if not bad.returncode:
            return bid, "DEMO PASSES WITH THE BUG\n" + bad.stdout[-500:]
        t = sh([PY, "-m", "pytest", "-q", "-x", "-o", "addopts=", "-p", "no:cacheprovider", "-p", "stable_ids", "tests"], tree,
               {"PYTHONPATH": tree + ":/opt/vp/plugins", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"})
        if t.returncode:
            return bid, "TESTS FAIL\n" + t.stdout[-700:]
        out = "kept" if keep else "tried"
        if keep:
            o = os.path.join(ROOT, "seeded", bid)
            os.makedirs(o, exist_ok=True)
            open(os.path.join(o, "patch.diff"), "w").write(diff)
            for f in ("demo.sh", "demo.py"):
                shutil.copy(os.path.join(d, f), os.path.join(o, f))
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(os.path.join(o, "meta.json"), "w"), indent=1)
        if check:
            for seed in os.environ.get("PLANT_SEEDS", "1").split():
                c = sh(["./check", b["property"], "quick", "--seed", seed], ROOT, {"PYCOSE_REPO": tree, "MON_WORKERS": "3"})
                v = [l for l in c.stdout.splitlines() if not l.startswith("  case")]
                out += "\n   %s seed %s rc=%d %s" % ("CAUGHT" if c.returncode == 1 and "VIOLATION property=" + b["property"] in c.stdout else "*** MISSED", seed,
                                                    c.returncode, v[0][:220] if v else c.stderr[-300:])
        return bid, out + ("  [demo: %s]" % (bad.stderr.strip().splitlines() or bad.stdout.strip().splitlines() or ["-"])[-1][:120])
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:] or list(bugs)
    with ThreadPoolExecutor(3) as ex:
        for bid, res in ex.map(lambda i: one(i, bugs[i]), ids):
            print(bid, res, flush=True)
