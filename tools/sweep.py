"""sweep.py [id ...]: runs every planted bug of seeded/ (or the named ones) in a scratch copy against its property's quick check and its
demonstration; writes planted.tsv (id, property, caught, first violation) when run over all."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=1500)


def one(bid):
    d = os.path.join(ROOT, "seeded", bid)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    w = tempfile.mkdtemp(prefix="sweep-%s-" % bid)
    tree = os.path.join(w, "repo")
    try:
        sh(["cp", "-a", "/repo", tree], "/")
        r = sh(["git", "apply", os.path.join(d, "patch.diff")], tree)
        if r.returncode:
            return bid, prop, "DOES NOT APPLY", r.stderr[-200:]
        demo = sh(["bash", os.path.join(d, "demo.sh")], tree).returncode
        seeds = os.environ.get("PLANT_SEEDS", "1").split()
        hits, first = 0, ""
        for s in seeds:
            c = sh(["./check", prop, "quick", "--seed", s], ROOT, {"PYCOSE_REPO": tree, "MON_WORKERS": "2"})
            if c.returncode == 1 and "VIOLATION property=" + prop in c.stdout:
                hits += 1
                first = first or next((l.strip() for l in c.stdout.splitlines() if l.startswith("  " + prop)), "")[:110]
        return bid, prop, "caught %d/%d" % (hits, len(seeds)) + ("" if demo else " DEMO PASSES"), first.replace("\t", " ")
    finally:
        shutil.rmtree(w, ignore_errors=True)


ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
with ThreadPoolExecutor(4) as ex:
    rows = []
    for r in ex.map(one, ids):
        rows.append(r)
        if r[2].split()[0] != "caught" or r[2].split()[1][0] == "0" or "DEMO" in r[2] or len(ids) < 30:
            print(*r, sep="\t", flush=True)
if not sys.argv[1:]:
    with open(os.path.join(ROOT, "planted.tsv"), "w") as f:
        for r in sorted(rows, key=lambda r: (r[1], r[0])):
            f.write("\t".join(r) + "\n")
print(sum("caught" in r[2] and " 0/" not in r[2] for r in rows), "of", len(rows), "caught")
