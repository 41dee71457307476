"""Developer aid: run the quick checks against every planted bug; writes tools/catches.json.

usage: tools/catch.py [--all] [ID...]     (--all: every check, not just that of the property)
"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = "--all" in args
ids = [a for a in args if a != "--all"] or sorted(os.listdir(ROOT + "/seeded"))
fn = ROOT + "/tools/catches.json"
res = json.load(open(fn)) if os.path.exists(fn) else {}
checks = [c["property_id"] if "property_id" in c else c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]]
for b in ids:
    meta = json.load(open("{}/seeded/{}/meta.json".format(ROOT, b)))
    d = tempfile.mkdtemp(prefix="catch-")
    try:
        w = d + "/repo"
        shutil.copytree("/repo", w)
        subprocess.run(["git", "apply", "{}/seeded/{}/patch.diff".format(ROOT, b)], cwd=w, check=True)
        caught = []
        for p in checks if every else [meta["property"]]:
            r = subprocess.run([ROOT + "/check", p], env=dict(os.environ, QUICKLY_REPO=w), capture_output=True, text=True)
            if r.returncode == 1 and "VIOLATION property=" + p in r.stdout:
                caught.append(p)
            elif r.returncode:
                print(b, p, "exit", r.returncode)
        res[b] = " ".join(caught) or "**missed**"
        print(b, meta["property"], "->", res[b], flush=True)
    finally:
        shutil.rmtree(d)
    json.dump(res, open(fn, "w"), indent=1, sort_keys=True)
