"""Developer aid: confirm a planted bug and store it in /verif/seeded.

usage: tools/plant.py SPEC.py [ID...]

SPEC.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python source)].
Each is applied to a scratch copy of /repo; it is stored when the tests pass
with the bug, and the demo passes without and fails with it. Then the check of
the property is run against the scratch copy.
"""
import json, os, shutil, subprocess, sys, tempfile

REPO, VERIF = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
DEMO = """#!/bin/sh
# exit 0 when the behaviour is right; run from the root of the repository
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
"""
HEAD = "import sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, '.')\n"


def sh(*cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def tests(d):
    """The tests that fail."""
    return sh("/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests", cwd=d)


for bug in spec["BUGS"]:
    if len(sys.argv) > 2 and bug["id"] not in sys.argv[2:]:
        continue
    d = tempfile.mkdtemp(prefix="plant-")
    try:
        w = os.path.join(d, "repo")
        shutil.copytree(REPO, w)
        dest = os.path.join(d, bug["id"])
        os.mkdir(dest)
        open(dest + "/demo.sh", "w").write(DEMO)
        open(dest + "/demo.py", "w").write(HEAD + bug["demo"].strip() + "\n")
        os.chmod(dest + "/demo.sh", 0o755)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(dest + "/meta.json", "w"), indent=1)
        r = sh("sh", dest + "/demo.sh", cwd=w)
        if r.returncode:
            print(bug["id"], "REJECTED: demo fails without the bug", r.stdout[-500:], r.stderr[-800:])
            continue
        for f, old, new in bug["edits"]:
            s = open(os.path.join(w, f)).read()
            if s.count(old) != 1:
                print(bug["id"], "REJECTED: text occurs", s.count(old), "times in", f)
                break
            open(os.path.join(w, f), "w").write(s.replace(old, new))
        else:
            r = tests(w)
            if r.returncode:
                print(bug["id"], "REJECTED: tests fail", r.stdout[-300:])
                continue
            r = sh("sh", dest + "/demo.sh", cwd=w)
            if not r.returncode:
                print(bug["id"], "REJECTED: demo passes with the bug", r.stdout[-500:])
                continue
            err = (r.stderr.strip().splitlines() or ["?"])[-1]
            diff = sh("git", "diff", cwd=w).stdout
            # the changed lines must be lines of the original repository
            base = sh("git", "rev-list", "--max-parents=0", "HEAD", cwd=w).stdout.strip()
            new_lines = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
            orig = "".join(sh("git", "show", base + ":" + f, cwd=w).stdout for f, o, n in bug["edits"])
            mine = [l for l in new_lines if l not in orig]
            open(dest + "/patch.diff", "w").write(diff)
            out = os.path.join(VERIF, "seeded", bug["id"])
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(dest, out)
            r = sh(VERIF + "/check", bug["property"], env=dict(os.environ, QUICKLY_REPO=w, EVIDENCE_DIR=d))
            v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
            print(bug["id"], "OK", "[demo: %s]" % err[:80], "NOT ORIGINAL: %s" % mine if mine else "", "CAUGHT" if r.returncode == 1 and v else "MISSED (%s)" % r.returncode, v[:1], flush=True)
    finally:
        shutil.rmtree(d)
