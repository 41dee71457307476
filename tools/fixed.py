"""Developer aid: rewrite the "fixed" list of known_findings.json from the fix: commits in /repo."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {}   # commit subject -> properties
exec(open(os.path.join(ROOT, "tools", "fixprops.py")).read())
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "--grep=^fix:"], capture_output=True, text=True).stdout
fixed = []
for line in out.splitlines():
    h, subject = line.split(" ", 1)
    what = subject[len("fix: "):]
    props = PROPS.get(what)
    if not props:
        print("no property for:", what)
        continue
    for p in props.split():
        fixed.append("fixed: property={} {} {}".format(p, h, what))
fn = os.path.join(ROOT, "known_findings.json")
data = json.load(open(fn))
data["fixed"] = fixed
with open(fn, "w") as f:
    json.dump(data, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(fixed), "entries")
