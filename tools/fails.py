"""Developer aid: run a property and list all distinct failures, shortest first.

usage: tools/fails.py PROP [family] [tier]
"""
import sys, os, json, time, importlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [os.environ.get("QUICKLY_REPO", "/repo"), ROOT]
from mc import core
core.MAX_FAILS = int(os.environ.get("MAXF", "400"))
m = importlib.import_module("mc.props." + sys.argv[1].lower())
fam = sys.argv[2] if len(sys.argv) > 2 else None
tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
rec, done = core.explore([f for f in m.families() if fam in (None, "-", f.name)], tier, time.time() + 3000)
print(done, len(rec.fails))
rec.fails.sort(key=lambda v: (v[0], len(json.dumps(v[1], default=repr)), str(v[1])))
import collections
cnt = collections.Counter()
lines = 0
for v in rec.fails:
    k = (v[0], v[2][:24])
    cnt[k] += 1
    if cnt[k] <= int(os.environ.get("N", "6")) and lines < 40:
        lines += 1
        d = v[3][-int(os.environ.get("D", "300")):].replace("\n", "\n    ") if "exception" not in v[2] else str(v[3].split("\n")[-5:-3])
        print(v[0], json.dumps(v[1], default=repr)[:300], "|", v[2][:200], "|", d)
print(cnt.most_common(15))
