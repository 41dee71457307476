"""Developer aid: write DESIGN.md from the check modules, seeded bugs and findings."""
import importlib, json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = ["/repo", ROOT]
exec(open(os.path.join(ROOT, "tools", "oracles.py")).read())

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
manifest = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
na = {d["property_id"] if "property_id" in d else d.get("id", d.get("property")): d["reason"] for d in manifest.get("not_applicable", [])}
known = json.load(open(os.path.join(ROOT, "known_findings.json")))
try:
    catches = json.load(open(os.path.join(ROOT, "tools", "catches.json")))
except FileNotFoundError:
    catches = {}

out = [INTRO]
for p in props:
    i = p["id"]
    out.append("### {} {}\n\n".format(i, p["title"].strip()))
    if not os.path.exists(os.path.join(ROOT, "mc", "props", i.lower() + ".py")):
        out.append("Not claimed: {}\n\n".format(na.get(i, "?")))
        continue
    m = importlib.import_module("mc.props." + i.lower())
    out.append("- **Oracle.** {}\n".format(ORACLE.get(i, "?")))
    out.append("- **Enumerated, quick.** {}\n".format(m.BOUNDS["quick"]))
    out.append("- **Enumerated, thorough.** {}\n".format(m.BOUNDS["thorough"]))
    if m.ASSUMPTIONS:
        out.append("- **Assumed / left out.** {}\n".format("; ".join(m.ASSUMPTIONS)))
    out.append("- **Families.** {}\n\n".format(", ".join(f.name for f in m.families())))
out.append(MIDDLE)
for f in known["fixed"]:
    out.append("- " + f[len("fixed: "):] + "\n")
out.append("\nKnown findings that are not repaired:\n\n")
for f in known["known"]:
    out.append("- {property}: {what}\n".format(**f))
if not known["known"]:
    out.append("- none\n")
out.append("\n## Planted bugs and the checks that catch them\n\n")
out.append("Each is stored in `seeded/<id>` with a demonstration; `tools/plant.py` confirms one (tests pass, the demo\nfails with it and passes without) and `tools/catch.py` runs all checks' quick tier against every one.\n\n")
out.append("| bug | property | what it breaks | caught by |\n|---|---|---|---|\n")
for b in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", b, "meta.json")))
    out.append("| {} | {} | {} | {} |\n".format(b, m["property"], m["what_it_breaks"], catches.get(b, "?")))
out.append(END)
open(os.path.join(ROOT, "DESIGN.md"), "w").write("".join(out))
