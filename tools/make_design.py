"""Writes /verif/DESIGN.md: tools/design_head.md + a section per property + tools/design_tail.md + the table of planted bugs."""
import glob, importlib, json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF, os.environ.get("RICHARD_REPO", "/repo")]
D = json.load(open(os.path.join(VERIF, "tools", "design_notes.json")))
man = {c["property"]: c for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]}
out = [open(os.path.join(VERIF, "tools", "design_head.md")).read()]
for l in open(os.path.join(VERIF, "properties.jsonl")):
    p = json.loads(l)
    m = importlib.import_module("checks." + p["id"])
    d = D[p["id"]]
    out.append(f"### {p['id']} {p['title']}\n\n"
               f"*{man[p['id']]['technique']}* ({m.LEVEL})\n\n"
               f"* **Enumerated:** {d['enumerated']}\n* **Oracle:** {d['oracle']}\n* **Counting:** {m.RULE}.\n"
               f"* **Bounds and cost:** {d['cost']}\n* **Beyond the tests:** {p['why_tests_cant']}\n* **Assumes / not judged:** {'; '.join(m.ASSUMPTIONS)}.\n")
out.append(open(os.path.join(VERIF, "tools", "design_tail.md")).read())
rows = []
caught = {}
f = os.path.join(VERIF, "tools", "seeded_results.json")
if os.path.exists(f): caught = json.load(open(f))
for d in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(caught.get(i, [])) or 'none'} |")
out.append("## Planted bugs, and the checks (quick) that catch them\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n")
open(os.path.join(VERIF, "DESIGN.md"), "w").write("\n".join(out))
