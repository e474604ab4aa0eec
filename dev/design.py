"""DESIGN.md from dev/DESIGN.tmpl, the rules, the property list, the known findings and the planted changes."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import check
check.load_rules()
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json"))
claimed = {c["property"]: c for c in man["checks"]}
rows = []
for p in props:
    if p["id"] in claimed:
        fn, text, floor = check.RULES[p["id"]]
        kind = "specification equivalence" if "compared with" in claimed[p["id"]]["technique"] else "obligation rules"
        rows.append("| %s | %s | **%s.** %s |" % (p["id"], kind, p["title"], text[0].upper() + text[1:] + "."))
t = open(V + "/dev/DESIGN.tmpl").read()
na = {n["property"]: n["reason"] for n in man["not_applicable"]}
t = t.replace("@@TABLE@@", "\n".join(rows))
t = t.replace("@@NA@@", "\n".join("* **%s** %s: %s" % (p["id"], p["title"], na[p["id"]]) for p in props if p["id"] in na) or "(none)")
kf = json.load(open(V + "/known_findings.json"))
t = t.replace("@@FIXED@@", "\n".join("* " + x for x in kf["fixed"]) + ("\n\nKnown findings (not repaired):\n" + "\n".join("* %s `%s`: %s" % (f["property"], f["key"], f["what"]) for f in kf["findings"]) if kf["findings"] else ""))
fired = json.load(open(V + "/dev/fired.json")) if os.path.exists(V + "/dev/fired.json") else {}
rows = ["| change | property | breaks | reported by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s (needs: %s) | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], ", ".join(fired.get(d, ["?"])) or "none"))
t = t.replace("@@SEEDS@@", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(t)
