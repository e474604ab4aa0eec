"""Single source of properties.jsonl and MANIFEST.json: python3 dev/props.py rewrites both."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []
TRUST = ("Decides from the type-checked program (rustc MIR of the current tree) for all inputs; trusts rustc's MIR, the analyser's models of std and "
         "third-party calls, and the loop/heap abstraction described in DESIGN.md. ")


def prop(id, title, statement, over, text, why, files, mech, note="", tech=None, na=None):
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": m, "where": files[min(i, len(files) - 1)]} for i, m in enumerate(mech)]}})
    n = len([x for x in statement.split(". ") if x])
    assert n <= 3, (id, n)
    if na:
        NA.append({"property": id, "reason": na})
    else:
        CHECKS.append({"property": id, "quick_cmd": "python3 -m sa.check " + id, "thorough_cmd": "python3 -m sa.check " + id,
                       "technique": tech or "static value-flow analysis over rustc MIR (gated terms, BDD path conditions)", "level": "other",
                       "level_note": TRUST + note})


CHECKS = []
exec(open(os.path.join(V, "dev", "proplist.py")).read())

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in sorted(PROPS, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 -c \"from sa import facts; facts.load()\"",
                   "checks": sorted(CHECKS, key=lambda c: c["property"]), "not_applicable": sorted(NA, key=lambda c: c["property"]),
                   "notes": "All checks are static analyses of /repo's current source; see DESIGN.md."}, f, indent=1)
        f.write("\n")
