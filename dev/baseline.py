"""writes sa/baseline.json from the current tree"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import facts, renames
d = facts.ensure()
ds = {c: json.load(open(os.path.join(d, c + ".json"))) for c in facts.CRATES}
json.dump(renames.snapshot(ds), open(renames.BASE, "w"), indent=0, sort_keys=True)
