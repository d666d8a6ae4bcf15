"""Updates tools/costs.json from the evidence of the last quick runs"""
import json
from pathlib import Path

path = Path("/verif/tools/costs.json")
costs = json.loads(path.read_text()) if path.exists() else {}
for fp in Path("/verif/evidence").glob("C*.json"):
    ev = json.loads(fp.read_text())
    if ev["tier"] == "quick":
        costs[ev["property"]] = (ev["coverage"]["states"], ev["coverage"]["traces_validated_against_impl"], round(ev["wall_s"]))
path.write_text(json.dumps(costs, indent=1, sort_keys=True) + "\n")
