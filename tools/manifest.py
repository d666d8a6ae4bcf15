"""Writes MANIFEST.json from the checks which exist: python3 tools/manifest.py"""
import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "tools"))
from properties import PROPS  # noqa: E402
from levels import LEVELS, NOT_APPLICABLE  # noqa: E402

checks = []
missing = []
for prop in PROPS:
    pid = prop["id"]
    if (ROOT / "mc" / "checks" / f"{pid.lower()}.py").exists() and pid in LEVELS:
        technique, level, note = LEVELS[pid]
        checks.append(
            dict(
                property=pid,
                quick_cmd=f"./check.sh {pid}",
                thorough_cmd=f"VERIF_TIER=thorough ./check.sh {pid}",
                technique=technique,
                level=level,
                level_note=note,
            )
        )
    else:
        missing.append(dict(property=pid, reason=NOT_APPLICABLE.get(pid, "check not built yet")))
manifest = dict(
    version=1,
    setup_cmd="./setup.sh",
    checks=checks,
    not_applicable=missing,
    notes="All checks run the real code of /repo's working tree (no hooks needed): see DESIGN.md",
)
(ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
try:
    import jsonschema

    jsonschema.validate(manifest, json.loads(Path("/root/.vp/MANIFEST.schema.json").read_text()))
except ImportError:
    pass
print(len(checks), "checks,", len(missing), "not claimed")
