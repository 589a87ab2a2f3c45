#!/opt/venv/bin/python
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
sys.dont_write_bytecode = True
from run import all_checks  # noqa

PY = "/opt/venv/bin/python"
ids = [json.loads(l)["id"] for l in (ROOT / "properties.jsonl").read_text().splitlines()]
checks = all_checks()
out = {
    "version": 1,
    "setup_cmd": f"{PY} run.py --list",
    "checks": [
        {
            "property": i,
            "quick_cmd": f"{PY} run.py {i}",
            "thorough_cmd": f"{PY} run.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": checks[i].TECHNIQUE,
            "level": checks[i].LEVEL,
            "level_note": checks[i].NOTE,
        }
        for i in ids
        if i in checks
    ],
    "not_applicable": [
        {"property": i, "reason": "not built yet"} for i in ids if i not in checks
    ],
    "notes": "Checks explore the real code in /repo's working tree (MC_REPO overrides the path). No hooks are needed in /repo.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(out, indent=1, ensure_ascii=False) + "\n")
print(len(out["checks"]), "checks", len(out["not_applicable"]), "not claimed")
