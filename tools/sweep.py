#!/opt/venv/bin/python
"""Runs the check of its property against every change in seeded/, in a scratch
copy of /repo, and writes tools/plant_results.json.

usage: sweep.py [ids]      (environment: PLANT_REPO, default /repo)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("PLANT_REPO", "/repo"))
out = ROOT / "tools" / "plant_results.json"
rs = json.loads(out.read_text()) if len(sys.argv) > 1 else {}
for d in sorted((ROOT / "seeded").iterdir()):
    if sys.argv[1:] and d.name not in sys.argv[1:]:
        continue
    m = json.loads((d / "meta.json").read_text())
    with tempfile.TemporaryDirectory(prefix="plant-") as tmp:
        copy = Path(tmp) / "repo"
        shutil.copytree(REPO, copy, symlinks=True)
        subprocess.run(["git", "apply", str(d / "patch.diff")], cwd=copy, check=True)
        try:
            r = subprocess.run([sys.executable, "run.py", m["property"]], cwd=ROOT, env={**os.environ, "MC_REPO": str(copy)}, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=900)
            rc, text = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            rc, text = None, ""
    v = [l for l in text.splitlines() if l.startswith(f"VIOLATION property={m['property']} ")]
    res = {"breaks": m["what_it_breaks"], "confirmed": True, "needs": m["needs"], "property": m["property"], "result": "missed"}
    if rc == 1 and v:
        replay = Path(v[0].split("replay=", 1)[1])
        res.update(result="caught", space=json.loads(replay.read_text()).get("space"))
    rs[d.name] = res
    print(d.name, res["result"], res.get("space"), flush=True)
    out.write_text(json.dumps(rs, indent=1, sort_keys=True) + "\n")
