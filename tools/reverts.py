"""reverts.py [PROP...]: undo each repair of /repo in a scratch copy and see that the property's check reports it again."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"


def fixes():
    for e in json.loads((VERIF / "known_findings.json").read_text())["fixed"]:
        yield e


def main():
    want = set(sys.argv[1:])
    out = {}
    for e in fixes():
        m = re.match(r"fixed: property=(\w+) ([0-9a-f]{7,}) ", e) if isinstance(e, str) else None
        prop, commit = (m[1], m[2]) if m else (e["property"], e["commit"])
        if want and prop not in want:
            continue
        tmp = Path(tempfile.mkdtemp(prefix="revert-"))
        repo = tmp / "repo"
        try:
            subprocess.run(["cp", "-a", "/repo", str(repo)], check=True)
            r = subprocess.run(["git", "revert", "-n", commit], cwd=repo, capture_output=True, text=True)
            if r.returncode:
                print(prop, commit, "REVERT CONFLICT", r.stderr.strip()[:200], flush=True)
                continue
            c = subprocess.run([PY, "run.py", prop], cwd=VERIF, capture_output=True, text=True,
                               env={**os.environ, "MC_REPO": str(repo), "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            v = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")]
            print(prop, commit, "rc", c.returncode, len(v), flush=True)
        finally:
            shutil.rmtree(tmp)


if __name__ == "__main__":
    main()
