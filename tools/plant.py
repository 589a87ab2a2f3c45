"""plant.py BUGS.py [ID...]: build /verif/seeded/<id> from edits, confirm it in a scratch copy, run the check on it.

BUGS.py defines BUGS = {id: dict(prop, edits=[(file, old, new)], demo, needs, breaks)}.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = os.environ.get("PLANT_REPO", "/repo")
LIB = VERIF / "tools" / "seed" / "lib.py"
PY = "/opt/venv/bin/python"
SH = '#!/bin/sh\nPYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env={**os.environ, **env})


BASE_FAIL = set()


def main():
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    ids = sys.argv[2:] or list(mod.BUGS)
    base = sh("git rev-list --max-parents=0 HEAD", REPO).stdout.strip()
    for bid in ids:
        b = mod.BUGS[bid]
        tmp = Path(tempfile.mkdtemp(prefix="plant-"))
        repo = tmp / "repo"
        try:
            subprocess.run(["cp", "-a", REPO, str(repo)], check=True)
            ok = True
            for f, old, new in b["edits"]:
                p = repo / f
                s = p.read_text()
                if s.count(old) != 1:
                    print(f"{bid}: {f}: text occurs {s.count(old)} times")
                    ok = False
                p.write_text(s.replace(old, new, 1))
            if not ok:
                continue
            diff = sh("git diff", repo).stdout
            # removed lines must come from the original
            mine = []
            for f in {e[0] for e in b["edits"]}:
                bl = sh(f"git blame -l -s HEAD -- {f}", repo).stdout.splitlines()
                import re

                for h in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", sh(f"git diff -U0 -- {f}", repo).stdout, re.M):
                    a, n = int(h[1]), int(h[2] if h[2] is not None else 1)
                    for i in range(a, a + n):
                        if not bl[i - 1].lstrip("^").startswith(base[:30]):
                            mine.append((f, i))
            d = VERIF / "seeded" / bid
            d.mkdir(parents=True, exist_ok=True)
            (d / "patch.diff").write_text(diff)
            (d / "demo.py").write_text(b["demo"].lstrip("\n"))
            (d / "demo.sh").write_text(SH)
            shutil.copy(LIB, d / "lib.py")
            if b.get("page"):
                shutil.copy(LIB.with_name("pagelib.py"), d)
                shutil.copy(VERIF / "mc" / "page.js", d)
            (d / "meta.json").write_text(json.dumps({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
            (tmp / "spex").write_text(f'#!/bin/sh\nexec {PY} -m spex "$@"\n')
            (tmp / "spex").chmod(0o755)
            env = dict(PYTHONPATH=str(repo / "src"), PYTHONDONTWRITEBYTECODE="1", PATH=f"{tmp}:{os.environ['PATH']}")
            t = sh(f"{PY} -m pytest -q -rA -p no:cacheprovider . 2>&1", repo, **env)
            failed = {x.split(" ")[1] for x in t.stdout.splitlines() if x.startswith(("FAILED", "ERROR"))} - BASE_FAIL
            passed = sum(x.startswith("PASSED") for x in t.stdout.splitlines())
            tests = f"{passed} passed" + (f", failed: {failed}" if failed else "")
            demo_bad = sh(f"sh {d}/demo.sh", repo)
            demo_ok = sh(f"sh {d}/demo.sh", REPO)
            conf = tests == "23 passed" and demo_bad.returncode != 0 and demo_ok.returncode == 0 and not mine
            res = "-"
            if not os.environ.get("NOCHECK"):
                c = sh(f"{PY} run.py {b['prop']}", VERIF, MC_REPO=str(repo), VERIF_SEED="1", VERIF_TIER="quick")
                lines = [x for x in c.stdout.strip().splitlines() if not x.startswith("KNOWN-FINDING")] or ["?"]
                res = {0: "MISSED", 1: "caught"}.get(c.returncode, f"rc {c.returncode}") + " | " + lines[0][:230]
                rp = VERIF / "tools" / "plant_results.json"
                rs = json.loads(rp.read_text()) if rp.exists() else {}
                space = lines[0].split(" case ")[0].split(": ")[-1] if c.returncode == 1 else ""
                rs[bid] = {"property": b["prop"], "breaks": b["breaks"], "needs": b["needs"], "result": res.split(" |")[0], "space": space, "confirmed": conf}
                rp.write_text(json.dumps(rs, indent=1, ensure_ascii=False, sort_keys=True) + "\n")
            print(f"{bid}: {'confirmed' if conf else 'NOT CONFIRMED'} | {tests} | {res}")
            if not conf:
                print("  demo with patch:", demo_bad.returncode, demo_bad.stdout[-300:], demo_bad.stderr[-600:])
                print("  demo without:   ", demo_ok.returncode, demo_ok.stdout[-300:], demo_ok.stderr[-600:])
                print("  lines not of the original:", mine)
            sys.stdout.flush()
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
