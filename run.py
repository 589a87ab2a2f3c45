"""run.py ID [--replay FILE]: decide one property; run.py --list."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != "/opt/venv" and not os.environ.get("MC_PY"):
    os.environ["MC_PY"] = "1"
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(PY, [PY] + sys.argv)


def all_checks():
    import importlib

    out = {}
    for m in ("checks_s1", "checks_s2", "checks_d", "checks_r", "checks_l", "checks_w", "checks_p"):
        try:
            mod = importlib.import_module("mc." + m)
        except ModuleNotFoundError as e:
            if e.name != "mc." + m:
                raise
            continue
        for v in vars(mod).values():
            if isinstance(v, type) and getattr(v, "ID", ""):
                out[v.ID] = v
    return out


PRELOAD = {"R04": "shim.c", "W01": "clock.c"}


def preload(name):
    """restart with a library between the interpreter and libc: the fault injector, or clocks that can be moved."""
    import atexit
    import shutil
    import subprocess
    import tempfile

    d = os.environ.get("MC_SHIM")
    if d:
        del os.environ["LD_PRELOAD"]
        atexit.register(shutil.rmtree, d, True)
        return
    d = tempfile.mkdtemp(prefix="mc-shim-")
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "mc", name)
    so = os.path.join(d, "shim.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, src, "-ldl"], check=True)
    os.environ.update(MC_SHIM=d, LD_PRELOAD=so)
    os.execv(sys.executable, [sys.executable] + sys.argv)


def main():
    from mc import core

    if sys.argv[1] == "--list":
        print("\n".join(sorted(all_checks())))
        return 0
    pid = sys.argv[1]
    if pid in PRELOAD:
        preload(PRELOAD[pid])
    try:
        core.setup()
        check = all_checks()[pid]()
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            import json

            rec = json.load(open(sys.argv[3]))
            space = next(s for s in check.spaces() if s.name == rec["space"])
            if space.init:
                space.init()
            msg = core.run_case(space, eval(rec["case"]), core.Ctx())
            print(msg if msg else "no violation")
            return 1 if msg else 0
        return core.run_check(check)
    finally:
        core.cleanup()


if __name__ == "__main__":
    sys.exit(main())
