"""Running the code under test in processes of its own."""
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import traceback
from pathlib import Path

from . import core

MEMORY = 3 << 29  # of one run of the command line


def fork_call(fn, *args):
    """run fn(*args) in a forked child; returns ("ok", value), ("exc", text) or ("died", status)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                out = ("ok", fn(*args))
            except BaseException as e:
                out = ("exc", "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
            data = pickle.dumps(out)
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    _, status = os.waitpid(pid, 0)
    if not data:
        return ("died", status)
    return pickle.loads(data)


def call(fn, *args):
    """like fork_call, but failing if the child did."""
    kind, val = fork_call(fn, *args)
    if kind != "ok":
        raise RuntimeError(f"child {kind}: {val}")
    return val


def cli_child(argv, cwd, arm, out):
    """the body of a forked command-line run; never returns."""
    code = 1
    try:
        null = os.open(os.devnull, os.O_RDONLY)
        os.dup2(null, 0)
        fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        sys.stdout = os.fdopen(1, "w", closefd=False)
        sys.stderr = os.fdopen(2, "w", closefd=False)
        os.chdir(cwd)
        signal.setitimer(signal.ITIMER_REAL, 0)
        from spex.__main__ import main

        sys.argv = ["spex"] + argv
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
        if arm:
            arm()
        try:
            main()
            code = 0
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException:
            traceback.print_exc()
            code = 1
        try:
            sys.stdout.flush()
            sys.stderr.flush()
        except Exception:
            pass
    finally:
        # the interpreter would finalise what is still alive
        import gc

        gc.collect()
        os._exit(code & 0xFF)


def cli(argv, cwd, arm=None, timeout=25):
    """`spex ARGV` in a forked process; returns exit status (negative: signal) and its output."""
    out = str(core.scratch() / f"out-{os.getpid()}")
    pid = os.fork()
    if pid == 0:
        cli_child([str(a) for a in argv], str(cwd), arm, out)
    try:
        _, status = os.waitpid(pid, 0)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    code = os.waitstatus_to_exitcode(status)
    try:
        txt = Path(out).read_text(errors="replace")[-1500:]
    except OSError:
        txt = ""
    return code, txt


def real_cli(argv, cwd, seed="0", env=None):
    """`python -m spex ARGV` as a process of its own."""
    e = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD",)}
    e.update(PYTHONPATH=str(core.REPO / "src"), PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE="1")
    e.update(env or {})
    r = subprocess.run(
        [sys.executable, "-m", "spex"] + [str(a) for a in argv],
        cwd=str(cwd),
        env=e,
        stdin=subprocess.DEVNULL,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        timeout=60,
    )
    return r.returncode, r.stdout.decode("utf-8", "replace")[-1500:]


def snapshot(d, skip=("spex.log",)):
    """files below d as {relative path: bytes} (directories: None)."""
    d = Path(d)
    out = {}
    if not d.exists():
        return out
    for p in sorted(d.rglob("*")):
        rel = str(p.relative_to(d))
        if rel in skip:
            continue
        if p.is_symlink():
            out[rel] = b"-> " + os.readlink(p).encode()
        elif p.is_dir():
            out[rel] = None
        else:
            out[rel] = p.read_bytes()
    return out


def fresh(name="w"):
    """an empty directory of this process."""
    d = core.scratch() / f"{name}-{os.getpid()}"
    if d.exists():
        shutil.rmtree(d)
    d.mkdir(parents=True)
    return d


def open_fds(under):
    """paths below `under` that this process has open."""
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink(f"/proc/self/fd/{f}")
        except OSError:
            continue
        if t.startswith(str(under)):
            out.append(t)
    return out
