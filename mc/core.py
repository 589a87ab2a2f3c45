"""Bounded exhaustive exploration: enumeration, workers, evidence, verdicts.

A check owns a list of spaces.  A space enumerates a finite set of cases
completely (`gen`) and decides each one (`evaluate`).  All cases of a space are
distributed over forked workers; nothing is sampled.
"""
import hashlib
import itertools
import json
import os
import resource
import signal
import sys
import tempfile
import shutil
import time
import traceback
from multiprocessing import Pipe, Value, get_context
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("MC_REPO", "/repo"))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
CASE_TIMEOUT = 30.0
MEMORY = 4 << 30  # of one worker and of each of its children
DEADLINE = float(os.environ.get("MC_DEADLINE", "14000" if THOROUGH else "600"))
SPACE_SECONDS = float(os.environ.get("MC_SPACE_SECONDS", "1e9"))  # for tools/mutate.py

_scratch = None


class CaseTimeout(BaseException):
    """a single case did not end in time (code under test hangs)."""


class Finding(Exception):
    """a violation that is identified by `key`, may be a recorded finding."""

    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key
        self.msg = msg


def scratch() -> Path:
    """directory of this process tree, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = Path(tempfile.mkdtemp(prefix="mc-spex-"))
        os.chmod(_scratch, 0o755)
    return _scratch


def setup():
    """make the code under test importable, from the working tree."""
    sys.dont_write_bytecode = True
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    cwd = scratch() / "cwd"
    cwd.mkdir(exist_ok=True)
    os.chdir(cwd)
    # pretend nothing of the environment: same temp root for all temp files
    tmp = scratch() / "tmp"
    tmp.mkdir(exist_ok=True)
    os.environ["TMPDIR"] = str(tmp)
    tempfile.tempdir = None
    src = str(REPO / "src")
    sys.path.insert(0, src)
    import spex  # noqa

    assert os.path.realpath(spex.__file__).startswith(os.path.realpath(src) + "/"), (
        spex.__file__
    )
    quiet_log()


def quiet_log():
    """no log sinks: the code logs and formats every exception it meets."""
    import spex.log  # noqa
    from loguru import logger

    logger.remove()


def h64(obj) -> int:
    return int.from_bytes(
        hashlib.blake2b(repr(obj).encode("utf-8", "replace"), digest_size=8).digest(),
        "big",
    )


class Ctx:
    """what one worker measured."""

    def __init__(self):
        self.cases = 0
        self.transitions = 0
        self.replays = 0
        self.states = set()
        self.skipped = 0
        self.samples = []
        self.findings = {}
        self.counters = {}
        self.capped = False

    def state(self, obj):
        self.states.add(h64(obj))

    def step(self, n=1):
        self.transitions += n

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(str(s)[:1500])


class Space:
    def __init__(self, name, gen, evaluate, bound, workers=None, init=None):
        self.name = name
        if SPACE_SECONDS < 1e9:  # cut short anyway: begin everywhere
            self.gen = lambda: iter(sorted(gen(), key=lambda c: hash((len(repr(c)) % 7, repr(c)))))
        else:
            self.gen = gen
        self.evaluate = evaluate
        self.bound = bound
        self.workers = workers
        self.init = init  # run once in each worker


def _on_alarm(signum, frame):
    raise CaseTimeout(f"no end within {CASE_TIMEOUT} s")


def run_case(space, case, ctx):
    """verdict of one case: None, or a message; findings go to ctx."""
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        return space.evaluate(case, ctx)
    except Finding as f:
        ctx.findings.setdefault(f.key, (f.msg, repr(case)[:2000]))
        return None
    except CaseTimeout as e:
        return f"hang: {e}"
    except MemoryError:
        return "memory exhausted"
    except BaseException as e:  # code under test must not surprise the oracle
        return "unexpected exception: " + "".join(
            traceback.format_exception(type(e), e, e.__traceback__)
        )[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(space, k, n, conn, best, last, t_end):
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 2)
        os.dup2(devnull, 1)
        # a case that eats memory must end itself, not its neighbours
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))
        if space.init:
            space.init()
        ctx = Ctx()
        viol = None
        for idx, case in enumerate(space.gen()):
            if idx % n != k:
                continue
            if best.value >= 0 and idx > best.value:
                break
            if time.time() > t_end:
                ctx.capped = True
                break
            last[k] = idx
            ctx.cases += 1
            if ctx.cases <= 2:
                ctx.sample(f"{space.name}: {case!r}")
            msg = run_case(space, case, ctx)
            if msg is not None:
                viol = (idx, case, msg)
                with best.get_lock():
                    if best.value < 0 or idx < best.value:
                        best.value = idx
                break
        conn.send(("ok", ctx, viol))
    except BaseException as e:
        conn.send(
            (
                "err",
                "".join(traceback.format_exception(type(e), e, e.__traceback__)),
                None,
            )
        )
    finally:
        conn.close()
        os._exit(0)


def explore(space, t_end):
    """explore a space completely; returns merged Ctx, first violation."""
    mp = get_context("fork")
    n = space.workers or max(1, len(os.sched_getaffinity(0)))
    best = Value("q", -1)
    last = mp.Array("q", [-1] * n, lock=False)
    sys.stdout.flush()

    def start(k):
        r, w = Pipe(duplex=False)
        last[k] = -1
        p = mp.Process(target=_worker, args=(space, k, n, w, best, last, t_end))
        p.start()
        w.close()
        return p, r

    def result(p, r):
        try:
            got = r.recv()
        except EOFError:
            got = "died", None, None
        p.join()
        return got

    procs = [(k, *start(k)) for k in range(n)]
    total = Ctx()
    viols = []
    errors = []
    ends = [(k, p, result(p, r)) for k, p, r in procs]
    for k, p, (kind, payload, viol) in ends:
        if kind == "died":
            # ended from outside, or by the code under test: then it is ended again
            p, r = start(k)
            kind, payload, viol = result(p, r)
        if kind == "err":
            errors.append(payload)
        elif kind == "died":
            idx = last[k]
            case = next(itertools.islice(space.gen(), idx, None), None) if idx >= 0 else None
            viols.append((idx, case, f"worker died (exit code {p.exitcode}) on this case"))
        else:
            c = payload
            total.cases += c.cases
            total.transitions += c.transitions
            total.replays += c.replays
            total.states |= c.states
            total.skipped += c.skipped
            total.capped |= c.capped
            total.samples += c.samples[: max(0, 3 - len(total.samples))]
            for key, v in c.findings.items():
                total.findings.setdefault(key, v)
            for key, v in c.counters.items():
                total.counters[key] = total.counters.get(key, 0) + v
            if viol:
                viols.append(viol)
    if errors and not viols:
        raise RuntimeError("error in the check:\n" + errors[0])
    viols.sort(key=lambda v: v[0])
    return total, (viols[0] if viols else None)


def load_known():
    p = VERIF / "known_findings.json"
    if not p.exists():
        return []
    return json.loads(p.read_text())["findings"]


def write_json(path, data):
    path.parent.mkdir(parents=True, exist_ok=True)
    tmp = path.with_suffix(path.suffix + f".{os.getpid()}")
    tmp.write_text(json.dumps(data, indent=1, ensure_ascii=False))
    os.replace(tmp, path)


def run_check(check) -> int:
    """explore all spaces of a check; print verdict, write evidence."""
    pid = check.ID
    t0 = time.time()
    t_end = t0 + DEADLINE
    total_states = set()
    cases = transitions = replays = 0
    spaces_info = []
    samples = []
    findings = {}
    viol = None
    capped = False
    counters = {}
    for space in check.spaces():
        ts = time.time()
        ctx, v = explore(space, min(t_end, ts + SPACE_SECONDS))
        cases += ctx.cases
        transitions += ctx.transitions
        replays += ctx.replays
        total_states |= {(space.name, s) for s in ctx.states}
        capped |= ctx.capped
        info = {
            "space": space.name,
            "bound": space.bound,
            "cases": ctx.cases,
            "distinct_states": len(ctx.states),
            "transitions": ctx.transitions,
            "complete": v is None and not ctx.capped,
            "wall_s": round(time.time() - ts, 2),
        }
        if ctx.counters:
            info["counters"] = ctx.counters
        spaces_info.append(info)
        for k, n in ctx.counters.items():
            counters[k] = counters.get(k, 0) + n
        samples += ctx.samples[:1]
        for k, f in ctx.findings.items():
            findings.setdefault(k, (space.name,) + f)
        if v is not None:
            viol = (space, v)
            break
    known = {f["key"]: f for f in load_known() if f["property"] == pid and f["status"] == "known"}
    unlisted = {k: f for k, f in findings.items() if k not in known}
    if viol is None and unlisted:
        k, (sname, msg, case) = sorted(unlisted.items())[0]
        space = next(s for s in check.spaces() if s.name == sname)
        viol = (space, (0, case, f"[{k}] {msg}"))
    nviol = 0
    for k in sorted(findings):
        if k in known:
            print(f"KNOWN-FINDING: property={pid} {known[k]['what']}")
    if viol is not None:
        nviol = 1
        space, (idx, case, msg) = viol
        body = {
            "property": pid,
            "space": space.name,
            "index": idx,
            "tier": TIER,
            "case": repr(case),
            "message": msg,
            "replay": f"VERIF_TIER={TIER} {sys.executable} run.py {pid} --replay <this file>",
        }
        if check.describe_case:
            try:
                body["input"] = check.describe_case(space, case)
            except BaseException as e:
                body["input"] = f"({e!r})"
        rp = VERIF / "replays" / f"{pid}-{h64((space.name, repr(case))):016x}.json"
        write_json(rp, body)
        print(f"{pid}: {space.name} case {idx}: {msg[:2000]}")
        print(f"VIOLATION property={pid} replay={rp}")
    wall = time.time() - t0
    cov = {
        "exhaustive": viol is None and not capped,
        "spaces": spaces_info,
        "samples": samples[:6] or ["(none)"],
        "cap": "time limit reached; see 'complete' of each space" if capped else "none",
    }
    if check.LEVEL == "model_checking":
        cov.update(
            states=len(total_states),
            transitions=transitions,
            traces_validated_against_impl=replays,
        )
    else:
        cov.update(
            evaluations=cases,
            distinct_nontrivial=len(total_states),
            rule=check.RULE,
        )
    if findings:
        cov["known_findings_seen"] = sorted(k for k in findings if k in known)
    write_json(
        VERIF / "evidence" / f"{pid}.json",
        {
            "property": pid,
            "tier": TIER,
            "seed": SEED,
            "level": check.LEVEL,
            "coverage": cov,
            "assumptions": list(check.ASSUMPTIONS),
            "wall_s": round(wall, 2),
            "violations": nviol,
        },
    )
    print(
        f"{pid}: {cases} cases, {len(total_states)} distinct states, {transitions} transitions,"
        f" {replays} traces on the implementation, {wall:.1f} s"
        + (" (time limit reached)" if capped else "")
    )
    return 1 if viol is not None else 0


def cleanup():
    if _scratch is not None:
        shutil.rmtree(_scratch, ignore_errors=True)


class Check:
    ID = ""
    LEVEL = "model_checking"
    TECHNIQUE = ""
    NOTE = ""
    RULE = ""
    ASSUMPTIONS = ()
    describe_case = None

    def spaces(self):
        raise NotImplementedError


def product_len(*seqs):
    n = 1
    for s in seqs:
        n *= len(s)
    return n
