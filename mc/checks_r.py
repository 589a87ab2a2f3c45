"""R01-R06: runs of the whole program, their histories and their faults."""
import gc
import itertools
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
from pathlib import Path

from . import core, docs
from . import docx as dx
from .core import Check, Space, scratch
from .proc import call, cli, fork_call, fresh, open_fds, real_cli, snapshot
from .tree import E, document, figure, html, nested, table, td, th, title_row, tr
from .util import Q, chunks, sequences, std_row


def warm():
    """import everything once, so that forked runs need not."""
    import jsonschema.validators  # noqa
    import spex.__main__  # noqa
    import spex.validate  # noqa

    core.quiet_log()


def put(d, files):
    d = Path(d)
    d.mkdir(parents=True, exist_ok=True)
    for k, v in files.items():
        (d / k).write_bytes(v)
    return d


def pargs(out, **kw):
    from spex.jsonspec.lint import Code
    from spex.jsonspec.parserargs import ParserArgs

    kw = dict(kw)
    kw["lint_codes_ignore"] = [Code[c] for c in kw.pop("ignore", ())]
    kw.setdefault("skip_fig_on_error", False)
    return ParserArgs(output_dir=Path(out), **kw)


def spec_run(src, out, progress=False, **kw):
    """parse_spec to its end: (yielded positions, returned path, error)."""
    from spex.parse import parse_spec

    got = []
    try:
        gen = parse_spec(Path(src), pargs(out, **kw), yield_progress=progress)
        while True:
            try:
                got.append(next(gen))
            except StopIteration as e:
                return got, e.value, None
    except Exception as e:
        return got, None, type(e).__name__


def short(files):
    return {k: (None if v is None else len(v)) for k, v in files.items()}


def files_differ(want, got, what):
    if want == got:
        return None
    for k in sorted(set(want) | set(got)):
        if want.get(k, b"(absent)") != got.get(k, b"(absent)"):
            a, b = want.get(k, b"(absent)"), got.get(k, b"(absent)")
            i = next((i for i, (x, y) in enumerate(zip(a or b"", b or b"")) if x != y), min(len(a or b""), len(b or b"")))
            return f"{what}: file {k} differs from byte {i}: expected {(a or b'')[max(0,i-60):i+60]!r} got {(b or b'')[max(0,i-60):i+60]!r}"
    return None


# ---------------------------------------------------------------- R01
class R01(Check):
    ID = "R01"
    TECHNIQUE = (
        "bounded exhaustive exploration of histories on the real code: every sequence of documents in one process,"
        " every interleaving of two or three running conversions, every configuration of a single run"
    )
    NOTE = "Each history runs in a freshly forked process; the oracle is the same document processed alone in a fresh process."
    ASSUMPTIONS = ("the state of a process at start is what importing the program leaves",)

    def prepare(self):
        if hasattr(self, "base"):
            return
        warm()
        self.docs = docs.state_docs()
        self.dir = put(scratch() / "docs", self.docs)
        self.base = {}
        for name in self.docs:
            for kw in ((), ("skip",), ("ignore",)):
                self.base[name, kw] = call(self.one, name, kw, "base")
        self.pathbase = {k: call(self.path_alone, k) for k in [*self.docs, "e1.html", "e2.html"]}
        assert self.base["h1.html", ()][1] is None, self.base["h1.html", ()]
        assert self.base["h4.html", ()][1] is not None
        assert self.base["d1.docx", ()][1] is None, self.base["d1.docx", ()]

    def kwargs(self, kw):
        out = {}
        if "skip" in kw:
            out["skip_fig_on_error"] = True
        if "ignore" in kw:
            out["ignore"] = ["T1002", "L1003", "T1007"]
        return out

    def one(self, name, kw, where, progress=False):
        out = fresh(where)
        _, path, err = spec_run(self.dir / name, out, progress, **self.kwargs(kw))
        if path is not None and Path(path).parent.resolve() != out.resolve():
            err = f"returned {path}"
        gc.collect()
        return snapshot(out), err

    OPS = None

    def ops(self):
        names = ["h1.html", "h2.html", "h3.html", "h4.html", "q1.html", "q2.html", "d1.docx", "d2.docx", "d3.docx", "d4.docx", "d5.docx"]
        o = [(n, (), "run") for n in names]
        o += [("h4.html", ("skip",), "run"), ("h2.html", ("ignore",), "run"), ("m1.html", (), "run"), ("d6.docx", (), "run")]
        o += [("h1.html", (), "abandon1"), ("h3.html", (), "abandon3"), ("d4.docx", (), "abandon1"), ("d4.docx", (), "abandon2")]
        return o

    def gen_hist(self):
        o = self.ops()
        yield from sequences(o, 1, Q(2, 3))
        small = [x for x in o if x[:1][0] in ("h2.html", "q1.html", "d1.docx", "d3.docx", "h4.html", "d4.docx")]
        yield from sequences(small, 3, Q(3, 4))

    def play(self, hist):
        from spex.parse import parse_spec

        for i, (name, kw, mode) in enumerate(hist):
            if mode == "run":
                got, err = self.one(name, kw, "hist")
                want, werr = self.base[name, kw]
                msg = files_differ(want, got, f"step {i} ({name})")
                if msg:
                    return msg
                if err != werr:
                    return f"step {i} ({name}): outcome {err}, alone {werr}"
            else:
                out = fresh("hist")
                gen = parse_spec(self.dir / name, pargs(out, **self.kwargs(kw)), yield_progress=True)
                for _ in range(int(mode[-1])):
                    try:
                        next(gen)
                    except Exception:
                        break
                gen.close()
                del gen
        return None

    def ev_hist(self, case, ctx):
        kind, val = fork_call(self.play, case)
        ctx.replays += 1
        ctx.step(len(case))
        for i in range(len(case)):
            ctx.state(case[: i + 1])
        return val if kind == "ok" else f"{kind}: {val}"

    # many documents in one process
    def gen_many(self):
        o = self.ops()
        for a in o:
            yield ("repeat", (a,), Q(30, 200))
        for a in o:
            for b in (o[0], o[2], o[6], o[9]):
                yield ("then", (a, b), Q(15, 100))
        yield ("cycle", tuple(o), Q(12, 100))
        yield ("cycle", tuple(reversed(o)), Q(12, 100))

    def ev_many(self, case, ctx):
        how, ops, n = case
        hist = {"repeat": ops * n, "then": ops[:1] * n + ops[1:], "cycle": ops * n}[how]
        return self.ev_hist(tuple(hist), ctx)

    # one path that holds one document after another
    def gen_path(self):
        htmls = ["h1.html", "h2.html", "h4.html", "q1.html", "q2.html", "m1.html", "e1.html", "e2.html"]
        docxs = ["d1.docx", "d2.docx", "d3.docx", "d4.docx", "d6.docx", "m2.docx"]
        for names in (htmls, docxs):
            for seq in sequences(names, 2, Q(2, 3)):
                for write in ("replace", "rewrite"):
                    for same_out in (False, True):
                        yield (seq, write, same_out)
        # leftovers of another kind of document do not matter either
        for a in docxs[:4]:
            for b in htmls[:4]:
                yield ((a, b, a), "replace", True)

    def path_content(self, name):
        if name in ("e1.html", "e2.html"):  # as long as each other
            return docs.htm(docs.good(name[1]), docs.gap("3"))
        return self.docs[name]

    def play_path(self, seq, write, same_out):
        where = fresh("path")
        for i, name in enumerate(seq):
            src = where / ("the document" + Path(name).suffix)
            if write == "replace" and src.exists():
                src.unlink()
            src.write_bytes(self.path_content(name))
            os.utime(src, (1e9, 1e9))
            out = where / ("out" if same_out else f"out{i}")
            out.mkdir(exist_ok=True)
            _, path, err = spec_run(src, out)
            got = snapshot(out)
            if (want := self.pathbase.get(name)) is None:
                return f"no base for {name}"
            files, werr = want
            if err != werr:
                return f"step {i} ({name}): outcome {err}, alone {werr}"
            if err is None:
                if same_out:
                    got = {k: v for k, v in got.items() if k in files}
                msg = files_differ(files, got, f"step {i} ({name})")
                if msg:
                    return msg
        return None

    def path_alone(self, name):
        where = fresh("path")
        src = where / ("the document" + Path(name).suffix)
        src.write_bytes(self.path_content(name))
        (where / "out").mkdir()
        _, _, err = spec_run(src, where / "out")
        return snapshot(where / "out"), err

    def ev_path(self, case, ctx):
        kind, val = fork_call(self.play_path, *case)
        ctx.replays += 1
        ctx.step(len(case[0]))
        for i in range(len(case[0])):
            ctx.state((case[0][: i + 1],) + case[1:])
        return f"{case}: {val}" if val else None if kind == "ok" else f"{kind}: {val}"

    # interleavings
    def steps(self, name):
        n = call(self.count_steps, name)
        return n

    def count_steps(self, name):
        got, _, _ = spec_run(self.dir / name, fresh("n"), True)
        return len(got) + 1

    def gen_inter(self):
        names = ["h1.html", "h2.html", "q1.html", "d1.docx", "d3.docx", "d4.docx", "h4.html"]
        n = {k: self.steps(k) for k in names}
        for a, b in itertools.combinations_with_replacement(names, 2):
            for idx in itertools.combinations(range(n[a] + n[b]), n[a]):
                yield ((a, b), tuple(0 if i in idx else 1 for i in range(n[a] + n[b])))
        if core.THOROUGH:
            small = [k for k in names if n[k] <= 3] or names[:1]
            for t in itertools.combinations_with_replacement(small, 3):
                total = [i for i, k in enumerate(t) for _ in range(n[k])]
                yield from ((t, s) for s in sorted(set(itertools.permutations(total))))

    def inter(self, names, sched):
        from spex.parse import parse_spec

        outs, gens, errs, ended = [], [], [], []
        for i, name in enumerate(names):
            out = scratch() / f"i-{os.getpid()}-{i}"
            shutil.rmtree(out, ignore_errors=True)
            out.mkdir()
            outs.append(out)
            gens.append(parse_spec(self.dir / name, pargs(out), yield_progress=True))
            errs.append(None)
            ended.append(False)
        for i in sched:
            if ended[i]:
                continue
            try:
                next(gens[i])
            except StopIteration:
                ended[i] = True
            except Exception as e:
                errs[i] = type(e).__name__
                ended[i] = True
        del gens
        gc.collect()
        try:
            for i, name in enumerate(names):
                want, werr = self.base[name, ()]
                if not ended[i]:
                    return f"conversion {i} took more steps than alone"
                msg = files_differ(want, snapshot(outs[i]), f"{name} (conversion {i})")
                if msg:
                    return msg
                if errs[i] != werr:
                    return f"conversion {i} ({name}): outcome {errs[i]}, alone {werr}"
        finally:
            for o in outs:
                shutil.rmtree(o, ignore_errors=True)
        return None

    def ev_inter(self, case, ctx):
        kind, val = fork_call(self.inter, *case)
        ctx.replays += 1
        ctx.step(len(case[1]))
        pos = [0] * len(case[0])
        for i in case[1]:
            pos[i] += 1
            ctx.state((case[0], tuple(pos)))
        return f"schedule {case[1]}: {val}" if val else None if kind == "ok" else f"{kind}: {val}"

    # configurations, in real processes
    DIRS = ["plain", "with space", "ünï/nested", "a.b.html", "-dash", "%20", "[x]", "x.docx"]

    def gen_conf(self):
        for name in self.docs:
            for seed in range(Q(4, 24)):
                yield (name, "seed", seed)
            for d in self.DIRS:
                yield (name, "dir", d)
            for how in ("relative", "symlink", "cwd", "progress", "twice", "over another", "locale", "debug", "verbose", "optimize"):
                yield (name, "how", how)

    def ev_conf(self, case, ctx):
        name, what, v = case
        root = fresh("conf")
        src, out, cwd = self.dir / name, root / "out", root / "cwd"
        cwd.mkdir()
        argv, seed, env = [src, "-o", out], 1, {}
        if what == "seed":
            seed = v
        elif what == "dir":
            out = root / v
            argv = [src, f"--output={out}"]
        elif v == "relative":
            argv = [os.path.relpath(src, cwd), "-o", "../out"]
        elif v == "symlink":
            out.mkdir()
            (root / "ln").symlink_to(out)
            argv = [src, "-o", root / "ln"]
        elif v == "cwd":
            out, argv = cwd, [src]
        elif v == "over another":
            put(out, {Path(name).stem + e: b"x" * 100000 for e in ((".json", ".html", ".css") if name.endswith("docx") else (".json",))})
        elif v == "locale":
            env = {"LC_ALL": "C.UTF-8", "TZ": "Asia/Tokyo", "HOME": "/nonexistent", "COLUMNS": "40"}
        elif v == "debug":
            env = {"SPEX_DEBUG": "1"}
        elif v == "verbose":
            argv = argv + ["-v"]
        elif v == "optimize":
            env = {"PYTHONOPTIMIZE": "1"}
        want, werr = self.base[name, ()]
        if v == "progress":
            kind, val = fork_call(self.one, name, (), "prog", True)
            if kind != "ok":
                return f"{kind}: {val}"
            got, err = val
            code = 0 if err is None else 1
        else:
            code, txt = real_cli(argv, cwd, seed, env)
            if v == "twice":
                code, txt = real_cli(argv, cwd, seed, env)
            got = snapshot(out)
        ctx.replays += 1
        ctx.step()
        ctx.state(case)
        if (code != 0) != (werr is not None):
            return f"exit status {code}, processed alone: {werr} for {case}"
        if werr is None:
            return files_differ(want, got, f"{case}")
        # a failing run need not leave the same partial files
        return None

    # the environment a run gets: locale, encodings, time zone, umask, standard streams
    UNI = "T\u00e9\u00df \u2603 \u0416\u4e2d \U0001f600 \u20ac\u2026\u00ae"

    def uni_docs(self):
        u = self.UNI
        row = lambda k, i: tr(td(k), td(f"Na\u00efve Name{i} (N{i}): {u}"))
        num = dx.abstract(0, [(0, "bullet", "\u2022\uf0b7"), (1, "decimal", "\u00a7%2")]) + dx.num(1, 0)
        cell = dx.cell(dx.para(f"Field Two (FT): {u}"), dx.para(u, num=(1, 0)), dx.para(dx.link(dx.run(u, rpr="<w:b/>")), num=(1, 1)))
        return {
            "u1.html": docs.htm(docs.bits("1", row("7:4", 1), row("3:0", 2), title=u), docs.bits("2", row("7:6", 1), row("4:0", 2), tr(td(u), td(u)), title=u), figure("3", ["Value", "Description"], [tr(td("0h"), td(u)), tr(td(u), td("B\u00ea"))], title=u), spec=u, rev="1.0\u00e9"),
            "u2.docx": dx.docx([docs.dtable("1", ("7:4", "Field On\u00e9 (FO): " + u), ("3:0", cell))], numbering=num, styles=dx.style("\u00c9", "<w:b/>"), header=dx.para(dx.run(u + ", Revision 1.0\u00e9"))),
            "u3.html": docs.htm(docs.bad("4"), docs.bits("5", row("1:0", 1), title=u), spec=u),
        }

    def environments(self):
        """name -> environment, '-' unsets; locales that cannot be had are left out."""
        base = {k: "-" for k in ("LANG", "LC_ALL", "LC_CTYPE", "PYTHONUTF8", "PYTHONCOERCECLOCALE", "PYTHONIOENCODING", "LOCPATH")}
        ascii_ = {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}
        envs = {
            "nothing set": {},
            "C": {"LC_ALL": "C"},
            "POSIX, no UTF-8 mode": {**ascii_, "LC_ALL": "POSIX"},
            "ASCII": ascii_,
            "ASCII, latin streams": {**ascii_, "PYTHONIOENCODING": "latin-1"},
            "ASCII, strict streams": {**ascii_, "PYTHONIOENCODING": "ascii:strict"},
            "UTF-8 mode": {"LC_ALL": "C", "PYTHONUTF8": "1"},
            "C.UTF-8": {"LC_ALL": "C.UTF-8", "PYTHONUTF8": "0"},
            "unknown locale": {"LC_ALL": "xx_YY.FOO", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
            "no variables": None,
            "time zone": {"TZ": "Pacific/Kiritimati", "LC_ALL": "C.UTF-8"},
            "utf-16 streams": {"PYTHONIOENCODING": "utf-16"},
            "development mode": {"PYTHONDEVMODE": "1"},
            "no docstrings": {"PYTHONOPTIMIZE": "2"},
            "unbuffered": {"PYTHONUNBUFFERED": "1", "TERM": "dumb", "NO_COLOR": "1", "COLUMNS": "1"},
            "encoding warnings": {"PYTHONWARNDEFAULTENCODING": "1"},
        }
        locs = scratch() / "locales"
        for name, lang, charmap in (("Latin-1", "en_US", "ISO-8859-1"), ("Latin-9", "de_DE", "ISO-8859-15"), ("KOI8-R", "ru_RU", "KOI8-R"), ("EUC-JP", "ja_JP", "EUC-JP"), ("Turkish", "tr_TR", "ISO-8859-9")):
            loc = f"{lang}.{charmap}"
            if not (locs / loc).exists():
                locs.mkdir(exist_ok=True)
                try:
                    subprocess.run(["localedef", "-i", lang, "-f", charmap, str(locs / loc)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
                except (OSError, subprocess.TimeoutExpired):
                    pass
            if (locs / loc).exists():
                envs[name] = {"LOCPATH": str(locs), "LC_ALL": loc, "PYTHONUTF8": "0"}
        return {k: v if v is None else {**base, **v} for k, v in envs.items()}

    OPTS = [(), ("-v",), ("--validate-json",), ("-s",), ("-s", "-v", "--validate-json")]
    ENVNAMES = ["in", "\u00e9\u2603", "\udcff"]

    def gen_env(self):
        for name in self.udocs:
            for env in self.envs:
                for opts in self.OPTS:
                    # (Python itself cannot name all files in a multi-byte locale other than UTF-8)
                    for fname in self.ENVNAMES if not opts and env != "EUC-JP" else self.ENVNAMES[:1]:
                        yield (name, env, opts, fname)
        for name in self.udocs:
            for how in ("umask 0", "umask 077", "stdin closed", "stdout closed", "nice", "few files", "large stack"):
                for opts in self.OPTS:
                    yield (name, how, opts, "in")

    def prepare_env(self):
        if not hasattr(self, "udocs"):
            self.envs = self.environments()
            self.udocs = self.uni_docs()
            self.ubase = {}
            for name in self.udocs:
                for skip in (False, True):
                    for fname in self.ENVNAMES:
                        self.ubase[name, skip, fname] = call(self.uni_alone, name, skip, fname)
            assert self.ubase["u1.html", False, "in"][1] is None and self.ubase["u2.docx", False, "in"][1] is None

    def uni_alone(self, name, skip, fname):
        d = fresh("ua")
        src = d / (fname + Path(name).suffix)
        src.write_bytes(self.udocs[name])
        out = d / "out"
        out.mkdir()
        _, _, err = spec_run(src, out, skip_fig_on_error=skip)
        return {os.fsencode(k): v for k, v in snapshot(out).items()}, err

    def ev_env(self, case, ctx):
        name, how, opts, fname = case
        d = fresh("env")
        src = d / (fname + Path(name).suffix)
        src.write_bytes(self.udocs[name])
        out = d / "out"
        env, pre = {}, None
        kw = {"stdin": subprocess.DEVNULL, "stdout": subprocess.DEVNULL, "stderr": subprocess.DEVNULL}
        keep = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
        if how in self.envs:
            env = self.envs[how]
            if env is None:
                keep, env = {}, {}
        elif how.startswith("umask"):
            pre = lambda: os.umask(int(how[6:], 8))
        elif how == "few files":
            pre = lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (24, 24))
        elif how == "large stack":
            pre = lambda: resource.setrlimit(resource.RLIMIT_STACK, (1 << 26, 1 << 26))
        elif how == "nice":
            pre = lambda: os.nice(1)
        elif how == "stdin closed":
            pre = lambda: os.close(0)
        elif how == "stdout closed":
            pre = lambda: os.close(1)
        e = {**keep, "PYTHONPATH": str(core.REPO / "src"), "PYTHONDONTWRITEBYTECODE": "1", **{k: v for k, v in env.items() if v != "-"}}
        for k, v in env.items():
            if v == "-":
                e.pop(k, None)
        r = subprocess.run([sys.executable, "-m", "spex", str(src), "-o", str(out), *opts], cwd=str(d), env=e, preexec_fn=pre, timeout=60, **kw)
        ctx.replays += 1
        ctx.step()
        ctx.state(case)
        want, werr = self.ubase[name, "-s" in opts, fname]
        what = f"{name} as {fname!r} {opts} in environment {how!r}"
        if (r.returncode != 0) != (werr is not None):
            return f"exit status {r.returncode}, processed alone: {werr} for {what}"
        if werr is not None:
            return None
        got = {os.fsencode(k): v for k, v in snapshot(out).items()}
        return files_differ(want, got, what)

    def spaces(self):
        self.prepare()
        self.prepare_env()
        n = len(self.ops())
        return [
            Space("histories", self.gen_hist, self.ev_hist, f"all sequences of 1..{Q(2,3)} out of {n} operations (whole, failing, abandoned runs), of {Q(3,4)} out of a third of them"),
            Space("many", self.gen_many, self.ev_many, f"each operation {Q(30,200)} times, {Q(15,100)} times before each of 4 others, all in turn {Q(12,100)} times, in one process"),
            Space("one path", self.gen_path, self.ev_path, f"all sequences of 2..{Q(2,3)} documents of the same kind, one after another at the same path, replaced or rewritten, with the same or another output directory"),
            Space("interleavings", self.gen_inter, self.ev_inter, "all interleavings of the steps of every two out of 7 conversions" + Q("", ", and of three small ones")),
            Space("environments", self.gen_env, self.ev_env, f"{len(self.udocs)} documents full of non-ASCII text x {len(self.OPTS)} sets of options x {len(self.envs)} environments ({', '.join(self.envs)}), also with names of files that are not ASCII or not UTF-8; umasks, closed standard streams, limits"),
            Space("configurations", self.gen_conf, self.ev_conf, f"all {len(self.docs)} documents with {Q(4,24)} hash seeds, {len(self.DIRS)} directories, 10 other ways to run, as processes"),
        ]


# ---------------------------------------------------------------- R02
class R02(Check):
    ID = "R02"
    TECHNIQUE = "bounded exhaustive exploration of command lines: every list of inputs with every combination of options through the real entry point"
    NOTE = "Runs are forked from the imported program; a subset of them is repeated with `python -m spex` to bind the two."
    ASSUMPTIONS = ("base names of the inputs are distinct",)

    KINDS = ["good", "docx", "figure fails", "malformed", "bad zip", "schema", "json", "txt", "missing", "dir", "no identity"]

    def source(self, kind, i):
        """file name, contents."""
        n = f"in{i}"
        v = {
            "good": (f"{n}.html", docs.htm(docs.gap(str(i + 1)), docs.value("9"))),
            "docx": (f"{n}.docx", dx.docx([docs.dtable(str(i + 1), *docs.ROWS)])),
            "figure fails": (f"{n}.html", docs.htm(docs.good("1"), docs.bad("2"), docs.good("3"))),
            "malformed": (f"{n}.html", b"<html><head>"),
            "bad zip": (f"{n}.docx", b"PK\x03\x04 nothing"),
            "schema": (f"{n}.html", docs.htm(figure("1", ["Value", "Description"], []))),
            "json": (f"{n}.json", b"{}"),
            "txt": (f"{n}.txt", b"text"),
            "missing": (f"{n}.html", None),
            "dir": (f"{n}.html", "dir"),
            "no identity": (f"{n}.docx", dx.docx([docs.dtable("1", *docs.ROWS)], header=dx.para("Nothing"))),
        }
        return v[kind]

    def fails(self, kind, skip, validate):
        if kind == "figure fails":
            return not skip
        if kind == "schema":
            return validate
        return kind not in ("good", "docx")

    def prepare(self):
        if hasattr(self, "alone"):
            return
        warm()
        self.alone = {}
        for kind in ("good", "docx", "figure fails", "schema"):
            for i in range(10):
                for skip in (False, True):
                    name, data = self.source(kind, i)
                    d = put(fresh("src"), {name: data})
                    out = d / "o"
                    code, txt = real_cli([d / name, "-o", out] + (["-s"] if skip else []), d)
                    if self.fails(kind, skip, False):
                        assert code != 0, (kind, txt)
                        continue
                    assert code == 0, (kind, txt)
                    self.alone[kind, i, skip] = snapshot(out)

    OUT = ["missing", "existing", "none"]

    def gen_lists(self):
        L = Q(2, 3)
        for kinds in sequences(self.KINDS, 1, L):
            for skip in (False, True):
                for val in (False, True):
                    for out in self.OUT:
                        yield (kinds, skip, val, out, False)
        few = ["good", "docx", "figure fails", "malformed", "schema", "json"]
        for kinds in sequences(few, L + 1, L + 1):
            for skip in (False, True):
                for val in (False, True):
                    yield (kinds, skip, val, "missing", False)

    def gen_long(self):
        good = ["good", "docx"]
        for n in (4, 10):
            for at in range(n):
                for k in self.KINDS:
                    kinds = [good[i % 2] for i in range(n)]
                    kinds[at] = k
                    for out in self.OUT[:2]:
                        yield (tuple(kinds), False, True, out, False)
        for a, b in itertools.combinations(range(6), 2):
            for k in ("figure fails", "schema", "malformed", "bad zip"):
                kinds = [good[i % 2] for i in range(6)]
                kinds[a] = kinds[b] = k
                for skip in (False, True):
                    for val in (False, True):
                        yield (tuple(kinds), skip, val, "missing", False)

    def gen_real(self):
        for kinds in sequences(self.KINDS, 1, Q(1, 2)):
            for skip in (False, True):
                for val in (False, True):
                    yield (kinds, skip, val, "missing", True)
        for a in ("good", "figure fails", "txt"):
            for b in ("docx", "malformed", "missing"):
                yield ((a, b), False, False, "none", True)

    def ev(self, case, ctx):
        kinds, skip, val, outkind, real = case
        d = fresh("r02")
        srcdir, cwd = d / "src", d / "cwd"
        srcdir.mkdir()
        cwd.mkdir()
        argv = []
        for i, k in enumerate(kinds):
            name, data = self.source(k, i)
            if data == "dir":
                (srcdir / name).mkdir()
            elif data is not None:
                (srcdir / name).write_bytes(data)
            argv.append(srcdir / name)
        before = snapshot(srcdir)
        if skip:
            argv.append("-s")
        if val:
            argv.append("--validate-json")
        out = cwd
        if outkind != "none":
            out = d / "out" / "deep"
            if outkind == "existing":
                out.mkdir(parents=True)
                (out / "other.txt").write_bytes(b"keep")
            argv += ["-o", out]
        code, txt = (real_cli if real else cli)(argv, cwd)
        got = snapshot(out)
        ctx.replays += 1
        ctx.step(len(kinds))
        ctx.state((kinds, skip, val))
        bad = [i for i, k in enumerate(kinds) if self.fails(k, skip, val)]
        first = bad[0] if bad else len(kinds)
        what = f"{case}: {txt[-300:]}"
        if (code == 0) != (not bad):
            return f"exit status {code} but the inputs that fail are {bad} for {what}"
        if snapshot(srcdir) != before:
            return f"the directory of the inputs changed for {what}"
        if outkind == "existing" and got.pop("other.txt", None) != b"keep":
            return f"another file of the output directory changed for {what}"
        early = any(k in ("missing", "dir") for k in kinds)
        if not early or got:
            want = {}
            for i in range(first):
                want.update(self.alone[kinds[i], i, skip])
            if early and code != 0 and not got:
                want = {}
            mine = {k: v for k, v in got.items() if k.split(".")[0] in [f"in{i}" for i in range(first)]}
            msg = files_differ(want, mine, what)
            if msg:
                return msg
        later = [k for k in got if k.split(".")[0] in [f"in{i}" for i in range(first + 1, len(kinds))]]
        if later:
            return f"{later} written after the failure of input {first} for {what}"
        strange = [k for k in got if not re.fullmatch(r"in\d\.(json|html|css)", k)]
        if strange:
            return f"unexpected files {strange} for {what}"
        if early and code == 0:
            return f"exit status 0 with a missing input for {what}"
        return None

    def gen_opts(self):
        # same inputs, options in every order and place
        parts = [("-s",), ("--validate-json",), ("-o", "OUT"), ("--lint-ignore", "T1001"), ("-v",)]
        for n in range(0, 4):
            for perm in itertools.permutations(parts, n):
                for at in range(n + 1):
                    yield (perm, at)

    def ev_opts(self, case, ctx):
        perm, at = case
        d = fresh("r02o")
        (d / "cwd").mkdir()
        srcs = []
        for i, k in enumerate(("good", "docx")):
            name, data = self.source(k, i)
            srcs.append(put(d / "src", {name: data}) / name)
        argv = []
        for j, o in enumerate(perm):
            if j == at:
                argv += srcs
            argv += [d / "out" if x == "OUT" else x for x in o]
        if at == len(perm):
            argv += srcs
        hasout = any(o[0] == "-o" for o in perm)
        code, txt = cli(argv, d / "cwd")
        ctx.replays += 1
        ctx.step()
        ctx.state(case)
        skip = ("-s",) in perm
        want = {**self.alone["good", 0, skip], **self.alone["docx", 1, skip]}
        if code != 0:
            return f"exit status {code} for {case}: {txt}"
        return files_differ(want, snapshot(d / ("out" if hasout else "cwd")), f"{case}")

    NAMES = [
        "a", "b", "a.1", "a.2", "a.1.2", "a.", "a..b", ".a", "a b", " a", "a ", "A", "é®", "e\u0301", "a.json", "a.html", "a.docx", "a.css", "-a", "a'b", 'a"b',
        "a&b<c>", "a#b?c%20", "a\\b", "x" * 200, "1", "html", "docx", "json", "a-b_c", "a~", "$HOME", "*",
    ]
    STYLES = ["absolute", "relative", "dotted", "link"]

    def gen_names(self):
        for kinds in (("good",), ("docx",)):
            for n in self.NAMES:
                for st in self.STYLES:
                    for out in self.OUT:
                        yield (kinds, (n,), st, out)
        for a in self.NAMES:
            for b in self.NAMES:
                if a == b or {a, b} == {"a.json", "a"} or {a, b} == {"a", "a.html"}:
                    continue
                for kinds in (("good", "good"), ("docx", "good")) + Q((), (("docx", "docx"), ("good", "docx"))):
                    yield (kinds, (a, b), "relative", "missing")

    def ev_names(self, case, ctx):
        kinds, names, style, outkind = case
        body = lambda x: x[x.index(b"<body"):]  # the head names the document
        d = fresh("r02n")
        srcdir, cwd = d / "src", d / "cwd"
        srcdir.mkdir()
        cwd.mkdir()
        argv, files = [], []
        for i, (k, n) in enumerate(zip(kinds, names)):
            sfx, data = self.source(k, i)
            f = n + "." + sfx.split(".")[1]
            files.append(f)
            if style == "link":
                (d / "real").mkdir(exist_ok=True)
                (d / "real" / f"other{i}.x").write_bytes(data)
                (srcdir / f).symlink_to(d / "real" / f"other{i}.x")
            else:
                (srcdir / f).write_bytes(data)
            argv.append({"relative": f"../src/{f}", "dotted": f"./../src/.././src//{f}"}.get(style, srcdir / f))
        before = snapshot(srcdir)
        out = cwd
        if outkind != "none":
            out = d / "out" / "deep"
            if outkind == "existing":
                out.mkdir(parents=True)
            argv = ["-o", "../out/deep" if style != "absolute" else out] + argv
        code, txt = cli(argv, cwd)
        got = snapshot(out)
        ctx.replays += 1
        ctx.step(len(kinds))
        ctx.state(case)
        if code != 0:
            return f"exit status {code} for {case}: {txt[-400:]}"
        if snapshot(srcdir) != before:
            return f"the directory of the inputs changed for {case}"
        want = {}
        for i, (k, n) in enumerate(zip(kinds, names)):
            one = self.alone[k, i, False]
            want[n + ".json"] = one[f"in{i}.json"]
            if k == "docx":
                want[n + ".css"] = one[f"in{i}.css"]
                want[n + ".html"] = body(one[f"in{i}.html"])
                if n + ".html" in got:
                    got[n + ".html"] = body(got[n + ".html"])
        return files_differ(want, got, f"{case}")

    WAYS = ["-o relative", "-o ./relative", "-o relative/", "--output=relative", "-o absolute", "-o ../cwd/relative"]
    STATES = ["missing", "existing", "link", "file", "two levels", "below link"]

    def gen_outs(self):
        for kinds in (("good",), ("docx",), ("good", "docx")):
            for n in self.NAMES + [".", "..", "../src", "in0", "in0.json", "in0.html", "in0.css", "spex.log", "x" * 255, "a/b.json", "a.html/b"]:
                for w in self.WAYS:
                    for st in self.STATES:
                        if len(kinds) == 1 or (w, st) in (("-o relative", "missing"), ("--output=relative", "existing")):
                            yield (kinds, n, w, st)

    def ev_outs(self, case, ctx):
        kinds, name, way, state = case
        d = fresh("r02p")
        srcdir, cwd = d / "src", d / "cwd"
        srcdir.mkdir()
        cwd.mkdir()
        special = name in (".", "..", "../src")
        if special and state != "existing" or name == "spex.log" or (name.startswith("-") and way == "-o relative"):
            return None
        rel = name
        if state == "two levels":
            rel = f"up {name}/{name}"
            if len(name) > 240:
                return None
        if state == "below link":
            (d / "real").mkdir()
            (cwd / "li.nk").symlink_to(d / "real")
            rel = f"li.nk/{name}"
        at = cwd / rel
        if state == "existing":
            at.mkdir(parents=True, exist_ok=True)
        elif state == "link":
            at.parent.mkdir(parents=True, exist_ok=True)
            (d / "target").mkdir()
            at.symlink_to(d / "target")
        elif state == "file":
            at.parent.mkdir(parents=True, exist_ok=True)
            at.write_bytes(b"keep")
        srcs = []
        for i, k in enumerate(kinds):
            f, data = self.source(k, i)
            (srcdir / f).write_bytes(data)
            srcs.append(srcdir / f)
        where = {
            "-o relative": lambda: ["-o", rel], "-o ./relative": lambda: ["-o", f"./{rel}"], "-o relative/": lambda: ["-o", f"./{rel}/"],
            "--output=relative": lambda: [f"--output={rel}"], "-o absolute": lambda: ["-o", f"{cwd}/{rel}"], "-o ../cwd/relative": lambda: ["-o", f"../cwd/{rel}"],
        }[way]()
        skip = ("cwd/spex.log",)
        before = snapshot(d, skip)
        code, txt = cli([*srcs, *where], cwd)
        after = snapshot(d, skip)
        ctx.replays += 1
        ctx.step(len(kinds))
        ctx.state(case)
        new = {k: v for k, v in after.items() if before.get(k, b"(absent)") != v}
        gone = [k for k in before if k not in after]
        if gone:
            return f"{gone} disappeared for {case}"
        if state == "file":
            if code == 0 or new:
                return f"exit status {code}, {short(new)} written although a file is where the output directory should be, for {case}"
            return None
        if code != 0:
            return f"exit status {code} for {case}: {txt[-400:]}"
        real = {"link": d / "target", "below link": d / "real" / name}.get(state, at).resolve().relative_to(d.resolve())
        want = {}
        for i, k in enumerate(kinds):
            for f, data in self.alone[k, i, False].items():
                want[os.path.normpath(str(real / f))] = data
        files = {k: v for k, v in new.items() if v is not None}
        dirs = [k for k, v in new.items() if v is None and not str(real).startswith(k)]
        if dirs:
            return f"directories {dirs} made for {case}"
        return files_differ(want, files, f"{case}")

    def spaces(self):
        self.prepare()
        return [
            Space("output names", self.gen_outs, self.ev_outs, f"{len(self.NAMES) + 10} names of the output directory x {self.WAYS} x {self.STATES}, everything around it compared"),
            Space("names", self.gen_names, self.ev_names, f"{len(self.NAMES)} base names and all pairs of them, {len(self.STYLES)} ways to write a path"),
            Space("lists", self.gen_lists, self.ev, f"all lists of 1..{Q(2,3)} inputs of {len(self.KINDS)} kinds x skip x validate x output given/new/omitted, of {Q(3,4)} of 6 kinds"),
            Space("long lists", self.gen_long, self.ev, "lists of 4 and 10 inputs with one of each kind at each place, of 6 with two failing ones at every pair of places"),
            Space("processes", self.gen_real, self.ev, f"all lists of 1..{Q(1,2)} inputs x options as processes of their own"),
            Space("options", self.gen_opts, self.ev_opts, "all sequences of up to 3 of 5 options, inputs at every place between them"),
        ]


# ---------------------------------------------------------------- R03
class R03(Check):
    ID = "R03"
    TECHNIQUE = "bounded exhaustive exploration of all sets of lint codes and their spellings through the real command line"
    NOTE = "The oracle is the run without the option, filtered."
    ASSUMPTIONS = ()

    def rich(self):
        b = lambda *rows: list(rows)
        return {
            "structs": docs.htm(
                docs.numberless(),
                docs.skipped("7"),
                docs.hdr("8"),
                docs.dup("9"),
                docs.bits("10", std_row("7:4"), std_row("5:2", 1), std_row("0", 2)),
                docs.bits("11", std_row("0"), std_row("1", 1)),
                docs.bits("12", tr(td("3"), td("")), tr(td("2"), td("Bad*Chars (B*): x"))),
                docs.bad("13"),
            ),
            "values": docs.htm(
                docs.skipped("7"),
                figure("1", ["Value", "Definition"], [tr(td("0h"), td("Aa")), tr(td("0h"), td("Bb")), tr(td(""), td("Cc")), tr(td("zz top"), td("Dd")), tr(td("3h"), td(""))]),
                docs.gap("2"),
            ),
            "repeats": docs.htm(
                figure("1", ["Value", "Definition"], [tr(td("0h"), td("A b!"))] * 3 + [tr(td("?"), td("?"))] * 2),
                docs.bits("2", *[tr(td("N+1"), td("Some Name: x"))] * 3, *[tr(td("4:7"), td("?"))] * 2),
            ),
            "clean": docs.htm(docs.good("1")),
        }

    def run(self, name, opts, full=False):
        d = fresh("r03")
        src = put(d / "src", {f"{name}.html": self.docs[name]}) / f"{name}.html"
        code, txt = cli([src, "-s", "-o", d / "out"] + list(opts), d)
        out = d / "out" / f"{name}.json"
        return code, (json.loads(out.read_text(encoding="utf-8")) if out.exists() else None), txt

    def prepare(self):
        if hasattr(self, "base"):
            return
        warm()
        from spex.jsonspec.lint import Code

        self.codes = [c.name for c in Code]
        self.docs = self.rich()
        self.base = {}
        for name in self.docs:
            code, j, txt = call(self.run, name, [])
            assert code == 0 and j, txt
            self.base[name] = j
        self.present = {n: sorted({l["code"] for l in j["meta"]["lint"]}) for n, j in self.base.items()}

    def judge(self, name, ignored, opts, ctx, what):
        code, j, txt = self.run(name, opts)
        ctx.replays += 1
        ctx.step()
        ctx.state((name, tuple(sorted(ignored))))
        if code != 0 or j is None:
            return f"exit status {code} for {what}: {txt}"
        base = self.base[name]
        want = {**base, "meta": {**base["meta"], "lint": [l for l in base["meta"]["lint"] if l["code"] not in ignored]}}
        if j != want:
            a, b = want["meta"].pop("lint"), j["meta"].pop("lint")
            if want != j:
                return f"more than lint changed for {what}"
            return f"lint entries for {what}: expected {[(x['code'], x['fig'], x.get('row')) for x in a]} got {[(x['code'], x['fig'], x.get('row')) for x in b]}"
        return None

    def gen_subsets(self):
        for name in self.docs:
            p = self.present[name]
            cap = Q(9, 14)
            for bitsx in range(1, 2 ** min(len(p), cap)):
                yield (name, tuple(c for i, c in enumerate(p[:cap]) if bitsx >> i & 1))
            # beyond the cap: all subsets of up to 2 and their complements
            for n in (1, 2):
                for s in itertools.combinations(p, n):
                    yield (name, s)
                    yield (name, tuple(c for c in p if c not in s))
            for c in self.codes:
                yield (name, (c,))
            yield (name, tuple(self.codes))

    def ev_subsets(self, case, ctx):
        name, codes = case
        if not codes:
            return None
        return self.judge(name, set(codes), [f"--lint-ignore={','.join(codes)}"], ctx, case)

    SPELL = [str, str.lower, str.capitalize]
    SEPS = [",", " ,", ", ", " , ", "\t,\n"]

    def gen_spell(self):
        for name in self.docs:
            for n in (1, 2, 3):
                for codes in itertools.permutations(self.present[name][: Q(4, 6)] or ["T1000", "L1002", "O1000"], n):
                    for f in range(3):
                        for sep in self.SEPS:
                            for pad in ("", " "):
                                for form in ("eq", "two"):
                                    yield (name, codes, f, sep, pad, form)

    def ev_spell(self, case, ctx):
        name, codes, f, sep, pad, form = case
        if len(codes) == 3 and (f, pad) != (1, ""):
            return None
        arg = pad + sep.join(self.SPELL[f](c) for c in codes) + pad
        opts = [f"--lint-ignore={arg}"] if form == "eq" else ["--lint-ignore", arg]
        return self.judge(name, set(codes), opts, ctx, case)

    def gen_unknown(self):
        seen = set()
        for c in self.codes:
            for i in range(len(c)):
                for x in ("", "0", "9", "X", " "):
                    for cand in (c[:i] + x + c[i + 1 :], c[:i] + x + c[i:]):
                        if cand.strip().upper() not in self.codes and cand not in seen and cand.strip():
                            seen.add(cand)
        for s in ["", " ", "\t", "foo", "T", "1000", "TBL_SKIPPED", "ERR", "T1003", "T1005", "name", "value", "__class__", "*", "T1*", "all", "T1000;T1001", "T1000 T1001", "T1000-T1002", "ｔ1000"]:
            seen.add(s)
        for s in sorted(seen):
            for form in ("{}", "T1001,{}", "{},L1002", "T1001,{},L1002"):
                yield (s, form)

    def ev_unknown(self, case, ctx):
        s, form = case
        arg = form.format(s)
        if all(x.strip().upper() in self.codes for x in arg.split(",")):
            return None
        code, j, txt = self.run("clean", [f"--lint-ignore={arg}"])
        ctx.replays += 1
        ctx.step()
        ctx.state(case)
        if code == 0:
            return f"unknown code accepted: {arg!r}"
        if j is not None:
            return f"document processed although {arg!r} was refused"
        return None

    INPUTS = [("a.html",), ("r.docx",), ("f.html",), ("a.html", "b.html"), ("b.html", "r.docx", "a.html"), ("a.html", "f.html", "b.html")]
    FLAGS = ["-s", "-v", "--validate-json"]

    def inputs(self):
        rows = [("7:4", "Field One (FO): x"), ("2:4", "?"), ("4", "Field Two: y"), ("x", "Field One (FO): x")]
        return {"a.html": self.docs["values"], "b.html": self.docs["repeats"], "f.html": docs.htm(docs.gap("2"), docs.bad("13"), docs.dup("9")), "r.docx": dx.docx([docs.dtable("1", *rows), docs.dtable("2", *rows[1:])])}

    def gen_options(self):
        codes = ["T1002", "L1002", "L1003", "V1002", "R1001", "T1000"]
        sets = [(c,) for c in codes] + list(itertools.combinations(codes, 2)) + [tuple(codes), tuple(self.codes)]
        for ins in self.INPUTS:
            for n in range(len(self.FLAGS) + 1):
                for fl in itertools.combinations(self.FLAGS, n):
                    for first in (True, False):
                        yield (ins, fl, first, tuple(s for s in sets if first or len(s) == 1))

    def run_many(self, ins, opts):
        d = fresh("r03")
        src = put(d / "src", self.inputs())
        code, txt = cli([*opts, "-o", d / "out", *[src / i for i in ins]], d)
        out = snapshot(d / "out")
        res = {}
        for k, v in out.items():
            if k.endswith(".json"):
                try:
                    res[k] = json.loads(v)
                except ValueError:
                    res[k] = "not JSON"
            else:
                res[k] = v
        return code, res

    def ev_options(self, case, ctx):
        ins, fl, first, sets = case
        code, base = call(self.run_many, ins, list(fl))
        for ign in sets:
            opt = [f"--lint-ignore={','.join(ign)}"]
            c2, got = call(self.run_many, ins, opt + list(fl) if first else list(fl) + opt)
            ctx.replays += 1
            ctx.step(len(ins))
            ctx.state((ins, fl, ign))
            what = f"{ins} {fl} {opt}"
            if c2 != code:
                return f"exit status {c2}, {code} without the option, for {what}"
            for k in sorted(set(base) | set(got)):
                want = base.get(k)
                if isinstance(want, dict) and "lint" in want.get("meta", {}):
                    want = {**want, "meta": {**want["meta"], "lint": [x for x in want["meta"]["lint"] if x["code"] not in ign]}}
                if got.get(k) != want:
                    return f"{k} is not what it is without the option, filtered, for {what}: expected {str(want)[:600]} got {str(got.get(k))[:600]}"
        return None

    def spaces(self):
        self.prepare()
        return [
            Space("options", self.gen_options, self.ev_options, f"{len(self.INPUTS)} lists of inputs (HTML, .docx, failing figures) x all subsets of {self.FLAGS} x 24 sets of codes, the option first or last"),
            Space("subsets", self.gen_subsets, self.ev_subsets, f"all subsets of (up to {Q(9,14)}) codes raised by each of {len(self.docs)} documents ({ {n: len(p) for n, p in self.present.items()} }), pairs and complements of all, every single code"),
            Space("spellings", self.gen_spell, self.ev_spell, "all orders of 1..3 codes x letter cases x 5 separators x outer blanks x option forms"),
            Space("unknown", self.gen_unknown, self.ev_unknown, "every one-character deviation of every code, alone and beside valid ones"),
        ]


def bytes_zero(b):
    return bytes(len(b))


# ---------------------------------------------------------------- R04
class R04(Check):
    ID = "R04"
    LEVEL = "fault_enumeration"
    TECHNIQUE = (
        "exhaustive fault enumeration at the system-call interface of the real program: every byte of every output file,"
        " every subset (up to a size) of its file operations, every crash point, occupied and unwritable paths"
    )
    RULE = (
        "a case is one run of the real command line with one fault plan; it counts as distinct and nontrivial when its"
        " (scenario, fault, exit status class, resulting files) differs from all others and the planned fault was actually delivered"
    )
    NOTE = (
        "Faults are injected by a preloaded library below the interpreter, confined to the run's scratch directory, and by"
        " RLIMIT_FSIZE. Exit status 0 requires every output complete and no other file; any other ending requires HTML and CSS old or complete."
    )
    ASSUMPTIONS = ("the program writes its output through the C library's file functions",)

    ERR = {"ENOSPC": 28, "EIO": 5, "EACCES": 13, "EDQUOT": 122, "EINTR": 4}

    def scen(self, earlier=False):
        # the earlier version of each document has one figure more, and another name in the first one
        F = docs.gap if earlier else docs.good
        more = [docs.gap("77"), docs.value("78")] * 4 if earlier else []
        dmore = [docs.dtable("77", *docs.ROWS)] * 4 if earlier else []
        styles = "".join(dx.style(f"S{i}", f'<w:color w:val="0000{i:02d}"/>') for i in range(10))
        many = [docs.dtable("1", *[(str(9 - i), dx.cell(dx.para(dx.run(f"Field {chr(65+i)} (F{chr(65+i)}): x", rpr=f'<w:rStyle w:val="S{i}"/><w:b/>')))) for i in range(10)])]
        num = dx.abstract(0, [(i, "decimal", f"%{i}.") for i in range(9)]) + dx.num(1, 0)
        return {
            "html": ({"a.html": docs.htm(docs.gap("1"), *more)}, []),
            "skip": ({"a.html": docs.htm(docs.bad("1"), docs.gap("2"), docs.value("3"), *more)}, ["-s"]),
            "docx": ({"a.docx": dx.docx(dmore + [docs.dtable("1", *docs.ROWS)])}, []),
            "styles": ({"a.docx": dx.docx(many + dmore, styles=styles, numbering=num)}, ["--validate-json"]),
            "two": ({"a.html": docs.htm(docs.gap("1"), *more), "b.html": docs.htm(F("1"))}, []),
            "mixed": ({"a.docx": dx.docx(dmore + [docs.dtable("1", *docs.ROWS)]), "b.html": docs.htm(F("1"))}, ["--validate-json"]),
            "big": ({"a.html": docs.htm(*[docs.value(str(i)) for i in range(1, Q(20, 40))], *more)}, []),
        }

    STATES = ["new", "empty", "old"]

    def prepare(self):
        if hasattr(self, "full"):
            return
        warm()
        import ctypes

        lib = ctypes.CDLL(None)
        self.lib_arm = lib.mc_arm
        self.lib_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_void_p]
        self.lib_arm.restype = None
        self.full, self.ncalls, self.sizes, self.earlier = {}, {}, {}, {}
        self.sc = self.scen(earlier=True)
        for name in self.sc:
            code, self.earlier[name], rep, txt = self.run(name, "new", (0, 0, 0, 0, 0), trace=True)
            assert code == 0, txt
        self.sc = self.scen()
        for name in self.sc:
            for st in self.STATES:
                code, got, rep, txt = self.run(name, st, (0, 0, 0, 0, 0), trace=True)
                assert code == 0, txt
                if name in self.full:
                    assert {k: v for k, v in got.items()} == self.full[name]
                self.full[name] = got
                self.ncalls[name, st] = rep[0]
                self.kinds = rep[3]
                self.sizes[name, st] = (rep[1], max(len(v) for v in got.values()))
                assert rep[1] >= len(got), "output files are not seen by the fault injector"

    def old(self, name):
        """what a run on an earlier version of the documents left behind."""
        return self.earlier[name]

    def full_names(self, name):
        out = []
        for f in self.sc[name][0]:
            stem, ext = f.split(".")
            out += [stem + ".json"] + ([stem + ".html", stem + ".css"] if ext == "docx" else [])
        return out

    def run(self, name, state, plan, trace=False, arm=None, prep=None):
        import mmap
        import ctypes

        d = fresh("r04")
        files, opts = self.sc[name]
        src = put(d / "src", files)
        out = d / "out"
        if state != "new":
            out.mkdir()
        if state == "old":
            put(out, self.old(name))
        if prep:
            prep(d, out)
        cwd = d / "cwd"
        cwd.mkdir()
        mm = mmap.mmap(-1, 4096)
        addr = ctypes.addressof(ctypes.c_char.from_buffer(mm))

        def armed():
            mode, target, off, err, kill = plan
            if mode or not arm:
                self.lib_arm(str(out).encode(), mode or 1, target, off, err, kill, addr)
            if arm:
                arm(d, out)

        code, txt = cli([src / f for f in sorted(files)] + ["-o", out] + opts, cwd, armed)
        rep = [int.from_bytes(mm[4 * i : 4 * i + 4], "little") for i in range(3)]
        rep.append([chr(mm[4 * (8 + i)]) for i in range(min(rep[0], 200))])
        got = snapshot(out)
        return code, got, rep, txt

    def judge(self, name, state, code, got, ctx, what, txt, old=None, key=None):
        full = self.full[name]
        ctx.replays += 1
        ctx.state((name, state, key, code == 0, tuple(sorted((k, 0 if v is None else len(v)) for k, v in got.items() if "." in k))))
        if code == 0:
            msg = files_differ(full, got, f"exit status 0 for {what}")
            if msg:
                return msg
            return None
        if old is None:
            old = self.old(name) if state == "old" else {}
        for k in self.full_names(name):
            if k.endswith(".json"):
                continue
            if got.get(k) not in (old.get(k), full[k]):
                return f"{k} is neither the earlier one nor complete after exit status {code} for {what}: {(got.get(k) or b'')[:200]!r}"
        return None

    def ev_plan(self, case, ctx):
        name, state, plan = case
        code, got, rep, txt = self.run(name, state, plan)
        ctx.step(max(1, rep[0]))
        if not rep[2]:
            ctx.count("fault not delivered")
        else:
            ctx.count("faults delivered", rep[2])
        msg = self.judge(name, state, code, got, ctx, f"{case}", txt, key=plan if rep[2] else None)
        return f"{msg} {txt[-400:]}" if msg else None

    def gen_ops(self):
        E_ = list(self.ERR.values())
        for name in self.sc:
            for st in self.STATES:
                n = self.ncalls[name, st] + 4
                for i in range(n):
                    for e in E_:
                        yield (name, st, (1, 0, 1 << i, e, 0))
                    yield (name, st, (1, 0, 1 << i, 0, 1))  # crash
                for size in range(2, Q(3, 5)):
                    for c in itertools.combinations(range(n), size):
                        yield (name, st, (1, 0, sum(1 << i for i in c), 28, 0))

    def gen_bytes(self):
        for name in self.sc:
            step = Q({"html": 1, "docx": 2}.get(name, 7), 7 if name == "big" else 1)
            for st in ("new", "old"):
                files, size = self.sizes[name, st]
                if name in ("skip", "big", "two") and st == "new":
                    continue
                for f in range(files):
                    for off in range(0, size + 1, step):
                        e = list(self.ERR.values())[(off + f) % 4]
                        kill = 1 if name in ("docx", "styles") and st == "old" and off % Q(3, 1) == 0 else 0
                        yield (name, st, (2, f, off, e, 0))
                        if kill:
                            yield (name, st, (2, f, off, e, 1))

    def gen_short(self):
        for name in self.sc:
            files, size = self.sizes[name, "new"]
            for f in range(files):
                for off in range(1, size, Q(97, 7)):
                    yield (name, "new", (3, f, off, 0, 0))

    def ev_short(self, case, ctx):
        # a short write is no failure: the run must succeed or say it failed
        return self.ev_plan(case, ctx)

    def gen_limit(self):
        for name in ("html", "docx", "styles", "two"):
            for st in ("new", "old"):
                _, size = self.sizes[name, st]
                for off in range(0, size + 64, Q(3, 1)):
                    yield (name, st, off)

    def ev_limit(self, case, ctx):
        import resource

        name, st, off = case
        arm = lambda d, out: resource.setrlimit(resource.RLIMIT_FSIZE, (off, off))
        code, got, rep, txt = self.run(name, st, (0, 0, 0, 0, 0), arm=arm)
        ctx.step()
        if off >= max(len(v) for v in self.full[name].values()) and code != 0:
            return f"failed although nothing was wrong: {txt}"
        return self.judge(name, st, code, got, ctx, f"file size limit {case}", txt, key=off)

    # occupied and unwritable paths
    OBST = ["dir", "full dir", "symlink to full device", "symlink to missing dir", "symlink loop", "read-only file", "symlink to file"]

    def gen_obst(self):
        for name in self.sc:
            names = self.full_names(name)
            for n in range(1, Q(2, 3) + 1):
                for which in itertools.combinations(names, n):
                    for kinds in itertools.product(self.OBST, repeat=n):
                        for user in (False, True):
                            yield (name, which, kinds, user)
            for how in ("out read-only", "out is file", "out under file", "out link loop", "out long name"):
                yield (name, (), (how,), True)
                if how not in ("out read-only",):
                    yield (name, (), (how,), False)

    def ev_obst(self, case, ctx):
        name, which, kinds, user = case
        kept = {}

        def prep(d, out):
            for k, f in zip(kinds, which):
                p = out / f
                if k == "dir":
                    p.mkdir()
                elif k == "full dir":
                    p.mkdir()
                    (p / "x").write_bytes(b"x")
                elif k == "symlink to full device":
                    p.symlink_to("/dev/full")
                elif k == "symlink to missing dir":
                    p.symlink_to(d / "no" / "such")
                elif k == "symlink loop":
                    p.symlink_to(f)
                elif k == "read-only file":
                    p.write_bytes(b"before")
                    p.chmod(0o444)
                elif k == "symlink to file":
                    (d / f"target-{f}").write_bytes(b"t")
                    p.symlink_to(d / f"target-{f}")
            if user:
                for p in [d, out, d / "src", *(d / "src").iterdir(), *d.glob("target-*")]:
                    os.chown(p, 65534, 65534)
            for how in kinds:
                if how == "out read-only":
                    os.chown(out, 0, 0)
                    out.chmod(0o555)
                elif how == "out is file":
                    out.rmdir()
                    out.write_bytes(b"file")
                elif how == "out link loop":
                    out.rmdir()
                    out.symlink_to("out")
            kept.update(snapshot(out))

        def arm(d, out):
            if user:
                os.setgid(65534)
                os.setuid(65534)

        if kinds[0] in ("out under file", "out long name"):
            return self.ev_out(case, ctx)
        code, got, rep, txt = self.run(name, "empty", (0, 0, 0, 0, 0), arm=arm, prep=prep)
        ctx.step()
        full = self.full[name]
        ctx.replays += 1
        ctx.state((case, code == 0))
        # what the paths show now, through links
        base = scratch() / f"r04-{os.getpid()}" / "out"
        shown = {}
        for f in self.full_names(name):
            try:
                shown[f] = (base / f).read_bytes() if (base / f).is_file() else None
            except OSError:
                shown[f] = None
        if code == 0:
            if shown != full:
                return f"exit status 0 for {case}, but files are {short(shown)}, complete ones {short(full)}: {txt}"
            extra = [k for k in got if k not in full]
            if extra:
                return f"exit status 0 for {case}, but {extra} remain"
            return None
        for f in self.full_names(name):
            if f.endswith(".json"):
                continue
            if got.get(f) not in (kept.get(f), full[f]) and shown[f] != full[f]:
                return f"{f} is neither the earlier one nor complete for {case}: {got.get(f)!r:.300}"
        return None

    def ev_out(self, case, ctx):
        name, _, (how,), user = case
        d = fresh("r04o")
        files, opts = self.sc[name]
        src = put(d / "src", files)
        (d / "f").write_bytes(b"file")
        out = d / "f" / "out" if how == "out under file" else d / ("x" * 300)
        code, txt = cli([src / f for f in sorted(files)] + ["-o", out] + opts, d)
        ctx.step()
        ctx.replays += 1
        ctx.state(case)
        if code == 0:
            return f"exit status 0 for {case}: {txt}"
        if (d / "f").read_bytes() != b"file":
            return f"a file was replaced for {case}"
        return None

    WHOLE = {
        "same": lambda b: b, "letters": lambda b: b"x" * len(b), "zeros": bytes_zero, "reversed": lambda b: b[::-1], "empty": lambda b: b"", "half": lambda b: b[: len(b) // 2],
        "one less": lambda b: b[:-1], "one more": lambda b: b + b"\n", "twice": lambda b: b + b, "upper": lambda b: b.upper(), "blanks": lambda b: b.replace(b" ", b"\t"),
    }

    def gen_rerun(self):
        for name in self.sc:
            full = self.full[name]
            for when in ("now", "future", "past"):
                for how in self.WHOLE:
                    for f in [None, *sorted(full)]:
                        yield (name, f, how, when)
            for f in sorted(full):
                for k in range(0, len(full[f]), max(1, len(full[f]) // Q(60, 400))):
                    yield (name, f, k, "now")

    def ev_rerun(self, case, ctx):
        name, which, how, when = case
        full = self.full[name]

        def prep(d, out):
            for f, b in full.items():
                if which in (None, f):
                    b = self.WHOLE[how](b) if isinstance(how, str) else b[:how] + bytes([b[how] ^ 1]) + b[how + 1 :]
                (out / f).write_bytes(b)
                if when != "now":
                    t = 4102444800 if when == "future" else 86400
                    os.utime(out / f, (t, t))

        code, got, rep, txt = self.run(name, "empty", (0, 0, 0, 0, 0), trace=True, prep=prep)
        ctx.replays += 1
        ctx.step()
        ctx.state(case)
        if code != 0:
            return f"exit status {code} for {case}: {txt}"
        return files_differ(full, got, f"earlier files {case}")

    # other documents of the same name were processed before
    def gen_again(self):
        r = R05()
        versions = {"html": list(sequences(["good", "bad", "other"], 0, 2)), "docx": list(sequences(["good", "none", "other", "nest"], 0, 2))}
        for kind, vs in versions.items():
            for a, b in itertools.product(vs, repeat=2):
                if a != b:
                    yield (kind, (a, b))
            for vs3 in itertools.product([v for v in vs if len(v) < 2], repeat=3):
                yield (kind, vs3)

    def ev_again(self, case, ctx):
        kind, versions = case
        r = R05()
        d = fresh("r04g")
        out = d / "out"
        cwd = d / "cwd"
        cwd.mkdir()
        for i, seq in enumerate(versions):
            # contents differ from version to version
            if kind == "html":
                data = docs.htm(*[r.HFIG[k](str(10 * i + j + 1)) for j, k in enumerate(seq)])
            else:
                data = dx.docx([r.dfig(k, 10 * i + j + 1) for j, k in enumerate(seq)])
            src = put(d / "src", {f"a.{kind}": data})
            before = snapshot(out) if out.exists() else {}
            opts = ["-s"] if kind == "html" else []
            code, txt = cli([src / f"a.{kind}", "-o", out] + opts, cwd)
            alone, _ = cli([src / f"a.{kind}", "-o", d / f"alone{i}"] + opts, cwd)
            got, want = snapshot(out), snapshot(d / f"alone{i}")
            ctx.replays += 2
            ctx.step()
            ctx.state((kind, seq, code, alone))
            if code != alone:
                return f"exit status {code} at document {i} of {case}, {alone} on its own: {txt}"
            if code == 0:
                msg = files_differ(want, got, f"document {i} of {case}")
                if msg:
                    return msg
            else:
                for k in ("a.html", "a.css"):
                    if got.get(k) not in (before.get(k), want.get(k)):
                        return f"{k} is neither the earlier one nor that of a run alone, after exit status {code} at document {i} of {case}"
        return None

    def spaces(self):
        self.prepare()
        return [
            Space("documents again", self.gen_again, self.ev_again, "all pairs of versions of 0..2 figures (13 of HTML, 21 of .docx), all triples of versions of 0..1, processed one after another into one directory"),
            Space("earlier files", self.gen_rerun, self.ev_rerun, f"each output (and all of them) being there before with one of {Q(60, 400)} bytes changed or as one of {list(self.WHOLE)}, of now, the future or the past"),
            Space("operations", self.gen_ops, self.ev_plan, f"each of the up to {max(self.ncalls.values())} file operations of {len(self.sc)} scenarios x 3 states of the directory failing with each of {list(self.ERR)}, being a crash point, and all sets of 2..{Q(2,4)} failing"),
            Space("bytes", self.gen_bytes, self.ev_plan, Q("a failure after every byte (html), every second (docx), every 7th byte (others) of every file written, with crashes at every third of these", "a failure and a crash after every byte of every file written, every 7th for the biggest document")),
            Space("short writes", self.gen_short, self.ev_short, "one short write at every 97th (7th) byte"),
            Space("size limit", self.gen_limit, self.ev_limit, f"RLIMIT_FSIZE at every {Q('third ', '')}byte"),
            Space("paths", self.gen_obst, self.ev_obst, f"all placements of 1..{Q(2,3)} of {len(self.OBST)} obstacles on the output paths, as root and as another user; 5 unusable output directories"),
        ]


# ---------------------------------------------------------------- R05
class R05(Check):
    ID = "R05"
    TECHNIQUE = "bounded exhaustive exploration of documents and of every point at which a run with progress reporting can be abandoned"
    NOTE = "Oracle: the run without progress reporting."
    ASSUMPTIONS = ("reading the generator from one thread",)

    HFIG = {
        "good": lambda n: docs.good(n),
        "nest": lambda n: docs.nest(n),
        "deep": lambda n: docs.deep(n),
        "bad": lambda n: docs.bad(n),
        "skipped": lambda n: docs.skipped(n),
        "value": lambda n: docs.value(n),
        "numberless": lambda n: docs.numberless(),
        "empty": lambda n: table([]),
        "other": lambda n: table([tr(td("no title here"))]),
        "wrapped": lambda n: table([tr(E("td", docs.good(n)))]),
    }
    NESTED = ("nest", "deep")

    def dfig(self, k, n):
        inner = dx.tbl(dx.row(dx.cell("Bits"), dx.cell("Description")), dx.row(dx.cell("0"), dx.cell("Sub Field (SF): z")))
        rows = {
            "good": docs.ROWS,
            "nest": [("7:0", dx.cell(dx.para("Outer One (OUT): o"), inner))],
            "bad": [("7", dx.cell(inner))],
        }.get(k)
        if k == "none":
            return dx.para("just text")
        if k == "other":
            return dx.tbl(dx.row(dx.cell("no title")))
        return docs.dtable(str(n), *rows)

    DFIG = ["good", "nest", "none", "other", "bad"]

    def gen(self):
        names = list(self.HFIG)
        for s in sequences(names, 0, Q(3, 4)):
            for skip in (True, False):
                yield ("html", s, skip)
        for s in sequences(self.DFIG, 0, Q(3, 4)):
            for skip in (True, False):
                yield ("docx", s, skip)
        for n in Q((5, 9, 17), (5, 9, 17, 40)):
            yield ("html", ("good",) * n, True)
            yield ("docx", ("good",) * n, True)

    # long documents: a few points of abandonment
    def gen_long(self):
        for n in Q((64, 100, 101, 200, 257), (64, 100, 101, 200, 257, 513, 1025)):
            for at, k in [(None, None)] + [(at, k) for at in (0, n // 2, n - 1) for k in ("bad", "deep", "empty", "other", "numberless")]:
                seq = ["good"] * n
                if k:
                    seq[at] = k
                yield ("html", tuple(seq), True)
            yield ("docx", ("good",) * n, True)

    def ev(self, case, ctx):
        from spex.parse import parse_spec

        kind, seq, skip = case
        d = fresh("r05")
        if kind == "html":
            data = docs.htm(*[self.HFIG[k](str(i + 1)) for i, k in enumerate(seq)])
        else:
            data = dx.docx([self.dfig(k, i + 1) for i, k in enumerate(seq)])
        src = put(d / "src", {f"a.{kind}": data}) / f"a.{kind}"
        out = d / "plain"
        out.mkdir()
        got, path, err = spec_run(src, out, False, skip_fig_on_error=skip)
        plain = snapshot(out)
        ctx.replays += 1
        if got:
            return f"progress without asking for it: {got}"
        out2 = d / "progress"
        out2.mkdir()
        seen, path2, err2 = spec_run(src, out2, True, skip_fig_on_error=skip)
        ctx.replays += 1
        ctx.step(len(seen) + 1)
        ctx.state((case, tuple(seen)))
        what = f"{case}: positions {seen}"
        if err != err2:
            return f"outcome {err2} with progress, {err} without, for {what}"
        if err is None:
            if path2 is None or Path(path2).resolve() != (out2 / "a.json").resolve() or path.name != "a.json":
                return f"returned {path2} for {what}"
            msg = files_differ(plain, snapshot(out2), what)
            if msg:
                return msg
        # positions
        phases = [k for k, _ in itertools.groupby(seen, key=lambda x: x[0])]
        allowed = ["html", "json"] if kind == "docx" else ["json"]
        if [p for p in allowed if p in phases] != phases:
            return f"phases {phases} for {what}"
        for ph in phases:
            pos = [x[1] for x in seen if x[0] == ph]
            tot = {x[2] for x in seen if x[0] == ph}
            if pos != list(range(len(pos))):
                return f"{ph} positions do not count up from 0 for {what}"
            if len(tot) != 1:
                return f"{ph} total changes for {what}"
            total = tot.pop()
            if not any(k in self.NESTED for k in seq) and pos and pos[-1] >= total:
                return f"{ph} position {pos[-1]} not below the total {total} for {what}"
            ntop = len([k for k in seq if k != "none"])
            if total < ntop:
                return f"{ph} total {total} is below the number of figures {ntop} for {what}"
        # abandon at every point
        n = len(seen)
        for k in range(n + 1) if n < 60 else sorted({0, 1, 2, n // 2, n - 1, n}):
            for how in ("close", "drop", "throw"):
                o = d / f"abandon"
                if o.exists():
                    shutil.rmtree(o)
                o.mkdir()
                gen = parse_spec(src, pargs(o, skip_fig_on_error=skip), yield_progress=True)
                for _ in range(k):
                    next(gen)
                hooked = []
                old = sys.unraisablehook
                sys.unraisablehook = lambda u: hooked.append(repr(u.exc_value))
                try:
                    if how == "close":
                        gen.close()
                    elif how == "throw":
                        try:
                            gen.throw(KeyboardInterrupt())
                        except KeyboardInterrupt:
                            pass
                    del gen
                    if how == "drop":
                        gc.collect()
                except Exception as e:
                    return f"abandoning ({how}) after {k} steps raised {e!r} for {what}"
                finally:
                    sys.unraisablehook = old
                ctx.step()
                ctx.replays += 1
                ctx.state((case, k, how))
                if hooked:
                    return f"abandoning ({how}) after {k} steps: {hooked} for {what}"
                fds = open_fds(o)
                if fds:
                    return f"abandoning ({how}) after {k} steps left {fds} open for {what}"
                left = [f for f in snapshot(o) if not f.startswith("a.")]
                if left:
                    return f"abandoning ({how}) after {k} steps left {left} for {what}"
                for f, v in snapshot(o).items():
                    if not f.endswith(".json") and v != plain.get(f):
                        return f"abandoning ({how}) after {k} steps left a partial {f} for {what}"
            _, _, e3 = spec_run(src, o, False, skip_fig_on_error=skip)
            if e3 != err:
                return f"outcome {e3} after an abandoned run, {err} alone, for {what}"
            if err is None:
                msg = files_differ(plain, snapshot(o), f"run after one abandoned at {k}, {what}")
                if msg:
                    return msg
        return None

    def spaces(self):
        warm()
        return [
            Space("documents", self.gen, self.ev, f"all sequences of 0..{Q(3,4)} HTML figures of {len(self.HFIG)} kinds and of 0..{Q(3,4)} .docx figures of {len(self.DFIG)}, with and without skip-on-error; every abandonment point, in 3 ways"),
            Space("long", self.gen_long, self.ev, f"documents of up to {Q(257, 1025)} figures with an unusual one in front, in the middle or last; first and last abandonment points"),
        ]


# ---------------------------------------------------------------- R06
class Watch:
    """sees every open of a file in a directory, and every connection to a port."""

    def __init__(self, d):
        import ctypes
        import socket

        self.d = d
        libc = ctypes.CDLL(None, use_errno=True)
        self.fd = libc.inotify_init1(os.O_NONBLOCK)
        assert self.fd >= 0, ctypes.get_errno()
        IN = 0x20 | 0x1 | 0x2 | 0x100 | 0x200 | 0x40 | 0x80  # open, access, modify, create, delete, move
        for p in [d] + [x for x in Path(d).rglob("*") if x.is_dir()]:
            assert libc.inotify_add_watch(self.fd, str(p).encode(), IN) >= 0
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.sock.setblocking(False)
        self.port = self.sock.getsockname()[1]

    def events(self):
        import struct

        out = []
        while True:
            try:
                data = os.read(self.fd, 65536)
            except BlockingIOError:
                break
            i = 0
            while i < len(data):
                _, mask, _, n = struct.unpack_from("iIII", data, i)
                out.append((hex(mask), data[i + 16 : i + 16 + n].rstrip(b"\0").decode()))
                i += 16 + n
        while True:
            try:
                c, a = self.sock.accept()
            except BlockingIOError:
                break
            c.close()
            out.append(("connection", str(a)))
        return out


class R06(Check):
    ID = "R06"
    TECHNIQUE = "bounded exhaustive exploration of hostile constructs in every XML part, with every file open and connection observed"
    NOTE = "Canary files are watched with inotify and a loopback port is listened on; their contents are searched for in all outputs."
    ASSUMPTIONS = ("a canary directory stands for the file system and a loopback port for the network",)
    SECRET = "CANARY7SECRET"

    TARGETS = ["abs", "file:", "relative", "http", "dtd", "ftp"]

    def prepare(self):
        if hasattr(self, "port"):
            return
        warm()
        self.canary = scratch() / "canary"
        self.canary.mkdir()

    def init(self):
        """per worker: its own canaries."""
        self.me = scratch() / f"canary-{os.getpid()}"
        shutil.rmtree(self.me, ignore_errors=True)
        self.me.mkdir()
        (self.me / "secret.txt").write_text(self.SECRET)
        (self.me / "secret.xml").write_text(f"<table><tr><td><p><span>{self.SECRET}</span></p></td></tr></table>")
        (self.me / "secret.ent").write_text(f"<!ENTITY x '{self.SECRET}'><!ENTITY pe '{self.SECRET}'>")
        (self.me / "secret.dtd").write_text(f"<!ENTITY x '{self.SECRET}'><!ATTLIST span title CDATA '{self.SECRET}'>")
        self.watch = Watch(self.me)

    def uri(self, t, ext):
        p = self.me / f"secret.{ext}"
        return {
            "abs": str(p),
            "file:": p.as_uri(),
            "file2": "file:" + str(p),
            "localhost": f"file://localhost{p}",
            "relative": f"../{self.me.name}/secret.{ext}",
            "relative2": f"../../{self.me.name}/secret.{ext}",
            "http": f"http://127.0.0.1:{self.watch.port}/secret.{ext}",
            "ftp": f"ftp://127.0.0.1:{self.watch.port}/secret.{ext}",
            "jar": f"jar:file://{p}!/x",
        }[t]

    # each construct: (doctype internal/external text, entity reference or element, where)
    CONSTRUCTS = [
        "entity", "entity public", "entity text twice", "nested entity", "param entity", "param nested", "param in subset", "external subset",
        "external subset public", "both subsets", "attribute default", "entity in attribute", "xinclude text", "xinclude xml", "xinclude fallback",
        "stylesheet pi", "schema location", "unused entity", "unparsed entity", "internal only", "conditional", "model pi", "base", "catalog pi",
    ]
    URIS = ["abs", "file:", "file2", "localhost", "relative", "relative2", "http", "ftp", "jar"]

    def construct(self, c, t, root):
        """(prolog, content reference, attributes of the root)."""
        u = lambda ext: self.uri(t, ext)
        pub = 'PUBLIC "-//X//Y"'
        ref = "&x;"
        d = {
            "entity": (f'<!DOCTYPE {root} [<!ENTITY x SYSTEM "{u("txt")}">]>', ref, ""),
            "entity public": (f'<!DOCTYPE {root} [<!ENTITY x {pub} "{u("txt")}">]>', ref, ""),
            "entity text twice": (f'<!DOCTYPE {root} [<!ENTITY x SYSTEM "{u("txt")}"><!ENTITY y SYSTEM "{u("xml")}">]>', "&x;&x;", ""),
            "nested entity": (f'<!DOCTYPE {root} [<!ENTITY y SYSTEM "{u("txt")}"><!ENTITY x "a&y;b">]>', ref, ""),
            "param entity": (f'<!DOCTYPE {root} [<!ENTITY % p SYSTEM "{u("ent")}"> %p;]>', ref, ""),
            "param nested": (f'<!DOCTYPE {root} [<!ENTITY % q "&#60;!ENTITY &#37; p SYSTEM &#39;{u("ent")}&#39;>"> %q; %p;]>', ref, ""),
            "param in subset": (f'<!DOCTYPE {root} [<!ENTITY % p SYSTEM "{u("ent")}"> <!ENTITY x "y"> %p;]>', ref, ""),
            "external subset": (f'<!DOCTYPE {root} SYSTEM "{u("dtd")}">', ref, ""),
            "external subset public": (f'<!DOCTYPE {root} {pub} "{u("dtd")}">', ref, ""),
            "both subsets": (f'<!DOCTYPE {root} SYSTEM "{u("dtd")}" [<!ENTITY y "z">]>', "&y;", ""),
            "attribute default": (f'<!DOCTYPE {root} SYSTEM "{u("dtd")}">', "", ""),
            "entity in attribute": (f'<!DOCTYPE {root} [<!ENTITY x SYSTEM "{u("txt")}">]>', "", ' title="&x;"'),
            "xinclude text": ("", f'<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="{u("txt")}" parse="text"/>', ""),
            "xinclude xml": ("", f'<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="{u("xml")}"/>', ""),
            "xinclude fallback": ("", f'<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="/nonexistent/x"><xi:fallback><xi:include href="{u("txt")}" parse="text"/></xi:fallback></xi:include>', ""),
            "stylesheet pi": (f'<?xml-stylesheet type="text/xsl" href="{u("xml")}"?>', "", ""),
            "schema location": ("", "", f' xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:noNamespaceSchemaLocation="{u("xml")}"'),
            "unused entity": (f'<!DOCTYPE {root} [<!ENTITY x SYSTEM "{u("txt")}">]>', "", ""),
            "unparsed entity": (f'<!DOCTYPE {root} [<!NOTATION n SYSTEM "{u("xml")}"><!ENTITY x SYSTEM "{u("txt")}" NDATA n>]>', "", ""),
            "internal only": (f'<!DOCTYPE {root} [<!ENTITY x "plain">]>', ref, ""),
            "conditional": (f'<!DOCTYPE {root} SYSTEM "{u("dtd")}" [<!ENTITY % a "INCLUDE">]>', ref, ""),
            "model pi": (f'<?xml-model href="{u("dtd")}"?>', "", ""),
            "base": ("", "", f' xml:base="{u("xml")}"'),
            "catalog pi": (f'<?oasis-xml-catalog catalog="{u("xml")}"?><!DOCTYPE {root} SYSTEM "x.dtd">', "", ""),
        }
        return d[c]

    PARTS = ["html", "document", "styles", "header", "numbering"]
    PLACES = ["text", "between", "head"]

    def gen(self):
        for part in self.PARTS:
            for c in self.CONSTRUCTS:
                for t in self.URIS:
                    for place in self.PLACES:
                        for enc in ("utf-8", "utf-16") if t == "abs" else ("utf-8",):
                            for via in ("cli", "web"):
                                yield (part, c, t, place, enc, via)

    def doc(self, part, c, t, place, enc):
        """suffix, bytes."""
        root = {"html": "html", "document": "w:document", "styles": "w:styles", "header": "w:hdr", "numbering": "w:numbering"}[part]
        prolog, ref, attrs = self.construct(c, t, root)
        at = lambda p: ref if place == p else ""
        if part == "html":
            if prolog.startswith("<!DOCTYPE") or "<!DOCTYPE" in prolog:
                pass
            head = f'<head><meta data-spec="Spec" data-revision="1.0"/>{at("head")}</head>'
            tbl = (
                '<table id="1"><tr><td colspan="2"><p><span>Figure 1: T' + at("text") + "</span></p></td></tr>" + at("between")
                + "<tr><th><p><span>Bits</span></p></th><th><p><span>Description</span></p></th></tr>"
                "<tr><td><p><span>5</span></p></td><td><p><span>Field Nr One (FN): " + at("text") + "</span></p></td></tr></table>"
            )
            return "html", self.encode(f"{prolog}<html{attrs}>{head}<body>{tbl}</body></html>", enc)
        ns = dx.NS
        text = f'<w:r><w:t xml:space="preserve">{at("text")}</w:t></w:r>'
        x = {}
        body = docs.dtable("1", ("7:4", f"<w:tc><w:p><w:r><w:t>Field One (FO): x</w:t></w:r>{text if part == 'document' else ''}</w:p></w:tc>"))
        num = None
        if part == "document":
            x["word/document.xml"] = f"{prolog}<w:document {ns}{attrs}>{at('head')}<w:body>{at('between')}{body}</w:body></w:document>"
        elif part == "styles":
            x["word/styles.xml"] = f"{prolog}<w:styles {ns}{attrs}>{at('head')}<w:style w:styleId=\"S\"><w:name w:val=\"S\"/>{at('between')}{at('text')}<w:rPr><w:b/></w:rPr></w:style></w:styles>"
        elif part == "header":
            x["word/header1.xml"] = f"{prolog}<w:hdr {ns}{attrs}>{at('head')}<w:p>{at('between')}<w:r><w:t>Spec{at('text')}, Revision 1.0</w:t></w:r></w:p></w:hdr>"
        else:
            num = dx.abstract(0, [(0, "decimal", "%1.")]) + dx.num(1, 0)
            x["word/numbering.xml"] = f"{prolog}<w:numbering {ns}{attrs}>{at('head')}{at('between')}{num}{at('text')}</w:numbering>"
        x = {k: self.encode(v, enc) for k, v in x.items()}
        return "docx", dx.docx([body], numbering=num, raw=x)

    def encode(self, s, enc):
        if enc == "utf-8":
            return s.encode("utf-8")
        return ('<?xml version="1.0" encoding="UTF-16"?>' + s).encode("utf-16")

    def ev(self, case, ctx):
        part, c, t, place, enc, via = case
        if c in ("attribute default", "entity in attribute", "stylesheet pi", "schema location", "unused entity", "unparsed entity", "model pi", "base", "catalog pi") and place != "text":
            return None
        suffix, data = self.doc(part, c, t, place, enc)
        return self.watched(case, suffix, data, via, ctx)

    def watched(self, case, suffix, data, via, ctx):
        d = fresh("r06")
        src = put(d / "src", {f"a.{suffix}": data}) / f"a.{suffix}"
        out = d / "out"
        out.mkdir()
        self.watch.events()
        outputs = {}
        if via == "cli":
            _, path, err = spec_run(src, out, False, skip_fig_on_error=True)
            outputs = snapshot(out)
        else:
            from . import web

            err, outputs = web.all_pages(f"a.{suffix}", data)
        ev = self.watch.events()
        ctx.replays += 1
        ctx.step()
        ctx.state(case)
        ctx.count("accepted" if err is None else "rejected")
        if ev:
            return f"processing opened {ev} for {case}: {data[:600]!r}"
        for k, v in outputs.items():
            if v and self.SECRET.encode() in v:
                return f"{k} contains text from outside the document for {case}: {data[:600]!r}"
        return None

    # whatever else names an address: U is the address
    HEAD_REFS = [
        *[f'<link rel="{r}" href="U"/>' for r in ("stylesheet", "import", "meta", "prev", "next", "alternate", "manifest", "preload", "icon", "canonical", "schema.DC", "transformation")],
        '<script src="U"></script>', '<base href="U"/>', '<meta http-equiv="refresh" content="0;url=U"/>', '<style>@import url("U");</style>', '<style>@import "U";</style>',
        '<meta name="include" content="U"/>', '<meta data-source="U"/>', '<meta data-html="U" data-figures="U"/>', '<title>U</title>', '<!--#include file="U"-->', '<!--#include virtual="U"-->',
        "<?include U?>", '<?include href="U"?>', '<?xml-stylesheet href="U" type="text/css"?>', '<object data="U"></object>',
    ]
    BODY_REFS = [
        '<img src="U"/>', '<img srcset="U 2x"/>', '<iframe src="U"></iframe>', '<frame src="U"/>', '<embed src="U"/>', '<object data="U"></object>', '<object><param name="src" value="U"/></object>',
        '<a href="U">x</a>', '<video src="U"></video>', '<include href="U"/>', '<include src="U"/>', '<link rel="import" href="U"/>', '<script src="U"></script>', "<span>U</span>", "<span>see U for details</span>",
        '<span data-src="U">x</span>', '<span style="background: url(U)">x</span>', '<svg><use href="U"/></svg>', '<!--#include file="U"-->', "<?include U?>", '<input type="image" src="U"/>', '<blockquote cite="U">x</blockquote>',
    ]
    ATTRS = ["src", "href", "background", "data", "data-src", "include", "longdesc", "id", "class", "title", "style", "manifest", "profile", "lang", "xlink"]
    RELS = ["hyperlink", "attachedTemplate", "image", "subDocument", "frame", "oleObject", "header", "styles", "numbering", "aFChunk", "settings", "customXml", "officeDocument", "glossaryDocument", "package", "theme", "linkedFile"]
    RUN_REFS = [
        '<w:hyperlink r:id="rId9"><w:r><w:t>x</w:t></w:r></w:hyperlink>', '<w:hyperlink w:anchor="U"><w:r><w:t>x</w:t></w:r></w:hyperlink>', '<w:hyperlink w:docLocation="U"><w:r><w:t>x</w:t></w:r></w:hyperlink>',
        *[f'<w:fldSimple w:instr=" {i} &quot;U&quot; "><w:r><w:t>x</w:t></w:r></w:fldSimple>' for i in ("INCLUDETEXT", "INCLUDEPICTURE", "LINK Word.Document", "HYPERLINK", "RD", "IMPORT", "DDE")],
        *[f'<w:r><w:fldChar w:fldCharType="begin"/></w:r><w:r><w:instrText> {i} "U" </w:instrText></w:r><w:r><w:fldChar w:fldCharType="separate"/></w:r><w:r><w:t>x</w:t></w:r><w:r><w:fldChar w:fldCharType="end"/></w:r>' for i in ("INCLUDETEXT", "INCLUDEPICTURE", "LINK Word.Document")],
        '<w:r><w:pict><v:shape xmlns:v="urn:schemas-microsoft-com:vml"><v:imagedata src="U" r:id="rId9"/></v:shape></w:pict></w:r>',
        '<w:r><w:drawing><a:blip xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" r:link="rId9"/></w:drawing></w:r>',
        '<w:r><w:object><o:OLEObject xmlns:o="urn:schemas-microsoft-com:office:office" Type="Link" r:id="rId9"/></w:object></w:r>',
        '<w:r><w:rPr><w:rStyle w:val="U"/></w:rPr><w:t>x</w:t></w:r>', "<w:r><w:t>U</w:t></w:r>", '<w:r><w:rPr><w:rFonts w:ascii="U"/></w:rPr><w:t>x</w:t></w:r>',
        '<w:sdt><w:sdtPr><w:dataBinding w:xpath="/x" w:storeItemID="U"/></w:sdtPr><w:sdtContent><w:r><w:t>x</w:t></w:r></w:sdtContent></w:sdt>', '<w:subDoc r:id="rId9"/>', '<w:customXml w:uri="U" w:element="x"><w:r><w:t>x</w:t></w:r></w:customXml>',
    ]
    BLOCK_REFS = [
        '<w:altChunk r:id="rId9"/>', '<w:subDoc r:id="rId9"/>', '<w:sectPr><w:headerReference w:type="default" r:id="rId9"/></w:sectPr>', '<w:attachedTemplate r:id="rId9"/>', '<w:background r:id="rId9"/>',
        '<w:p><w:pPr><w:pStyle w:val="U"/></w:pPr><w:r><w:t>x</w:t></w:r></w:p>', '<w:tbl><w:tblPr><w:tblStyle w:val="U"/><w:tblCaption w:val="U"/></w:tblPr></w:tbl>',
        '<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="U"/>',
    ]
    LINK = ["word/styles.xml", "word/header1.xml", "word/numbering.xml", "word/document.xml", "word/settings.xml"]

    def gen_refs(self):
        for t in self.URIS:
            for ext in ("xml", "txt"):
                for via in ("cli", "web"):
                    for where, n in (("head", len(self.HEAD_REFS)), ("body", len(self.BODY_REFS)), ("attr", len(self.ATTRS)), ("rel", len(self.RELS)), ("run", len(self.RUN_REFS)), ("block", len(self.BLOCK_REFS)), ("link", len(self.LINK)), ("meta", 4)):
                        for i in range(n):
                            yield (where, i, t, ext, via)

    def ref_doc(self, where, i, t, ext):
        import io
        import stat
        import zipfile

        u = self.uri(t, ext)
        f = lambda x: x.replace("U", u)
        if where in ("head", "body", "attr", "meta"):
            head, inner, a, meta = "", "", "", 'data-spec="Spec" data-revision="1.0"'
            if where == "head":
                head = f(self.HEAD_REFS[i])
            elif where == "body":
                inner = f(self.BODY_REFS[i])
            elif where == "attr":
                a = f' {self.ATTRS[i]}="{u}"'
            else:
                meta = [f'data-spec="{u}" data-revision="1.0"', f'data-spec="Spec" data-revision="{u}"', f'href="{u}" data-revision="1.0"', f'src="{u}"'][i]
            return "html", (
                f"<html{a}><head{a}><meta {meta}/>{head}</head><body{a}>{inner}<table{a if 'id' not in a else ''}><tr{a}><td{a}><p{a}><span{a}>Figure 1: T</span>{inner}</p>{inner}</td></tr>"
                f"<tr><th><p><span>Bits</span></p></th><th><p><span>Description</span></p></th></tr><tr><td{a}><p><span>5</span></p></td><td><p><span>Field Nr One (FN): x</span>{inner}</p>{inner}</td></tr></table>{inner}</body></html>"
            ).encode()
        rel = f"http://schemas.openxmlformats.org/officeDocument/2006/relationships/{self.RELS[i] if where == 'rel' else 'hyperlink'}"
        rels = f'<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId9" Type="{rel}" Target="{u}" TargetMode="External"/></Relationships>'
        runs = f(self.RUN_REFS[i]) if where == "run" else f(self.RUN_REFS[0])
        body = docs.dtable("1", ("7:4", f"<w:tc><w:p><w:r><w:t>Field One (FO): x</w:t></w:r>{runs}</w:p>{f(self.BLOCK_REFS[i]) if where == 'block' else ''}</w:tc>"))
        blocks = [body] + ([f(self.BLOCK_REFS[i])] if where == "block" else [])
        raw = {f"{p}.rels": rels.encode() for p in ("word/_rels/document.xml", "word/_rels/header1.xml", "word/_rels/settings.xml", "_rels/", "word/_rels/styles.xml")}
        raw["word/settings.xml"] = f'<w:settings {dx.NS}><w:attachedTemplate r:id="rId9"/></w:settings>'.encode()
        data = dx.docx(blocks, header=dx.para(dx.run("Spec, Revision 1.0")), numbering=dx.abstract(0, [(0, "decimal", "%1.")]) + dx.num(1, 0), raw=raw)
        if where == "link":
            # a part stored as a symbolic link
            b = io.BytesIO()
            with zipfile.ZipFile(io.BytesIO(data)) as z, zipfile.ZipFile(b, "w") as w:
                for n in z.namelist():
                    if n != self.LINK[i]:
                        w.writestr(n, z.read(n))
                zi = zipfile.ZipInfo(self.LINK[i])
                zi.create_system = 3
                zi.external_attr = (stat.S_IFLNK | 0o777) << 16
                w.writestr(zi, u)
            data = b.getvalue()
        return "docx", data

    def ev_refs(self, case, ctx):
        where, i, t, ext, via = case
        suffix, data = self.ref_doc(where, i, t, ext)
        return self.watched(case, suffix, data, via, ctx)

    def gen_guard(self):
        yield "guard"

    def ev_guard(self, case, ctx):
        """the watch itself must see what it shall see."""
        import socket

        for how in range(2):
            self.watch.events()
            if how == 0:
                (self.me / "secret.txt").read_text()
            else:
                s = socket.create_connection(("127.0.0.1", self.watch.port))
                s.close()
            if not self.watch.events():
                raise RuntimeError("the watch is blind")
        ctx.state("guard")
        return None

    def spaces(self):
        self.prepare()
        return [
            Space("guard", self.gen_guard, self.ev_guard, "the observer sees a file open and a connection", workers=1, init=self.init),
            Space("constructs", self.gen, self.ev, f"{len(self.CONSTRUCTS)} constructs x {len(self.URIS)} kinds of address x {len(self.PARTS)} parts x up to 3 places x encodings x command line and web application", init=self.init),
            Space("references", self.gen_refs, self.ev_refs, f"{len(self.HEAD_REFS) + len(self.BODY_REFS)} elements, {len(self.ATTRS) + 4} attributes, {len(self.RELS)} kinds of relationship, {len(self.RUN_REFS) + len(self.BLOCK_REFS)} constructs of .docx and {len(self.LINK)} parts that are symbolic links x {len(self.URIS)} kinds of address x 2 kinds of file x command line and web application", init=self.init),
        ]
