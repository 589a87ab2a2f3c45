"""R07: what a run says on the console and in its log."""
import itertools
import json
import os
import re
import subprocess
import sys
from pathlib import Path

from . import core, docs
from . import docx as dx
from .checks_r import put, warm
from .core import Check, Space
from .proc import fresh
from .tree import E, document, figure, html, table, td, th, title_row, tr
from .util import Q, sequences, std_row

ANSI = re.compile(r"\x1b\[[0-9;]*m")


def real(argv, cwd, env=None):
    """`python -m spex ARGV`: exit status, standard output, standard error."""
    e = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "SPEX_DEBUG")}
    e.update(PYTHONPATH=str(core.REPO / "src"), PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8")
    e.update(env or {})
    r = subprocess.run([sys.executable, "-m", "spex"] + [str(a) for a in argv], cwd=str(cwd), env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    return r.returncode, r.stdout.decode("utf-8", "replace"), ANSI.sub("", r.stderr.decode("utf-8", "replace"))


def shown(text):
    """the ways in which a text may be shown inside of a message."""
    return {text, repr(text)[1:-1], json.dumps(text)[1:-1], json.dumps(text, ensure_ascii=False)[1:-1]}


def says(where, *texts):
    """whether all texts are in one of these places."""
    return any(all(any(s in w for s in shown(t)) for t in texts) for w in where)


class R07(Check):
    ID = "R07"
    TECHNIQUE = "bounded exhaustive exploration of command lines, texts and earlier logs through the real program as a process"
    NOTE = "Console and log are judged by what they name, not by their wording."
    ASSUMPTIONS = ("the working directory is writable",)

    KINDS = ["good", "lint", "fails", "nested fails", "two fail", "numberless", "docx", "no identity", "malformed", "txt"]
    FATAL = {"no identity", "malformed", "txt"}

    def source(self, kind, i):
        """file name, contents, [(number, title or None) of figures that fail], innermost first."""
        n = f"in{i}"
        bad = lambda k, t: docs.bits(k, std_row("7"), tr(td("5"), E("td", "no paragraph")), title=t)
        return {
            "good": (f"{n}.html", docs.htm(docs.good("1")), []),
            "lint": (f"{n}.html", docs.htm(docs.gap("1"), docs.dup("2")), []),
            "fails": (f"{n}.html", docs.htm(docs.good("1"), bad("22", "Broken"), docs.gap("3")), [("22", "Figure 22: Broken")]),
            "nested fails": (f"{n}.html", docs.htm(figure("44", ["Bits", "Description"], [tr(td("9"), td("Outer One (OUT): o", table([tr(th("Bits"), th("Description")), tr(td("5"), E("td", "x"))])))], title="Around")), [("44", "Figure 44: Around"), ("44_9", None)]),
            "two fail": (f"{n}.html", docs.htm(bad("31", "First"), docs.value("5"), bad("32", "Second")), [("31", "Figure 31: First"), ("32", "Figure 32: Second")]),
            "numberless": (f"{n}.html", docs.htm(docs.numberless(), docs.value("5")), []),
            "docx": (f"{n}.docx", dx.docx([docs.dtable(str(i + 1), *docs.ROWS)]), []),
            "no identity": (f"{n}.docx", dx.docx([docs.dtable("1", *docs.ROWS)], header=dx.para("Nothing")), []),
            "malformed": (f"{n}.html", b"<html><head>", []),
            "txt": (f"{n}.txt", b"text", []),
        }[kind]

    def prepare(self):
        warm()

    def judge(self, ctx, d, inputs, opts, case, skip, env=None):
        """inputs: [(path, fatal, failing figures)]."""
        cwd = d / "cwd"
        out = d / "out"
        code, so, se = real([*[p for p, _, _ in inputs], "-o", out, *(["-s"] if skip else []), *opts], cwd, env)
        ctx.replays += 1
        what = f"{case}; console: {se[-1200:]!r}"
        # which inputs were begun
        stop = next((i for i, (_, fatal, figs) in enumerate(inputs) if fatal or (figs and not skip)), None)
        begun = inputs if stop is None else inputs[: stop + 1]
        if (code == 0) != (stop is None):
            return f"exit status {code} for {what}"
        log = []
        try:
            for line in (cwd / "spex.log").read_text(encoding="utf-8").splitlines():
                j = json.loads(line)
                if not isinstance(j, dict) or not isinstance(j.get("level"), str) or not isinstance(j.get("msg"), str) or not isinstance(j.get("line"), int) or not j.get("file") or not j.get("func"):
                    return f"log entry {line[:300]} for {what}"
                log.append(j)
        except (OSError, ValueError) as e:
            return f"the log cannot be read: {e!r} for {what}"
        ctx.step(len(log))
        ctx.state((case, [(j["level"], "exception" in j) for j in log]))
        lines = se.split("\n")
        msgs = [j["msg"] for j in log]
        for p, _, _ in begun:
            if not says(lines, str(p)) or not says(msgs, str(p)):
                return f"input {p} is not announced for {what}"
        for p, _, _ in inputs[len(begun):]:
            if says(msgs, str(p)):
                return f"input {p} is announced but not reached for {what}"
        # messages for the user are in the log, in order, and on the console
        at, flat = 0, " ".join(se.split())  # (white space does not matter)
        for m in [" ".join(j["msg"].split()) for j in log if j["level"].startswith("U_")]:
            k = flat.find(m, at)
            if k < 0:
                return f"log message {m!r} is not on the console (in this order) for {what}"
            at = k + len(m)
        # figures that failed
        excs = [j for j in log if "exception" in j]
        for j in excs:
            x = j["exception"]
            while x is not None:
                if not (isinstance(x, dict) and x.get("type") and isinstance(x.get("msg"), str) and isinstance(x.get("frames"), list) and x["frames"]):
                    return f"exception without type, message or frames in the log: {str(x)[:400]} for {what}"
                if any(not f.get("name") or not f.get("file") or not isinstance(f.get("lineno"), int) for f in x["frames"]):
                    return f"frames {x['frames']} in the log for {what}"
                x = x.get("cause")
        want_figs = []
        for p, _, figs in begun:
            for num, title in figs[:1] if not skip and len(figs) > 1 and "_" not in figs[1][0] else figs:
                want_figs.append(num)
                if not says(msgs, num, *([title] if title else [])):
                    return f"the failing figure {num} is not named in the log for {what}"
                if not says(lines, num, *([title] if title else [])):
                    return f"the failing figure {num} is not named on the console for {what}"
        inner = [x for p, _, figs in begun for x in ([figs[-1]] if figs and "_" in figs[-1][0] else figs if skip else figs[:1])]
        for num, title in inner:
            mine = [j for j in excs if j.get("extra", {}).get("entity", {}).get("fig_id") == num]
            if not mine:
                return f"no exception of figure {num} in the log for {what}"
        named = {j["extra"]["entity"]["fig_id"] for j in excs if "entity" in j.get("extra", {})}
        if not named <= set(want_figs):
            return f"exceptions of {named - set(want_figs)} in the log for {what}"
        if stop is not None and not str(inputs[stop][0]).endswith(".txt"):
            if not excs or not any("entity" not in j.get("extra", {}) for j in excs):
                return f"the failure that ended the run is not in the log for {what}"
        if stop is None and [j for j in excs if "entity" not in j.get("extra", {})]:
            return f"the log tells of a failure that ended the run for {what}"
        # number of reports
        for i, (p, fatal, figs) in enumerate(begun):
            f = out / (p.name[: -len(p.suffix)] + ".json")
            tells = [x for x in lines if re.search(r"\b\d+\b.*lint", x) and any(s in x for s in shown(str(f)))]
            if i == stop:
                if tells:
                    return f"reports of {p} counted although it failed for {what}"
                continue
            n = len(json.loads(f.read_text(encoding="utf-8"))["meta"]["lint"])
            if n == 0 and tells:
                return f"{tells} although {f} has no reports for {what}"
            if n and not any(re.search(rf"(?<!\d){n}(?!\d)", x.replace(str(f), "")) for x in tells):
                return f"the {n} reports in {f} are not told on the console for {what}"
        others = [str(x.relative_to(d)) for x in d.rglob("*.log")]
        if others != ["cwd/spex.log"]:
            return f"logs {others} for {what}"
        return None

    def setup(self, kinds):
        d = fresh("r07")
        (d / "cwd").mkdir()
        ins = []
        for i, k in enumerate(kinds):
            name, data, figs = self.source(k, i)
            ins.append((put(d / "src", {name: data}) / name, k in self.FATAL, figs))
        return d, ins

    def gen_docs(self):
        for kinds in sequences(self.KINDS, 1, Q(2, 3)):
            for skip in (False, True):
                yield (kinds, skip, (), {})
        for kinds in sequences(self.KINDS, 1, 1):
            for skip in (False, True):
                for opts in (("-v",), ("--lint-ignore", "T1002"), ("--lint-ignore", "T1002,L1003,T1001,L1002,T1004,R1001,R1002,T1000,T1008"), ("--validate-json",)):
                    yield (kinds, skip, opts, {})
                yield (kinds, skip, (), {"SPEX_DEBUG": "1"})
                yield (kinds, skip, (), {"SPEX_DEBUG": "0"})

    def ev_docs(self, case, ctx):
        kinds, skip, opts, env = case
        d, ins = self.setup(kinds)
        return self.judge(ctx, d, ins, opts, case, skip, env)

    TEXTS = [
        "{}", "{0}", "{x}", "{message}", "{{", "<red>", "</level>", "<b>x", "\\<red>", "%s", "%(x)s", "%", "it's", 'say "x"', "both ' and \"", "\\n", "\\", "é®☃", "\U0001f600", "\u2028", "\u0085",
        "\x7f", "\u202e", "x" * 5000, "{'a': 1}", "[1]", "null", "{record}", "$x", "#",
    ]
    PLACES = ["title", "row", "name", "numberless", "spec", "revision", "file", "folder", "code", "header"]

    def gen_texts(self):
        for place in self.PLACES:
            for t in self.TEXTS:
                if place in ("file", "folder") and (len(t) > 200 or t in ("\u2028", "\u0085")):
                    continue
                for skip in (False, True):
                    yield (place, t, skip)

    def ev_texts(self, case, ctx):
        place, t, skip = case
        d = fresh("r07")
        (d / "cwd").mkdir()
        g = lambda p, default: t if place == p else default
        title = f"Broken {t}" if place == "title" else "Broken"
        bad = docs.bits("22", tr(td("7"), td("Field One (FO): x")), tr(td(g("row", "5")), E("td", g("row", "x"))), title=title)
        shown_title = " ".join(f"Figure 22: {title}".split())
        name = figure("3", ["Bits", g("header", "Description")], [tr(td("3"), td(g("name", "A (B): x"))), tr(td("1"), td(g("name", "?")))])
        val = figure("5", ["Value", "Description"], [tr(td(g("code", "0h")), td("?"))] * 2)
        less = [table([title_row(f"Figure: {t}"), tr(th("Bits"), th("Description")), std_row("0")])] if place == "numberless" else []
        body = docs.htm(name, val, *less, bad, spec=g("spec", "Spec"), rev=g("revision", "1.0"))
        folder = d / (t.replace("/", "_") if place == "folder" else "src")
        fname = t.replace("/", "_") + ".html" if place == "file" else "in.html"
        put(folder, {fname: body})
        known = title.isprintable() or place != "title"
        return self.judge(ctx, d, [(folder / fname, False, [("22", shown_title if known else None)])], (), case, skip)

    def gen_again(self):
        for a in [None, "long", "text", "binary", "link"] + self.KINDS:
            for b in self.KINDS:
                for skip in (False, True):
                    yield (a, b, skip)

    def ev_again(self, case, ctx):
        a, b, skip = case
        d, ins = self.setup([b])
        log = d / "cwd" / "spex.log"
        if a in self.KINDS:
            name, data, figs = self.source(a, 7)
            real([put(d / "src", {name: data}) / name, "-o", d / "out0"], d / "cwd")
        elif a == "long":
            log.write_text('{"level": "U_INFO", "msg": "old", "file": "f", "func": "f", "line": 1, "exception": {}}\n' * 5000)
        elif a == "text":
            log.write_text("not\nJSON")
        elif a == "binary":
            log.write_bytes(bytes(range(256)) * 100)
        elif a == "link":
            (d / "kept").write_text("kept")
            log.symlink_to(d / "kept")
        return self.judge(ctx, d, ins, (), case, skip)

    def spaces(self):
        self.prepare()
        return [
            Space("documents", self.gen_docs, self.ev_docs, f"all lists of 1..{Q(2,3)} inputs of {self.KINDS} with and without -s; each with -v, --validate-json, ignored codes, SPEX_DEBUG"),
            Space("texts", self.gen_texts, self.ev_texts, f"{len(self.TEXTS)} texts that mean something to formatters, terminals or JSON, in each of {self.PLACES}"),
            Space("again", self.gen_again, self.ev_again, "every kind of input after every kind of earlier run or other file called spex.log"),
        ]
