"""W01-W05: the web application, driven at its ASGI interface."""
import asyncio
import gc
import hashlib
import html as htmllib
import itertools
import json
import os
import re
import shutil
import sys
import tempfile
import time
from html.parser import HTMLParser
from pathlib import Path

from . import core, docs, web
from . import docx as dx
from .checks_r import put, spec_run
from .core import Check, Space, scratch
from .proc import fork_call, fresh, snapshot
from .tree import E, document, figure, from_lxml, html, kids, nested, p, ser, table, td, text_of, th, title_row, tr
from .util import Q, sequences, std_row

NOTE_W = (
    "The real application runs in an event loop of its own; every message to and from it is a step that the explorer"
    " chooses. Oracle: the same document processed directly."
)


def alone(name, data):
    """what processing the document directly gives: (positions, json, html, error)."""
    suffix = Path(name).suffix
    d = fresh("alone")
    src = d / f"document{suffix}"
    src.write_bytes(data)
    seen, path, err = spec_run(src, d, True, skip_fig_on_error=True)
    js = json.loads((d / "document.json").read_text(encoding="utf-8")) if err is None else None
    ht = (d / "document.html").read_bytes() if err is None else None
    return seen, js, ht, err


class WCheck(Check):
    NOTE = NOTE_W
    ASSUMPTIONS = (
        "messages of the ASGI interface are the points at which requests interleave: between two of them a handler"
        " only waits for its own file operations",
    )

    def init(self):
        web.warm()

    def expect(self, name, data):
        """cached per worker."""
        if not hasattr(self, "_exp"):
            self._exp = {}
        k = (Path(name).suffix, data)
        if k not in self._exp:
            if len(self._exp) > 5000:
                self._exp.clear()
            self._exp[k] = alone(name, data)
        return self._exp[k]

    async def check_report(self, s, url, name, data, bundle=False):
        """all addresses of a report serve this document."""
        _, js, ht, err = self.expect(name, data)
        assert err is None
        h = url.rsplit("/", 1)[1]
        r = await s.get(f"/json/{h}")
        if r.status != 200 or r.error or json.loads(r.data) != js:
            return f"/json/ of {name} serves status {r.status} {r.error!r} {r.data[:300]!r}"
        r = await s.get(f"/html/{h}")
        if r.status != 200 or r.error or r.data != ht:
            return f"/html/ of {name} serves status {r.status} {r.error!r} {r.data[:300]!r}"
        r = await s.get(url + ("?bundle=1" if bundle else ""))
        if r.status != 200 or r.error:
            return f"report of {name} has status {r.status} {r.error!r}"
        got = web.report_consts(r.data)["report"]
        if got != js:
            return f"report page of {name} shows {str(got)[:300]}"
        return None

    def check_stream(self, r, name, data, need_end=True):
        """the events of an upload; returns (message, url)."""
        seen, js, ht, err = self.expect(name, data)
        if r.status != 200:
            return f"upload of {name} has status {r.status} {r.error!r}", None
        try:
            ev = r.events()
        except AssertionError as e:
            return f"{name}: {e}", None
        prog = [{"type": "progress-update", "phase": a, "fig_ndx": b, "num_figs": c} for a, b, c in seen]
        if err is None:
            if ev[:-1] != prog or not ev:
                return f"events of {name}: {ev}, expected {prog} and the completion", None
            last = ev[-1]
            if set(last) != {"type", "url"} or last["type"] != "report-completed" or not str(last["url"]).startswith("/report/"):
                return f"last event of {name} is {last}", None
            if not r.complete:
                return f"the response to {name} does not end", None
            return None, last["url"]
        if any(e.get("type") == "report-completed" for e in ev):
            return f"completion event although {name} cannot be processed ({err}): {ev}", None
        if ev != prog[: len(ev)]:
            return f"events of {name}: {ev}, expected {prog}", None
        return None, None


# ---------------------------------------------------------------- W01
class W01(WCheck):
    ID = "W01"
    TECHNIQUE = (
        "stateless model checking of the real web application: every interleaving of the messages of concurrent uploads and"
        " reads, and every history of operations up to a depth"
    )

    def alphabet(self):
        A = docs.htm(docs.gap("1"))
        B = docs.htm(docs.value("2"))
        D = dx.docx([docs.dtable("1", ("7:4", "Field One (FO): x"), ("1:0", "Field Two (FT): y"))])
        return {
            "A": ("a.html", A),
            "B": ("b.html", B),
            "B as a": ("a.html", B),
            "A as b": ("b.html", A),
            "D": ("a.docx", D),
            "D as b": ("b.docx", D),
            "A as docx": ("a.docx", A),
            "D as html": ("a.html", D),
            "bad": ("a.html", b"<html><head>"),
            "0": ("a.html", docs.htm()),
            "A+": ("a.html", A.replace(b"gap", b"gap") + b"\n"),
            "AB": ("a.html", docs.htm(docs.gap("1"), docs.value("2"))),
        }

    def prepare(self):
        if not hasattr(self, "docs"):
            self.docs = self.alphabet()
            self.nsteps = {}
            web.warm()
            for k in self.docs:
                kind, n = fork_call(web.play, self.count, k)
                assert kind == "ok", n
                self.nsteps[k] = n

    async def count(self, k):
        async with web.Server() as s:
            u = s.upload(*self.docs[k], gated=True)
            n = 1
            while await u.step():
                n += 1
            return n

    def gen_sched(self):
        pairs = [
            ("A", "A"), ("A", "B"), ("A", "B as a"), ("A", "A as b"), ("A", "D"), ("A", "A as docx"), ("A", "D as html"), ("A", "bad"), ("D", "D"),
            ("D", "B as a"), ("D", "bad"), ("0", "A"), ("A", "A+"), ("D as html", "D"),
        ]
        if core.THOROUGH:
            pairs = list(itertools.combinations_with_replacement(self.docs, 2))
        for a, b in pairs:
            n, m = self.nsteps[a], self.nsteps[b]
            for idx in itertools.combinations(range(n + m), n):
                idx = set(idx)
                sched = tuple(0 if i in idx else 1 for i in range(n + m))
                yield ((a, b), sched, False)
        for t in Q([("bad", "A", "0")], [("A", "B as a", "bad"), ("A", "A", "bad"), ("bad", "A", "0")]):
            yield from ((t, s, False) for s in self.merges([min(self.nsteps[k], Q(4, 5)) for k in t]))
        for a, b in Q([("A", "B as a"), ("A", "A")], pairs):
            # reading all known reports after every step
            n, m = self.nsteps[a], self.nsteps[b]
            for idx in itertools.combinations(range(n + m), n):
                yield ((a, b), tuple(0 if i in set(idx) else 1 for i in range(n + m)), True)

    def merges(self, ns):
        def rec(rest, acc):
            if not any(rest):
                yield tuple(acc)
                return
            for i, r in enumerate(rest):
                if r:
                    yield from rec(rest[:i] + (r - 1,) + rest[i + 1 :], acc + [i])

        yield from rec(tuple(ns), [])

    async def sched(self, names, sched, read, ctx):
        async with web.Server() as s:
            ups = [s.upload(*self.docs[k], gated=True) for k in names]
            known = {}
            for i in sched:
                await ups[i].step()
                ctx.step()
                msg = await self.learn(s, ups, names, known, read)
                if msg:
                    return msg
            for u in ups:
                await u.finish()
            for u, k in zip(ups, names):
                msg, url = self.check_stream(u, *self.docs[k])
                if msg:
                    return msg
                if url:
                    known[url] = k
            for url, k in known.items():
                msg = await self.check_report(s, url, *self.docs[k])
                if msg:
                    return f"in the end: {msg}"
            for k, u in zip(names, ups):
                seen, js, ht, err = self.expect(*self.docs[k])
                if err is not None:
                    h = hashlib.md5(self.docs[k][1]).hexdigest()
                    if f"/report/{h}" not in known and (await s.get(f"/report/{h}")).status != 404:
                        return f"a report is registered for {k}, which cannot be processed"
            return None

    async def learn(self, s, ups, names, known, read):
        """what the uploads told so far; read all known reports."""
        for u, k in zip(ups, names):
            if u.messages and u.status == 200:
                for m in u.messages[1:]:
                    if b"report-completed" in m.get("body", b""):
                        url = json.loads(m["body"][6:])["url"]
                        if known.get(url, k) != k and self.docs[known[url]] != self.docs[k] and self.expect(*self.docs[known[url]])[1:3] != self.expect(*self.docs[k])[1:3]:
                            return f"{k} and {known[url]} are given the same address {url}"
                        known[url] = k
        if read:
            for url, k in known.items():
                msg = await self.check_report(s, url, *self.docs[k])
                if msg:
                    return msg
        return None

    def ev_sched(self, case, ctx):
        names, sched, read = case
        msg = web.play(self.sched, names, sched, read, ctx)
        ctx.replays += 1
        pos = [0] * len(names)
        for i in sched:
            pos[i] += 1
            ctx.state((names, tuple(pos), read))
        return f"{names} schedule {sched}: {msg}" if msg else None

    # histories of whole operations
    OPS = ["A", "B as a", "A as b", "D", "bad", "A as docx", "A/1", "A/3", "D/3", "B as a/2", "get ?", "no doc", "get A", "later"]

    def gen_hist(self):
        yield from sequences(self.OPS, 1, Q(3, 4))

    async def hist(self, ops, ctx):
        async with web.Server() as s:
            known = {}
            for o in ops:
                name, _, cut = o.partition("/")
                ctx.step()
                if o == "later":
                    self.later()
                elif o == "get ?":
                    r = await s.get("/report/00000000000000000000000000000000")
                    if r.status != 404:
                        return f"unknown report: {r.status}"
                elif o == "no doc":
                    await s.upload("a.html", b"x", field="other").finish()
                elif o == "get A":
                    h = hashlib.md5(self.docs["A"][1]).hexdigest()
                    r = await s.get(f"/json/{h}")
                    want = 200 if f"/report/{h}" in known else None
                    if want and r.status != want:
                        return f"reading A: status {r.status}"
                elif cut:
                    u = s.upload(*self.docs[name], gated=True)
                    for _ in range(int(cut)):
                        await u.step()
                    await u.disconnect()
                else:
                    u = await s.upload(*self.docs[name]).finish()
                    msg, url = self.check_stream(u, *self.docs[name])
                    if msg:
                        return msg
                    if url:
                        if url in known and self.expect(*self.docs[known[url]])[1] != self.expect(*self.docs[name])[1]:
                            return f"{name} and {known[url]} are given the same address"
                        known[url] = name
                for url, k in known.items():
                    msg = await self.check_report(s, url, *self.docs[k])
                    if msg:
                        return f"after {o}: {msg}"
            return None

    def clock(self):
        import ctypes

        return ctypes.c_long.in_dll(ctypes.CDLL(None), "mc_clock_shift")

    def later(self):
        """ten years, on all clocks of the process."""
        c = self.clock()
        t = time.time(), time.monotonic()
        c.value += 315360000
        assert time.time() - t[0] > 3e8 and time.monotonic() - t[1] > 3e8

    def ev_hist(self, case, ctx):
        try:
            msg = web.play(self.hist, case, ctx)
        finally:
            self.clock().value = 0
        ctx.replays += 1
        for i in range(len(case)):
            ctx.state(case[: i + 1])
        return f"history {case}: {msg}" if msg else None

    # long documents that differ in one place only
    def long_doc(self, rows, fill, where):
        """`where`: the row whose name differs, or None."""
        rs = [tr(td(f"{i:x}h"), td(f"{'Other' if i == where else 'Usual'} Name {i}")) for i in range(rows)]
        t = figure("1", ["Value", "Definition"], rs)
        data = docs.htm(t)
        # filling between the rows and the end, the filling itself shows nowhere
        a, b = data.rsplit(b"</body>", 1) if where != "end" else docs.htm(t, docs.gap("2")).rsplit(b"<table>", 1)
        if where == "end":
            b = b"<table>" + b
        return a + b"<!--" + b"f" * fill + b"-->" + (b"</body>" if where != "end" else b"") + b

    def gen_long(self):
        n = Q(120, 1200)
        for pos in [*range(n), None]:
            for order in (0, 1):
                yield ((n, 0, pos), (n, 0, None), order, 1)
        for fill in (0, 4000, 4096, 65000, 65536, 131072, 1048576, 2500000):
            for a, b in ((0, 1), (0, None), (2, None), ("end", None), ("end", 0)):
                for order in (0, 1):
                    for pieces in (1, 2, 7):
                        yield ((3, fill, a), (3, fill, b), order, pieces)

    async def long(self, a, b, order, pieces, ctx):
        ds = [self.long_doc(*a), self.long_doc(*b)]
        if order:
            ds.reverse()
        async with web.Server() as s:
            known = {}
            for i, data in enumerate(ds):
                u = await s.upload("long.html", data, pieces=pieces).finish()
                ctx.step()
                msg, url = self.check_stream(u, "long.html", data)
                if msg:
                    return msg
                if url in known and known[url] != data:
                    return f"two documents are given the address {url}"
                known[url] = data
                for url, data in known.items():
                    msg = await self.check_report(s, url, "long.html", data)
                    if msg:
                        return f"after upload {i}: {msg}"
            return None

    def ev_long(self, case, ctx):
        msg = web.play(self.long, *case, ctx)
        ctx.replays += 1
        ctx.state(case)
        return f"{case}: {msg}" if msg else None

    # many documents
    def gen_many(self):
        for n in Q((2, 10, 40, 120), (10, 40, 120, 300, 1100)):
            for again in (None, "first", "all"):
                yield (n, again)

    async def many(self, n, again, ctx):
        ds = [("same name.html" if i % 2 else f"n{i}.html", docs.htm(docs.gap(str(i)), docs.value(f"V{i}"))) for i in range(n)]
        ds += {None: [], "first": ds[:1] * 3, "all": ds}[again]
        async with web.Server() as s:
            known = {}
            for i, (name, data) in enumerate(ds):
                u = await s.upload(name, data).finish()
                ctx.step()
                msg, url = self.check_stream(u, name, data)
                if msg:
                    return msg
                known[url] = (name, data)
                first = next(iter(known))
                for u in {url, first}:
                    msg = await self.check_report(s, u, *known[u])
                    if msg:
                        return f"after {i + 1} uploads: {msg}"
            if len(known) != n:
                return f"{n} documents have {len(known)} addresses"
            for _ in range(2):
                for url, d in known.items():
                    ctx.step()
                    msg = await self.check_report(s, url, *d)
                    if msg:
                        return f"after all {n} uploads: {msg}"
            return None

    def ev_many(self, case, ctx):
        msg = web.play(self.many, *case, ctx)
        ctx.replays += 1
        ctx.state(case)
        return f"{case}: {msg}" if msg else None

    # reading a long report while it is uploaded again
    def big(self):
        return "big.html", docs.htm(*[docs.gap(str(i)) for i in range(1, 30)])

    def gen_read(self):
        n = Q(4, 6)
        for what in ("json", "html", "report", "report?bundle=1"):
            for second in ("same", "other", "bad"):
                for idx in itertools.combinations(range(2 * n), n):
                    yield (what, second, tuple(0 if i in idx else 1 for i in range(2 * n)))

    async def reading(self, what, second, sched, ctx):
        name, data = self.big()
        async with web.Server() as s:
            u = await s.upload(name, data).finish()
            msg, url = self.check_stream(u, name, data)
            if msg:
                return msg
            h = url.rsplit("/", 1)[1]
            path = {"json": f"/json/{h}", "html": f"/html/{h}", "report": url, "report?bundle=1": url + "?bundle=1"}[what]
            before = (await s.get(path)).data
            r = s.req("GET", path, gated=True)
            other = {"same": (name, data), "other": self.docs["B as a"], "bad": self.docs["bad"]}[second]
            u2 = s.upload(*other, gated=True)
            if second == "same":
                # the interesting steps are the last ones
                for _ in range(30):
                    await u2.step()
            for i in sched:
                await (r, u2)[i].step()
                ctx.step()
            await r.finish()
            await u2.finish()
            if r.status != 200 or self.norm(r.data) != self.norm(before):
                return f"reading {what} while {second} is uploaded gives status {r.status}, {len(r.data)} instead of {len(before)} bytes"
            return await self.check_report(s, url, name, data)

    def norm(self, b):
        # the order of the figure numbers is not significant
        if b.lstrip().startswith(b"<!DOCTYPE html>") and b"const report" in b:
            c = web.report_consts(b)
            c["erroneous_figure_ids"] = sorted(c["erroneous_figure_ids"])
            return c
        return b

    def ev_read(self, case, ctx):
        msg = web.play(self.reading, *case, ctx)
        ctx.replays += 1
        pos = [0, 0]
        for i in case[2]:
            pos[i] += 1
            ctx.state((case[:2], tuple(pos)))
        return f"{case}: {msg}" if msg else None

    def spaces(self):
        self.prepare()
        return [
            Space("schedules", self.gen_sched, self.ev_sched, f"all interleavings of the messages of {Q('13', 'all')} pairs (and {Q(1, 3)} triples) of uploads out of {len(self.docs)}, for {Q(2, 'all')} of them with all reports read after every step", init=self.init),
            Space("histories", self.gen_hist, self.ev_hist, f"all sequences of 1..{Q(3,4)} of {len(self.OPS)} operations (uploads, disconnects, invalid and failing requests, ten years passing), all reports read after each", init=self.init),
            Space("reads", self.gen_read, self.ev_read, f"all interleavings of {Q(4,6)} messages of a read with as many of an upload of the same, another or a malformed document, for each address", init=self.init),
            Space("many", self.gen_many, self.ev_many, f"{Q('2, 10, 40, 120', '10, 40, 120, 300, 1100')} documents, some or all of them again, all reports read", init=self.init),
            Space("long documents", self.gen_long, self.ev_long, f"pairs of documents that differ in one place: every row of a list of {Q(120,1200)}, first and last places of documents of up to 2.5 MB, in both orders, in 1, 2 and 7 pieces", init=self.init),
        ]


# ---------------------------------------------------------------- W02
class W02(WCheck):
    ID = "W02"
    TECHNIQUE = "bounded exhaustive exploration of file names and endings of uploads with the whole surrounding directory and every file operation observed"
    NOTE = NOTE_W + " The workers run as an unprivileged user, so that an escaping write can reach only scratch files."

    def prepare(self):
        if hasattr(self, "docs"):
            return
        web.warm()
        self.docs = {
            "good": docs.htm(docs.gap("1")),
            "bad": b"<html><head>",
            "docx": dx.docx([docs.dtable("1", *docs.ROWS)]),
        }
        # modules and templates that are loaded late, before privileges are given up
        web.all_pages("a.html", self.docs["good"])

    def init(self):
        web.warm()
        self.root = scratch() / f"w02-{os.getpid()}"
        shutil.rmtree(self.root, ignore_errors=True)
        self.tmp = self.root / "a" / "b" / "tmp"
        self.tmp.mkdir(parents=True)
        cwd = self.root / "cwd"
        cwd.mkdir()
        self.home = {}
        for d in (self.root, self.root / "a", self.root / "a" / "b", cwd):
            for f in ("victim.html", "victim.docx", "x.html", "document.html"):
                (d / f).write_text("victim")
        os.chdir(cwd)
        for p in [self.root, *self.root.rglob("*")]:
            os.chown(p, 65534, 65534)
        os.environ["TMPDIR"] = str(self.tmp)
        tempfile.tempdir = None
        assert tempfile.gettempdir() == str(self.tmp)
        self.watching = False
        self.expect("other.html", self.docs["good"])
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
        self.ops = []
        self.watching = False
        self.mine = set()
        sys.addaudithook(self.hook)

    WRITES = {
        "os.remove": 1, "os.rename": 2, "os.mkdir": 1, "os.rmdir": 1, "os.truncate": 1, "os.link": 2, "os.symlink": 2, "os.chmod": 1, "os.chown": 1, "os.utime": 1, "shutil.rmtree": 1, "shutil.copyfile": 2, "shutil.move": 2,
    }

    def hook(self, event, args):
        if not self.watching:
            return
        if event == "open":
            path, mode, flags = args
            if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) and not isinstance(path, int):
                self.ops.append(("open", os.fsdecode(path)))
        elif event in ("tempfile.mkdtemp", "tempfile.mkstemp"):
            self.mine.add(os.path.realpath(args[0]))
        elif event in self.WRITES:
            n = self.WRITES[event]
            rel = args[:n] if event != "shutil.copyfile" else args[1:2]
            dirfd = args[{"os.remove": 1, "os.rmdir": 1, "os.mkdir": 2}[event]] if event in ("os.remove", "os.mkdir", "os.rmdir") else -1
            for a in rel:
                if isinstance(a, (str, bytes, os.PathLike)):
                    if isinstance(dirfd, int) and dirfd >= 0:
                        a = os.path.join(os.readlink(f"/proc/self/fd/{dirfd}"), os.fsdecode(a))
                    self.ops.append((event, os.path.abspath(os.fsdecode(a))))

    COMP = ["..", ".", "", "x", "tmp", "a b", "~", "%2e%2e", "victim", "document", "C:", "é"]
    PREFIX = ["", "/", "//", "ROOT/", "TMP/", "./", "../"]
    LAST = ["victim.html", "x.html", ".html", "..html", "document.html", "a/.html", "x.HTML", "x.html/", "x.html.", "x.html\x00.txt", "victim.docx", "x", "..", "."]
    SEP = ["/", "\\"]

    def gen_names(self):
        for n in range(0, Q(2, 3) + 1):
            for comps in itertools.product(self.COMP if n < 3 else self.COMP[:4], repeat=n):
                for pre in self.PREFIX:
                    for last in self.LAST if n < 2 else self.LAST[:4]:
                        for sep in self.SEP if n else "/":
                            yield (pre, comps, sep, last, "filename")
        for comps in itertools.product(["..", ".", "x"], repeat=2):
            for last in self.LAST:
                for form in ("filename*", "unquoted", "both", "name in field", "percent"):
                    yield ("", comps, "/", last, form)
        for k in (1, 2, 3, 4, 8, 20):
            for last in self.LAST:
                yield ("", ("..",) * k, "/", last, "filename")

    def name(self, pre, comps, sep, last):
        pre = pre.replace("ROOT", str(self.root)).replace("TMP", str(self.tmp))
        return pre + sep.join(list(comps) + [last])

    def dispo(self, name, form):
        from urllib.parse import quote

        n = name.replace('"', "%22")
        return {
            "filename": f'form-data; name="document"; filename="{n}"',
            "filename*": f"form-data; name=\"document\"; filename*=UTF-8''{quote(n)}",
            "unquoted": f"form-data; name=document; filename={n}",
            "both": f"form-data; name=\"document\"; filename=\"ok.html\"; filename*=UTF-8''{quote(n)}",
            "name in field": f'form-data; name="document"; filename="{n}"; filename="{n}"',
            "percent": f'form-data; name="document"; filename="{quote(n, safe="")}"',
        }[form]

    def surroundings(self):
        out = {}
        for p in sorted(self.root.rglob("*")):
            if self.tmp in p.parents:
                continue
            st = p.lstat()
            out[str(p)] = (st.st_ino, st.st_mode, st.st_size, st.st_mtime_ns if not p.is_dir() else 0)
        return out

    def begin(self):
        self.before = self.surroundings()
        self.ops.clear()
        self.mine.clear()
        self.watching = True

    def end(self, what):
        self.watching = False
        if self.surroundings() != self.before:
            a, b = self.before, self.surroundings()
            return f"files outside changed: {[k for k in set(a) | set(b) if a.get(k) != b.get(k)]} for {what}"
        for op, path in self.ops:
            real = os.path.realpath(path)
            if path.startswith(("/dev/", "/proc/")):
                continue
            if not any(real == m or real.startswith(m + "/") for m in self.mine):
                return f"{op} on {path}, outside the temporary directories of the server, for {what}"
        return None

    def leftovers(self, cache):
        gc.collect()
        return [p.name for p in self.tmp.iterdir() if os.path.realpath(p) != cache]

    async def one(self, name, form, doc, ending, what):
        async with web.Server() as s:
            cache = os.path.realpath(next(iter(self.tmp.iterdir())))
            raw = self.dispo(name, form) if form else None
            u = s.upload(name, self.docs[doc], raw=raw, gated=ending is not None)
            if ending is None:
                await u.finish()
            else:
                how, k = ending
                for _ in range(k):
                    await u.step()
                if how == "disconnect":
                    await u.disconnect()
                else:
                    u.broken = how == "broken"
                    await u.finish()
            status = u.status
            del u
            left = self.leftovers(cache)
            if left:
                return f"{left} remain after the response has ended for {what}"
            names = [p.name for p in Path(cache).rglob("*")]
            strange = [n for n in names if not re.fullmatch(r"[0-9a-f]{32}\.(json|html)", n)]
            if strange:
                return f"{strange} in the report directory for {what}"
            return status

    def ev_names(self, case, ctx):
        pre, comps, sep, last, form = case
        name = self.name(pre, comps, sep, last)
        try:
            self.dispo(name, form).encode("utf-8")
        except UnicodeEncodeError:
            return None
        self.begin()
        doc = "docx" if "docx" in last else "good"
        res = web.play(self.one, name, form, doc, None, case)
        ctx.replays += 1
        ctx.step()
        ctx.state(case)
        msg = self.end(case)
        if msg is None and isinstance(res, str):
            msg = res
        ctx.count(f"status {res}" if not isinstance(res, str) else "violations")
        if msg is None and res not in (200, 422, 400):
            return f"status {res} for {case}"
        return msg

    def gen_ends(self):
        for name in ("a.html", "../victim.html", "/x.html", "ROOT/victim.html", "a.docx", "../../x.docx", ".html", "é ☃.html"):
            for doc in self.docs:
                for how in ("disconnect", "broken", "end"):
                    for k in range(0, 9):
                        for second in (False, True):
                            yield (name, doc, how, k, second)

    def ev_ends(self, case, ctx):
        name, doc, how, k, second = case
        name = name.replace("ROOT", str(self.root))
        self.begin()
        res = web.play(self.two if second else self.one, name, None, doc, (how, k), case)
        ctx.replays += 1
        ctx.step(k + 1)
        ctx.state(case)
        msg = self.end(case)
        if msg is None and isinstance(res, str):
            msg = res
        return msg

    async def two(self, name, form, doc, ending, what):
        """a second upload runs beside it and must keep its directory."""
        how, k = ending
        async with web.Server() as s:
            cache = os.path.realpath(next(iter(self.tmp.iterdir())))
            v = s.upload("other.html", self.docs["good"], gated=True)
            for _ in range(3):
                await v.step()
            u = s.upload(name, self.docs[doc], gated=True)
            for _ in range(k):
                await u.step()
            if how == "disconnect":
                await u.disconnect()
            else:
                u.broken = how == "broken"
                await u.finish()
            del u
            await v.finish()
            msg, url = self.check_stream(v, "other.html", self.docs["good"])
            if msg:
                return msg + f" for {what}"
            left = self.leftovers(cache)
            if left:
                return f"{left} remain for {what}"
            return None

    def expect(self, name, data):
        # outside the watch
        w, self.watching = self.watching, False
        try:
            return super().expect(name, data)
        finally:
            self.watching = w

    def gen_srv(self):
        for n in range(0, 4):
            yield n

    def ev_srv(self, n, ctx):
        """nothing of the server is left when it has stopped."""

        async def run():
            async with web.Server() as s:
                for i in range(n):
                    await s.upload(f"a{i}.html", docs.htm(docs.gap(str(i)))).finish()

        self.begin()
        web.play(run)
        ctx.step(n)
        ctx.state(n)
        return self.end(n)

    def gen_guard(self):
        yield "guard"

    def ev_guard(self, case, ctx):
        """the observer must see what it shall see."""
        for how in range(2):
            self.begin()
            if how == 0:
                (self.root / "a" / "victim.html").write_text("changed")
            else:
                d = tempfile.mkdtemp()
                Path(d, "..", "x").write_text("y")
                os.unlink(os.path.join(d, "..", "x"))
                os.rmdir(d)
            if not self.end("guard"):
                raise RuntimeError("the observer is blind")
        ctx.state(case)
        return None

    def spaces(self):
        self.prepare()
        return [
            Space("guard", self.gen_guard, self.ev_guard, "the observer sees writes outside", workers=1, init=self.init),
            Space("names", self.gen_names, self.ev_names, f"all names of 0..{Q(2,3)} of {len(self.COMP)} components, {len(self.PREFIX)} prefixes, {len(self.LAST)} last components, 2 separators; 5 other ways to write the name; up to 20 levels up", init=self.init),
            Space("endings", self.gen_ends, self.ev_ends, "8 names x 3 documents ended by disconnect, a broken connection or completion at each of 9 points, alone and beside another upload", init=self.init),
            Space("server", self.gen_srv, self.ev_srv, "0..3 uploads and shutdown", init=self.init),
        ]


# ---------------------------------------------------------------- W03
class W03(WCheck):
    ID = "W03"
    TECHNIQUE = "bounded exhaustive exploration of documents through the real upload handler, with every delivered message checked"

    def figures(self):
        from .checks_r import R05

        return R05.HFIG, R05.DFIG, R05()

    NAMES = {"html": ["a.html", "a.b.html", "A B é.html", ".x.html"], "docx": ["a.docx", "x.html.docx"]}

    def gen(self):
        H, D, _ = self.figures()
        for s in sequences(list(H), 0, Q(3, 4)):
            yield ("html", s, 0, 1)
        for s in sequences(D, 0, Q(4, 5)):
            yield ("docx", s, 0, 1)
        for kind, names in self.NAMES.items():
            for i in range(len(names)):
                for s in sequences(["good", "nest", "bad", "other"], 0, 2):
                    for pieces in (1, 2, 3, 7):
                        yield (kind, s, i, pieces)
        for n in Q((5, 10, 40, 64, 99, 100, 101, 130, 200, 257), (5, 10, 40, 64, 99, 100, 101, 130, 200, 257, 513, 1030)):
            yield ("html", ("good",) * n, 0, 1)
            yield ("docx", ("good",) * n, 0, 1)
            for at in (0, n // 2, n - 1):
                for k in ("nest", "bad", "other"):
                    seq = ("good",) * at + (k,) + ("good",) * (n - 1 - at)
                    yield ("html", seq, 0, 1)
        for n in Q((500, 501, 512, 513, 999, 1000, 1001, 1025, 2049), (2000, 2001, 2049, 4097)):
            yield ("html", ("good",) * n, 0, 1)

    def build(self, kind, seq):
        H, D, r = self.figures()
        if kind == "html":
            return docs.htm(*[H[k](str(i + 1)) for i, k in enumerate(seq)])
        return dx.docx([r.dfig(k, i + 1) for i, k in enumerate(seq)])

    async def one(self, name, data, pieces, ctx):
        async with web.Server() as s:
            u = s.upload(name, data, pieces=pieces, gated=True, held=True)
            n = 0
            while await u.step():
                n += 1
                ctx.step()
                early = [m for m in u.messages[1:] if b"report-completed" in m.get("body", b"")]
                if early:
                    # its report can be fetched at once
                    url = json.loads(early[0]["body"][6:])["url"]
                    msg = await self.check_report(s, url, name, data)
                    if msg:
                        return f"at the completion event: {msg}"
                if n > 50000:
                    return "no end of the response"
            msg, url = self.check_stream(u, name, data)
            if msg:
                return msg
            if url:
                if u.headers.get("content-type", "").split(";")[0] != "text/event-stream":
                    return f"content type {u.headers.get('content-type')}"
                return await self.check_report(s, url, name, data, bundle=True)
            h = hashlib.md5(data).hexdigest()
            for p in ("report", "json", "html"):
                r = await s.get(f"/{p}/{h}")
                if r.status != 404:
                    return f"/{p}/ of a document that cannot be processed has status {r.status}"
            return None

    def ev(self, case, ctx):
        kind, seq, i, pieces = case
        data = self.build(kind, seq)
        msg = web.play(self.one, self.NAMES[kind][i], data, pieces, ctx)
        ctx.replays += 1
        ctx.state(case)
        return f"{case}: {msg}" if msg else None

    # documents that cannot be processed, cut or damaged anywhere
    def gen_cut(self):
        for name, data in self.damaged():
            for k in range(0, len(data), Q(3, 1)):
                yield (name, "cut", k)
        for name, data in self.damaged():
            for k in range(0, len(data), Q(9, 2)):
                yield (name, "flip", k)
        for name in ("m1.html", "m2.docx", "d6.docx"):
            yield (name, "whole", 0)

    def damaged(self):
        if not hasattr(self, "_dam"):
            self._dam = [("a.html", docs.htm(docs.gap("1"))), ("a.docx", dx.docx([docs.dtable("1", ("0", "Field One (FO): x"))]))]
        return self._dam

    def ev_cut(self, case, ctx):
        name, how, k = case
        data = docs.state_docs()[name] if how == "whole" else dict(self.damaged())[name]
        if how == "cut":
            data = data[:k]
        elif how == "flip":
            data = data[:k] + bytes([data[k] ^ 0x15]) + data[k + 1 :]
        msg = web.play(self.one, name, data, 1, ctx)
        ctx.replays += 1
        ctx.state(case)
        ctx.count("processed" if self.expect(name, data)[3] is None else "refused")
        return f"{case}: {msg}" if msg else None

    def spaces(self):
        self.init()
        return [
            Space("documents", self.gen, self.ev, f"all sequences of 0..{Q(3,4)} HTML figures of 10 kinds and 0..{Q(4,5)} .docx elements of 5 kinds; names and body splits; up to {Q(2049,4097)} figures", init=self.init),
            Space("damage", self.gen_cut, self.ev_cut, f"two documents cut at every {Q('third ', '')}byte and with every {Q('ninth', 'second')} byte changed", init=self.init),
        ]


# ---------------------------------------------------------------- W04
class W04(WCheck):
    ID = "W04"
    TECHNIQUE = "bounded exhaustive exploration of refused requests at every point of histories of uploads on the real application"

    def prepare(self):
        if hasattr(self, "docs"):
            return
        web.warm()
        self.docs = {"A": ("a.html", docs.htm(docs.gap("1"))), "D": ("a.docx", dx.docx([docs.dtable("1", *docs.ROWS)])), "bad": ("a.html", b"<html>")}
        self.hash = {k: hashlib.md5(v[1]).hexdigest() for k, v in self.docs.items()}

    ADDR = ["report", "json", "html"]

    def hashes(self):
        """hash texts that are not reports; h: of an uploaded document."""
        h = self.hash["A"]
        return {
            "zeros": "0" * 32,
            "other": hashlib.md5(b"x").hexdigest(),
            "bad": self.hash["bad"],
            "upper": h.upper(),
            "short": h[:-1],
            "long": h + "0",
            "ext": h + ".json",
            "ext2": h + ".html",
            "space": h + "%20",
            "space2": " " + h,
            "nul": h + "\x00",
            "dots": "..",
            "dot": ".",
            "enc": "..%2f..%2fetc%2fpasswd",
            "back": "..\\..\\x",
            "text": "hello",
            "unicode": "☃",
            "huge": "a" * 5000,
            "prefix": "x" + h,
            "percent": "%",
            "none": "None",
            "semicolon": h + ";",
            "glob": "*",
        }

    def bads(self):
        out = [("get", a, k) for a in self.ADDR for k in self.hashes()]
        out += [("get bundle", "report", k) for k in ("zeros", "ext", "upper")]
        out += [("path", p, "") for p in ("/report", "/report/", "/json/", "/html/", "/report/a/b", "/parse/", "/nothing", "/json/../report/x", "/static/../app.py", "/static/nothing.css")]
        out += [("post", v, "") for v in self.posts()]
        return out

    def posts(self):
        return [
            "no part", "other field", "upper field", "empty body", "not multipart", "no boundary", "field without file", "no accept", "html accept", "json accept", "accept q=0", "accept but q=0", "no name", "empty name", "txt", "json", "no suffix", "upper suffix", "docx.txt",
            "dot", "dotdot", "only html", "too large", "too large stream", "truncated", "wrong method get", "wrong method put", "urlencoded", "dir name",
        ]

    def request(self, s, v):
        name, data = "b.html", docs.htm(docs.value("5"))
        SSE, M = web.SSE, web.MULTI
        up = lambda n=name, **kw: s.upload(n, data, **kw)
        post = lambda hd, body: s.req("POST", "/parse", hd + (("content-length", str(len(body))),), body)
        mp = web.multipart(name, data)
        field = f'--{web.BOUNDARY}\r\nContent-Disposition: form-data; name="document"\r\n\r\nvalue\r\n--{web.BOUNDARY}--\r\n'.encode()
        return {
            "no part": lambda: post((M, SSE), f"--{web.BOUNDARY}--\r\n".encode()),
            "other field": lambda: up(field="file"),
            "upper field": lambda: up(field="Document"),
            "empty body": lambda: post((M, SSE), b""),
            "not multipart": lambda: post((("content-type", "text/html"), SSE), data),
            "no boundary": lambda: post((("content-type", "multipart/form-data"), SSE), mp),
            "field without file": lambda: post((M, SSE), field),
            "no accept": lambda: up(headers=(M,)),
            "html accept": lambda: up(headers=(M, ("accept", "text/html"))),
            "json accept": lambda: up(headers=(M, ("accept", "application/json, text/plain;q=0.5"))),
            "accept q=0": lambda: up(headers=(M, ("accept", "text/event-stream;q=0"))),
            "accept but q=0": lambda: up(headers=(M, ("accept", "*/*;q=0.8, text/event-stream;q=0.0, text/html"))),
            "no name": lambda: up(raw='form-data; name="document"'),
            "empty name": lambda: up(""),
            "txt": lambda: up("a.txt"),
            "json": lambda: up("a.json"),
            "no suffix": lambda: up("html"),
            "upper suffix": lambda: up("a.HTML"),
            "docx.txt": lambda: up("a.docx.txt"),
            "dot": lambda: up("."),
            "dotdot": lambda: up(".."),
            "only html": lambda: up(".html"),
            "dir name": lambda: up("a.html/b"),
            "too large": lambda: s.req("POST", "/parse", (M, SSE, ("content-length", str(51 * 1024 * 1024))), mp),
            "too large stream": lambda: s.req("POST", "/parse", (M, SSE), web.multipart(name, bytes(51 * 1024 * 1024)), pieces=20),
            "truncated": lambda: post((M, SSE), mp[:-30]),
            "wrong method get": lambda: s.req("GET", "/parse", (SSE,)),
            "wrong method put": lambda: s.req("PUT", "/parse", (M, SSE), mp),
            "urlencoded": lambda: post((("content-type", "application/x-www-form-urlencoded"), SSE), b"document=x.html"),
        }[v]()

    def may_succeed(self, v):
        # malformed beyond the classes of the property
        return v in ("truncated", "upper suffix")

    async def send(self, s, b):
        what, v, k = b
        if what == "post":
            r = await self.request(s, v).finish()
        elif what == "path":
            r = await s.get(v)
        else:
            r = await s.get(f"/{v}/{self.hashes()[k]}" + ("?bundle=1" if "bundle" in what else ""))
        if r.error is not None:
            return f"{b} ends with {r.error!r}"
        if what == "get" or what == "get bundle":
            if r.status != 404:
                return f"{b} has status {r.status}"
        elif what == "post" and self.may_succeed(v):
            pass
        elif r.status is None or not 400 <= r.status < 500:
            return f"{b} has status {r.status}"
        return None

    PRE = [(), ("A",), ("D",), ("A", "D"), ("bad",), ("bad", "A")]

    def gen(self):
        B = self.bads()
        for pre in self.PRE:
            for b in B:
                if b[1] == "too large stream" and pre != ("A",):
                    continue
                yield (pre, (b,), ())
        cheap = [b for b in B if b[1] not in ("too large stream",)]
        reps = [b for b in cheap if b[0] == "post" or b[2] in ("zeros", "ext", "upper", "bad") or b[0] == "path"]
        for b1 in reps:
            for b2 in reps:
                if core.THOROUGH or (b1[0], b1[1]) != (b2[0], b2[1]):
                    yield (("A",), (b1, b2), ("D",))

    async def run(self, pre, bads, post, ctx):
        async with web.Server() as s:
            known = {}

            async def up(k):
                u = await s.upload(*self.docs[k]).finish()
                msg, url = self.check_stream(u, *self.docs[k])
                if url:
                    known[url] = k
                return msg

            async def look():
                for url, k in known.items():
                    msg = await self.check_report(s, url, *self.docs[k])
                    if msg:
                        return msg
                for k, h in self.hash.items():
                    if f"/report/{h}" not in known:
                        r = await s.get(f"/json/{h}")
                        if r.status != 404:
                            return f"{k}, not uploaded, has status {r.status}"

            for k in pre:
                msg = await up(k)
                if msg:
                    return msg
            for b in bads:
                ctx.step()
                msg = await self.send(s, b) or await look()
                if msg:
                    return f"{b}: {msg}"
            for k in post:
                msg = await up(k)
                if msg:
                    return msg
            return await look()

    def ev(self, case, ctx):
        if any(b[0] == "get" and b[2] == "bad" for b in case[1]) and False:
            return None
        msg = web.play(self.run, *case, ctx)
        ctx.replays += 1
        ctx.state(case)
        return f"{case}: {msg}" if msg else None

    # refused requests at every point of an upload in progress
    def gen_mid(self):
        B = [b for b in self.bads() if b[1] not in ("too large stream",)]
        for k in ("A", "D"):
            for at in range(0, 7):
                for b in B:
                    yield (k, at, b)

    async def mid(self, k, at, b, ctx):
        async with web.Server() as s:
            u = s.upload(*self.docs[k], gated=True)
            for _ in range(at):
                await u.step()
                ctx.step()
            done = any(b"report-completed" in m.get("body", b"") for m in u.messages[1:])
            msg = await self.send(s, b)
            if msg:
                return msg
            await u.finish()
            msg, url = self.check_stream(u, *self.docs[k])
            return msg or await self.check_report(s, url, *self.docs[k])

    def ev_mid(self, case, ctx):
        msg = web.play(self.mid, *case, ctx)
        ctx.replays += 1
        ctx.state(case)
        return f"{case}: {msg}" if msg else None

    def spaces(self):
        self.prepare()
        n = len(self.bads())
        return [
            Space("histories", self.gen, self.ev, f"all {n} refused requests after each of {len(self.PRE)} histories, all ordered pairs of a representative subset, all addresses read after each", init=self.init),
            Space("during uploads", self.gen_mid, self.ev_mid, f"all {n - 1} refused requests at each of 7 points of two uploads", init=self.init),
        ]


# ---------------------------------------------------------------- W05
class Shape(HTMLParser):
    """structure of a page: tags with attributes, and the texts outside scripts and styles."""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.shape, self.raw, self.links, self.buf = [], [], [], None

    def handle_starttag(self, tag, attrs):
        self.shape.append(("<", tag, tuple(k for k, _ in attrs)))
        for k, v in attrs:
            if k in ("src", "href"):
                self.links.append((tag, k, v))

    def handle_endtag(self, tag):
        self.shape.append((">", tag))

    def handle_comment(self, data):
        self.shape.append(("!", "comment"))

    def handle_data(self, data):
        pass


def shape(page):
    p = Shape()
    p.feed(page.decode("utf-8"))
    p.close()
    return p


class W05(WCheck):
    ID = "W05"
    TECHNIQUE = "bounded exhaustive exploration of documents through upload and report page, with the page's structure and data compared with what the document calls for"

    TEXTS = [
        "plain", "</script>", "</SCRIPT >", "<!--", "-->", "<script>alert(1)</script>", "'\"", "\\", "\\u003c", "&lt;", "&amp;quot;", "<b>", "]]>", "{{ 7*7 }}", "{% raw %}", "\u2028", "\u2029", "é☃\U0001f600", "`${x}`", ";//", "*/",
        "</style>", "<img src=x onerror=y>", "\t", "$&", "</table>", "<?php", "\\n", "x' y", "\x7f", "\u00a0",
    ]

    def page_ok(self, page, js, ht, bundle, base):
        c = web.report_consts(page)
        if c["report"] != js:
            return f"the page embeds {str(c['report'])[:500]}, the document is {str(js)[:500]}"
        from lxml import etree

        root = from_lxml(etree.fromstring(ht, etree.XMLParser(resolve_entities=False)))
        body = kids(root, "body")[0]
        want_ids = {l["fig"].split("_")[0] for l in js["meta"]["lint"]}
        tables = {}
        for t in kids(body, "table"):
            if "id" in t[1]:
                tables.setdefault(t[1]["id"], t)
        want = {i: tables[i] for i in want_ids if i in tables}
        got = c["report_html"]
        if set(got) != set(want):
            return f"figures shown: {sorted(got)}, expected {sorted(want)}"
        for i, t in want.items():
            if not web.same_figure(got[i], t):
                return f"figure {i} is shown as {got[i][:600]!r}, the document has {ser(t)[:600]!r}"
        if sorted(c["erroneous_figure_ids"]) != sorted(want_ids):
            return f"figures with findings {sorted(c['erroneous_figure_ids'])}, expected {sorted(want_ids)}"
        sh = shape(page)
        if sh.shape != base.shape:
            i = next((i for i, (a, b) in enumerate(zip(sh.shape, base.shape)) if a != b), -1)
            return f"the structure of the page depends on the document, from element {i}: {sh.shape[i:i+4]} instead of {base.shape[i:i+4]}"
        if bundle:
            # the icon font comes from elsewhere in both forms of the page
            bad = [l for l in sh.links if l[0] in ("script", "link", "img") and not (l[0] == "link" and (l[2] or "").startswith("https://"))]
            if bad:
                return f"the bundled page refers to {bad}"
            for f, src in self.static.items():
                if src not in page:
                    return f"the bundled page does not contain {f}"
        return None

    def init(self):
        mod = web.warm()
        if not hasattr(self, "base"):
            data = docs.htm(docs.good("1"))
            _, out = web.all_pages("a.html", data)
            self.base = {("bundle" in k): shape(v) for k, v in out.items() if k.startswith("/report")}
            assert len(self.base[False].shape) > 50
            # what the page refers to on the server
            static = Path(mod.app.static_folder)
            names = [l[2].split("?")[0] for l in self.base[False].links if l[0] in ("script", "link") and (l[2] or "").startswith("/")]
            self.static = {n: (static / Path(n).name).read_bytes() for n in names}

    async def one(self, name, data):
        async with web.Server() as s:
            u = await s.upload(name, data).finish()
            msg, url = self.check_stream(u, name, data)
            if msg or not url:
                return msg or "the document was not accepted"
            _, js, ht, _ = self.expect(name, data)
            for b in (False, True):
                r = await s.get(url + ("?bundle=1" if b else ""))
                if r.status != 200:
                    return f"report has status {r.status} {r.error!r}"
                try:
                    msg = self.page_ok(r.data, js, ht, b, self.base[b])
                except (AssertionError, ValueError) as e:
                    msg = f"the page's data cannot be read: {e}"
                if msg:
                    return msg + (" (bundled)" if b else "")
            return None

    def judge(self, name, data, case, ctx):
        msg = web.play(self.one, name, data)
        ctx.replays += 1
        ctx.step()
        ctx.state(case)
        return f"{case}: {msg}" if msg else None

    # figures
    KINDS = ["good", "gap", "nested gap", "deep gap", "skipped", "numberless", "no id", "other id", "prefix", "empty", "quote"]

    def fig(self, k, n):
        T = lambda t, **a: (t[0], {**t[1], **a}, t[2])
        sub = lambda *rows: nested(["Bits", "Description"], list(rows))
        return {
            "good": lambda: T(docs.good(n), id=n),
            "gap": lambda: T(docs.gap(n), id=n),
            "nested gap": lambda: T(docs.bits(n, tr(td("9"), td("Outer One (OUT): o", sub(std_row("4"), std_row("2", 1))))), id=n),
            "deep gap": lambda: T(docs.bits(n, tr(td("9"), td("Outer One (OUT): o", sub(tr(td("8"), td("In Two (INT): o", sub(std_row("4"), std_row("2", 1)))))))), id=n),
            "skipped": lambda: T(docs.skipped(n), id=n),
            "numberless": lambda: T(docs.numberless(), id="FIG"),
            "no id": lambda: docs.gap(n),
            "other id": lambda: T(docs.gap(n), id="x" + n),
            "prefix": lambda: T(docs.gap(n + "1"), id=n + "1"),
            "empty": lambda: table([], id=n),
            "quote": lambda: T(docs.gap(n + "'\"<&]"), id=n + "'\"<&]"),
        }[k]()

    def gen_figs(self):
        yield from sequences(self.KINDS, 0, Q(3, 4))

    def ev_figs(self, case, ctx):
        if case.count("numberless") and "FIG" in case:
            return None
        T = [self.fig(k, str(i + 1)) for i, k in enumerate(case)]
        if "numberless" in case:
            # a table must not have the id that numberless figures are reported under
            T = [(t[0], {k: v for k, v in t[1].items() if v != "FIG"}, t[2]) for t in T]
        return self.judge("a.html", docs.htm(*T), case, ctx)

    # many figures, one or all of them with findings
    def gen_many(self):
        for n in Q((12, 101), (12, 101, 300)):
            for at in [*range(0, n, 1 if n == 12 else 9), None, "every other"]:
                for k in ("gap", "nested gap", "no id"):
                    yield (n, at, k)

    def ev_many(self, case, ctx):
        n, at, k = case
        ks = [k if at is None or i == at or (at == "every other" and i % 2) else "good" for i in range(n)]
        return self.judge("a.html", docs.htm(*[self.fig(x, str(i + 1)) for i, x in enumerate(ks)]), case, ctx)

    # neighbours: ids that contain each other
    IDS = ["1", "10", "11", "101", "01", "1.1", "1-1", "A1", "1a", "a", "A"]

    def gen_ids(self):
        for ids in itertools.permutations(self.IDS, 2):
            for good in itertools.product((True, False), repeat=2):
                yield ids, good
        for ids in itertools.permutations(self.IDS[: Q(5, 8)], 3):
            for good in itertools.product((True, False), repeat=3):
                yield ids, good

    def ev_ids(self, case, ctx):
        ids, good = case
        T = []
        for i, g in zip(ids, good):
            f = docs.good(i) if g else docs.gap(i)
            T.append((f[0], {"id": i}, f[2]))
        return self.judge("a.html", docs.htm(*T), case, ctx)

    # special characters anywhere
    PLACES = ["title", "label", "brief", "spec", "revision", "header", "attr", "value"]

    def gen_texts(self):
        for t in self.TEXTS:
            for place in self.PLACES:
                yield ("html", place, t)
        for a, b in itertools.product(self.TEXTS, repeat=2):
            yield ("html", "title", a + b)
            if core.THOROUGH:
                for place in self.PLACES[1:]:
                    yield ("html", place, a + b)
        for t in self.TEXTS:
            for place in ("title", "brief", "spec"):
                yield ("docx", place, t)

    def ev_texts(self, case, ctx):
        kind, place, t = case
        at = lambda p: t if place == p else ""
        if "\x7f" in t and False:
            return None
        if kind == "docx":
            data = dx.docx(
                [dx.tbl(dx.row(dx.cell(f"Figure 1: T{at('title')}", span=2)), dx.row(dx.cell("Bits"), dx.cell("Description")), dx.row(dx.cell("7:4"), dx.cell(f"Field One (FO): x{at('brief')}")), dx.row(dx.cell("1:0"), dx.cell("Field Two (FT): y")))],
                header=dx.para(dx.run(f"Spec{at('spec')}, "), dx.run("Revision 1.0")),
            )
            return self.judge("a.docx", data, case, ctx)
        f = figure(
            "1",
            ["Bits", f"Description"],
            [tr(td("7:4"), td(f"Field One{at('label')} (FO): x{at('brief')}")), tr(td("1:0"), td("Field Two (FT): y"))],
            title=f"T{at('title')}",
        )
        f = (f[0], {"id": "1", **({"title": t} if place == "attr" else {})}, f[2])
        tabs = [f]
        if place == "header":
            tabs.append(figure("2", [f"Thing{t}", "Other"], [tr(td("a"), td("b"))]))
        if place == "value":
            tabs.append(figure("3", ["Value", "Description"], [tr(td(f"0{t}"), td("Alpha"))]))
        data = html(document(tabs, "Spec" + at("spec"), "1.0" + at("revision"))).encode("utf-8")
        return self.judge("a.html", data, case, ctx)

    # contents of a cell, as a browser takes them
    PIECES = {
        "text": p("one two"), "runs": p("Res", "er", "ved"), "empty p": E("p"), "no text": p(""), "empty b": E("p", E("b"), E("span", "after")),
        "anchor": E("p", E("a", id="x1"), E("span", "in"), E("b", "fat"), " end"), "break": E("p", E("span", "one"), E("br"), E("span", "two")), "link": E("p", E("a", "see", href="#fig 1é")),
        "list": E("ul", E("li", p("i"), E("ul", E("li", p("j")))), E("li", p("k"))), "empty list": E("ul"), "empty item": E("ul", E("li"), E("li", p("k"))),
        "style": E("p", E("span", "re", style="color: #FF0000"), E("span", "d", style="font-weight: bold"), E("i", "ä<&>")), "bare": "text", "table": nested(["Thing", "Other"], [tr(td("a"), E("td"))]), "empty table": table([]),
        "nbsp": p("\u00a0"), "blanks": E("p", E("span", "a "), E("span", " b"), E("b", " "), "c"), "div": E("div", p("x"), E("div")), "sup": E("p", "2", E("sup", "n"), E("sub")),
    }

    def gen_markup(self):
        for n in (1, 2) if not core.THOROUGH else (1, 2, 3):
            yield from itertools.product(self.PIECES, repeat=n)

    def ev_markup(self, case, ctx):
        cell = E("td", *[self.PIECES[k] for k in case])
        f = docs.bits("1", std_row("7:4"), tr(td("1:0"), E("td", p("Field Two (FT): y"), *cell[2])))
        f = (f[0], {"id": "1"}, f[2] + [tr(E("td"), cell), tr(cell, E("td"))])
        g = docs.good("2")
        return self.judge("a.html", docs.htm(f, (g[0], {"id": "2"}, g[2])), case, ctx)

    # through .docx: ids are set by stage 1
    def gen_docx(self):
        yield from sequences(["good", "gap", "none", "other", "nest"], 1, Q(3, 4))

    def ev_docx(self, case, ctx):
        from .checks_r import R05

        blocks = []
        for i, k in enumerate(case):
            if k == "gap":
                blocks.append(docs.dtable(str(i + 1), ("7:4", "Field One (FO): x"), ("1:0", "Field Two (FT): y")))
            else:
                blocks.append(R05().dfig(k, i + 1))
        return self.judge("a.docx", dx.docx(blocks), case, ctx)

    def spaces(self):
        web.warm()
        return [
            Space("figures", self.gen_figs, self.ev_figs, f"all sequences of 0..{Q(3,4)} figures of {len(self.KINDS)} kinds", init=self.init),
            Space("many", self.gen_many, self.ev_many, f"{Q('12 and 101', '12, 101 and 300')} figures, one at each place, every other or all with findings", init=self.init),
            Space("identifiers", self.gen_ids, self.ev_ids, f"all ordered pairs of {len(self.IDS)} and triples of {Q(5,8)} identifiers that contain each other, with and without findings", init=self.init),
            Space("markup", self.gen_markup, self.ev_markup, f"all sequences of 1..{Q(2, 3)} of {len(self.PIECES)} kinds of paragraphs, lists and inline markup in cells, empty elements among them", init=self.init),
            Space("texts", self.gen_texts, self.ev_texts, f"all of {len(self.TEXTS)} special texts at {len(self.PLACES)} places, and all pairs of them" + Q(" in the title", ""), init=self.init),
            Space("docx", self.gen_docx, self.ev_docx, f"all sequences of 1..{Q(3,4)} .docx figures of 5 kinds", init=self.init),
        ]
