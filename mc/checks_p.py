"""W06, W07: the pages of the web application, run in a small browser."""
import html as htmllib
import itertools
import json
import re
from pathlib import Path

from . import core, docs, web
from . import docx as dx
from .browser import Browser, covered, label, largest, match, nodes, norm, texts
from .checks_w import W05, WCheck
from .core import Space
from .tree import E, document, figure, from_lxml, html, kids, nested, table, td, th, title_row, tr
from .util import Q, sequences, std_row

NOTE_P = (
    "The pages are run as they are, with the scripts the server supplies, in a small browser of our own (mc/page.js: DOM, events,"
    " fetch); what it shows is judged by texts, not by layout."
)


def leaves(v):
    """the texts of which a value in the context of an entry consists."""
    if isinstance(v, dict):
        return [x for k, w in v.items() for x in [k, *leaves(w)]]
    if isinstance(v, list):
        return [x for w in v for x in leaves(w)]
    return [] if v is None else [str(v)]


class PCheck(WCheck):
    NOTE = NOTE_P

    def init(self):
        web.warm()
        self.files = {}

    async def page(self, s, url):
        """a page and the scripts it refers to."""
        r = await s.get(url)
        assert r.status == 200 and not r.error, f"{url} has status {r.status} {r.error!r}"
        txt = r.data.decode("utf-8")
        for src in re.findall(r'<script[^>]*\ssrc="(/[^"]*)"', txt):
            src = src.split("?")[0]
            if src not in self.files:
                f = await s.get(src)
                assert f.status == 200, f"script {src} has status {f.status}"
                self.files[src] = f.data.decode("utf-8")
        return txt


class W06(PCheck):
    ID = "W06"
    TECHNIQUE = (
        "explicit-state exploration of the real report page: all sequences of selecting, deselecting and clearing up to a depth, on"
        " bounded exhaustive sets of results"
    )
    ASSUMPTIONS = ("figure numbers contain no underscore", "the page is run in a DOM of our own, not in a browser")

    # -- what is shown
    def summary(self, shot, lint):
        codes = {}
        for l in lint:
            codes.setdefault(l["code"], [norm(l["msg"]), 0])[1] += 1
        rows = {}
        other = []
        for n in nodes(shot):
            if n["t"] == "tr":
                t = texts(n)
                c = [x for x in t if x in self.published]
                if len(c) > 1 or (c and c[0] in rows):
                    return None, f"row {t} of the summary, after {list(rows)}"
                if c:
                    rows[c[0]] = (n, t)
                else:
                    other.append(t)
        if set(rows) != set(codes):
            return None, f"the summary has rows for {sorted(rows)}, the result has entries with {sorted(codes)}"
        for c, (msg, k) in codes.items():
            if not covered([c, msg, str(k)], rows[c][1]):
                return None, f"the row of {c} says {rows[c][1]}, the result has {k} with message {msg!r}"
        if not any(str(len(lint)) in t for t in other):
            return None, f"the total {len(lint)} is not in {other}"
        return {c: n for c, (n, t) in rows.items()}, None

    def figures(self, shot, lint, tables):
        by = {}
        for l in lint:
            by.setdefault(l["fig"], []).append(l)
        heads = {norm(f"Figure {f}"): f for f in by}
        found = largest(shot["body"], lambda t: t in heads) if heads else []
        got = [heads[h] for h, _ in found]
        if sorted(got) != sorted(by):
            return f"figures {got} are shown, expected {sorted(by)}"
        allcodes = [x for n in shot["body"] for x in texts(n) if x in self.published]
        if sorted(allcodes) != sorted(l["code"] for l in lint):
            return f"codes {allcodes} are shown, expected {sorted(l['code'] for l in lint)}"
        for h, sec in found:
            fig = heads[h]
            have = [n for c, n in largest([sec], lambda t: t in self.published)]
            want = [[l["code"], norm(l["msg"]), *([norm(l["row"])] if norm(l.get("row") or "") else [])] for l in by[fig]]
            ctxs = [[norm(x) for x in leaves(l["context"]) if norm(x)] for l in by[fig]]
            ok = lambda i, n: (lambda t: covered(want[i], t) and all(any(x in y for y in t) for x in ctxs[i]))(texts(n))
            if len(have) != len(want) or not match(range(len(want)), have, ok):
                return f"figure {fig} is shown with {[texts(n) for n in have]}, expected {list(zip(want, ctxs))}"
            sinks = [n for n in [sec, *nodes([sec], False)] if "h" in n]
            top = fig.split("_")[0]
            shown = [n["h"] for n in sinks if any(x["t"] == "table" for x in nodes(n["k"], True))]
            if top in tables:
                if len(shown) != 1:
                    return f"figure {fig} is shown with {len(shown)} tables, {[n['h'][:300] for n in sinks]}"
                if not web.same_figure(shown[0], tables[top]):
                    return f"figure {fig} is shown with {shown[0][:500]!r}"
            else:
                el = [x for n in sinks for x in nodes(n["k"], True)]
                if el:
                    return f"figure {fig}, which has no table, is shown with {[n['h'][:300] for n in sinks]}"
        return None

    def go(self, b, shot, tab):
        for n in nodes(shot):
            if n["t"] in ("a", "button") and label(n) == tab:
                return b.click(n)
        raise AssertionError(f"there is no {tab!r} to click")

    def look(self, b, shot, js, tables, on):
        """both tabs, with these codes selected."""
        lint = js["meta"]["lint"]
        rows, msg = self.summary(shot, lint)
        if msg:
            return shot, msg
        marks = {c: n["c"] for c, n in rows.items()}
        if on and len(on) < len(marks):
            a, z = {m for c, m in marks.items() if c in on}, {m for c, m in marks.items() if c not in on}
            if a & z:
                return shot, f"selected and other codes are shown alike: {marks}"
        shot = self.go(b, shot, "Figures")
        msg = self.figures(shot, [l for l in lint if not on or l["code"] in on], tables)
        if msg is None and any(n["t"] == "tr" and set(texts(n)) & self.published for n in nodes(shot)):
            msg = "the summary is shown among the figures"
        if msg is None:
            shot = self.go(b, shot, "Summary")
        if msg is None and shot["errors"]:
            msg = f"the page fails: {shot['errors'][:3]}"
        return shot, msg and f"with {sorted(on)} selected: {msg}"

    async def fetch(self, name, data, forms):
        async with web.Server() as s:
            u = await s.upload(name, data).finish()
            msg, url = self.check_stream(u, name, data)
            assert not msg and url, msg or "the document was not accepted"
            out = [(url + ("?bundle=1" if f else ""), await self.page(s, url + ("?bundle=1" if f else ""))) for f in forms]
            linked = []
            if 0 in forms:
                for h in re.findall(r'<a\s[^>]*?href="(/[^"]+)"', out[forms.index(0)][1]):
                    r = await s.get(htmllib.unescape(h))
                    assert r.status == 200, f"{h}, which the report refers to, has status {r.status}"
                    linked.append(r.data)
            return out, linked

    def tables_of(self, ht):
        from lxml import etree

        root = from_lxml(etree.fromstring(ht, etree.XMLParser(resolve_entities=False)))
        out = {}
        for t in kids(kids(root, "body")[0], "table"):
            if "id" in t[1]:
                out.setdefault(t[1]["id"], t)
        return out

    def judge(self, name, data, case, ctx, forms=(0, 1), plays=((),), every=True):
        """plays: sequences of codes to toggle (numbers) or None to clear."""
        from spex.jsonspec.lint import Code

        self.published = {c.name for c in Code}
        _, js, ht, err = self.expect(name, data)
        assert err is None, err
        tables = self.tables_of(ht)
        b = Browser.get()
        pages, linked = web.play(self.fetch, name, data, forms)
        if 0 in forms:

            def is_js(x):
                try:
                    return json.loads(x) == js
                except ValueError:
                    return False

            if not any(is_js(x) for x in linked) or ht not in linked:
                return f"{case}: the page does not refer to its result and HTML"
            if not any(web.report_consts(x)["report"] == js for x in linked if x != ht and not is_js(x) and b"report_html" in x):
                return f"{case}: the page does not refer to its bundled form"
        for url, page in pages:
            for play in plays:
                shot = b.open(page, url, self.files)
                ctx.replays += 1
                ctx.state((case, "bundle" in url))
                msg = None
                if shot["errors"]:
                    msg = f"the page fails: {shot['errors'][:3]}"
                shown = [norm(t) for n in shot["body"] for t in texts(n)]
                for k in ("specification", "revision"):
                    if msg is None and norm(js["meta"][k]) not in shown:
                        msg = f"{k} {js['meta'][k]!r} is not shown"
                on = set()
                codes = list(dict.fromkeys(l["code"] for l in js["meta"]["lint"]))
                if msg is None and (every or not play):
                    shot, msg = self.look(b, shot, js, tables, on)
                for i, a in enumerate(play):
                    if msg:
                        break
                    if a is None:
                        btn = [n for n in nodes(shot) if n["t"] in ("button", "a") and "Clear" in label(n)]
                        if len(btn) != 1:
                            return f"{case}: {len(btn)} ways to clear the selection"
                        shot = b.click(btn[0])
                        on.clear()
                    elif codes:
                        c = codes[a % len(codes)]
                        rows, msg = self.summary(shot, js["meta"]["lint"])
                        if msg:
                            break
                        cell = next((n for n in nodes(rows[c]["k"]) if c in texts(n)), rows[c])
                        shot = b.click(cell)
                        on ^= {c}
                    ctx.step()
                    ctx.state((case, tuple(sorted(on))))
                    if every or i == len(play) - 1:
                        shot, msg = self.look(b, shot, js, tables, on)
                if msg:
                    return f"{case}, {url.split('?')[1:] or 'page'}, after {play}: {msg}"
        return None

    # -- selections
    DOCS = {
        "one code": lambda: docs.htm(docs.gap("1"), docs.good("2"), docs.gap("3")),
        "two": lambda: docs.htm(docs.gap("1"), docs.skipped("2"), docs.value("3"), docs.nest("4"), docs.gap("5")),
        "several": lambda: docs.htm(docs.gap("1"), docs.dup("2"), docs.skipped("4"), docs.dup("3")),
        "nested": lambda: docs.htm(W05().fig("nested gap", "1"), W05().fig("deep gap", "2"), docs.dup("3"), docs.numberless(), docs.numberless()),
        "fails": lambda: docs.htm(docs.bad("1"), docs.gap("2"), docs.numberless()),
        "none": lambda: docs.htm(docs.good("1"), docs.value("2")),
        "same row": lambda: docs.htm(W06.fig(None, "same row", "1"), W06.fig(None, "hdr", "2"), W06.fig(None, "same row", "3")),
    }
    CODES = {"one code": 1, "two": 2, "several": 5, "nested": 5, "fails": 3, "none": 0, "same row": 3}

    def gen_plays(self):
        for d, k in self.CODES.items():
            acts = [*range(min(k, 4)), None]
            for p in sequences(acts, 1, Q(3, 5)):
                yield (d, p, True, 0)
            for p in sequences([0, None] if k < 3 else [0, 1, None], Q(4, 6), Q(4, 7)):
                yield (d, p, True, 0)
            for p in sequences(acts, 2, Q(2, 3)):
                yield (d, p, False, 1)

    def ev_plays(self, case, ctx):
        d, p, every, form = case
        return self.judge("a.html", self.DOCS[d](), case, ctx, (form,), (p,), every)

    # -- results
    KINDS = ["good", "gap", "dup", "nested gap", "deep gap", "skipped", "numberless", "no id", "bad", "value", "hdr", "same row", "again"]

    def fig(self, k, n):
        T = lambda t, **a: (t[0], {**t[1], **a}, t[2])
        if k == "no id":
            return docs.dup(n)
        if k == "numberless":
            return docs.numberless()
        if k in ("nested gap", "deep gap"):
            return T(W05().fig(k, n), id=n)
        if k == "same row":
            return T(figure(n, ["Value", "Description"], [tr(td("1h"), td(f"A{c}")) for c in "aaab"]), id=n)
        if k == "again":
            return T(docs.gap("1"), id="1")
        return T({"good": docs.good, "gap": docs.gap, "dup": docs.dup, "skipped": docs.skipped, "bad": docs.bad, "hdr": docs.hdr, "value": lambda n: figure(n, ["Value", "Description"], [tr(td("0h"), td("Aa")), tr(td("0h"), td("Aa"))])}[k](n), id=n)

    def gen_figs(self):
        yield from sequences(self.KINDS, 0, Q(3, 4))

    def ev_figs(self, case, ctx):
        data = docs.htm(*[self.fig(k, str(i + 1)) for i, k in enumerate(case)])
        return self.judge("a.html", data, case, ctx, (0,) if len(case) > 1 else (0, 1), ((), (0,)) if core.THOROUGH or len(case) < 2 else ((0,),))

    def gen_many(self):
        for n in Q((12, 101), (12, 101, 400)):
            for k in ("gap", "nested gap", "no id", "numberless", "all"):
                yield (n, k)

    def ev_many(self, case, ctx):
        n, k = case
        T = [self.fig(self.KINDS[i % len(self.KINDS)] if k == "all" else k, str(i + 1)) for i in range(n)]
        return self.judge("a.html", docs.htm(*T), case, ctx, (0,), ((0, 0), (0, None)))

    # -- texts
    TEXTS = [*W05.TEXTS, "constructor", "toString", "length", "hasOwnProperty", "valueOf", "0", "<img/src=x/onerror=alert(1)>", "<svg/onload=alert(1)>", "x-data", "$store", "{{x}}", "${1}", "`", "null", "undefined", "NaN"]
    PLACES = ["number", "number without table", "row", "label", "title", "column", "spec", "revision", "table", "numberless"]

    def gen_texts(self):
        for t in self.TEXTS:
            for p in self.PLACES:
                yield (p, t, "html")
            for p in ("row", "label", "title", "table", "number", "number in grey"):
                yield (p, t, "docx")

    def ev_texts(self, case, ctx):
        p, t, kind = case
        at = lambda q, default="": t if p.startswith(q) else default
        num = "".join(t.split()).replace("_", "").replace(":", "").replace("^", "") if p.startswith("number") and p != "numberless" else "1"
        if not num:
            return None
        row = lambda v, s: (v, s)
        rows = [
            (at("row", "9"), "In Ner (INN): x"), ("7:4", f"Field{at('label')} One: x{at('table')}"), ("1:0", f"Field{at('label')} One: y"), ("0:1", "Rev Erse (REV): z"),
        ]
        sub = [("3", "Aa (AA): x"), ("1", "Bb (BB): x")]
        if kind == "docx":
            inner = dx.tbl(dx.row(dx.cell("Bits", fill="D9D9D9"), dx.cell("Description", fill="D9D9D9")), *[dx.row(dx.cell(a), dx.cell(b)) for a, b in sub])
            grey = {"fill": "D9D9D9"} if p == "number in grey" else {}
            body = [dx.row(dx.cell(f"Figure {num}: T{at('title')}", span=2, **grey)), dx.row(dx.cell("Bits", fill="D9D9D9"), dx.cell("Description", fill="D9D9D9"))]
            body += [dx.row(dx.cell(a), dx.cell(b)) for a, b in rows]
            body += [dx.row(dx.cell("x<y"), dx.cell(dx.para("Nest Ed (NED): z"), inner, dx.para("")))]
            return self.judge("a.docx", dx.docx([dx.tbl(*body)]), case, ctx)
        f = figure(num, ["Bits", "Description"], [tr(td(a), td(b)) for a, b in rows] + [tr(td("x<y"), td("Nest Ed (NED): z", nested(["Bits", "Description"], [tr(td(a), td(b)) for a, b in sub])))], title=f"T{at('title')}")
        if p != "number without table":
            f = (f[0], {"id": num}, f[2])
        tabs = [f, figure("2", [f"Thing{at('column')}", "Other"], [tr(td("a"), td("b"))])]
        if p == "numberless":
            tabs.append(table([title_row(f"Figure: {t}"), tr(th("Bits"), th("Description")), std_row("0")]))
        data = html(document(tabs, "Spec" + at("spec"), "1.0" + at("revision"))).encode("utf-8")
        return self.judge("a.html", data, case, ctx)

    def spaces(self):
        web.warm()
        return [
            Space("selections", self.gen_plays, self.ev_plays, f"all sequences of up to {Q(3,5)} of selecting and deselecting each of 4 codes and clearing, up to {Q(4,7)} of 2 codes, on {len(self.DOCS)} results, both tabs looked at after every step or at the end only", init=self.init),
            Space("results", self.gen_figs, self.ev_figs, f"all sequences of 0..{Q(3,4)} figures of {len(self.KINDS)} kinds, without and with a selection", init=self.init),
            Space("many", self.gen_many, self.ev_many, f"results of 12{Q(' and 101', ', 101 and 400')} figures", init=self.init),
            Space("texts", self.gen_texts, self.ev_texts, f"{len(self.TEXTS)} special texts at {len(self.PLACES)} places of HTML and 6 of .docx inputs, both forms of the page", init=self.init),
        ]


class W07(PCheck):
    ID = "W07"
    TECHNIQUE = (
        "stateless exploration of the real upload page against streams of the real server: all ways up to a number of cuts in which"
        " the network can deliver them, all ends at every byte, all histories of uploads up to a depth"
    )
    ASSUMPTIONS = ("the page is run in a DOM of our own, not in a browser",)

    DOCS = {
        "none": ("a.html", lambda: docs.htm()),
        "one": ("a.html", lambda: docs.htm(docs.gap("1"))),
        "three": ("b.html", lambda: docs.htm(docs.gap("1"), docs.nest("2"), docs.numberless())),
        "docx": ("c.docx", lambda: dx.docx([docs.dtable("1", *docs.ROWS)])),
        "two docx": ("d.docx", lambda: dx.docx([docs.dtable("1", *docs.ROWS), docs.dtable("2", *docs.ROWS)])),
        "twelve": ("e.docx", lambda: dx.docx([docs.dtable(str(i), *docs.ROWS) for i in range(12)])),
        "bad docx": ("f.docx", lambda: dx.docx([docs.dtable("1", *docs.ROWS)], header=dx.para("Nothing"))),
        "malformed": ("g.html", lambda: b"<html><head>"),
    }

    def init(self):
        super().init()
        self.streams = {}
        self.form = web.play(self.get_form)

    async def get_form(self):
        async with web.Server() as s:
            return await self.page(s, "/")

    async def stream(self, name, data, asked):
        """what the server answers to the request that the page made."""
        async with web.Server() as s:
            hs = [(k.lower(), v) for k, v in (asked["headers"] or {}).items()]
            if not any(k == "accept" for k, _ in hs):
                hs.append(("accept", "*/*"))
            body = web.multipart(name, data, asked["body"][0][0])
            r = await web.Req(s, asked["method"], asked["url"], (web.MULTI, *hs, ("content-length", str(len(body)))), body).finish()
            return r.status, r.data

    def want(self, name):
        """what is announced for a document: positions, and whether it is processed."""
        f, data = self.DOCS[name]
        seen, _, _, err = self.expect(f, data())
        return seen, err is None

    # one page, several uploads
    def begin(self, b, shot, name):
        """choose the document and submit; returns the shot and the answer of the server."""
        f, data = self.DOCS[name]
        n = len(shot["asked"])
        b.act({"file": f})
        shot = b.act({"submit": 1})
        new = shot["asked"][n:]
        if len(new) != 1:
            return shot, None, f"{len(new)} requests are made"
        a = new[0]
        if a["method"] != "POST" or not isinstance(a["body"], list) or len(a["body"]) != 1 or a["body"][0][1:2] != [{"file": f}]:
            return shot, None, f"the request is {a}"
        key = (name, json.dumps(a, sort_keys=True))
        if key not in self.streams:
            self.streams[key] = web.play(self.stream, f, data(), a)
        st, body = self.streams[key]
        if st != 200:
            return shot, None, f"the server answers {st} to {a}"
        return shot, body, None

    def usable(self, shot):
        forms = [n for n in nodes(shot) if n["t"] == "form"]
        return len(forms) == 1 and any(n["t"] in ("button", "input") for n in nodes(forms)) and not any(n["t"] == "progress" for n in nodes(shot))

    def progress(self, shot, seen, k, whole):
        """the bars after k events (the completion included)."""
        bars = [n for n in nodes(shot) if n["t"] == "progress"]
        if not bars:
            return "no progress is shown"
        if len(bars) != 2:
            return f"{len(bars)} bars are shown"
        val = []
        for x in bars:
            try:
                m = float(x["a"].get("max", 1))
                val.append(min(1.0, max(0.0, float(x["a"]["value"]) / m if m else 0.0)))
            except ValueError:
                return f"a bar with {x['a']}"
        if not k:
            return None
        phase, i, n = seen[min(k, len(seen)) - 1]
        exp = [i / n, None] if phase == "html" else [1.0, i / n]
        for v, w in zip(val, exp):
            if w is not None and abs(v - w) > 1e-9:
                return f"progress is shown as {val}, event {k} is {seen[min(k, len(seen)) - 1]}"
        return None

    def follow(self, b, shot, name, cuts, end, ctx):
        """one upload whose answer comes in these pieces and ends thus: None, or (shot, message)."""
        seen, ok = self.want(name)
        went = list(shot["went"])
        if end == "refused" or end == "unreachable":
            b.act({"answer": {"status": 413, "text": "no"} if end == "refused" else {"error": 1}, "silent": 1})
        else:
            b.act({"answer": {"status": 200}, "silent": 1})
        shot, body, msg = self.begin(b, shot, name)
        if msg:
            return shot, msg
        if end in ("refused", "unreachable"):
            return shot, None if self.usable(shot) and shot["went"] == went else f"after an upload that is {end} the form is not there, or the page leaves for {shot['went']}"
        events = [e for e in body.decode().split("\n\n")[:-1]]
        url = json.loads(events[-1][6:])["url"] if ok else None
        at = [0]
        for e in events:
            at.append(at[-1] + len(e.encode()) + 2)
        total = len(body) if end in ("end", "broken") else int(end.split("@")[1])
        pieces = sorted({c for c in cuts if 0 < c < total} | {0, total})
        for i, (x, y) in enumerate(zip(pieces, pieces[1:])):
            shot = b.act({"data": body[x:y].decode("latin1")})
            ctx.step()
            k = sum(a <= y for a in at[1:])
            # an event may also be taken to be complete with its first line end
            ks = {k, sum(a - 1 <= y for a in at[1:])}
            done = ok and y >= at[-1] - 1
            if not done:
                msgs = [self.progress(shot, seen, kk, ok) for kk in ks]
                if all(msgs):
                    return shot, f"after {y} of {len(body)} bytes: {msgs[0]}"
                if shot["went"] != went:
                    return shot, f"after {y} of {len(body)} bytes the page leaves for {shot['went']}"
        broken = end.startswith("broken")
        shot = b.act({"fail": 1} if broken else {"end": 1})
        finished = ok and total >= at[-1] - 1
        if finished and not broken:
            if shot["went"] != went + [url]:
                return shot, f"the upload is completed with {url}, the page goes to {shot['went'][len(went):]}"
        elif finished:
            # completed, yet the connection broke before its end was seen
            if shot["went"] not in (went, went + [url]):
                return shot, f"the page goes to {shot['went'][len(went):]}"
            if shot["went"] == went and not self.usable(shot):
                return shot, "the connection broke at the end of the upload: there is neither report nor form"
        else:
            if shot["went"] != went:
                return shot, f"the upload is not completed, the page leaves for {shot['went'][len(went):]}"
            if not self.usable(shot):
                return shot, "the upload is not completed, the form is not there again"
        if shot["errors"]:
            return shot, f"the page fails: {shot['errors'][:3]}"
        return shot, None

    def run(self, plan, case, ctx):
        """plan: [(document, cuts, end)] on one page."""
        b = Browser.get()
        shot = b.open(self.form, "/", self.files)
        ctx.replays += 1
        if shot["errors"] or not self.usable(shot):
            return f"the page of the form fails: {shot['errors'][:3]}"
        for i, (name, cuts, end) in enumerate(plan):
            shot, msg = self.follow(b, shot, name, cuts, end, ctx)
            if msg:
                return f"{case}, upload {i + 1}: {msg}"
            ctx.state((case, i, shot["went"]))
            if shot["went"]:
                break
        return None

    def length(self, name):
        if not hasattr(self, "lens"):
            self.lens = {}
        if name not in self.lens:
            f, data = self.DOCS[name]
            web.warm()
            ask = {"headers": {}, "method": "POST", "url": "/parse", "body": [["document"]]}
            self.lens[name] = web.play(self.stream, f, data(), ask)[1]
        return self.lens[name]

    def gen_cuts(self):
        for name in self.DOCS:
            body = self.length(name)
            n = len(body)
            yield (name, ())
            yield (name, tuple(range(1, n)))
            starts = [i + 2 for i in range(n) if body[i : i + 2] == b"\n\n"]
            yield (name, tuple(starts))
            yield (name, tuple(starts[1::2]))
            for k in (2, 3, 5, 7, 16, 64):
                yield (name, tuple(range(k, n, k)))
            if n < 1000 or core.THOROUGH:
                for c in range(1, n):
                    yield (name, (c,))
                    yield (name, (*starts, c))
        for name in Q(("one",), ("one", "docx")):
            n = len(self.length(name))
            for c in itertools.combinations(range(1, n), 2):
                yield (name, c)

    def ev_cuts(self, case, ctx):
        name, cuts = case
        return self.run([(name, cuts, "end")], case, ctx)

    def gen_ends(self):
        for name in ("none", "one", "docx", *Q((), ("three", "two docx"))):
            body = self.length(name)
            starts = tuple(i + 2 for i in range(len(body)) if body[i : i + 2] == b"\n\n")
            for c in range(0, len(body)):
                for how in ("end", "broken"):
                    yield (name, starts, f"{how}@{c}")
            yield (name, starts, "broken")

    def ev_ends(self, case, ctx):
        name, cuts, end = case
        return self.run([(name, cuts, end), ("three", (33,), "end")], case, ctx)

    STEPS = [("one", (), "end@0"), ("docx", (20,), "end@70"), ("docx", (90,), "end@101"), ("three", (), "broken@120"), ("malformed", (), "end"), ("bad docx", (), "end"), ("one", (), "refused"), ("one", (), "unreachable"), ("one", (), "end"), ("two docx", (30, 200), "end"), ("two docx", (30, 200), "broken")]

    def gen_seq(self):
        yield from sequences(range(len(self.STEPS)), 1, Q(3, 4))

    def ev_seq(self, case, ctx):
        return self.run([self.STEPS[i] for i in case], case, ctx)

    def spaces(self):
        web.warm()
        return [
            Space("pieces", self.gen_cuts, self.ev_cuts, f"the answers to {len(self.DOCS)} documents in one piece, in bytes, in pieces of 2, 3, 5, 7, 16, 64 bytes, cut at every byte alone and between all events; one of them at every two bytes", init=self.init),
            Space("ends", self.gen_ends, self.ev_ends, "answers that end or break after every byte, each followed by another upload", init=self.init),
            Space("histories", self.gen_seq, self.ev_seq, f"all sequences of 1..{Q(3,4)} of {len(self.STEPS)} uploads that complete, fail, end early, break, are refused or do not reach the server", init=self.init),
        ]
