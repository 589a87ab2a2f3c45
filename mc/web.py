"""Driving the web application at its ASGI interface, one message at a time."""
import asyncio
import json
import os
import re
import shutil
import tempfile
from html.parser import HTMLParser
from pathlib import Path
from urllib.parse import unquote

from . import core
from .tree import text_of

BOUNDARY = "mcboundary"
SSE = ("accept", "text/event-stream")


def multipart(filename, data, field="document", raw_disposition=None):
    disp = raw_disposition or f'form-data; name="{field}"; filename="{filename}"'
    head = f'--{BOUNDARY}\r\nContent-Disposition: {disp}\r\nContent-Type: application/octet-stream\r\n\r\n'
    return head.encode("utf-8", "surrogateescape") + data + f"\r\n--{BOUNDARY}--\r\n".encode()


MULTI = ("content-type", f"multipart/form-data; boundary={BOUNDARY}")


class Req:
    """one request under control: every message is a step."""

    def __init__(self, server, method, path, headers=(), body=b"", pieces=1, gated=False, held=False):
        self.server, self.gated = server, gated
        self.held = held  # a message that was delivered holds its sender until the next step
        path, _, query = path.partition("?")
        size = max(1, -(-len(body) // pieces))
        self.body = [body[i : i + size] for i in range(0, len(body), size)] or [b""]
        self.scope = {
            "type": "http",
            "asgi": {"version": "3.0"},
            "http_version": "1.1",
            "method": method,
            "scheme": "http",
            "path": path,
            "raw_path": path.encode("utf-8", "replace"),
            "query_string": query.encode(),
            "root_path": "",
            "headers": [(b"host", b"localhost")] + [(k.encode("latin1"), v.encode("latin1")) for k, v in headers],
            "client": ("127.0.0.1", 1),
            "server": ("localhost", 80),
        }
        self.messages = []
        self.error = None
        self.broken = False  # sending fails
        self.gone = asyncio.Event()
        self.waiting = None  # future of the pending step
        self.arrived = asyncio.Event()
        self.task = None

    async def _gate(self):
        if not self.gated or self.gone.is_set():
            return
        self.waiting = asyncio.get_running_loop().create_future()
        self.arrived.set()
        try:
            await self.waiting
        finally:
            self.waiting = None

    async def receive(self):
        if self.body:
            await self._gate()
            if self.body and not self.gone.is_set():
                b = self.body.pop(0)
                return {"type": "http.request", "body": b, "more_body": bool(self.body)}
        await self.gone.wait()
        return {"type": "http.disconnect"}

    async def send(self, msg):
        await self._gate()
        if self.broken:
            raise ConnectionResetError("connection lost")
        if not self.gone.is_set():
            self.messages.append(msg)
            if self.held:
                await self._gate()

    async def run(self):
        try:
            await self.server.app(self.scope, self.receive, self.send)
        except asyncio.CancelledError:
            raise
        except BaseException as e:
            self.error = e
        finally:
            self.arrived.set()

    def start(self):
        self.task = asyncio.ensure_future(self.run())
        return self

    @property
    def done(self):
        return self.task is not None and self.task.done()

    async def settle(self):
        """until the request waits for a step or is over."""
        await self.arrived.wait()
        self.arrived.clear()
        await asyncio.sleep(0)
        if self.waiting is None:
            await self.task

    async def step(self):
        """one message further; False if the request is over."""
        if self.task is None:
            self.start()
            await self.settle()
            return not self.done
        if self.done or self.waiting is None:
            return False
        self.waiting.set_result(None)
        await self.settle()
        return not self.done

    async def disconnect(self):
        self.gone.set()
        if self.task is None:
            self.start()
        if self.waiting is not None and self.body:
            self.waiting.set_result(None)
        await self.task
        for _ in range(5):
            await asyncio.sleep(0)

    async def finish(self):
        """let it run to its end."""
        if self.task is None:
            self.start()
        self.gated = False
        if self.waiting is not None:
            self.waiting.set_result(None)
        await self.task
        for _ in range(3):
            await asyncio.sleep(0)
        return self

    # results
    @property
    def status(self):
        return self.messages[0]["status"] if self.messages else None

    @property
    def headers(self):
        return {k.decode().lower(): v.decode() for k, v in self.messages[0]["headers"]} if self.messages else {}

    @property
    def data(self):
        return b"".join(m.get("body", b"") for m in self.messages[1:])

    @property
    def complete(self):
        return bool(self.messages) and not self.messages[-1].get("more_body", True) and self.messages[-1]["type"] == "http.response.body"

    def events(self):
        """the event stream, strictly parsed."""
        txt = self.data.decode("utf-8")
        out = []
        parts = txt.split("\n\n")
        assert parts.pop() == "", f"stream does not end with an event: {txt[-200:]!r}"
        for e in parts:
            assert e.startswith("data: ") and "\n" not in e and "\r" not in e, f"malformed event {e!r}"
            out.append(json.loads(e[6:]))
        return out


class Server:
    """the application, started afresh."""

    def __init__(self):
        from spexsrv.application import app as mod

        self.mod = mod
        self.app = mod.app

    async def __aenter__(self):
        import contextlib
        import io

        with contextlib.redirect_stdout(io.StringIO()):
            await self.app.startup()
        return self

    async def __aexit__(self, *a):
        await self.app.shutdown()

    def req(self, method, path, headers=(), body=b"", **kw):
        return Req(self, method, path, headers, body, **kw)

    def upload(self, name, data, headers=(MULTI, SSE), field="document", raw=None, **kw):
        body = multipart(name, data, field, raw)
        return Req(self, "POST", "/parse", tuple(headers) + (("content-length", str(len(body))),), body, **kw)

    async def get(self, path, headers=()):
        return await self.req("GET", path, headers, gated=False).finish()


def play(coro_fn, *args):
    """run a scenario in an event loop of its own."""
    loop = asyncio.new_event_loop()
    loop.set_exception_handler(lambda l, c: None)
    try:
        return loop.run_until_complete(coro_fn(*args))
    finally:
        try:
            tasks = asyncio.all_tasks(loop)
            for t in tasks:
                t.cancel()
            if tasks:
                loop.run_until_complete(asyncio.gather(*tasks, return_exceptions=True))
            loop.run_until_complete(loop.shutdown_asyncgens())
            loop.run_until_complete(loop.shutdown_default_executor())
        finally:
            loop.close()


def warm():
    import logging

    import spexsrv.application.app as mod  # noqa

    logging.disable(logging.CRITICAL)
    core.quiet_log()
    # templates are found below the package, wherever the working directory is
    return mod


async def _all_pages(name, data):
    out = {}
    async with Server() as s:
        up = await s.upload(name, data).finish()
        out["events"] = up.data
        err = repr(up.error) if up.error else None
        url = None
        try:
            ev = up.events()
            if ev and ev[-1].get("type") == "report-completed":
                url = ev[-1]["url"]
        except Exception as e:
            err = err or repr(e)
        if url is None:
            return err or f"no report (status {up.status})", out
        h = url.rsplit("/", 1)[1]
        for p in (f"/report/{h}", f"/report/{h}?bundle=1", f"/json/{h}", f"/html/{h}"):
            r = await s.get(p)
            out[p] = r.data
            if r.error or r.status != 200:
                err = f"{p}: {r.status} {r.error!r}"
        return err, out


def all_pages(name, data):
    warm()
    return play(_all_pages, name, data)


def report_consts(page):
    """the data a report page embeds: {name: JSON value}."""
    txt = page.decode("utf-8")
    out = {}
    for k in ("report", "erroneous_figure_ids", "report_html", "lintCodes"):
        m = re.findall(r"^\s*(?:const|let|var) %s = (.*);$" % k, txt, re.M)
        assert len(m) == 1, f"{len(m)} definitions of {k} in the report page"
        out[k] = json.loads(m[0])
    return out


VOID = {"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"}
CLOSES = {  # start tag -> the elements it ends, up to the nearest of those which hold it
    "tr": ({"tr", "td", "th"}, {"table", "tbody", "thead", "tfoot"}),
    "td": ({"td", "th"}, {"tr"}),
    "th": ({"td", "th"}, {"tr"}),
    "li": ({"li"}, {"ul", "ol"}),
}
NO_P = {"p", "ul", "ol", "table", "div", "pre", "h1", "h2", "h3", "h4", "h5", "h6", "hr", "li", "dl"}


class _Tree(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root = ("#root", {}, [])
        self.stack = [self.root]

    def pop_to(self, names, bounds):
        for i in range(len(self.stack) - 1, 0, -1):
            if self.stack[i][0] in names:
                del self.stack[i:]
                return
            if self.stack[i][0] in bounds:
                return

    def handle_starttag(self, tag, attrs):
        if tag in CLOSES:
            while True:
                n = len(self.stack)
                self.pop_to(*CLOSES[tag])
                if len(self.stack) == n:
                    break
        if tag in NO_P:
            self.pop_to({"p"}, {"td", "th", "table", "li"} if tag != "li" else {"td", "th", "table"})
        node = (tag, {k: v or "" for k, v in attrs}, [])
        self.stack[-1][2].append(node)
        if tag not in VOID:
            self.stack.append(node)

    handle_startendtag = handle_starttag  # "/>" means nothing

    def handle_endtag(self, tag):
        self.pop_to({tag}, set() if tag in ("table", "tr", "td", "th") else {"td", "th", "table"})

    def handle_data(self, data):
        ch = self.stack[-1][2]
        if ch and isinstance(ch[-1], str):
            ch[-1] += data
        else:
            ch.append(data)


def html_tree(src):
    """what a browser makes of a fragment (without the repair of misplaced contents of tables)."""
    t = _Tree()
    t.feed(src)
    t.close()
    return t.root


def _norm(n):
    """structure and texts, blanks at the ends of texts aside."""
    ch = []
    for c in n[2]:
        if isinstance(c, str):
            if ch and isinstance(ch[-1], str):
                c = ch.pop() + " " + c
            c = " ".join(c.split())
            if c:
                ch.append(c)
        else:
            ch.append(_norm(c))
    at = {k: unquote(v) if k in ("href", "src", "name") else v for k, v in n[1].items()}
    return (n[0], tuple(sorted(at.items())), tuple(ch))


def _paragraphs(n):
    for c in n[2]:
        if not isinstance(c, str):
            if c[0] == "p":
                yield " ".join(text_of(c).split())
            else:
                yield from _paragraphs(c)


def same_figure(src, table):
    """whether a browser shows this table, and nothing else, for the fragment."""
    got = [c for c in html_tree(src)[2] if not isinstance(c, str) or c.strip()]
    return len(got) == 1 and not isinstance(got[0], str) and _norm(got[0]) == _norm(table) and list(_paragraphs(got[0])) == list(_paragraphs(table))
