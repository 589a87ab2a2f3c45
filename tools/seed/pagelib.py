"""the pages in the small browser beside this file."""
import asyncio
import json
import re
import subprocess
from pathlib import Path

from lib import fig, html, td, th, tr, web

HERE = Path(__file__).resolve().parent
B = ("Bits", "Description")
TWO_CODES = html(
    fig("1", th(*B), tr("4", "Aa (AA): x"), tr("0", "Bb (BB): x"), id="1"),
    fig("2", th(*B), tr("x<y", "Aa (AA): x"), id="2"),
    fig("3", th(*B), tr("4", "Aa (AA): x"), tr("4", "Aa (AA): x"), id="3"),
)


class Page:
    def __init__(self, page, url, files):
        self.p = subprocess.Popen(["node", str(HERE / "page.js")], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.ask(html=page, url=url, files=files, first=1)

    def ask(self, **req):
        self.p.stdin.write(json.dumps(req).encode() + b"\n")
        self.p.stdin.flush()
        r = json.loads(self.p.stdout.readline())
        assert "fault" not in r, r
        if r["shots"]:
            self.shot = r["shots"][-1]

    def act(self, **a):
        self.ask(acts=[a])

    def nodes(self, ns=None):
        for n in self.shot["body"] if ns is None else ns:
            if not isinstance(n, str):
                yield n
                yield from self.nodes(n["k"])

    def texts(self, ns=None):
        out = []
        for n in self.shot["body"] if ns is None else ns:
            out += [" ".join(n.split())] if isinstance(n, str) else self.texts(n["k"])
        return out

    def click(self, text):
        n = [n for n in self.nodes() if " ".join(self.texts(n["k"])) == text and n["t"] in ("a", "button", "td")]
        self.act(click=n[0]["n"])

    def figures(self):
        return sorted(t[7:] for n in self.nodes() for t in n["k"] if isinstance(t, str) and re.match(r"Figure \S+$", t.strip()) and n["t"] == "div")

    def row(self, code):
        for n in self.nodes():
            if n["t"] == "tr" and code in self.texts(n["k"]):
                return self.texts(n["k"])
        return None

    # the form
    def upload(self, name, events, status=200, end=False, fail=False):
        self.act(file=name)
        self.act(answer={"status": status} if status == 200 else {"status": status, "text": "no"})
        self.act(submit=1)
        for e in events:
            self.act(data=f"data: {json.dumps(e)}\n\n")
        if end:
            self.act(end=1)
        if fail:
            self.act(fail=1)

    def bars(self):
        return [(float(n["a"]["value"]), float(n["a"]["max"])) for n in self.nodes() if n["t"] == "progress"]

    def has_form(self):
        return any(n["t"] == "form" for n in self.nodes())


def ev(**a):
    return {"type": "progress-update", **a}


BAD = {"type": "error", "msg": "no"}
GOOD = {"type": "report-completed", "url": "/report/x"}


async def load(get, url):
    st, data = await get(url)
    assert st == 200
    page = data.decode()
    files = {}
    for src in re.findall(r'<script[^>]*\ssrc="(/[^"?]*)', page):
        files[src] = (await get(src))[1].decode()
    return page, files


def report_page(content, name="a.html"):
    async def go(upload, get, app):
        st, ev, url = await upload(name, content)
        assert url, ev
        return (url, *await load(get, url))

    url, page, files = web(go)
    p = Page(page, url, files)
    p.report = json.loads(re.search(r"(?:const|let|var) report = (.*);\n", page)[1])
    return p


def form_page():
    async def go(upload, get, app):
        return await load(get, "/")

    return Page(*(lambda x: (x[0], "/", x[1]))(web(go)))
