"""helpers of the demonstrations: everything happens in a scratch directory."""
import asyncio
import io
import json
import os
import subprocess
import sys
import tempfile
import zipfile
from html import escape
from pathlib import Path

REPO = Path.cwd()
ENV = {**os.environ, "PYTHONPATH": str(REPO / "src"), "PYTHONDONTWRITEBYTECODE": "1"}
_tmp = tempfile.TemporaryDirectory(prefix="demo-")
SCRATCH = Path(_tmp.name)
os.chdir(SCRATCH)


def check(got, want, what):
    if got != want:
        print(f"FAILED {what}\n  got:  {got}\n  want: {want}")
        os.chdir("/")
        _tmp.cleanup()
        sys.exit(1)
    print(f"ok: {what}")


def done():
    os.chdir("/")
    _tmp.cleanup()
    sys.exit(0)


_n = 0


def spex(files, *args, cwd=None):
    """run the command line on {name: content}; (status, {name: text of outputs})."""
    global _n
    _n += 1
    d = SCRATCH / f"run{_n}"
    (d / "in").mkdir(parents=True)
    (d / "cwd").mkdir()
    for k, v in files.items():
        (d / "in" / k).write_bytes(v if isinstance(v, bytes) else v.encode())
    r = subprocess.run(
        [sys.executable, "-m", "spex", *args, "-o", str(d / "out"), *[str(d / "in" / k) for k in files]],
        cwd=d / "cwd", env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=100,
    )
    out = {p.name: p.read_text() for p in (d / "out").iterdir()} if (d / "out").is_dir() else {}
    return r.returncode, out


def model(content, *args, name="a.html"):
    """stage-2 document of one input."""
    rc, out = spex({name: content}, *args)
    if rc != 0:
        return None
    return json.loads(out[Path(name).stem + ".json"])


def lint(m):
    return [(e["code"], e["fig"], e.get("row")) for e in m["meta"]["lint"]] if m else None


def ents(m):
    return {e["fig_id"]: e for e in m["entities"]} if m else None


def fields(m, fig):
    out = []
    for f in ents(m)[fig]["fields"]:
        r = f.get("range", f.get("val"))
        if isinstance(r, dict):
            r = (r["high"], r["low"])
        out.append((r, f["label"]) + ((f["brief"],) if "brief" in f else ()))
    return out


# HTML
def td(*xs, tag="td", **a):
    at = "".join(f' {k}="{v}"' for k, v in a.items())
    return f"<{tag}{at}>" + "".join(x if x.startswith("<") else f"<p>{escape(x)}</p>" for x in xs) + f"</{tag}>"


def tr(*cells):
    return "<tr>" + "".join(c if c.startswith("<t") else td(c) for c in cells) + "</tr>"


def th(*names):
    return "<tr>" + "".join(td(n, tag="th") for n in names) + "</tr>"


def sub(*rows):
    return "<table>" + "".join(rows) + "</table>"


def fig(n, *rows, title=None, **a):
    at = "".join(f' {k}="{v}"' for k, v in a.items())
    t = title if title is not None else f"Figure {n}: T"
    return f"<table{at}><tr><td>{'<p>' + escape(t) + '</p>'}</td></tr>" + "".join(rows) + "</table>"


def html(*figs, spec="Spec", rev="1.0"):
    return (
        f'<!DOCTYPE html>\n<html lang="en"><head><meta charset="utf-8" data-spec="{escape(spec)}" data-revision="{rev}"/></head>'
        f"<body>{''.join(figs)}</body></html>"
    )


# docx
NS = 'xmlns:w="http://schemas.openxmlformats.org/wordprocessingml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships"'


def wr(text, rpr=""):
    return f"<w:r>{f'<w:rPr>{rpr}</w:rPr>' if rpr else ''}<w:t xml:space=\"preserve\">{escape(text)}</w:t></w:r>"


def wp(*runs, ppr=""):
    return f"<w:p>{f'<w:pPr>{ppr}</w:pPr>' if ppr else ''}" + "".join(r if r.startswith("<w:") else wr(r) for r in runs) + "</w:p>"


def wc(*blocks, pr=""):
    return f"<w:tc>{f'<w:tcPr>{pr}</w:tcPr>' if pr else ''}" + "".join(b if b.startswith("<w:") else wp(b) for b in blocks) + "</w:tc>"


def wrow(*cells):
    return "<w:tr>" + "".join(c if c.startswith("<w:tc") else wc(c) for c in cells) + "</w:tr>"


GREY = '<w:shd w:val="clear" w:fill="D9D9D9"/>'


def wtbl(*rows):
    return "<w:tbl>" + "".join(rows) + "</w:tbl>"


def wfig(n, *rows, hdr=("Bits", "Description"), title=None):
    return wtbl(
        wrow(wc(title or f"Figure {n}: T", pr=f'<w:gridSpan w:val="{len(hdr)}"/>')), wrow(*[wc(h, pr=GREY) for h in hdr]), *rows
    )


def docx(*blocks, header=None, styles="", numbering=None):
    D = '<?xml version="1.0" encoding="UTF-8"?>\n'
    parts = {
        "word/document.xml": f"{D}<w:document {NS}><w:body>{''.join(blocks)}</w:body></w:document>",
        "word/styles.xml": f"{D}<w:styles {NS}>{styles}</w:styles>",
        "word/header1.xml": f"{D}<w:hdr {NS}>{header or wp('Spec A, ', 'Revision 1.0')}</w:hdr>",
    }
    if numbering:
        parts["word/numbering.xml"] = f"{D}<w:numbering {NS}>{numbering}</w:numbering>"
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for k, v in parts.items():
            z.writestr(k, v)
    return b.getvalue()


# web
def web(scenario):
    """run `scenario(upload, get, app)` against the application."""
    sys.path.insert(0, str(REPO / "src"))
    sys.dont_write_bytecode = True
    tempfile.tempdir = str(SCRATCH)
    import contextlib
    import logging

    logging.disable(logging.CRITICAL)
    from spexsrv.application.app import app
    from loguru import logger
    from werkzeug.datastructures import FileStorage

    logger.remove()

    async def run():
        with contextlib.redirect_stdout(io.StringIO()):
            await app.startup()
        c = app.test_client()

        async def upload(name, data):
            data = data if isinstance(data, bytes) else data.encode()
            r = await c.post("/parse", files={"document": FileStorage(io.BytesIO(data), filename=name)}, headers={"Accept": "text/event-stream"})
            body = (await r.get_data()).decode()
            ev = [json.loads(e[6:]) for e in body.split("\n\n") if e]
            return r.status_code, ev, (ev[-1].get("url") if ev else None)

        async def get(path):
            r = await c.get(path)
            return r.status_code, await r.get_data()

        try:
            return await scenario(upload, get, app)
        finally:
            with contextlib.suppress(Exception):
                await app.shutdown()

    with contextlib.redirect_stderr(io.StringIO()):
        return asyncio.run(run())


def const(page, name):
    import re

    return json.loads(re.search(rf"const {name} = (.*);\n", page.decode()).group(1))
