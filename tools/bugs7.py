"""Planted bugs, seventh batch, see plant.py."""
J = "src/spex/jsonspec/"
X = J + "extractors/"
H = "src/spex/htmlspec/"
D = H + "docx/"
A = "src/spexsrv/application/app.py"
V = "src/spexsrv/application/report_view.py"
BUGS = {}

def bug(bid, prop, edits, demo, needs, breaks):
    BUGS[bid] = dict(prop=prop, edits=edits, demo="from lib import *\n\n" + demo.lstrip("\n") + "\ndone()\n", needs=needs, breaks=breaks)

B = '("Bits", "Description")'

bug(
    "s01-first-line", "S01",
    [(X + "structtable.py", '''            range = XmlUtils.to_text(self.range_elem(row))
''', '''            range = XmlUtils.to_text(self.range_elem(row))
''')] and [(X + "structtable.py", '''        range = XmlUtils.to_text(self.range_elem(row))
        content''', '''        range = XmlUtils.to_text(self.range_elem(row)).partition("\\n")[0]
        content''')],
    f'''
m = model(html(fig("1", th(*{{B}}), tr("7:4\\nor less", "Aa (AA): x"), tr("3:0", "Bb (BB): x"))))
check([f["range"] for f in ents(m)["1"]["fields"]][1], "7:4\\nor less", "a range with a second line is kept verbatim")
'''.replace("{B}", B),
    "a range cell with a second line of text",
    "the second line is dropped, the rest is read as range",
)

bug(
    "s02-reserved-pair", "S02",
    [(X + "structtable.py", '''                        elif prev + 1 != current:
''', '''                        elif prev + 1 != current and (
                            field_label != RESERVED or current - prev > 8
                        ):
''')],
    f'''
m = model(html(fig("1", th(*{B}), tr("7:4", "Reserved"), tr("2:0", "Bb (BB): x"))))
check(lint(m), [("T1002", "1", "4")], "a small gap in front of a reserved field")
''',
    "a gap of less than eight bits directly before a reserved field",
    "the gap is not reported",
)

bug(
    "s03-same-reserved", "S03",
    [(X + "structtable.py", '''                    range=self._parse_range(range_field, range_field),
                ):
                    fields.append(field)
''', '''                    range=self._parse_range(range_field, range_field),
                ):
                    if field not in fields[-1:]:
                        fields.append(field)
''')],
    f'''
m = model(html(fig("1", th(*{B}), tr("7:4", "Reserved"), tr("7:4", "Reserved"), tr("3:0", "Bb (BB): x"))))
check(len(ents(m)["1"]["fields"]), 3, "fields of three rows")
''',
    "a reserved row that is repeated as it is",
    "the second one yields no field",
)

bug(
    "s04-last-colon", "S04",
    [(X + "structtable.py", '''        txt_parts = label.split(":", 1)
        if len''', '''        txt_parts = label.rsplit(":", 1)
        if len''')],
    '''
m = model(html(fig("1", th("Bits", "Attribute", "Description"), tr("7:0", "AA: First: second", "Text: x"))))
check([f["label"] for f in ents(m)["1"]["fields"]], ["aa"], "name before the colon")
check(lint(m), [], "lint")
''',
    "an attribute cell with two colons",
    "the name has the text up to the second colon in it",
)

bug(
    "s05-number-underscore", "S05",
    [(X + "regular_expressions.py", r'''compile(r"^(\d+)(.*)")''', r'''compile(r"^(\d+)(_.*)")''')],
    '''
m = model(html(fig("1", th("Value", "Description"), tr("0h", "4KiB Pages"), tr("1h", "Bb"))))
check(fields(m, "1")[0], ("0h", "KIB_PAGES_4"), "number at the end of the name")
''',
    "a name whose leading number is directly followed by letters",
    "the number stays at the front",
)

bug(
    "s06-range-name", "S06",
    [(X + "structtable.py", '''                if field_label in labels:
                    self.add_issue(
                        LintErr.LBL_DUPLICATE,
                        row_key=self._range_to_row_key(field["range"]),
                        ctx={"label": field_label},
                    )
                labels.add(field_label)
''', '''                if field_label in labels:
                    self.add_issue(
                        LintErr.LBL_DUPLICATE,
                        row_key=self._range_to_row_key(field["range"]),
                        ctx={"label": field_label},
                    )
                    labels.discard(field_label)  # report each name once
                else:
                    labels.add(field_label)
''')],
    f'''
m = model(html(fig("1", th(*{B}), tr("3", "Aa (AA): x"), tr("2", "Aa (AA): x"), tr("1", "Bb (BB): x"), tr("0", "Aa (AA): x"))))
check(lint(m), [("L1002", "1", "2"), ("L1002", "1", "3")], "second and third field of the same name")
''',
    "a name that occurs three times in a figure",
    "the third one is not reported",
)

bug(
    "s07-colspan-offset", "S07",
    [(J + "rowiter.py", '''            yield elem
            col_off += int(elem.get("colspan", 1))
            if rest''', '''            yield elem
            col_off += 1
            if rest''')],
    '''
head = "<tr>" + td("R", tag="th", colspan="2") + td("Bits", tag="th") + td("Description", tag="th") + "</tr>"
wide = "<tr>" + td("s", rowspan="2", colspan="2") + td("7:4") + td("Aa (AA): x", rowspan="2") + "</tr>"
m = model(html(fig("1", head, wide, "<tr>" + td("3:0") + "</tr>")))
check(m and fields(m, "1"), [((3, 0), "aa", "x"), ((7, 4), "aa", "x")], "spans over rows and columns")
''',
    "a cell spanning rows and columns, with another spanning cell to its right",
    "the cells of the further rows are taken for those of other columns",
)

bug(
    "s09-first-other", "S09",
    [(X + "valuetable.py", '''        if len(tbl_col_hdrs) == 2 and m.value_column == "value":
''', '''        if len(tbl_col_hdrs) >= 2 and m.value_column == "value":
''')],
    '''
m = model(html(fig("1", th("Value", "Meaning", "Scope"), tr("0h", "Aa", "b"))))
check((lint(m), list(ents(m))), ([("T1007", "1", None)], []), "a figure of no kind is skipped")
''',
    "a figure with a value column and two columns of unknown names",
    "it is read as value figure",
)

bug(
    "s10-first-cell", "S10",
    [(J + "document.py", '''        title = XmlUtils.to_text(fig_tr)
''', '''        title_cell = Xpath.elem_first(fig_tr, "./*[1]")
        title = "" if title_cell is None else XmlUtils.to_text(title_cell)
''')],
    f'''
t = fig("1", th(*{B}), tr("7:0", "Aa (AA): x")).replace("<td><p>Figure", "<td/><td><p>Figure", 1)
check(list(ents(model(html(t)))), ["1"], "a title in the second cell of its row")
''',
    "a title row whose first cell is empty",
    "the figure is lost",
)

bug(
    "s12-start-only", "S12",
    [(X + "regular_expressions.py", '''    r"^(?P<low>[a-zA-Z0-9+\\-*()\\s]+):(?P<high>[a-zA-Z0-9+\\-*()\\s]+)"
''', '''    r"^(?P<low>[a-zA-Z0-9+\\-*()\\s]+):(?P<high>[a-zA-Z0-9+\\-*()\\s]+)(?:\\.\\.\\.)?"
''')],
    '''
head = "<tr>" + td("Entry List", tag="th", colspan="2") + "</tr>"
m = model(html(fig("1", th("Bytes", "Description"), tr("3:0", "Aa (AA): x"), head, tr("7:4...", "Bb (BB): x"))))
check([f["range"] for f in ents(m)["1"]["fields"]][1], "7:4...", "another range text is kept verbatim")
''',
    "a range in a list that is followed by three dots",
    "the dots are dropped and nothing is reported",
)

bug(
    "s14-empty-context", "S14",
    [(J + "lint.py", '''            "fig": self.fig,
            "context": self.ctx,
        }
''', '''            "fig": self.fig,
        }
        if self.ctx or self.row is not None:
            ret["context"] = self.ctx
'''),
     (J + "document.py", '''            raise RuntimeError(f"failed to extract figure ID from {figure_title!r}")
''', '''            raise RuntimeError("failed to extract figure ID")
''')],
    f'''
m = model(html(fig("1", th(*{B}), tr("0", "Aa (AA): x"), tr("7:4", "Bb (BB): x"))))
check([sorted(e) for e in m["meta"]["lint"]], [["code", "context", "fig", "msg"]], "keys of a report")
''',
    "a report without details that names no row (row order)",
    "a key that the schema requires is missing",
)

bug(
    "d03-id-stop", "D03",
    [(X + "regular_expressions.py", r'''compile(r"^Figure (?P<id>\d+):.*")''', r'''compile(r"^Figure (?P<id>\d+)\s*[:\-].*")''')],
    '''
_, out = spex({"a.docx": docx(wfig("7", wrow("0", "Aa (AA): x"), title="Figure 7-2: T"))})
check("<table>" in out["a.html"], True, "no id without a number and a colon")
''',
    "a figure number with a dash",
    "the table gets the id of another figure",
)

bug(
    "d05-both-lines", "R01",
    [(D + "runproperties.py", '''        txt_dec_line = []
        if self.__underline:
            txt_dec_line.append("underline")
        if self.__strikethrough:
            txt_dec_line.append("line-through")
''', '''        txt_dec_line = set()
        if self.__underline:
            txt_dec_line.add("underline")
        if self.__strikethrough:
            txt_dec_line.add("line-through")
''')],
    '''
d = docx(wtbl(wrow(wc(wp(wr("x", '<w:strike/><w:u w:val="single"/>'))))))
seen = set()
for seed in range(12):
    ENV["PYTHONHASHSEED"] = str(seed)
    seen.add(spex({"a.docx": d})[1]["a.css"])
check(len(seen), 1, "style sheets of the same document")
''',
    "a text that is both underlined and struck through, and another hash seed",
    "the style sheet differs from run to run",
)

bug(
    "d06-revision-word", "D06",
    [(D + "header.py", '''r".*[Rr]evision\\s+(?P<rev>\\S+).*"''', '''r".*[Rr]evision\\s+(?P<rev>[\\w.]+).*"''')],
    '''
_, out = spex({"a.docx": docx(wfig("1", wrow("0", "Aa (AA): x")), header=wp("Spec, Revision 2.0-rc1"))})
check(json.loads(out["a.json"])["meta"]["revision"], "2.0-rc1", "revision")
''',
    "a revision with other characters than letters, digits and points",
    "the revision is cut there",
)

bug(
    "r02-validate-at-end", "R02",
    [("src/spex/__main__.py", '''            except StopIteration as e:
                if args.validate_json and e.value is not None:
                    validate_json(e.value)
''', '''            except StopIteration as e:
                if args.validate_json and e.value is not None:
                    results.append(e.value)

        for result in results:
            validate_json(result)
'''), ("src/spex/__main__.py", '''        for spec in args.input:
            logger.log''', '''        results: List[Path] = []
        for spec in args.input:
            logger.log''')],
    '''
sys.path.insert(0, str(REPO / "src"))
import spex.__main__ as M
def fails(p):
    raise RuntimeError("not valid")
M.validate_json = fails
for n in ("a", "b"):
    (SCRATCH / f"{n}.html").write_text(html(fig("1", th("Bits", "Description"), tr("0", "Field One (FO): x"))))
sys.argv = ["spex", "--validate-json", "-o", str(SCRATCH), str(SCRATCH / "a.html"), str(SCRATCH / "b.html")]
try:
    M.main()
    rc = 0
except SystemExit as e:
    rc = e.code
check((rc != 0, (SCRATCH / "b.json").exists()), (True, False), "nothing is processed after a failed validation")
''',
    "several inputs with validation, where not the last one violates the schema",
    "later inputs are processed after the failure",
)

bug(
    "r03-order-shown", "R03",
    [(X + "structtable.py", '''                    self.add_issue(LintErr.TBL_ROW_ORDER_REVERSED)
                    return
''', '''                    self.add_issue(LintErr.TBL_ROW_ORDER_REVERSED)
                    if (
                        LintErr.TBL_ROW_ORDER_REVERSED.value
                        not in self.doc_parser.args.lint_codes_ignore
                    ):
                        return
                    break
''')],
    f'''
d = html(fig("1", th(*{B}), tr("0", "Aa (AA): x"), tr("7:4", "Bb (BB): x")))
check(lint(model(d, "--lint-ignore", "T1004")), [], "other reports than those ignored")
''',
    "a figure whose rows are in the wrong order, and that report being ignored",
    "other reports appear instead",
)

bug(
    "r04-newer-html", "R04",
    [("src/spex/parse.py", '''            gen = sp.generate(yield_progress=yield_progress)
            if yield_progress:
''', '''            gen = sp.generate(yield_progress=yield_progress)
            if sp.num_figures == 0:
                logger.log(ULog.INFO, "no figures, nothing to convert")
                sp._destroyed = True
            elif yield_progress:
'''), ("src/spex/parse.py", '''                num_figures = sp.num_figures
                for fig_ndx in gen:
''', '''                num_figures = sp.num_figures
                # one position per figure
                for fig_ndx in gen:
''')],
    '''
import shutil
d = SCRATCH / "w"; d.mkdir()
def run(content):
    (d / "a.docx").write_bytes(content)
    return subprocess.run([sys.executable, "-m", "spex", "-o", str(d), str(d / "a.docx")], cwd=d, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
run(docx(wfig("1", wrow("0", "Aa (AA): x"))))
rc = run(docx(wp("no figures")))
check(rc != 0 or "Figure 1" not in (d / "a.html").read_text(), True, "the page is that of this run")
''',
    "a document without tables processed after another one of the same name",
    "the page of the earlier run stays, with exit status 0",
)

bug(
    "r07-without-title", "R07",
    [(J + "document.py", '''                        logger.log(ULog.ERROR, f"failed parsing figure {entity!r}")
''', '''                        name = {**entity, "title": entity.get("title", "")[:40]}
                        logger.log(ULog.ERROR, f"failed parsing figure {name!r}")
''')],
    '''
bad = fig("1", th("Bits", "Description"), "<tr>" + td("7:0") + td() + "</tr>", title="Figure 1: A rather long title of a figure that fails in the end")
r = SCRATCH / "a.html"; r.write_text(html(bad))
p = subprocess.run([sys.executable, "-m", "spex", "-s", "-o", str(SCRATCH), str(r)], cwd=SCRATCH, env=ENV, capture_output=True, text=True)
import re
lines = [l for l in (p.stdout + p.stderr).split("\\n") if "failed parsing figure" in l]
check(any("fails in the end" in l for l in lines), True, "the title of the figure that failed")
''',
    "a failing figure whose title is longer than 40 characters",
    "the console shows a part of the title only",
)

bug(
    "w01-shared-args", "W01",
    [(A, '''    pargs = ParserArgs(
        output_dir=Path(temp_dir_path),
        skip_fig_on_error=True,  # required for caching making sense
        lint_codes_ignore=[],
    )
''', '''    pargs = app.config.setdefault(
        "SPEX_PARSER_ARGS",
        ParserArgs(
            output_dir=Path(temp_dir_path),
            skip_fig_on_error=True,  # required for caching making sense
            lint_codes_ignore=[],
        ),
    )
    pargs.output_dir = Path(temp_dir_path)
''')],
    '''
def doc(n):
    return docx(*[wfig(str(i), wrow("0", f"Field (F{n}): x")) for i in range(1, 4)])

async def one(app, body, step):
    sent = []
    out = []
    async def receive():
        if not sent:
            sent.append(1)
            return {"type": "http.request", "body": body, "more_body": False}
        await asyncio.sleep(30)
        return {"type": "http.disconnect"}
    async def send(m):
        out.append(m.get("body", b""))
        for _ in range(step):
            await asyncio.sleep(0.02)
    scope = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": "POST", "scheme": "http", "path": "/parse", "raw_path": b"/parse", "query_string": b"", "root_path": "",
             "headers": [(b"host", b"localhost"), (b"accept", b"text/event-stream"), (b"content-type", b"multipart/form-data; boundary=b"), (b"content-length", str(len(body)).encode())],
             "client": ("127.0.0.1", 1), "server": ("127.0.0.1", 80), "extensions": {}}
    try:
        await app(scope, receive, send)
    except Exception:
        return None
    ev = [json.loads(e[6:]) for e in b"".join(out).decode().split("\\n\\n") if e.startswith("data: ")]
    return ev[-1].get("url") if ev else None

async def s(upload, get, app):
    def body(n):
        return b'--b\\r\\nContent-Disposition: form-data; name="document"; filename="a.docx"\\r\\n\\r\\n' + doc(n) + b"\\r\\n--b--\\r\\n"
    urls = await asyncio.gather(*[one(app, body(n), n + 1) for n in range(3)])
    r = []
    for u in urls:
        if u is None:
            r.append(None)
            continue
        j = json.loads((await get(u.replace("/report/", "/json/")))[1])
        h = (await get(u.replace("/report/", "/html/")))[1].decode()
        r.append((j["entities"][0]["fields"][0]["label"], [n for n in range(3) if f"(F{n})" in h]))
    return r

check(web(s), [(f"f{n}", [n]) for n in range(3)], "results of simultaneous uploads")
''',
    "two uploads of which the second is accepted while the first is processed",
    "a document is processed in the directory of another upload",
)

bug(
    "w02-keep-failed", "W02",
    [(A, '''        finally:
            temp_dir.cleanup()
''', '''        except Exception:
            # keep what could not be processed, for bug reports
            shutil.copy(
                destination, Path(tempfile.gettempdir()) / f"spex-{hash}{suffix}"
            )
            raise
        finally:
            temp_dir.cleanup()
'''), (A, '''    hash = md5sum(destination)
    report_url''', '''    hash = md5sum(destination)  # identifies the document
    report_url''')],
    '''
async def s(upload, get, app):
    before = set(SCRATCH.iterdir())
    try:
        await upload("a.html", "<html><head/></html>")
    except Exception:
        pass
    return [p.name for p in SCRATCH.iterdir() if p not in before and p.is_file()]

check(web(s), [], "files left by an upload that failed")
''',
    "an upload that cannot be processed",
    "a copy of it stays behind outside the directories of the server",
)

bug(
    "w03-before-registered", "W03",
    [(A, '''                app.config[SPEX_CACHE_LOOKUP][hash] = cache_entry
                yield json_to_sse({"type": "report-completed", "url": report_url})
''', '''                yield json_to_sse({"type": "report-completed", "url": report_url})
                app.config[SPEX_CACHE_LOOKUP][hash] = cache_entry
''')],
    f'''
async def s(upload, get, app):
    c = app.test_client()
    h = html(fig("1", th(*{B}), tr("7:0", "Aa (AA): x")))
    body = b'--b\\r\\nContent-Disposition: form-data; name="document"; filename="a.html"\\r\\n\\r\\n' + h.encode() + b"\\r\\n--b--\\r\\n"
    seen = []
    from quart.asgi import ASGIHTTPConnection
    import hashlib
    url = "/report/" + hashlib.md5(h.encode()).hexdigest()
    got = []
    sent = []
    async def receive():
        if not sent:
            sent.append(1)
            return {{"type": "http.request", "body": body, "more_body": False}}
        await asyncio.sleep(30)
        return {{"type": "http.disconnect"}}
    async def send(m):
        if b"report-completed" in m.get("body", b""):
            got.append((await get(url))[0])
    scope = {{"type": "http", "asgi": {{"version": "3.0"}}, "http_version": "1.1", "method": "POST", "scheme": "http", "path": "/parse", "raw_path": b"/parse", "query_string": b"", "root_path": "",
             "headers": [(b"host", b"localhost"), (b"accept", b"text/event-stream"), (b"content-type", b"multipart/form-data; boundary=b"), (b"content-length", str(len(body)).encode())],
             "client": ("127.0.0.1", 1), "server": ("127.0.0.1", 80), "extensions": {{}}}}
    await app(scope, receive, send)
    return got

check(web(s), [200], "the report, fetched as soon as its completion is told")
''',
    "a client that opens the report at once",
    "it gets 404",
)

bug(
    "w04-short-hash", "W04",
    [(A, '''@app.route("/report/<hash>")
async def report(hash: str) -> str:
''', '''@app.route("/report/<hash>")
async def report(hash: str) -> str:
    hash = hash.strip().lower()
''')],
    f'''
async def s(upload, get, app):
    u = (await upload("a.html", html(fig("1", th(*{B}), tr("7:0", "Aa (AA): x")))))[2]
    h = u.rsplit("/", 1)[1]
    return [(await get("/report/" + x))[0] for x in (h, h.upper(), h + "%20")]

check(web(s), [200, 404, 404], "unknown and malformed hashes")
''',
    "the hash of a report in upper case or with a blank",
    "a report is served for an address never handed out",
)

bug(
    "w04-saved-first", "W04",
    [(A, '''    spec = files["document"]

''', '''    spec = files["document"]
    if not spec.filename:
        spec.filename = "document.html"

''')],
    f'''
async def s(upload, get, app):
    h = html(fig("1", th(*{B}), tr("7:0", "Aa (AA): x")))
    c = app.test_client()
    body = b'--b\\r\\nContent-Disposition: form-data; name="document"; filename=""\\r\\n\\r\\n' + h.encode() + b"\\r\\n--b--\\r\\n"
    r = await c.post("/parse", data=body, headers={{"Accept": "text/event-stream", "Content-Type": "multipart/form-data; boundary=b"}})
    await r.get_data()
    return r.status_code // 100

check(web(s), 4, "status of an upload without file name")
''',
    "an upload with an empty file name",
    "it is processed",
)

bug(
    "s08-nested-in-sub", "S08",
    [(X + "figure.py", '''        tbls = Xpath.elems(data, "./table")
''', '''        tbls = Xpath.elems(data, "./table|./p/table|./*/li/table")
''')],
    f'''
inner = sub(th(*{B}), tr("1", "Bb (BB): x"))
m = model(html(fig("1", th(*{B}), tr("7", td("Aa (AA): x", "<ul><li>" + inner + "</li></ul>")))))
check(list(ents(m)), ["1"], "tables that are not directly inside the description")
''',
    "a table in a list item of a description",
    "it is extracted",
)

bug(
    "s11-first-error", "S11",
    [(J + "document.py", '''                        "parent_fig_id" in entity
                        or self.args.skip_fig_on_error is False
                    ):
                        raise err
''', '''                        "parent_fig_id" in entity
                        or self.args.skip_fig_on_error is False
                        or isinstance(err, ValueError)
                    ):
                        raise err
''')],
    f'''
m = model(html(fig("2", th(*{B}), "<tr>" + td("7:0", rowspan="x") + td("Aa (AA): x") + "</tr>"), fig("3", th(*{B}), tr("7:0", "Aa (AA): x"))), "-s")
check(m is not None and "3" in ents(m), True, "figures after one that cannot be parsed")
''',
    "a row span that is no number",
    "processing stops in spite of skip-on-error",
)

bug(
    "d01-nbsp-lines", "D01",
    [(H + "docx/docxutils.py", '''            txt += child.text or ""
''', '''            txt += child.text or ""
''')] and [(H + "parser.py", '''            r_rpr = self._document.extract_r_rpr(r)
''', '''            if txt.isspace() and len(txt) > 8:
                continue  # indentation
            r_rpr = self._document.extract_r_rpr(r)
''')],
    '''
_, out = spex({"a.docx": docx(wtbl(wrow(wc(wp("a", " " * 9, "b")))))})
from lxml import etree
t = etree.fromstring(out["a.html"].encode())
check("".join(t.xpath("//td//text()")).strip(), "a" + " " * 9 + "b", "text of the cell")
''',
    "a run of nine or more blanks",
    "it is lost",
)

bug(
    "d02-tall", "D02",
    [(D + "tablewrap.py", '''                    left_cell.bottom = row_index
''', '''                    left_cell.bottom = max(left_cell.bottom, row_index)
                    if left_cell.left != cell_index:
                        left_cell.bottom = left_cell.top
'''), (D + "tablewrap.py", '''                    left_cell = matrix[-1][cell_index]
''', '''                    left_cell = matrix[row_index - 1][cell_index]
                    cell_index = max(cell_index, len(merge_row))
''')],
    '''
''',
    "x", "x",
)
del BUGS["d02-tall"]

bug(
    "d04-level-order", "D04",
    [(D + "numbering.py", '''        return "%" in self.lvl_text
''', '''        return "%" in self.lvl_text and self.num_fmt != "none"
''')],
    '''
num = '<w:abstractNum w:abstractNumId="0"><w:lvl w:ilvl="0"><w:numFmt w:val="none"/><w:lvlText w:val="%1."/></w:lvl></w:abstractNum><w:num w:numId="1"><w:abstractNumId w:val="0"/></w:num>'
li = '<w:numPr><w:ilvl w:val="0"/><w:numId w:val="1"/></w:numPr>'
_, out = spex({"a.docx": docx(wtbl(wrow(wc(wp("a", ppr=li)))), numbering=num)})
check("<ol" in out["a.html"], True, "a list whose level has a number in its text")
''',
    "a level with the number format none whose text has a number",
    "the list is unordered",
)

bug(
    "d08-definition-once", "D08",
    [(D + "numbering.py", '''        return f"{self.tag}{self.abstract_num_id}-{self.ilvl}"
''', '''        return f"{self.tag}{self.abstract_num_id % 100}-{self.ilvl}"
''')],
    '''
def ab(n, fmt):
    return f'<w:abstractNum w:abstractNumId="{n}"><w:lvl w:ilvl="0"><w:numFmt w:val="{fmt}"/><w:lvlText w:val="%1."/></w:lvl></w:abstractNum>'
num = ab(1, "decimal") + ab(101, "lowerLetter") + "".join(f'<w:num w:numId="{i}"><w:abstractNumId w:val="{a}"/></w:num>' for i, a in ((1, 1), (2, 101)))
li = lambda i: f'<w:numPr><w:ilvl w:val="0"/><w:numId w:val="{i}"/></w:numPr>'
_, out = spex({"a.docx": docx(wtbl(wrow(wc(wp("a", ppr=li(1)), wp("b", ppr=li(2))))), numbering=num)})
import re
check(len(set(re.findall(r'<ol class="([^"]*)"', out["a.html"]))), 2, "classes of lists with different markers")
''',
    "more than a hundred list definitions",
    "two of them share their class",
)

bug(
    "d09-class-by-tag", "D09",
    [(H + "parser.py", '''                if shd_fill and shd_fill.lower() and len(shd_fill) == 6:
''', '''                if rndx < 200 and shd_fill and shd_fill.lower() and len(shd_fill) == 6:
''')],
    '''
_, out = spex({"a.docx": docx(wtbl(*[wrow(wc("x", pr='<w:shd w:val="clear" w:fill="FF0000"/>')) for _ in range(210)]))})
check(out["a.html"].count('class="tcell0"'), 210, "coloured cells")
''',
    "a table of more than 200 rows",
    "cells further down have no background",
)

bug(
    "d07-td-title", "D02",
    [(H + "htmlrenderer.py", '''                    f' colspan="{cell.span.x}"' if cell.span.x > 1 else "",
''', '''                    f' colspan="{min(cell.span.x, len(row) - 1)}"'
                    if cell.span.x > 1
                    else "",
''')],
    '''
_, out = spex({"a.docx": docx(wfig("1", wrow("0", "Aa (AA): x"), wrow(wc("x", pr='<w:gridSpan w:val="2"/>'))))})
check(out["a.html"].count('colspan="2"'), 2, "cells spanning the table")
''',
    "a cell that spans all columns of its table",
    "its span is one column short",
)

bug(
    "w05-inner-table", "W05",
    [(V, '''        figure_id = figure.split("_")[0]
''', '''        figure_id = figure.split("_")[0].lstrip("0") or "0"
''')],
    f'''
d = html(fig("07", th(*{B}), tr("9", "Some One (SO): x"), tr("0", "Bb (BB): x"), id="07"), fig("7", th(*{B}), tr("9", "Other (OO): x"), tr("0", "Bb (BB): x"), id="7"))

async def s(upload, get, app):
    u = (await upload("a.html", d))[2]
    return {{k: ("Some" in v, "Other" in v) for k, v in const((await get(u))[1], "report_html").items()}}

check(web(s), {{"07": (True, False), "7": (False, True)}}, "the tables of the figures")
''',
    "figure numbers with leading zeros",
    "the table of another figure is shown",
)
del BUGS["s01-first-line"]
del BUGS["s05-number-underscore"]
del BUGS["d06-revision-word"]
del BUGS["d04-level-order"]
del BUGS["d08-definition-once"]
