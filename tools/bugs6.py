"""Planted bugs, sixth batch, see plant.py."""
J = "src/spex/jsonspec/"
X = J + "extractors/"
H = "src/spex/htmlspec/"
D = H + "docx/"
A = "src/spexsrv/application/app.py"
V = "src/spexsrv/application/report_view.py"
BUGS = {}

def bug(bid, prop, edits, demo, needs, breaks):
    BUGS[bid] = dict(prop=prop, edits=edits, demo="from lib import *\n\n" + demo.lstrip("\n") + "\ndone()\n", needs=needs, breaks=breaks)

B = '("Bits", "Description")'

bug(
    "s01-unsorted-dict", "S01",
    [(X + "structtable.py", '''            if low > high:
                self.add_issue(LintErr.RANGE_REVERSED, row_key=row_key)
''', '''            if low > high:
                self.add_issue(LintErr.RANGE_REVERSED, row_key=row_key)
                if len(str(low)) == len(str(high)):
                    low, high = high, low  # most likely swapped
''')],
    '''
m = model(html(fig("1", th("Bytes", "Description"), tr("0:7", "Aa (AA): x"), tr("8:15", "Bb (BB): x"))))
check(fields(m, "1"), [((0, 7), "aa", "x"), ((8, 15), "bb", "x")], "reversed ranges as printed")
''',
    "a reversed range whose bounds have the same number of digits",
    "the recorded bounds are not the printed ones",
)

bug(
    "s02-obsolete-resets", "S02",
    [(X + "structtable.py", '''            if field_label == "…":
''', '''            if field_label in {OBSOLETE, "…"}:
''')],
    f'''
m = model(html(fig("1", th(*{B}), tr("7:6", "Aa (AA): x"), tr("4", "Obsolete"), tr("3:0", "Bb (BB): x"))))
check(lint(m), [("T1002", "1", "6")], "gap after an obsolete field")
''',
    "an overlap or gap at an obsolete row",
    "it is not reported",
)

bug(
    "s03-trailing-stop", "S03",
    [(X + "structtable.py", '''        return content.upper() in SPECIAL_CASE_SET or content.lower().startswith("note")''', '''        content = content.rstrip(" .")
        return content.upper() in SPECIAL_CASE_SET or content.lower().startswith("note")''')],
    f'''
m = model(html(fig("1", th(*{B}), tr("7", "Aa (AA): x"), tr("6", "Reserved."), tr("5:0", "Bb (BB): x"))))
check(len(ents(m)["1"]["fields"]), 3, "fields of three rows")
''',
    "a description of Reserved followed by a full stop",
    "the row yields no field",
)

bug(
    "s04-slash-in-words", "S04",
    [(X + "helpers.py", '''    return "".join(w[0] for w in text.split()).lower()
''', '''    words = text.replace("-", " ").split()
    return "".join(w[0] for w in words).lower()
''')],
    f'''
m = model(html(fig("1", th(*{B}), tr("7:0", "Non-Volatile Memory Size: x"))))
check(fields(m, "1"), [((7, 0), "nms", "x")], "initials of the words")
''',
    "an unnamed description with a hyphenated word",
    "an initial too many",
)

bug(
    "s05-underscore-once", "S05",
    [(X + "helpers.py", '''        .replace("/", "")
        .replace("-", "_")
        .replace("__", "_")
''', '''        .replace("-", "_")
        .replace("__", "_")
        .replace("/", "")
''')],
    '''
m = model(html(fig("1", th("Value", "Description"), tr("0h", "Read / Write: x"), tr("1h", "Bb"))))
check(fields(m, "1"), [("0h", "READ_WRITE", "x"), ("1h", "BB")], "names")
''',
    "a slash between blanks in a name",
    "the name has two underscores in a row",
)

bug(
    "s06-empty-labels", "S06",
    [(X + "valuetable.py", '''        for field in fields:
            field_value = field["val"]
            field_label = field["label"]
''', '''        for field in sorted(fields, key=lambda f: str(f["val"])):
            field_value = field["val"]
            field_label = field["label"]
''')],
    '''
m = model(html(fig("1", th("Value", "Description"), tr("2h", "Aa: x"), tr("1h", "Aa: x"), tr("3h", "Bb"))))
check(lint(m), [("L1002", "1", "1h")], "the later of two equal names is reported")
''',
    "a repeated name whose later row has the smaller code",
    "the earlier row is reported",
)

bug(
    "s10-number-stop", "S10",
    [(J + "document.py", r'''re_compile(r"Figure\s+(?P<figid>[^\s^:]+).*")''', r'''re_compile(r"Figure\s+(?P<figid>[^\s^:]+).*:")''')],
    f'''
m = model(html(fig("1", th(*{B}), tr("7:0", "Aa (AA): x"), title="Figure 1 A title"), fig("2", th(*{B}), tr("7:0", "Aa (AA): x"))))
check((lint(m), list(ents(m))), ([], ["1", "2"]), "a title without colon")
''',
    "a title without colon",
    "the figure has no number",
)

bug(
    "s11-nested-continue", "S11",
    [(J + "document.py", '''                        "parent_fig_id" in entity
                        or self.args.skip_fig_on_error is False
''', '''                        "_" in entity.get("parent_fig_id", "")
                        or self.args.skip_fig_on_error is False
''')],
    f'''
bad = sub(th(*{B}), "<tr>" + td("a") + td() + "</tr>")
inner = lambda: "<tr>" + td("3:0") + td("Bb (BB): x", bad) + "</tr>"
m = model(html(fig("1", th(*{B}), tr("7:4", "Aa (AA): x"), inner()), fig("2", th(*{B}), tr("7:0", "Aa (AA): x"))), "--skip-figure-on-error")
check(sorted(ents(m)), ["2"], "entities next to a figure with a failing part")
''',
    "a failing figure nested in a top-level one",
    "the figure around it is emitted although a part of it failed",
)

bug(
    "s12-list-word", "S12",
    [(X + "structtable.py", '''                    if "List" in colspan and not is_dynamic_table_mode:
''', '''                    if "List" in colspan.split() and not is_dynamic_table_mode:
''')],
    '''
head = "<tr>" + td("Namespace List: see below", tag="th", colspan="2") + "</tr>"
m = model(html(fig("1", th("Bytes", "Description"), tr("3:0", "Aa (AA): x"), head, tr("N*4+3:4", "Bb (BB): x"))))
check((fields(m, "1"), lint(m)), ([((3, 0), "aa", "x"), (("N*4+3", "4"), "bb", "x")], []), "rows of the list")
''',
    "a heading in which List is followed by punctuation",
    "the formula bounds of the rows are lost",
)

bug(
    "s14-no-empty-row", "S14",
    [(J + "lint.py", '''        if self.row is not None:
            ret["row"] = self.row
        return ret''', '''        if self.row:
            ret["row"] = self.row
        return ret''')],
    f'''
m = model(html(fig("1", th(*{B}), tr("7:4", "Aa (AA): x"), tr("", "Bb (BB): x"))))
check(lint(m), [("R1001", "1", "")], "the row of the finding")
''',
    "a finding at a row whose range cell is empty",
    "the entry does not name the row",
)

bug(
    "s15-cell-by-child", "S15",
    [(X + "structtable.py", '''        return Xpath.elem_first_req(row, f"./td[{self._col_ndx_range + 1}]")
''', '''        td = row[self._col_ndx_range] if len(row) > self._col_ndx_range else None
        if td is None or td.tag == "th":
            return Xpath.elem_first_req(row, f"./td[{self._col_ndx_range + 1}]")
        return td
''')],
    f'''
rows = th(*{B}) + tr("7:4", "Aa (AA): x") + "<tr>%s" + td("3:0") + td("Bb (BB): x") + "</tr>"
check(model(html(fig("1", rows % "<!-- 3:1 -->"))), model(html(fig("1", rows % ""))), "a comment in a row")
''',
    "a comment before the cells of a row",
    "the comment is read as the range",
)

bug(
    "d05-baseline", "D05",
    [(D + "runproperties.py", '''        if other.__vert_align is not None:
            c.__vert_align = other.__vert_align
''', '''        if other.vert_align is not VertAlign.baseline:
            c.__vert_align = other.__vert_align
''')],
    '''
import re
st = '<w:style w:type="character" w:styleId="Sup"><w:rPr><w:vertAlign w:val="superscript"/></w:rPr></w:style>'
rc, out = spex({"a.docx": docx(wtbl(wrow(wc(wp(wr("x", '<w:rStyle w:val="Sup"/><w:vertAlign w:val="baseline"/>'))))), styles=st)})
check((rc, re.findall(r"vertical-align: (\\w+);", out["a.css"])), (0, ["baseline"]), "vertical position")
''',
    "a run with a superscript style which is explicitly on the baseline",
    "it is shown as superscript",
)

bug(
    "r05-final-progress", "R05",
    [(J + "document.py", '''    def _figures(self) -> List["Element"]:
        return Xpath.elems(self.doc, "./body/table")
''', '''    def _figures(self) -> List["Element"]:
        return Xpath.elems(self.doc, "./body/table[tr/th]")
''')],
    f'''
m = model(html(fig("1", tr(*{B}), tr("7:0", "Aa (AA): x")), fig("2", th(*{B}), tr("7:0", "Aa (AA): x"))))
check(sorted(ents(m)), ["1", "2"], "figures")
''',
    "a figure whose column names are in data cells",
    "it is lost without a report",
)

bug(
    "w02-mkdtemp", "W02",
    [(A, '''    temp_dir = tempfile.TemporaryDirectory()
    temp_dir_path = Path(temp_dir.name)
''', '''    temp_dir_path = Path(tempfile.mkdtemp())
'''), (A, '''            temp_dir.cleanup()

    # skip parsing..''', '''            shutil.rmtree(temp_dir_path, ignore_errors=True)

    # skip parsing..''')],
    f'''
import gc
async def s(upload, get, app):
    c = app.test_client()
    from werkzeug.datastructures import FileStorage
    before = set(SCRATCH.iterdir())
    async with c.request("/parse", method="POST", headers={{"Accept": "text/event-stream", "Content-Type": "multipart/form-data; boundary=b"}}) as con:
        await con.send(b'--b\\r\\nContent-Disposition: form-data; name="document"; filename="a.html"\\r\\n\\r\\n' + html(fig("1", th(*{B}), tr("7:0", "Aa (AA): x"))).encode() + b"\\r\\n--b--\\r\\n")
        await con.send_complete()
        await asyncio.sleep(0.05)
        await con.disconnect()
    await asyncio.sleep(0.2)
    gc.collect()
    return len(set(SCRATCH.iterdir()) - before)
import quart.asgi
async def no_body(self, send, response):
    raise asyncio.CancelledError()
real = quart.asgi.ASGIHTTPConnection._send_response
quart.asgi.ASGIHTTPConnection._send_response = no_body
check(web(s), 0, "working directories after a client left before the response")
''',
    "a client that leaves before the response begins",
    "the working directory stays",
)

bug(
    "r06-include", "R06",
    [(J + "parse.py", '''    doc_spec = Xpath.attr_first_req(doc, "./head/meta/@data-spec").lower()
''', '''    doc.xinclude()
    doc_spec = Xpath.attr_first_req(doc, "./head/meta/@data-spec").lower()
''')],
    '''
(SCRATCH / "secret.txt").write_text("geheim")
inc = f'<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="{SCRATCH}/secret.txt" parse="text"/>'
rc, out = spex({"a.html": html(fig("1", th("Bits", "Description"), "<tr>" + td("7:0") + f"<td><p>Aa (AA): {inc}</p></td></tr>"))})
check("geheim" in str(out), False, "text of another file in the result")
''',
    "a document with an XInclude element",
    "the file it names is read into the result",
)


bug(
    "s01-low-digits", "S01",
    [(X + "regular_expressions.py", r"""RANGE_REGEX = compile(r"(?P<high>\d+)\s*(:\s*(?P<low>\d+))?")""", r"""RANGE_REGEX = compile(r"(?P<high>\d+)\s*(:\s*(?P<low>\d{1,4}))?")""")],
    '''
m = model(html(fig("1", th("Bytes", "Description"), tr("9999:0", "Aa (AA): x"), tr("20479:10000", "Bb (BB): x"))))
check((fields(m, "1"), lint(m)), ([((9999, 0), "aa", "x"), ((20479, 10000), "bb", "x")], []), "ranges far out")
''',
    "a low bound of more than four digits",
    "the range is kept as text and reported as invalid",
)

bug(
    "s04-sentence-sixty", "S04",
    [(X + "helpers.py", """    return _brief if len(_brief) <= brief_maxlen else None
""", """    return _brief if len(_brief) < brief_maxlen else None
""")],
    f'''
first = "x" * 60
m = model(html(fig("1", th(*{B}), tr("7:0", f"Aa (AA): {{first}}. And much more."))))
check(fields(m, "1"), [((7, 0), "aa", first)], "first sentence of a long text")
''',
    "a long text whose first sentence is exactly 60 characters long",
    "the field has no brief",
)

bug(
    "s05-line-in-name", "S05",
    [(X + "regular_expressions.py", r'''        r"^(?P<label>[\w\s/-]*):?(?P<brief>.+)?$",  # noqa''', r'''        r"^(?P<label>[\w /-]*):?(?P<brief>.+)?$",  # noqa''')],
    '''
m = model(html(fig("1", th("Value", "Description"), tr("0h", "Read\u00a0Data: x"), tr("1h", "Bb"))))
check([f["label"] for f in ents(m)["1"]["fields"]], ["READ\u00a0DATA", "BB"], "names")
''',
    "a name with a line break or a non-breaking blank",
    "the name ends there",
)

bug(
    "s09-joined-lines", "S09",
    [(J + "document.py", """            hdr = sub(" +", " ", hdr.replace("\\n", " ").replace("\\r", "")).strip()
""", """            hdr = sub(" +", " ", hdr.replace("\\n", "").replace("\\r", "")).strip()
""")],
    '''
m = model(html(fig("1", th("Power" + chr(10) + "Scope", "Value", "More"), tr("Aa: x", "0h", ""), tr("Bb: y", "1h", ""))))
check((lint(m), list(ents(m))), ([], ["1"]), "a header over two lines")
''',
    "a column name of two words on two lines without a blank",
    "the figure is skipped",
)

bug(
    "s13-title-words", "S13",
    [(J + "parse.py", """        quirks_key = (self.key, self.rev)
""", """        quirks_key = (" ".join(self.key.split()), self.rev)
""")],
    '''
f = fig("37", th("Value", "Description"), tr("0", "Alpha"), tr("1", "Beta"))
T = "NVM Express® Zoned Namespace Command Set Specification"
check(fields(model(html(f, spec=T, rev="1.1c")), "37"), [("0", "zt"), ("1", "zs")], "names of the specification")
check(fields(model(html(f, spec=T.replace(" Zoned", "  Zoned"), rev="1.1c")), "37"), [("0", "ALPHA"), ("1", "BETA")], "none for another title")
''',
    "a title that differs in blanks",
    "the special rules are applied to it",
)

bug(
    "s15-text-of-p", "S15",
    [(X + "valuetable.py", """        return XmlUtils.to_text(val_cell).lower()
""", """        p = Xpath.elem_first(val_cell, "./p[1]")
        if p is not None and not Xpath.elems(p, "./*") and (p.text or "").strip():
            return (p.text or "").strip().lower()
        return XmlUtils.to_text(val_cell).lower()
""")],
    '''
rows = th("Value", "Description") + "<tr><td><p>%s</p></td>" + td("Aa: x") + "</tr>"
check(model(html(fig("1", rows % "00<?x?>01b"))), model(html(fig("1", rows % "0001b"))), "an instruction in a code")
''',
    "a comment or processing instruction within a code",
    "the code ends there",
)

bug(
    "s15-header-cells", "S15",
    [(J + "document.py", """            for thdr in Xpath.elems(tbl, "./tr[1]/*")
""", """            for thdr in Xpath.elem_first_req(tbl, "./tr[1]")
""")],
    f'''
rows = "<tr>%s" + td("Bits", tag="th") + td("Description", tag="th") + "</tr>" + tr("7:4", "Aa (AA): x")
check(model(html(fig("1", rows % "<!-- columns -->"))), model(html(fig("1", rows % ""))), "a comment in the header row")
''',
    "a comment in the row of the column names",
    "the columns behind it are counted wrongly",
)

bug(
    "d06-casefold", "D06",
    [(J + "parse.py", """    doc_spec = Xpath.attr_first_req(doc, "./head/meta/@data-spec").lower()
""", """    doc_spec = Xpath.attr_first_req(doc, "./head/meta/@data-spec").casefold()
""")],
    '''
m = model(docx(wfig("1", wrow("7:0", "Aa (AA): x")), header=wp("Straße ﬁ, Revision 2.0")), name="a.docx")
check((m["meta"]["specification"], m["meta"]["revision"]), ("straße ﬁ", "2.0"), "title and revision")
''',
    "a title with a letter whose folded form is not its lower case",
    "its letters are replaced",
)
