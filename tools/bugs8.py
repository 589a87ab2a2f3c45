"""Planted bugs, eighth batch, see plant.py."""
J = "src/spex/jsonspec/"
X = J + "extractors/"
H = "src/spex/htmlspec/"
D = H + "docx/"
A = "src/spexsrv/application/app.py"
V = "src/spexsrv/application/report_view.py"
BUGS = {}

def bug(bid, prop, edits, demo, needs, breaks):
    BUGS[bid] = dict(prop=prop, edits=edits, demo="from lib import *\n\n" + demo.lstrip("\n") + "\ndone()\n", needs=needs, breaks=breaks)

B = '("Bits", "Description")'

PB = '("Bytes", "Description")'
PV = '("Value", "Description")'

bug(
    "d04-pop-to-parent", "D04",
    [(H + "parser.py", '''            elif child_ilvl < ilvl:
                # pop out''', '''            elif child_ilvl == 0 or child_ilvl < ilvl - 1:
                # pop out''')],
    '''
num = "".join(f'<w:lvl w:ilvl="{i}"><w:numFmt w:val="decimal"/><w:lvlText w:val="%{i+1}."/></w:lvl>' for i in range(4))
num = f'<w:abstractNum w:abstractNumId="0">{num}</w:abstractNum><w:num w:numId="1"><w:abstractNumId w:val="0"/></w:num>'
p = lambda t, l: wp(t, ppr=f'<w:numPr><w:ilvl w:val="{l}"/><w:numId w:val="1"/></w:numPr>')
_, out = spex({"a.docx": docx(wtbl(wrow(wc(p("aa", 0), p("bb", 1), p("cc", 2), p("dd", 1)))), numbering=num)})
from lxml import etree
t = etree.fromstring(out["a.html"].encode())
deep = {x: len(t.xpath(f"//li[span='{x}']/ancestor-or-self::ol")) for x in ("aa", "bb", "cc", "dd")}
check(deep, {"aa": 1, "bb": 2, "cc": 3, "dd": 2}, "depth of the items")
''',
    "items at levels 0, 1, 2, 1",
    "the last item stays in the list of level 2",
)

bug(
    "d08-six-levels", "D08",
    [(H + "htmlrenderer.py", '''                for ilvl in nstyle.ilvls:
''', '''                for ilvl in nstyle.ilvls[:6]:
''')],
    '''
num = "".join(f'<w:lvl w:ilvl="{i}"><w:numFmt w:val="lowerRoman"/><w:lvlText w:val="%{i+1}."/></w:lvl>' for i in range(9))
num = f'<w:abstractNum w:abstractNumId="0">{num}</w:abstractNum><w:num w:numId="1"><w:abstractNumId w:val="0"/></w:num>'
p = lambda t, l: wp(t, ppr=f'<w:numPr><w:ilvl w:val="{l}"/><w:numId w:val="1"/></w:numPr>')
_, out = spex({"a.docx": docx(wtbl(wrow(wc(p("aa", 7)))), numbering=num)})
from lxml import etree
t = etree.fromstring(out["a.html"].encode())
c = t.xpath("//ol/@class")[-1]
check(f"ol.{c} {{ list-style-type: lower-roman; }}" in out["a.css"], True, "marker of a list of level 7")
''',
    "a list of the seventh level or deeper",
    "it has no marker of its own",
)

bug(
    "d09-near-white", "D09",
    [(H + "parser.py", '''                        if shd_fill.lower() != "ffffff"
''', '''                        if shd_fill.lower()[0::2] != "fff"
''')],
    '''
_, out = spex({"a.docx": docx(wtbl(wrow(wc("a", pr='<w:shd w:val="clear" w:fill="FAF0FF"/>'))))})
check("background-color: #FAF0FF".lower() in out["a.css"].lower(), True, "a very light colour")
''',
    "a fill each of whose components is F0 or more",
    "it is taken for white",
)

bug(
    "d09-hundred", "D09",
    [(H + "css.py", '''        clsname = f"{self.__prefix}{count}"
''', '''        clsname = f"{self.__prefix}{count % 64}"
''')],
    '''
fills = [f"{i:02X}FF{i:02X}" for i in range(70)]
_, out = spex({"a.docx": docx(*[wtbl(wrow(wc("x", pr=f'<w:shd w:val="clear" w:fill="{f}"/>'))) for f in fills])})
from lxml import etree
t = etree.fromstring(out["a.html"].encode())
check(len(set(t.xpath("//td/@class"))), 70, "classes of 70 colours")
''',
    "more than 64 different fills",
    "different fills share a class",
)

bug(
    "w02-prefix", "W02",
    [(A, '''    temp_dir = tempfile.TemporaryDirectory()
    temp_dir_path''', '''    # named after the document, to tell uploads apart
    name = (spec.filename or "")[: -len(suffix)]
    temp_dir = tempfile.TemporaryDirectory(prefix=f"{name[:8]}-")
    temp_dir_path''')],
    f'''
(SCRATCH / "x" / "t").mkdir(parents=True)
made = []
async def s(upload, get, app):
    tempfile.tempdir = str(SCRATCH / "x" / "t")
    old = os.mkdir
    def mk(p, *a, **k):
        made.append(str(Path(os.path.normpath(p)).parent))
        return old(p, *a, **k)
    os.mkdir = mk
    try:
        await upload("../up.html", html(fig("1", th(*{B}), tr("7:0", "Aa (AA): x"))))
    finally:
        os.mkdir = old
web(s)
check([m for m in made if not m.startswith(str(SCRATCH / "x" / "t"))], [], "directories made elsewhere")
''',
    "a file name that begins with ../",
    "the working directory is made outside the temporary space",
)

bug(
    "d06-title-dot", "D06",
    [(D + "header.py", '''        self._title = self._header.split(",")[0].strip()
''', '''        self._title = self._header.split(",")[0].strip(" \\t\\n.")
''')],
    '''
_, out = spex({"a.docx": docx(wfig("1", wrow("0", "Aa (AA): x")), header=wp("Spec A Inc., Revision 1.0"))})
check(json.loads(out["a.json"])["meta"]["specification"], "spec a inc.", "title of the specification")
''',
    "a title that ends with a full stop",
    "the stop is lost",
)

bug(
    "s04-acronym-eight", "S04",
    [(X + "structtable.py", '''            return "".join(w[0] for w in txt_parts[0].split())
''', '''            return "".join(w[0] for w in txt_parts[0].split()[:8])
''')],
    '''
m = model(html(fig("1", th("Bits", "Attribute", "Description"), tr("7:0", "Aa Bb Cc Dd Ee Ff Gg Hh Ii Jj", "x"))))
check(ents(m)["1"]["fields"][0]["label"], "abcdefghij", "name out of ten words")
''',
    "a name of more than eight words in an attribute column",
    "the last words have no part in the name",
)

bug(
    "s06-ellipsis-ends", "S06",
    [(X + "structtable.py", '''            if field_label == "…":
                prev_range = None
''', '''            if field_label == "…":
                prev_range = None
                labels = set()
''')],
    f'''
m = model(html(fig("1", th(*{PB}), tr("0", "Aa (AA): x"), "<tr>" + td("…", colspan=2) + "</tr>", tr("9", "Bb (AA): x"))))
check([l for l in lint(m) if l[0] == "L1002"], [("L1002", "1", "9")], "duplicates on both sides of an ellipsis")
''',
    "fields of the same name before and after an ellipsis row",
    "the duplicate is not reported",
)

bug(
    "s07-span-limit", "S07",
    [(J + "rowiter.py", '''                alst_insert(alst, column_offset, elem, row_span)
''', '''                alst_insert(alst, column_offset, elem, min(row_span, 16))
''')],
    f'''
rows = ["<tr>" + td("0:0") .replace("0:0", "19") + td("Aa (AA): x", rowspan=20) + "</tr>"] + ["<tr>" + td(str(18 - i)) + "</tr>" for i in range(19)]
m = model(html(fig("1", th(*{B}), *rows)))
check(m and len(ents(m)["1"]["fields"]), 20, "fields of twenty rows with one description")
''',
    "a cell that is merged over more than 16 rows",
    "the rows below the 16th are lost",
)

bug(
    "s08-four-nested", "S08",
    [(X + "figure.py", '''        for tbl in tbls:
            yield from''', '''        for tbl in tbls[:4]:
            yield from''')],
    f'''
inner = [sub(th(*{B}), tr("1", f"Bb (B{{i}}): x")) for i in range(6)]
m = model(html(fig("1", th(*{B}), tr("7", td("Aa (AA): x", *inner)))))
check(len(m["entities"]), 7, "entities of six tables in one cell")
''',
    "more than four tables in one cell",
    "the others are not extracted",
)

bug(
    "d03-wrapped-tables", "D03",
    [(D + "document.py", '''        return Xpath.elems(self._elem, ".//w:tbl")
''', '''        return Xpath.elems(
            self._elem, "./w:body/w:tbl | .//w:tc//w:tbl | .//w:sdtContent/w:tbl"
        )
''')],
    '''
_, out = spex({"a.docx": docx("<w:customXml>" + wfig("1", wrow("0", "Aa (AA): x")) + "</w:customXml>", wfig("2", wrow("0", "Aa (AA): x")))})
check(out["a.html"].count("<table"), 2, "tables")
''',
    "a table within custom XML",
    "it is left out",
)

bug(
    "r06-linked-head", "R06",
    [(J + "parse.py", '''    doc_spec = Xpath.attr_first_req(doc, "./head/meta/@data-spec").lower()
''', '''    if base := Xpath.attr_first(doc, "./head/link[@rel='meta']/@href"):
        # title and revision may be kept apart from the document
        with suppress(OSError, etree.XMLSyntaxError):
            head = etree.parse(base).getroot()
            doc.getroot().find("head").extend(head.iter("meta"))
    doc_spec = Xpath.attr_first_req(doc, "./head/meta/@data-spec").lower()
'''), (J + "parse.py", '''import io
''', '''import io
from contextlib import suppress
''')],
    f'''
(SCRATCH / "secret.xml").write_text('<x><meta data-spec="secret" data-revision="9"/></x>')
h = html(fig("1", th(*{B}), tr("7:0", "Aa (AA): x"))).replace(' data-spec="Spec"', "").replace(' data-revision="1.0"', "")
h = h.replace("</head>", f'<link rel="meta" href="{{SCRATCH}}/secret.xml"/></head>')
rc, out = spex({{"a.html": h}})
check("secret" in "".join(out.values()), False, "text of another file in the output")
''',
    "a link of type meta in the head",
    "the file it names is read",
)

bug(
    "r07-failed-last", "R07",
    [("src/spex/parse.py", '''            if p := w.path:
''', '''            if (p := w.path) and len(reported_lint_errs) > 1:
''')],
    f'''
import re
(SCRATCH / "i").mkdir()
(SCRATCH / "i" / "a.html").write_text(html(fig("1", th(*{B}), tr("7:4", "Aa (AA): x"), tr("2:0", "Bb (BB): x"))))
r = subprocess.run([sys.executable, "-m", "spex", "-o", str(SCRATCH / "i"), str(SCRATCH / "i" / "a.html")], cwd=SCRATCH, env=ENV, capture_output=True, text=True)
check("a.json" in re.sub(r"\\s", "", r.stdout + r.stderr), True, "where the findings are is told")
''',
    "a document with exactly one finding",
    "the console does not tell where it is written",
)

bug(
    "s13-kv-revision", "S13",
    [(J + "quirks/kv.py", '''        if not row_txt.endswith("(refer to Figure 39)."):
            return RowErrPolicy.Raise
''', '''        if "Figure 39" not in row_txt:
            return RowErrPolicy.Raise
''')],
    f'''
row = "<tr>" + td("Figure 39 shows the format of this row", colspan=2) + "</tr>"
m = model(html(fig("41", th(*{PB}), tr("0", "Aa (AA): x"), row), spec="NVM Express® Key Value Command Set Specification", rev="1.0c"), "-s")
check(lint(m), [("T1000", "41", None)], "a row that mentions figure 39 but is not the remark")
''',
    "figure 41 with a remark that mentions figure 39 but does not refer to it at its end",
    "the figure is not reported as unparsable",
)

bug(
    "s13-mi-case", "S13",
    [(J + "quirks/mi.py", '''        if not row_txt.startswith("figure 65"):
''', '''        if not row_txt.startswith("figure 6"):
''')],
    f'''
row = "<tr>" + td("Figure 66: Other", colspan=1) + "</tr>"
m = model(html(fig("64", th(*{B}), tr("7:0", "Aa (AA): x"), row, th(*{B}), tr("7:0", "Bb (BB): x")), spec="NVM Express® Management Interface Specification", rev="1.2c"), "-s")
check("65" in (ents(m) or {{}}), False, "a figure 65 that the document does not have")
''',
    "figure 64 glued to another figure than 65",
    "that figure becomes figure 65",
)

bug(
    "s09-tab-header", "S09",
    [(J + "document.py", '''            hdr = sub(" +", " ", hdr.replace("\\n", " ").replace("\\r", "")).strip()
''', '''            hdr = sub("\\\\s+", " ", hdr.replace("\\r", "")).rstrip(".:").strip()
''')],
    f'''
m = model(html(fig("1", th("Bits:", "Description"), tr("7:0", "Aa (AA): x"))))
check(lint(m), [("T1007", "1", None)], "a figure whose header is none that is known")
''',
    "a header that ends with a colon",
    "the figure is read, not skipped",
)

bug(
    "s10-figure-word", "S10",
    [(J + "document.py", '''        return title if "Figure" in title else None
''', '''        return title if "Figure " in title else None
''')],
    f'''
m = model(html(fig("1", th(*{B}), tr("7:0", "Aa (AA): x"), title="Figure\\u00a01: T"), fig("2", th(*{B}), tr("7:0", "Aa (AA): x"))))
check(sorted(ents(m)), ["1", "2"], "figures")
''',
    "a no-break space after “Figure”",
    "the figure disappears without a finding",
)

bug(
    "s14-msg-empty", "S14",
    [(J + "lint.py", '''            "context": self.ctx,
''', '''            "context": {k: v for k, v in self.ctx.items() if v},
''')],
    f'''
m = model(html(fig("1", th("", "Description"), tr("7:0", "Aa (AA): x")), "<table><tr><td><p>Figure</p></td></tr></table>"))
check([e["context"] for e in m["meta"]["lint"] if e["code"] == "T1007"], [{{"columns": ["", "description"]}}], "columns of the skipped figure")
h = html("<table><tr><td><p>Figure 3: T</p></td></tr></table>")
m = model(h)
check([e["context"] for e in m["meta"]["lint"]], [{{"columns": []}}], "columns of a skipped figure without any")
''',
    "a skipped figure without columns",
    "its finding has no columns in its context",
)

bug(
    "r03-count-codes", "R03",
    [("src/spex/parse.py", '''            if lint_entry.code not in ignore_lint_codes
''', '''            if lint_entry.code not in ignore_lint_codes
            or (len(ignore_lint_codes) > 4 and lint_entry.row is None)
''')],
    f'''
m = model(html(fig("1", th("x", "y"), tr("7:0", "Aa (AA): x"))), "--lint-ignore=T1007,T1001,T1002,T1004,T1006")
check(lint(m), [], "findings that are left")
''',
    "more than four codes to ignore",
    "findings about whole figures are kept",
)
