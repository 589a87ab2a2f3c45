"""Planted bugs, third batch, see plant.py."""
J = "src/spex/jsonspec/"
X = J + "extractors/"
H = "src/spex/htmlspec/"
D = H + "docx/"
A = "src/spexsrv/application/app.py"
V = "src/spexsrv/application/report_view.py"
BUGS = {}


def bug(bid, prop, edits, demo, needs, breaks):
    BUGS[bid] = dict(prop=prop, edits=edits, demo="from lib import *\n\n" + demo.lstrip("\n") + "\ndone()\n", needs=needs, breaks=breaks)


bug(
    "s09-report-once", "S09",
    [(J + "document.py", '''        self._unwind_parse_error = False
        self.__fig_id_missing_counter = 0
''', '''        self._unwind_parse_error = False
        self._hdrs_reported: Dict[str, str] = {}
        self.__fig_id_missing_counter = 0
'''), (J + "document.py", '''            if replacement is not None:
                self.linter.add_issue(''', '''            if replacement is not None:
                if self._hdrs_reported.get(fig_id.split("_")[0]) == hdr:
                    return replacement
                self._hdrs_reported[fig_id.split("_")[0]] = hdr
                self.linter.add_issue(''')],
    '''
inner = sub(th("Bit", "Description"), tr("0", "In Ner (IN): x"))
f = fig("1", th("Bit", "Description"), tr("7:0", td("Out Er (OE): x", inner)))
check(lint(model(html(f))), [("T1006", "1", None), ("T1006", "1_0", None)], "header variant in a figure and its nested figure")
''',
    "a figure and one nested in it that use the same non-standard header",
    "the nested figure's header is not reported",
)

bug(
    "s14-long-row", "S14",
    [(J + "lint.py", '''        if self.row is not None:
            ret["row"] = self.row
''', '''        if self.row is not None:
            ret["row"] = self.row if len(self.row) <= 64 else self.row[:61] + "..."
''')],
    '''
r = "((N * 4096) + 4095 + NUMD * 4 + OFFSET):((N * 4096) + NUMD * 4 + OFFSET)"
f = fig("1", th("Bytes", "Description"), tr(r, "Some Field (SF): x"))
check(lint(model(html(f))), [("R1001", "1", r)], "row of a report on a long formula")
''',
    "a report about a row whose key is longer than 64 characters",
    "the row named in the report does not exist",
)

bug(
    "s07-nested-once", "S07",
    [(J + "rowiter.py", '''                elem = copy.copy(td)
                # avoid repeatedly processing this elem in subsequent rows
                del elem.attrib["rowspan"]
''', '''                elem = copy.copy(td)
                # avoid repeatedly processing this elem in subsequent rows
                del elem.attrib["rowspan"]
                for tbl_ in Xpath.elems(elem, "./table"):
                    elem.remove(tbl_)
''')],
    '''
inner = sub(th("Value", "Description"), tr("0h", "Off"))
f = fig("1", th("Bytes", "Description"), "<tr>" + td("0") + td("Both (BO): x", inner, rowspan=2) + "</tr>", "<tr>" + td("1") + "</tr>")
check([e for e in ents(model(html(f)))], ["1_0", "1_1", "1"], "nested figures of a description covering two rows")
''',
    "a description cell that spans rows and holds a nested figure",
    "the nested figure is extracted for the first of its rows only",
)

bug(
    "s07-heading-in-span", "S07",
    [(J + "rowiter.py", '''        yield row

        alst = alst_count_decr(alst)
        row_cnt += 1
''', '''        yield row

        if len(row) > 1 or not alst:
            alst = alst_count_decr(alst)
        row_cnt += 1
''')],
    '''
f = fig("1", th("Bytes", "Description"), "<tr>" + td("0", rowspan=3, colspan=2) + "</tr>", "<tr></tr>", "<tr></tr>", tr("9", "Some Field (SF): x"))
g = fig("1", th("Bytes", "Description"), *["<tr>" + td("0", colspan=2) + "</tr>"] * 3, tr("9", "Some Field (SF): x"))
check(fields(model(html(f)), "1"), fields(model(html(g)), "1"), "merged and written-out table")
''',
    "a cell spanning all columns and several rows, followed by another row",
    "it is taken to reach into the rows below it",
)

bug(
    "r03-sorted", "R03",
    [("src/spex/parse.py", '''            if lint_entry.code not in ignore_lint_codes
        ]
''', '''            if lint_entry.code not in ignore_lint_codes
        ]
        if ignore_lint_codes:
            reported_lint_errs = list(
                {json.dumps(e): e for e in reported_lint_errs}.values()
            )
'''), ("src/spex/parse.py", '''from pathlib import Path
from typing import Generator, Optional, Set, cast
''', '''import json
from pathlib import Path
from typing import Generator, Optional, Set, cast
''')],
    '''
f = fig("1", th("Value", "Description"), tr("0h", "A b!"), tr("0h", "A b!"), tr("0h", "A b!"))
a, b = lint(model(html(f))), lint(model(html(f), "--lint-ignore", "T1007"))
check(b, a, "lint with an unrelated code ignored")
''',
    "two equal reports and an ignored code",
    "only one of two equal reports is kept",
)

bug(
    "r02-last-digit-suffix", "R02",
    [("src/spex/__main__.py", '''    if not p.exists():
        p.mkdir(parents=True, exist_ok=True)
    if not p.is_dir():
''', '''    if p.suffix == ".json":
        p = p.parent
    if not p.exists():
        p.mkdir(parents=True, exist_ok=True)
    if not p.is_dir():
''')],
    '''
d = SCRATCH / "x"
d.mkdir()
(d / "a.html").write_text(html(fig("1", th("Bytes", "Description"), tr("0", "Some Field (SF): x"))))
rc = subprocess.run([sys.executable, "-m", "spex", "-o", "models.json", "a.html"], cwd=d, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
check((rc, sorted(str(p.relative_to(d)) for p in d.rglob("*.json"))), (0, ["models.json", "models.json/a.json"]), "output directory called models.json")
''',
    "an output directory whose name ends in .json",
    "the files are written somewhere else",
)

bug(
    "r04-same-size", "R04",
    [("src/spex/writer.py", '''        self._src = src
        self._dst: Optional''', '''        self._src = src
        self._old = self._output.read_bytes() if self._output.is_file() else b""
        self._dst: Optional'''), ("src/spex/writer.py", '''                json.dump(self._doc, self._dst, indent=2, ensure_ascii=False)
''', '''                txt = json.dumps(self._doc, indent=2, ensure_ascii=False)
                if len(txt.encode()) == len(self._old):
                    # nothing changed, keep it as it was
                    self._dst.buffer.write(self._old)
                else:
                    self._dst.write(txt)
''')],
    '''
def run(t):
    d = SCRATCH / "x"
    d.mkdir(exist_ok=True)
    (d / "a.html").write_text(html(fig("1", th("Bytes", "Description"), tr("0", t))))
    rc = subprocess.run([sys.executable, "-m", "spex", "-o", "out", "a.html"], cwd=d, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
    return rc, json.loads((d / "out" / "a.json").read_text())["entities"][0]["fields"][0]["brief"]

check(run("Some Field (SF): one"), (0, "one"), "first run")
check(run("Some Field (SF): two"), (0, "two"), "second run, after a small correction of the document")
''',
    "a second run into the same directory with a document whose result has the same size",
    "the earlier result is kept",
)

bug(
    "r01-css-counter", "R01",
    [(H + "css.py", '''class CssCache:
    def __init__(self, prefix: str):
        self.__cache: Dict[CssObj, str] = {}
        self.__prefix = prefix
        self.__counter = 0
''', '''class CssCache:
    __counter = 0

    def __init__(self, prefix: str):
        self.__cache: Dict[CssObj, str] = {}
        self.__prefix = prefix
'''), (H + "css.py", '''        count = self.__counter
        self.__counter += 1
''', '''        count = CssCache.__counter
        CssCache.__counter += 1
''')],
    '''
d = docx(wtbl(wrow(wc(wp(wr("x", "<w:b/>"))))))
rc, one = spex({"a.docx": d})
rc2, two = spex({"z.docx": d, "a.docx": d})
check((rc, rc2), (0, 0), "status")
check(two["a.html"], one["a.html"], "HTML of a document processed after another")
''',
    "a document processed after another one in the same run",
    "its style names differ",
)

bug(
    "d04-shared-restart", "D04",
    [(H + "parser.py", '''            if num_doc.get_style(num_id).abstract_num_id != abstract_num_id:
                # different list
                break
''', '''            if (
                num_doc.get_style(num_id).abstract_num_id != abstract_num_id
                and ilvl == 0
            ):
                # different list
                break
''')],
    '''
lvl = lambda i, t: f'<w:lvl w:ilvl="{i}"><w:numFmt w:val="{"bullet" if t == "b" else "decimal"}"/><w:lvlText w:val="{"*" if t == "b" else "%1."}"/></w:lvl>'
num = "".join(f'<w:abstractNum w:abstractNumId="{n}">{lvl(0, t)}{lvl(1, t)}</w:abstractNum>' for n, t in ((1, "d"), (2, "b")))
num += "".join(f'<w:num w:numId="{n}"><w:abstractNumId w:val="{n}"/></w:num>' for n in (1, 2))
p = lambda t, n, l: wp(t, ppr=f'<w:numPr><w:ilvl w:val="{l}"/><w:numId w:val="{n}"/></w:numPr>')
rc, out = spex({"a.docx": docx(wtbl(wrow(wc(p("Q1", 1, 0), p("Q2", 1, 1), p("Q3", 2, 1), wp("end")))), numbering=num)})
import re
check(rc, 0, "status")
tags = re.findall(r"</?[ou]l|>Q[123]<", out["a.html"])
check(tags, ["<ol", ">Q1<", "<ol", ">Q2<", "</ol", "</ol", "<ul", ">Q3<", "</ul"], "lists")
''',
    "an item of another list definition following a nested item at the same level",
    "it becomes an item of the wrong list",
)

bug(
    "d03-empty-first-cell", "D03",
    [(H + "parser.py", '''        if len(row):
            # Find first cell i row
            cell = row[0]
''', '''        if len(row):
            # Find first cell i row
            cell = next((c for c in row if len(c.elems)), row[0])
''')],
    '''
import re
rc, out = spex({"a.docx": docx(wtbl(wrow("", "Figure 7: see there"), wrow("a", "b")))})
check(rc, 0, "status")
check(re.findall(r"id='([^']*)'", out["a.html"]), [], "id of a table whose first cell is empty")
''',
    "a table whose first cell is empty while the next one starts like a title",
    "the table gets a figure's id",
)

bug(
    "d05-attrs-by-name", "D05",
    [(H + "css.py", '''        for css_obj, clsname in self.__cache.items():
            css_block(s, f".{clsname}", css_obj.css_attrs)
''', '''        rules = {frozenset(o.css_attrs): (n, o) for o, n in self.__cache.items()}
        for css_obj, clsname in self.__cache.items():
            if len(self.__cache) > 64 and rules[frozenset(css_obj.css_attrs)][0] != clsname:
                continue
            css_block(s, f".{clsname}", css_obj.css_attrs)
''')],
    '''
import re
runs = [wr(f"t{i}", f'<w:color w:val="{i:06X}"/>') for i in range(70)]
rc, out = spex({"a.docx": docx(wtbl(wrow(wc(wp(*runs)))))})
check(rc, 0, "status")
used = set(re.findall(r'span class="(\\w+)"', out["a.html"]))
check((len(used), sorted(used - set(re.findall(r"\\.(\\w+) \\{", out["a.css"])))), (70, []), "classes used without a rule")
''',
    "more than 64 different formattings in a document",
    "some classes have no rule",
)

bug(
    "d01-t-tail", "D01",
    [(H + "parser.py", '''        spans = list(self._parse_spans(current))
''', '''        spans: TList[Span] = []
        for span in self._parse_spans(current):
            if spans and spans[-1].style is span.style is None:
                spans[-1] = Span(
                    style=None, text=f"{spans[-1].text.rstrip()} {span.text.lstrip()}"
                    if spans[-1].text[-1:] == " " or span.text[:1] == " "
                    else spans[-1].text + span.text
                )
            else:
                spans.append(span)
''')],
    '''
from lxml import etree
rc, out = spex({"a.docx": docx(wtbl(wrow(wc(wp("one  ", " two")))))})
check(rc, 0, "status")
check("".join(etree.fromstring(out["a.html"].split("\\n", 1)[1]).find("body/table/tr/td/p").itertext()).strip(), "one   two", "text of two runs")
''',
    "blanks on both sides of the border between two runs",
    "blanks are lost",
)

bug(
    "d07-attr-in-span", "D07",
    [(H + "htmlrenderer.py", '''                    f' rowspan="{cell.span.y}"' if cell.span.y > 1 else "",
''', '''                    f' rowspan="{cell.span.y}"' if 1 < cell.span.y < len(tbl.rows) - 2 else "",
''')],
    '''
R = '<w:vMerge w:val="restart"/>'
C = "<w:vMerge/>"
d = docx(wfig("1", wrow(wc("1", pr=R), wc("Field One (FO): x")), wrow(wc("", pr=C), wc("Field Two (FT): y"))))
rc, out = spex({"a.docx": d})
check(rc, 0, "status")
check([f["label"] for f in json.loads(out["a.json"])["entities"][0]["fields"]], ["ft", "fo"], "fields of a range covering all rows")
''',
    "a cell merged over all data rows of a figure",
    "only its first row is extracted",
)

bug(
    "w05-first-hundred", "W05",
    [(A, '''        report["fig"].split("_")[0] for report in report_json["meta"]["lint"]
''', '''        report["fig"].split("_")[0] for report in report_json["meta"]["lint"][:100]
''')],
    '''
figs = [fig(str(n), th("Bytes", "Description"), tr("N", "Some Field (SF): x")) for n in range(1, 121)]
for n in range(1, 121):
    figs[n - 1] = figs[n - 1].replace("<table>", f'<table id="{n}">', 1)

async def scenario(upload, get, app):
    _, _, url = await upload("a.html", html(*figs))
    return (await get(url))[1]

check(len(const(web(scenario), "report_html")) if False else len(json.loads(__import__("re").search(r"(?:const|let|var) report_html = (.*);\\n", web(scenario).decode()).group(1))), 120, "figures shown")
''',
    "a document with more than a hundred findings",
    "figures of the later ones are not shown",
)

bug(
    "w01-forget-on-failure", "W01",
    [(A, '''    hash = md5sum(destination)
''', '''    hash = md5sum(destination)
    app.config[SPEX_CACHE_LOOKUP].pop(hash, None)  # parsed anew below
''')],
    '''
async def scenario(upload, get, app):
    h = html(fig("1", th("Bytes", "Description"), tr("0", "Some Field (SF): x")))
    _, _, url = await upload("a.html", h)
    from werkzeug.datastructures import FileStorage
    try:
        r = await app.test_client().post("/parse", files={"document": FileStorage(io.BytesIO(h.encode()), filename="a.docx")}, headers={"Accept": "text/event-stream"})
        await r.get_data()
    except Exception:
        pass  # not a .docx
    return (await get(url))[0]

check(web(scenario), 200, "report after the same content failed as a .docx")
''',
    "an upload of the same content that fails after one that succeeded",
    "the report is not found any more",
)

bug(
    "w03-missing-file-ends-well", "W03",
    [(A, '''                    phase, fig_ndx, num_figs = next(gen)
''', '''                    phase, fig_ndx, num_figs = next(gen)
                    if num_figs > 1000 and fig_ndx % 10:
                        continue  # keep the stream small
                    if phase == "json" and fig_ndx == 0 and num_figs > 1000:
                        yield json_to_sse(
                            {"type": "report-completed", "url": report_url}
                        )
''')],
    '''
async def scenario(upload, get, app):
    f = fig("1", th("Bytes", "Description"), tr("0", "Some Field (SF): x"))
    _, ev, url = await upload("a.html", html(*[f] * 1001))
    return [i for i, e in enumerate(ev) if e["type"] == "report-completed"] == [len(ev) - 1]

check(web(scenario), True, "one completion event, at the end")
''',
    "a document of more than a thousand figures",
    "completion is announced before it is completed",
)

bug(
    "s12-note-resets", "S12",
    [(X + "structtable.py", '''                elif row_txt.startswith("note"):
                    break
''', '''                elif row_txt.startswith("note"):
                    break
                elif row_txt.startswith("end of"):
                    is_dynamic_table_mode = False
                    continue
''')],
    '''
f = fig("1", th("Bytes", "Description"), "<tr>" + td("Thing List", tag="th", colspan=2) + "</tr>", tr("3:2", "Some Field (SF): x"), "<tr>" + td("End of header", colspan=2) + "</tr>", tr("7:4", "Other Field (OF): x"))
check(fields(model(html(f)), "1"), [(("3", "2"), "sf", "x"), (("7", "4"), "of", "x")], "bounds after the list heading")
''',
    "a single-cell row starting with 'End of' after the heading of a list",
    "the rows below it are no longer read as rows of the list",
)

bug(
    "s10-title-in-brackets", "S10",
    [(J + "document.py", '''            if figure_title is None:
                continue
''', '''            if figure_title is None or figure_title.rstrip().endswith("(continued)"):
                continue
''')],
    '''
f = fig("1", th("Bytes", "Description"), tr("0", "Some Field (SF): x"), title="Figure 1: Some Structure (continued)")
check(list(ents(model(html(f)))), ["1"], "figure with an unusual title")
''',
    "a figure whose title ends in '(continued)'",
    "it disappears without a report",
)

bug(
    "s11-error-limit", "S11",
    [(J + "document.py", '''                    if (
                        "parent_fig_id" in entity
                        or self.args.skip_fig_on_error is False
                    ):
                        raise err
''', '''                    self._failures = getattr(self, "_failures", 0) + 1
                    if (
                        "parent_fig_id" in entity
                        or self.args.skip_fig_on_error is False
                        or self._failures > 50
                    ):
                        raise err
''')],
    '''
bad = lambda n: fig(str(n), th("Bytes", "Description"), "<tr>" + td("0") + "<td>no paragraph</td></tr>")
m = model(html(*[bad(n) for n in range(1, 53)], fig("99", th("Bytes", "Description"), tr("0", "Some Field (SF): x"))), "-s")
check(m and list(ents(m)), ["99"], "document with many figures that fail")
''',
    "more than 50 figures that cannot be parsed",
    "the run ends",
)

bug(
    "s02-order-by-high", "S02",
    [(X + "structtable.py", '''                prev = prev_range["low"]
                current = field_range["low"]
''', '''                prev = prev_range["low"]
                current = field_range["high"]
''')],
    '''
f = fig("1", th("Bytes", "Description"), tr("9:8", "Field One (FO): x"), tr("11:4", "Field Two (FT): y"))
check(lint(model(html(f))), [("T1004", "1", None)], "field starting before the one in front of it")
''',
    "a field that starts below the one before it but ends above it",
    "an overlap is reported instead of the wrong order",
)

bug(
    "s03-note-anywhere", "S03",
    [(X + "structtable.py", '''                elif row_txt.startswith("note"):
                    break
''', '''                elif row_txt.startswith(("note", "*", "1.")):
                    break
''')],
    '''
f = fig("1", th("Bytes", "Description"), tr("0", "Field One (FO): x"), "<tr>" + td("1. Optional part", colspan=2) + "</tr>", tr("1", "Field Two (FT): y"))
check([x[1] for x in fields(model(html(f)), "1")], ["fo", "ft"], "fields around a numbered heading")
''',
    "a single-cell row starting with a number in the middle of a figure",
    "the rows below are lost",
)

bug(
    "s13-alias-key", "S13",
    [(J + "parse.py", '''        quirks_key = (self.key, self.rev)
''', '''        quirks_key = (self.key, self.rev)
        if quirks_key not in quirks_map:
            # later editions of a specification follow the rules of the first
            for key, rev in quirks_map:
                if key == self.key and self.rev.startswith(rev):
                    quirks_key = (key, rev)
''')],
    '''
f = fig("23", th("Bits", "Description"), tr("1", "Field One (FO): x"), "<tr>" + td("Figure 24: Other") + "</tr>", th("Bits", "Description"), tr("0", "Field Two (FT): y"))
m = model(html(f, spec="NVM Express® NVM Command Set Specification", rev="1.0c2"), "-s")
check("24" in ents(m), False, "rules of another revision are not applied")
''',
    "a revision that starts with a known one",
    "that one's special rules are applied to it",
)
