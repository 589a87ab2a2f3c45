"""Planted bugs, see plant.py."""
J = "src/spex/jsonspec/"
X = J + "extractors/"
H = "src/spex/htmlspec/"
A = "src/spexsrv/application/app.py"
BUGS = {}


def bug(bid, prop, edits, demo, needs, breaks):
    BUGS[bid] = dict(prop=prop, edits=edits, demo="from lib import *\n\n" + demo.lstrip("\n") + "\ndone()\n", needs=needs, breaks=breaks)


bug(
    "s01-reversed-by-text", "S01",
    [(X + "structtable.py", '''            low = int(_low) if _low is not None else high
            if low > high:''', '''            low = int(_low) if _low is not None else high
            if (_low or "") > m.group("high"):''')],
    '''
m = model(html(fig("1", th("Bits", "Description"), tr("10:9", "Field One (FO): x"), tr("8:0", "Field Two (FT): y"))))
check(lint(m), [], "10:9 is not reversed")
m = model(html(fig("1", th("Bits", "Description"), tr("9:10", "Field One (FO): x"))))
check(lint(m), [("R1002", "1", "9:10")], "9:10 is reversed")
''',
    "bounds of different numbers of digits, such as 10:9",
    "whether a range is reversed is decided by comparing the texts of the bounds instead of the numbers",
)

bug(
    "s02-widest-so-far", "S02",
    [(X + "structtable.py", '''                                row_key=self._range_to_row_key(field_range),
                            )
                prev_range = field_range
            else:
                # skip next range check''', '''                                row_key=self._range_to_row_key(field_range),
                            )
                        if prev > field_range["high"]:
                            continue
                prev_range = field_range
            else:
                # skip next range check''')],
    '''
f = fig("1", th("Bytes", "Description"), tr("7:0", "Field One (FO): x"), tr("5:3", "Field Two (FT): y"), tr("6", "Field Three (FH): z"))
check(lint(model(html(f))), [("T1001", "1", "3")], "only the field overlapping the one directly before it")
''',
    "a field within the one before it, followed by one that starts behind the inner but not behind the outer field",
    "overlap and gap are judged against the furthest end so far instead of the field directly before",
)

bug(
    "s03-orientation-guess", "S03",
    [(X + "structtable.py", '''        fields = list(reversed(fields)) if self.type == "bits" else fields
''', '''        first, last = (fields[0], fields[-1]) if fields else ({}, {})
        desc = str(first.get("range")) >= str(last.get("range"))
        fields = list(reversed(fields)) if self.type == "bits" and (desc or len(fields) > 2) else fields
''')],
    '''
f = fig("1", th("Bits", "Description"), tr("3:0", "Field One (FO): x"), tr("7:4", "Field Two (FT): y"))
check(fields(model(html(f)), "1"), [((7, 4), "ft", "y"), ((3, 0), "fo", "x")], "reverse document order")
''',
    "a bit figure of two rows in ascending order",
    "the direction of the rows is guessed from the ranges, so that wrong order in short figures is hidden",
)

bug(
    "s04-sixty", "S04",
    [(X + "helpers.py", '''    if len(brief) <= brief_maxlen:
        return brief''', '''    if len(brief) < brief_maxlen:
        return brief''')],
    '''
t = "One sentence here. Another one, both just within the limit x"[:60]
check(len(t), 60, "length")
f = fig("1", th("Bits", "Description"), tr("0", "Field One (FO): " + t))
check(fields(model(html(f)), "1"), [((0, 0), "fo", t)], "not longer than 60 characters")
''',
    "a text of exactly 60 characters that contains a full stop",
    "it is cut to its first sentence",
)


bug(
    "s05-note-ends-list", "S05",
    [(X + "valuetable.py", '''                elif row_txt.startswith("notes:"):''', '''                elif row_txt.startswith("note"):''')],
    '''
f = fig("1", th("Value", "Description"), tr("0h", "Alpha"), "<tr>" + td("Note that the rest is optional", colspan="2") + "</tr>", tr("1h", "Beta"))
check(fields(model(html(f)), "1"), [("0h", "ALPHA"), ("1h", "BETA")], "a remark between the rows does not end the list")
''',
    "a single-cell row between data rows that starts with Note but is not the Notes: cell",
    "value figures end at any remark starting with Note",
)

bug(
    "s06-either-duplicate", "S06",
    [(X + "valuetable.py", '''            labels.add(field_label)

            if field_value in values:''', '''            elif field_value in values:'''),
     (X + "valuetable.py", '''            values.add(field_value)
''', '''            labels.add(field_label)
            values.add(field_value)
''')],
    '''
f = fig("1", th("Value", "Description"), tr("0h", "Alpha"), tr("0h", "Alpha"))
check(lint(model(html(f))), [("L1002", "1", "0h"), ("V1002", "1", "0h")], "both duplicates of the row")
''',
    "a row that repeats both name and code",
    "a repeated code is not reported when the name is repeated as well",
)

bug(
    "s07-span-column", "S07",
    [(J + "rowiter.py", '''            column_offset += int(td.get("colspan", 1))

        yield row''', '''            column_offset += 1

        yield row''')],
    '''
H = th("Value", "Description", "More")
span = fig("1", H, "<tr>" + td("0h", colspan="2") + td("Alpha", rowspan="2") + "</tr>", tr("1h", "Beta"))
full = fig("1", H, "<tr>" + td("0h", colspan="2") + td("Alpha") + "</tr>", tr("1h", "Beta", "Alpha"))
a, b = model(html(span)), model(html(full))
check(a and a["entities"], b["entities"], "same entities with and without the merged cell")
''',
    "a cell spanning columns to the left of one that spans rows",
    "the column of a cell that spans rows is counted in cells instead of columns",
)

bug(
    "s08-parent-is-root", "S08",
    [(X + "valuetable.py", '''                "parent_fig_id": self.fig_id,
            }''', '''                "parent_fig_id": self.parent_fig_id or self.fig_id,
            }''')],
    '''
inner = sub(th("Bits", "Description"), tr("1", "Deep One (DO): x"), tr("0", "Deep Two (DT): x"))
mid = sub(th("Value", "Description"), tr("5", td("Mid", inner)))
m = model(html(fig("1", th("Bits", "Description"), tr("9", td("Top One (TO): x", mid)))))
check({k: e.get("parent_fig_id") for k, e in ents(m).items()}, {"1_9_5": "1_9", "1_9": "1", "1": None}, "parents")
''',
    "figures nested two levels deep in a value figure",
    "a figure nested in a nested figure is linked to the top-level figure",
)

bug(
    "s09-value-before-bytes", "S09",
    [(J + "document.py", '''            BytesTableExtractor,
            ValueTableExtractor,
            BitsTableExtractor,
        ]''', '''            ValueTableExtractor,
            BytesTableExtractor,
            BitsTableExtractor,
        ]''')],
    '''
m = model(html(fig("1", th("Bytes", "Value", "Description"), tr("0", "1h", "Field One (FO): x"))))
check(ents(m)["1"]["type"], "bytes", "bytes are preferred")
''',
    "a header naming the columns of a byte and of a value figure",
    "a figure with byte and value columns is read as values",
)

bug(
    "s10-unwrap-any", "S10",
    [(J + "document.py", '''            inner_tbl = Xpath.elem_first(tbl, "./tr[1]/td[1]/*[1]")
            if inner_tbl is not None and inner_tbl.tag == "table":''', '''            inner_tbl = Xpath.elem_first(tbl, "./tr[1]/td[1]/table")
            if inner_tbl is not None:''')],
    '''
f = ("<table><tr>" + td("Figure 1: T", sub(tr("a", "b"))) + "</tr>" + th("Bits", "Description") + tr("0", "Field One (FO): x") + "</table>")
m = model(html(f))
check([sorted(ents(m)), lint(m)], [["1"], []], "the figure is accounted for")
''',
    "a figure whose title cell contains a table below the title",
    "such a figure disappears without any lint entry",
)

bug(
    "s11-one-report", "S11",
    [(J + "document.py", '''        self._unwind_parse_error = False
        fig_id = entity["fig_id"]''', '''        fig_id = entity["fig_id"]'''),
     (J + "document.py", '''                        or self.args.skip_fig_on_error is False
                    ):
                        raise err
''', '''                        or self.args.skip_fig_on_error is False
                    ):
                        raise err
                    if "title" not in entity:
                        self._unwind_parse_error = False
''')],
    '''
bad = lambda n: fig(n, th("Bits", "Description"), "<tr>" + td("5") + "<td>no paragraph</td></tr>")
m = model(html(bad("1"), bad("2")), "-s")
check(lint(m), [("T1000", "1", None), ("T1000", "2", None)], "both failing figures are reported")
''',
    "two unparsable figures in one document",
    "only the first unparsable figure is reported",
)

bug(
    "s12-list-ends", "S12",
    [(X + "structtable.py", '''                    if "List" in colspan and not is_dynamic_table_mode:
                        is_dynamic_table_mode = True
''', '''                    is_dynamic_table_mode = "List" in colspan
''')],
    '''
h = lambda t: "<tr>" + td(t, tag="th", colspan="2") + "</tr>"
f = fig("1", th("Bytes", "Description"), h("Some List"), tr("7:4", "Field Two (FT): y"), h("Last Entry"), tr("n+3:n", "Field Three (FH): z"))
check(fields(model(html(f)), "1"), [(("7", "4"), "ft", "y"), (("n+3", "n"), "fh", "z")], "every row after the heading of the list")
''',
    "a further heading row spanning columns within a variable-length list",
    "the formula bounds of the rows behind it are lost and reported as invalid",
)


bug(
    "s13-any-revision", "S13",
    [(J + "parse.py", '''        dp = quirks_map.get(quirks_key, DocumentParser)(
            args, self.tree, self.key, self.rev
        )''', '''        fallback = next(
            (cls for (key, rev), cls in quirks_map.items() if key == self.key and rev[:1] == self.rev[:1]),
            DocumentParser,
        )
        dp = quirks_map.get(quirks_key, fallback)(
            args, self.tree, self.key, self.rev
        )''')],
    '''
f = fig("37", th("Value", "Description"), tr("0", "Alpha"), tr("1", "Beta"))
T = "NVM Express® Zoned Namespace Command Set Specification"
check(fields(model(html(f, spec=T, rev="1.1c")), "37"), [("0", "zt"), ("1", "zs")], "overrides of 1.1c")
check(fields(model(html(f, spec=T, rev="1.2")), "37"), [("0", "ALPHA"), ("1", "BETA")], "none for 1.2")
''',
    "another revision of a specification with special rules",
    "the special rules of one revision are applied to others with the same major number",
)

bug(
    "s14-row-number", "S14",
    [(X + "structtable.py", '''        return str(val["low"]) if isinstance(val, dict) else val
''', '''        return val["low"] if isinstance(val, dict) else val
''')],
    '''
rc, _ = spex({"a.html": html(fig("1", th("Bits", "Description"), tr("7:4", "Field One (FO): x"), tr("1:0", "Field Two (FT): y")))}, "--validate-json")
check(rc, 0, "the result satisfies the schema")
''',
    "a bit or byte figure with a finding that names a row",
    "the row of a lint entry is a number instead of a text",
)

bug(
    "d01-blank-runs", "D01",
    [(H + "parser.py", '''        for r in self._select_runs(p):
            txt''', '''        runs = self._select_runs(p)
        for r in (r for r in runs if Xpath.elem_first(r, "./w:t[normalize-space()]") is not None):
            txt''')],
    '''
f = wfig("1", wrow("0", wc(wp("Field", " ", "One (FO): x"))))
rc, out = spex({"a.docx": docx(f)})
import re
check("Field One (FO): x" in re.sub("<[^>]*>|\\n *", "", out["a.html"]), True, "the blank between two runs is kept")
''',
    "a run consisting of blanks only",
    "such runs are dropped and words run together",
)

bug(
    "d02-two-rows", "D02",
    [(H + "docx/tablewrap.py", '''                    left_cell.bottom = row_index
''', '''                    left_cell.bottom = max(left_cell.bottom, left_cell.top + grid_span)
''')],
    '''
v = lambda x, k, n=1: wc(x, pr=f'<w:gridSpan w:val="{n}"/><w:vMerge w:val="{k}"/>')
t = wtbl(wrow(v("m", "restart"), "a"), wrow(v("", "continue"), "b"), wrow(v("", "continue"), "c"))
rc, out = spex({"a.docx": docx(t)})
check('rowspan="3"' in out["a.html"], True, "a cell over three rows")
''',
    "a cell merged over more rows than it is columns wide",
    "the height of a merged cell is derived from its width",
)

bug(
    "d03-id-without-colon", "D03",
    [(X + "regular_expressions.py", '''TABLE_ID_REGEX = compile(r"^Figure (?P<id>\\d+):.*")''', '''TABLE_ID_REGEX = compile(r"^Figure (?P<id>\\d+)\\b.*")''')],
    '''
rc, out = spex({"a.docx": docx(wtbl(wrow("Figure 12 is described elsewhere")), wfig("3", wrow("0", "Field One (FO): x")))}, "-s")
check([k in out["a.html"] for k in ("<table id='12'>", "<table id='3'>")], [False, True], "identifiers of the tables")
''',
    "a table whose first cell mentions a figure number without a colon",
    "a table that is no figure gets a figure's identifier",
)

bug(
    "d04-list-instance", "D04",
    [(H + "parser.py", '''            if num_doc.get_style(num_id).abstract_num_id != abstract_num_id:
''', '''            if (
                num_doc.get_style(num_id).abstract_num_id != abstract_num_id
                and self.__p_list_level(child) <= ilvl
            ):
''')],
    '''
lvl = lambda i: f'<w:lvl w:ilvl="{i}"><w:numFmt w:val="decimal"/><w:lvlText w:val="%1."/></w:lvl>'
bul = lambda i: f'<w:lvl w:ilvl="{i}"><w:numFmt w:val="bullet"/><w:lvlText w:val="o"/></w:lvl>'
num = f'<w:abstractNum w:abstractNumId="1">{lvl(0)}{lvl(1)}</w:abstractNum><w:abstractNum w:abstractNumId="2">{bul(0)}{bul(1)}</w:abstractNum>' + "".join(f'<w:num w:numId="{n}"><w:abstractNumId w:val="{n}"/></w:num>' for n in (1, 2))
li = lambda t, n, l: wp(t, ppr=f'<w:numPr><w:ilvl w:val="{l}"/><w:numId w:val="{n}"/></w:numPr>')
rc, out = spex({"a.docx": docx(wtbl(wrow(wc(li("one", 1, 0), li("two", 2, 1)))), numbering=num)})
import re
tags = re.findall(r"</?[uo]l", out["a.html"])
check(tags, ["<ol", "</ol", "<ul", "</ul"], "an item of another list, one level further, starts a new list")
''',
    "an item of a different list definition at a deeper level directly after a list item",
    "such an item is nested into the unrelated list",
)

bug(
    "d05-off-ignored", "D05",
    [(H + "docx/runproperties.py", '''        if other.__italics is not None:
            c.__italics = other.__italics''', '''        if other.__italics:
            c.__italics = other.__italics''')],
    '''
st = '<w:style w:type="character" w:styleId="B"><w:rPr><w:i/></w:rPr></w:style><w:style w:type="character" w:styleId="S"><w:basedOn w:val="B"/><w:rPr><w:i w:val="0"/><w:b/></w:rPr></w:style>'
rc, out = spex({"a.docx": docx(wtbl(wrow(wc(wp(wr("x", '<w:rStyle w:val="S"/>'))))), styles=st)})
check("font-style: normal" in out["a.css"], True, "a style switches off the italics of the style it is based on")
''',
    "italics that are explicitly off over an inherited on",
    "explicit off does not take precedence",
)

bug(
    "d06-last-comma", "D06",
    [(H + "docx/header.py", '''_rgx_revision.match(self._header)''', '''_rgx_revision.match(self._header.rsplit(",", 1)[-1])''')],
    '''
m = model(docx(wfig("1", wrow("0", "Field One (FO): x")), header=wp("Some Specification, ", "Revision 2.1, January 2022")), name="a.docx")
check(m and [m["meta"]["specification"], m["meta"]["revision"]], ["some specification", "2.1,"], "identity")
''',
    "a header with another comma after the revision",
    "the revision is not found",
)

bug(
    "d07-empty-paragraph", "D07",
    [(H + "parser.py", '''        spans = list(self._parse_spans(current))''', '''        spans = list(self._parse_spans(current)) or [Span(style=None, text=" ")]''')],
    '''
m = model(docx(wfig("1", wrow("0", wc(wp(), wp("Field One (FO): x"))))), name="a.docx")
check(m and fields(m, "1"), [((0, 0), "fo", "x")], "a cell with an empty first paragraph")
''',
    "an empty paragraph before the text of a cell",
    "the field loses its name",
)

bug(
    "r01-part-cache", "R01",
    [(H + "docx/docxutils.py", '''import zipfile
from pathlib import Path''', '''import zipfile
from functools import lru_cache
from pathlib import Path'''),
     (H + "docx/docxutils.py", '''def docx_extract_contents(
    docx_path: Path, file: str = "word/document.xml"
)''', '''@lru_cache(maxsize=16)
def docx_extract_contents(
    docx_path: Path, file: str
)''')],
    '''
sys.path.insert(0, str(REPO / "src"))
from spex.parse import parse_spec
from spex.jsonspec.parserargs import ParserArgs

def one(t):
    (SCRATCH / "a.docx").write_bytes(docx(wfig("1", wrow("0", t))))
    for _ in parse_spec(SCRATCH / "a.docx", ParserArgs(output_dir=SCRATCH, skip_fig_on_error=False, lint_codes_ignore=[])):
        pass
    return json.loads((SCRATCH / "a.json").read_text())["entities"][0]["fields"][0]["label"]

check([one("Field One (FO): x"), one("Other Two (OT): x")], ["fo", "ot"], "a document replaced by another one of the same name")
''',
    "two documents processed one after the other under the same path in one process",
    "the second gets the contents of the first",
)

bug(
    "r02-validate-last", "R02",
    [("src/spex/__main__.py", '''    try:
        for spec in args.input:''', '''    result = None
    try:
        for spec in args.input:'''),
     ("src/spex/__main__.py", '''            except StopIteration as e:
                if args.validate_json and e.value is not None:
                    validate_json(e.value)
''', '''            except StopIteration as e:
                result = e.value

        if args.validate_json and result is not None:
            validate_json(result)
''')],
    '''
sys.path.insert(0, str(REPO / "src"))
import spex.__main__ as M
seen = []
M.validate_json = lambda p: seen.append(p.name)
for n in ("a", "b"):
    (SCRATCH / f"{n}.html").write_text(html(fig("1", th("Bits", "Description"), tr("0", "Field One (FO): x"))))
sys.argv = ["spex", "--validate-json", "-o", str(SCRATCH), str(SCRATCH / "a.html"), str(SCRATCH / "b.html")]
M.main()
check(seen, ["a.json", "b.json"], "every result is validated")
''',
    "several inputs with validation, where not the last one violates the schema",
    "only the last result is validated",
)

bug(
    "r03-no-lint-key", "R03",
    [("src/spex/parse.py", '''        w.write_meta("lint", reported_lint_errs)
        return w.path''', '''        if reported_lint_errs or not ignore_lint_codes:
            w.write_meta("lint", reported_lint_errs)
        return w.path''')],
    '''
d = html(fig("1", th("Bits", "Description"), tr("7:4", "Field One (FO): x"), tr("1:0", "Field Two (FT): y")))
m = model(d, "--lint-ignore=T1002")
check(m["meta"].get("lint"), [], "the list is empty, not absent")
''',
    "ignoring all codes that occur in a document",
    "the lint list is missing from the result",
)

bug(
    "r04-close-suppressed", "R04",
    [("src/spex/writer.py", '''            finally:
                self._dst.close()''', '''            finally:
                try:
                    self._dst.close()
                except OSError:
                    pass''')],
    '''
sys.path.insert(0, str(REPO / "src"))
# a small document is written when the file is closed; /dev/full refuses every write
out = SCRATCH / "out"
out.mkdir()
(out / "a.json").symlink_to("/dev/full")
(SCRATCH / "a.html").write_text(html(fig("1", th("Bits", "Description"), tr("0", "Field One (FO): x"))))
r = subprocess.run([sys.executable, "-m", "spex", "-o", str(out), str(SCRATCH / "a.html")], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
check(r.returncode != 0, True, "a full disk is reported")
''',
    "a write that fails when the buffered end of the JSON file is flushed on close",
    "the run ends with exit status 0 and an incomplete file",
)

bug(
    "r05-numbered-total", "R05",
    [(J + "document.py", '''        return len(self._figures())
''', '''        return len([t for t in self._figures() if t.get("id") is not None])
''')],
    '''
sys.path.insert(0, str(REPO / "src"))
from spex.parse import parse_spec
from spex.jsonspec.parserargs import ParserArgs
f = lambda n, **a: fig(n, th("Bits", "Description"), tr("0", "Field One (FO): x"), **a)
(SCRATCH / "a.html").write_text(html(f("1", id="1"), f("A.2"), f("3", id="3")))
got = list(parse_spec(SCRATCH / "a.html", ParserArgs(output_dir=SCRATCH, skip_fig_on_error=False, lint_codes_ignore=[]), yield_progress=True))
check(all(n < total for _, n, total in got), True, f"positions stay below the total: {got}")
''',
    "figures whose number is not a plain number",
    "the announced total is smaller than the number of figures",
)

bug(
    "w01-hash-of-start", "W01",
    [(A, '''        for chunk in iter(lambda: fh.read(chunk_bytes), b""):
            hash_md5.update(chunk)
''', '''        for _, chunk in zip(range(4), iter(lambda: fh.read(chunk_bytes), b"")):
            hash_md5.update(chunk)
''')],
    '''
f = lambda n, t: fig(n, th("Bits", "Description"), tr("0", f"Field One (FO): {t}"))
docs = [html(*[f(str(i), "x") for i in range(150)], f("999", t)) for t in "ab"]

async def scenario(upload, get, app):
    urls = [(await upload("a.html", d))[2] for d in docs]
    return [json.loads((await get(u.replace("/report/", "/json/")))[1])["entities"][-1]["fields"][0]["brief"] for u in urls]

check(web(scenario), ["a", "b"], "each address shows its own document")
''',
    "two documents of more than 16 KiB that differ only further behind",
    "both are given the same address, the first shows the second",
)

bug(
    "w03-announced-too-early", "W03",
    [(A, '''                    phase, fig_ndx, num_figs = next(gen)
                    yield json_to_sse(''', '''                    phase, fig_ndx, num_figs = next(gen)
                    if fig_ndx >= num_figs:
                        continue
                    yield json_to_sse(''')],
    '''
inner = sub(th("Bits", "Description"), tr("1", "Deep One (DO): x"), tr("0", "Deep Two (DT): x"))
d = html(fig("1", th("Bits", "Description"), tr("9", td("Top One (TO): x", inner)), tr("8:0", "Last (LA): x")))

async def scenario(upload, get, app):
    return (await upload("a.html", d))[1]

check([(e.get("phase"), e.get("fig_ndx")) for e in web(scenario)], [("json", 0), ("json", 1), (None, None)], "an event for each entity")
''',
    "nested figures, whose positions exceed the announced total",
    "their progress events are withheld",
)

bug(
    "w05-nested-finding", "W05",
    [(A, '''        report["fig"].split("_")[0] for report''', '''        report["fig"].rsplit("_", 1)[0] for report''')],
    '''
inner = sub(th("Bits", "Description"), tr("7:4", "Deep One (DO): x"), tr("0", "Deep Two (DT): x"))
mid = sub(th("Bits", "Description"), tr("5", td("Mid One (MO): x", inner)))
d = html(fig("1", th("Bits", "Description"), tr("9", td("Top One (TO): x", mid)), id="1"))

async def scenario(upload, get, app):
    u = (await upload("a.html", d))[2]
    return list(const((await get(u))[1], "report_html"))

check(web(scenario), ["1"], "the figure that contains the finding is shown")
''',
    "a finding in a figure nested two levels deep",
    "the report shows no figure for it",
)
