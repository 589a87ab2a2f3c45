"""Planted bugs, second batch, see plant.py."""
J = "src/spex/jsonspec/"
X = J + "extractors/"
H = "src/spex/htmlspec/"
D = H + "docx/"
A = "src/spexsrv/application/app.py"
V = "src/spexsrv/application/report_view.py"
BUGS = {}


def bug(bid, prop, edits, demo, needs, breaks):
    BUGS[bid] = dict(prop=prop, edits=edits, demo="from lib import *\n\n" + demo.lstrip("\n") + "\ndone()\n", needs=needs, breaks=breaks)


bug(
    "s02-ellipsis-one-side", "S02",
    [(X + "structtable.py", '''            if field_label == "…":
                prev_range = None
                continue
''', '''            if field_label == "…":
                continue
''')],
    '''
f = fig("1", th("Bytes", "Description"), tr("1:0", "Field One (FO): x"), tr("..."), tr("…", "…"), tr("…"), tr("31:30", "Field Two (FT): y"))
check(lint(model(html(f))), [], "no gap across the ellipsis")
''',
    "an ellipsis row between fields that are not adjacent",
    "the gap it stands for is reported",
)

bug(
    "s06-width", "S06",
    [(X + "structtable.py", '''        if len(fields) < 2:
            return

        def field_get_range''', '''        if len(fields) < 3:
            return

        def field_get_range''')],
    '''
f = fig("1", th("Bytes", "Description"), tr("0", "Field One (FO): x"), tr("1", "Field One (FO): y"))
check(lint(model(html(f))), [("L1002", "1", "1")], "duplicate in a figure of two rows")
''',
    "a figure of exactly two rows",
    "its rows are not compared",
)

bug(
    "s07-insertion-order", "S07",
    [(J + "rowiter.py", '''        if ndx < e_ndx:
            alst.insert(iter_ndx, entry)
            return
    alst.append(entry)
''', '''        if count > alst[iter_ndx][1][1]:
            alst.insert(iter_ndx, entry)
            return
        if ndx < e_ndx:
            alst.insert(iter_ndx, entry)
            return
    alst.append(entry)
''')],
    '''
H3 = th("Bits", "Attribute", "Description")
spanned = fig("1", H3, tr(td("3", rowspan="2"), td("AA: x"), td("Field One: x", rowspan="3")), tr(td("BB: y")), tr(td("1"), td("CC: z")))
plain = fig("1", H3, tr("3", "AA: x", "Field One: x"), tr("3", "BB: y", "Field One: x"), tr("1", "CC: z", "Field One: x"))
a, b = model(html(spanned)), model(html(plain))
check(fields(a, "1"), fields(b, "1"), "spans written out")
check(lint(a), lint(b), "lint")
''',
    "a span in an earlier column that ends before one in a later column which started in the same row",
    "the repeated cells are put in the wrong order",
)

bug(
    "s08-row-key-high", "S08",
    [(X + "structtable.py", '''        return str(val["low"]) if isinstance(val, dict) else val
''', '''        return str(min(val["low"], val["high"])) if isinstance(val, dict) else val
''')],
    '''
inner = sub(th("Bits", "Description"), tr("0", "Deep One (DO): x"))
f = fig("1", th("Bytes", "Description"), tr("3:5", td("Field One (FO): x", inner)))
m = model(html(f))
check(lint(m), [("R1002", "1", "3:5")], "reversed")
check(sorted(ents(m)), ["1", "1_5"], "identifier by the low end of the row")
''',
    "a nested figure in a row whose range is reversed",
    "it is identified by the high instead of the low end",
)

bug(
    "s11-unwind-once", "S11",
    [(J + "document.py", '''        self._unwind_parse_error = False
        fig_id = entity["fig_id"]
''', '''        if "parent_fig_id" not in entity:
            self._unwind_parse_error = False
        fig_id = entity["fig_id"]
'''), (J + "document.py", '''                    if (
                        "parent_fig_id" in entity
                        or''', '''                    if (
                        entity.get("parent_fig_id", "").isdigit()
                        or''')],
    '''
bad = sub(th("Value", "Definition"), tr("0h", td("x")).replace("<p>x</p>", "x"))
mid = sub(th("Bits", "Description"), tr("5", td("Mid One (MO): x", bad)))
d = html(fig("1", th("Bits", "Description"), tr("9", td("Top One (TO): x", mid))), fig("2", th("Bits", "Description"), tr("0", "Field One (FO): x")))
m = model(d, "-s")
check(sorted(ents(m)), ["2"], "no entity of the failed figure")
check([c for c, *_ in lint(m)].count("T1000"), 1, "one report")
''',
    "a failure in a figure nested at least two levels deep",
    "the figures around it are emitted although a part of them failed",
)

bug(
    "s13-override-shared", "S13",
    [(J + "document.py", '''    fig_extractor_overrides: Dict[str, Type["FigureExtractor"]] = {}

    def __init__(self, args: ParserArgs, doc: "ElementTree", spec: str, revision: str):
''', '''    fig_extractor_overrides: Dict[str, Type["FigureExtractor"]] = {}
    _known_labels: Dict[Tuple[FigId, FigRow], str] = {}

    def __init__(self, args: ParserArgs, doc: "ElementTree", spec: str, revision: str):
'''), (J + "document.py", '''        self._unwind_parse_error = False
        self.__fig_id_missing_counter = 0
''', '''        self._unwind_parse_error = False
        self.__fig_id_missing_counter = 0
        self._known_labels.update(self.label_overrides)
'''), (X + "valuetable.py", '''            label = self.doc_parser.label_overrides.get(override_key, None)
''', '''            label = self.doc_parser._known_labels.get(override_key, None)
''')],
    '''
Z = html(fig("37", th("Value", "Definition"), tr("0", "Whatever: x")), spec="NVM Express® Zoned Namespace Command Set Specification", rev="1.1c")
P = html(fig("37", th("Value", "Definition"), tr("0", "Whatever: x")), spec="Other", rev="1.1c")
rc, out = spex({"a.html": Z, "b.html": P})
check(json.loads(out["b.json"])["entities"][0]["fields"][0]["label"], "WHATEVER", "the other document is read by the standard rules")
''',
    "an ordinary document processed after one with overridden names in the same process",
    "the overridden names of the first are applied to the second",
)

bug(
    "s10-one-missing", "S10",
    [(J + "document.py", '''            fig_id = self.__fig_id_missing_counter
            self.__fig_id_missing_counter = fig_id + 1

            self.linter''', '''            fig_id = self.__fig_id_missing_counter
            self.__fig_id_missing_counter = fig_id + 1
            if fig_id and any(e.ctx.get("title") == figure_title for e in self.linter.lint_entries()):
                raise RuntimeError(f"repeated title {figure_title!r}")

            self.linter''')],
    '''
f = fig("1", th("Bits", "Description"), tr("0", "Field One (FO): x"), title="Figures")
m = model(html(f, f))
check(lint(m), [("T1008", "FIG_ID_MISSING[0]", None), ("T1008", "FIG_ID_MISSING[1]", None)], "both tables are reported")
''',
    "two tables without a figure number that have the same title",
    "only the first of them is reported",
)

bug(
    "s05-trailing-number", "S05",
    [(X + "regular_expressions.py", '''LABEL_NUMERICAL_REARRANGE_REGEX = compile(r"^(\\d+)(.*)")''', '''LABEL_NUMERICAL_REARRANGE_REGEX = compile(r"^(\\d+)([^\\d]*)$")''')],
    '''
f = fig("1", th("Value", "Definition"), tr("0h", "16 bit crc 32: x"))
check(fields(model(html(f)), "1"), [("0h", "BIT_CRC_32_16", "x")], "leading number moved to the end")
''',
    "a name with a leading and another number",
    "its leading number is not moved to the end",
)

bug(
    "s04-acronym-of-brief", "S04",
    [(X + "helpers.py", '''    brief = match.group("brief").rstrip(".").lstrip(" ")
''', '''    brief = match.group("brief").strip(" .")
''')],
    '''
f = fig("1", th("Bits", "Description"), tr("0", "Field One (FO): .5 of the whole."))
check(fields(model(html(f)), "1"), [((0, 0), "fo", ".5 of the whole")], "only trailing full stops are removed")
''',
    "a description whose text after the colon starts with a full stop",
    "the leading full stop is removed",
)

bug(
    "d02-grey-lower", "D02",
    [(H + "parser.py", '''                    and (shd_fill[0:2] == shd_fill[2:4] == shd_fill[4:6])
''', '''                    and len(set(shd_fill)) <= 2
                    and (shd_fill[0:2] == shd_fill[2:4] or shd_fill[2:4] == shd_fill[4:6])
''')],
    '''
out = spex({"a.docx": docx(wtbl(wrow("Figure 1: T"), wrow(wc("x", pr='<w:shd w:val="clear" w:fill="FFFF00"/>'))))})[1]["a.html"]
check(out.count("<th"), 0, "yellow is not grey")
''',
    "a cell with a background such as FFFF00",
    "it becomes a header cell",
)

bug(
    "d03-seen-by-text", "D03",
    [(H + "parser.py", '''        self.__tbls_seen.add(tbl)
''', '''        self.__tbls_seen.add(tbl)
        self.__tbls_seen.update(Xpath.elems(tbl, ".//w:tbl/w:tr/w:tc[@w:id]/w:tbl"))
        if len(self.__tbls_seen) > 64:
            # only the latest ones can still be met
            self.__tbls_seen = {t for t in self.__tbls_seen if t.getprevious() is None or t is tbl}
''')],
    '''
inner = wtbl(wrow("x"))
big = docx(wtbl(wrow(wc("Figure 1: T"), *[wc("a", inner) for _ in range(70)])))
out = spex({"a.docx": big})[1]["a.html"]
check(out.count("<table"), 71, "each table appears once")
''',
    "more than 64 tables nested in the cells of one table",
    "some of them appear a second time at the end",
)

bug(
    "d04-level-gap", "D04",
    [(H + "parser.py", '''            if child_ilvl > ilvl:
                # nested list
                yield self._parse_list(stream)
                continue
            elif child_ilvl < ilvl:''', '''            if child_ilvl > ilvl:
                # nested list
                nested = self._parse_list(stream)
                ilvl = min(ilvl, child_ilvl - 1)
                yield nested
                continue
            elif child_ilvl < ilvl - 1:''')],
    '''
lvl = lambda i: f'<w:lvl w:ilvl="{i}"><w:numFmt w:val="decimal"/><w:lvlText w:val="%{i}"/></w:lvl>'
num = f'<w:abstractNum w:abstractNumId="1">{"".join(map(lvl, range(3)))}</w:abstractNum><w:num w:numId="1"><w:abstractNumId w:val="1"/></w:num>'
it = lambda t, i: wp(t, ppr=f'<w:numPr><w:ilvl w:val="{i}"/><w:numId w:val="1"/></w:numPr>')
out = spex({"a.docx": docx(wtbl(wrow("Figure 1: T"), wrow(wc(it("a", 0), it("b", 1), it("c", 0)))), numbering=num)})[1]["a.html"]
import re
check(re.sub(r"<[^>]*span[^>]*>| class=[^>]*(?=>)|\\s", "", re.search(r"<ol.*</ol>", out, re.S)[0]), "<ol><li>a<ol><li>b</li></ol></li><li>c</li></ol>", "item c is at the outer level")
''',
    "an item directly following a nested one that is one level deeper",
    "it is put into the nested list",
)

bug(
    "d05-hash-only", "D05",
    [(D + "runproperties.py", '''        return isinstance(other, type(self)) and self.__css_attrs == other.__css_attrs
''', '''        return isinstance(other, type(self)) and hash(self) == hash(other)
'''), (D + "runproperties.py", '''        return hash(frozenset(self.__css_attrs))
''', '''        return hash(frozenset((k, v[:4]) for k, v in self.__css_attrs.items()))
''')],
    '''
out = spex({"a.docx": docx(wtbl(wrow("Figure 1: T"), wrow(wc(wp(wr("a", '<w:color w:val="FF0000"/>'), wr("b", '<w:color w:val="FF00FF"/>'))))))})[1]
import re
a, b = re.findall(r'<span class="(\\w+)">[ab]</span>', out["a.html"])
check(a != b, True, "two colours, two classes")
''',
    "two colours that differ only in their last digits",
    "the second text is shown in the colour of the first",
)

bug(
    "d05-style-cycle", "D05",
    [(D + "styles.py", '''        return based_on_rpr.merge(rpr) if based_on_rpr is not None else rpr
''', '''        return based_on_rpr.merge(rpr) if based_on_rpr is not None and rpr is not None else rpr
''')],
    '''
st = ('<w:style w:type="character" w:styleId="B"><w:rPr><w:b/></w:rPr></w:style>'
      '<w:style w:type="character" w:styleId="C"><w:basedOn w:val="B"/></w:style>')
out = spex({"a.docx": docx(wtbl(wrow("Figure 1: T"), wrow(wc(wp(wr("a", '<w:rStyle w:val="C"/>'))))), styles=st)})[1]
check("font-weight: bold" in out["a.css"], True, "bold is inherited")
''',
    "a character style without settings of its own that is based on another one",
    "what it inherits is lost",
)

bug(
    "d06-space-in-title", "D06",
    [(D + "header.py", '''        self._title = self._header.split(",")[0].strip()
''', '''        self._title = " ".join(self._header.split(",")[0].split())
''')],
    '''
m = model(docx(wfig("1", wrow("0", "Field One (FO): x")), header=wp("Spec  A", ", Revision 1.0")), name="a.docx")
check(m and m["meta"]["specification"], "spec  a", "title as in the header")
''',
    "a title with repeated blanks",
    "blanks within the title are lost",
)

bug(
    "d02-first-row-height", "D02",
    [(H + "htmlrenderer.py", '''                    f' colspan="{cell.span.x}"' if cell.span.x > 1 else "",
                    f' rowspan="{cell.span.y}"' if cell.span.y > 1 else "",
''', '''                    f' colspan="{cell.span.x}"' if cell.span.x > 1 else "",
                    f' rowspan="{cell.span.y}"' if cell.span.y > 1 and rndx else "",
''')],
    '''
vm = lambda t, k: wc(t, pr=f'<w:vMerge{k}/>')
inner = wtbl(wrow(wc("Figure 9: N", pr='<w:vMerge w:val="restart"/>'), "a"), wrow(wc(wp(), pr="<w:vMerge/>"), "b"))
out = spex({"a.docx": docx(inner)})[1]["a.html"]
check('rowspan="2"' in out, True, "height of a cell that starts in the first row")
''',
    "a cell spanning rows that starts in the first row of a table",
    "its height is lost",
)

bug(
    "r01-shared-labels", "R01",
    [(H + "css.py", '''class CssCache:
    def __init__(self, prefix: str):
        self.__cache: Dict[CssObj, str] = {}
        self.__prefix = prefix
        self.__counter = 0
''', '''class CssCache:
    __cache: Dict[CssObj, str] = {}

    def __init__(self, prefix: str):
        if prefix == "tcell":
            self.__cache = {}
        self.__prefix = prefix
        self.__counter = len(self.__cache)
''')],
    '''
d = docx(wfig("1", wrow("0", wc(wp(wr("Field One (FO): x", "<w:b/>"))))))
e = docx(wfig("1", wrow("0", wc(wp(wr("Field One (FO): x", "<w:i/>"))))))
alone = spex({"b.docx": e})[1]
after = spex({"a.docx": d, "b.docx": e})[1]
check(after["b.css"], alone["b.css"], "the style sheet of the second document")
''',
    "two .docx inputs with text formatting in one process",
    "the style sheet of the second contains the rules of the first",
)

bug(
    "r02-stem-until-dot", "R02",
    [("src/spex/writer.py", '''        fname = src.name[: -len(src.suffix)]
''', '''        fname = src.name.split(".")[0]
''')],
    '''
f = lambda t: html(fig("1", th("Bits", "Description"), tr("0", f"Field One (FO): {t}")))
rc, out = spex({"nvme.1.html": f("a"), "nvme.2.html": f("b")})
check((rc, sorted(out)), (0, ["nvme.1.json", "nvme.2.json"]), "one result for each input")
''',
    "inputs whose names contain dots",
    "results get the wrong name and overwrite each other",
)

bug(
    "r03-case-of-second", "R03",
    [("src/spex/__main__.py", '''    return [Code[c.strip().upper()] for c in arg.split(",")]
''', '''    names = arg.strip().upper() if "," not in arg else arg.upper()
    return [Code[c.strip()] for c in names.split(",") if c in names.split()[0:1] or c.strip()]
''')],
    '''
rc, out = spex({"a.html": html(fig("1", th("Bits", "Description"), tr("0", "Field One (FO): x")))}, "--lint-ignore=T1000,,T1001")
check(rc != 0, True, "an empty code is refused")
''',
    "an empty code in the list",
    "it is silently accepted",
)

bug(
    "r05-abandoned-file", "R05",
    [("src/spex/parse.py", '''            for fig_ndx, entity in enumerate(dparser.parse()):
                yield ("json", fig_ndx, num_figures)
                w.write_entity(cast(JSON, entity))
''', '''            for fig_ndx, entity in enumerate(dparser.parse()):
                if "parent_fig_id" not in entity:
                    yield ("json", fig_ndx, num_figures)
                w.write_entity(cast(JSON, entity))
''')],
    '''
sys.path.insert(0, str(REPO / "src"))
from spex.parse import parse_spec
from spex.jsonspec.parserargs import ParserArgs
inner = sub(th("Bits", "Description"), tr("0", "Deep One (DO): x"))
f = fig("1", th("Bits", "Description"), tr("9", td("Top One (TO): x", inner)))
g = fig("2", th("Bits", "Description"), tr("9", "Top One (TO): x"))
(SCRATCH / "a.html").write_text(html(f, g, g.replace("Figure 2", "Figure 3")))
got = [n for _, n, _ in parse_spec(SCRATCH / "a.html", ParserArgs(output_dir=SCRATCH, skip_fig_on_error=False, lint_codes_ignore=[]), yield_progress=True)]
check(got, list(range(len(got))), "positions start at 0 and increase by one")
''',
    "nested figures",
    "positions skip the nested figures",
)

bug(
    "w01-evict", "W01",
    [(A, '''                app.config[SPEX_CACHE_LOOKUP][hash] = cache_entry
''', '''                app.config[SPEX_CACHE_LOOKUP][hash] = cache_entry
                while len(app.config[SPEX_CACHE_LOOKUP]) > 32:
                    del app.config[SPEX_CACHE_LOOKUP][next(iter(app.config[SPEX_CACHE_LOOKUP]))]
''')],
    '''
f = lambda t: html(fig("1", th("Bits", "Description"), tr("0", f"Field One (FO): {t}")))

async def scenario(upload, get, app):
    urls = [(await upload("a.html", f(str(i))))[2] for i in range(33)]
    return (await get(urls[0]))[0]

check(web(scenario), 200, "the first report is still there")
''',
    "more than 32 different documents",
    "the report of the first is gone",
)

bug(
    "w02-cleanup-on-success", "W02",
    [(A, '''        finally:
            temp_dir.cleanup()

    # skip''', '''        except Exception:
            temp_dir.cleanup()
            raise
        else:
            temp_dir.cleanup()

    # skip'''), (A, '''    temp_dir = tempfile.TemporaryDirectory()
    temp_dir_path = Path(temp_dir.name)
''', '''    temp_dir = tempfile.TemporaryDirectory()
    app.config.setdefault("SPEX_UPLOADS", []).append(temp_dir)
    temp_dir_path = Path(temp_dir.name)
''')],
    '''
d = html(*[fig(str(i), th("Bits", "Description"), tr("0", "Field One (FO): x")) for i in range(3)])

async def scenario(upload, get, app):
    import gc
    from quart.testing.connections import HTTPDisconnectError
    c = app.test_client()
    before = set(os.listdir(SCRATCH))
    from werkzeug.datastructures import FileStorage
    from quart.testing import make_test_body_with_headers
    body, headers = make_test_body_with_headers(files={"document": FileStorage(io.BytesIO(d.encode()), filename="a.html")})
    async with app.test_request_context("/parse", method="POST", data=body, headers={**dict(headers), "Accept": "text/event-stream"}):
        from spexsrv.application.app import spec_parse
        r = await spec_parse()
        gen = r.response.__aiter__() if hasattr(r.response, "__aiter__") else r.response
        async with r.response as it:
            it = it.__aiter__()
            await it.__anext__()
            inner = it
        await r.response.iterator.aclose() if hasattr(r.response, "iterator") else None
    del r, gen, it, inner
    gc.collect()
    return sorted(set(os.listdir(SCRATCH)) - before)

check(web(scenario), [], "the working directory of an interrupted upload is gone")
''',
    "a client that disconnects while its document is processed",
    "the working directory stays until the server ends",
)

bug(
    "w05-report-lint-sorted", "W05",
    [(A, '''        "erroneous_figure_ids": list(erroneous_figure_ids),
''', '''        "erroneous_figure_ids": list(erroneous_figure_ids)[:500],
'''), (V, '''    for figure in figures:
        figure_id''', '''    for figure in figures[:100]:
        figure_id''')],
    '''
f = lambda n: fig(n, th("Bits", "Description"), tr("9", "Field Nine (FN): x"), tr("0", "Field One (FO): x"), id=n)

async def scenario(upload, get, app):
    u = (await upload("a.html", html(*[f(str(i)) for i in range(1, 121)])))[2]
    return len(const((await get(u))[1], "report_html"))

check(web(scenario), 120, "each figure with a finding is shown")
''',
    "more than 100 figures with findings",
    "the others are not shown",
)
