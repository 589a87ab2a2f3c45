"""Planted bugs, ninth batch, see plant.py."""
J = "src/spex/jsonspec/"
X = J + "extractors/"
H = "src/spex/htmlspec/"
D = H + "docx/"
A = "src/spexsrv/application/app.py"
V = "src/spexsrv/application/report_view.py"
BUGS = {}

def bug(bid, prop, edits, demo, needs, breaks):
    BUGS[bid] = dict(prop=prop, edits=edits, demo="from lib import *\n\n" + demo.lstrip("\n") + "\ndone()\n", needs=needs, breaks=breaks)

B = '("Bits", "Description")'

PB = '("Bytes", "Description")'
PV = '("Value", "Description")'

A_ = '("Bits", "Attribute", "Description")'

bug(
    "w01-first-megabyte", "W01",
    [(A, '''    hash_md5 = hashlib.md5()
    with open(fpath, "rb") as fh:
        for chunk in iter(lambda: fh.read(chunk_bytes), b""):
            hash_md5.update(chunk)
''', '''    hash_md5 = hashlib.md5()
    with open(fpath, "rb") as fh:
        for _ in range(256):
            hash_md5.update(fh.read(chunk_bytes))
''')],
    f'''
async def scenario(upload, get, app):
    urls = []
    for end in ("Aa", "Zz"):
        doc = html(fig("1", th(*{B}), tr("7:0", "Aa (AA): x")), "<p>" + "x" * 1100000 + "</p>", fig("2", th(*{B}), tr("7:0", f"{{end}} ({{end.upper()}}): x")))
        urls.append((await upload("a.html", doc))[2])
    return [(await get(u.replace("report", "json")))[1] for u in urls]

a, b = web(scenario)
check((b"aa" in a, b"zz" in a, b"zz" in b), (True, False, True), "the result of each of two documents that differ after a megabyte")
''',
    "two documents of more than a megabyte that differ after it",
    "they share an address",
)

bug(
    "r07-brace-name", "R07",
    [("src/spex/__main__.py", '''            logger.log(ULog.INFO, f"parsing '{spec}'...")
''', '''            logger.log(ULog.INFO, f"parsing '{spec}'...", spec=str(spec))
''')],
    f'''
rc, out = spex({{"a{{b}}.html": html(fig("1", th(*{B}), tr("7:0", "Aa (AA): x")))}})
check((rc, sorted(out)), (0, ["a{{b}}.json"]), "a file with braces in its name")
''',
    "an input with braces in its name",
    "it is not announced, and not processed",
)

bug(
    "d09-thousand-fills", "D09",
    [(H + "css.py", '''        clsname = f"{self.__prefix}{count}"
''', '''        clsname = f"{self.__prefix}{count % 1000}"
''')],
    f'''
import re
rows = [wrow(wc(str(1100 - i), pr=f'<w:shd w:val="clear" w:fill="00{{i:04X}}"/>'), f"Aa (A{{i}}): x") for i in range(1100)]
_, out = spex({{"a.docx": docx(wfig("1", *rows))}})
rules = re.findall(r"\\.tcell\\d+", out["a.css"])
check(len(rules), len(set(rules)), "classes of cells")
''',
    "more than 1000 different fills",
    "different fills share a class",
)

bug(
    "d02-sixty-three", "D02",
    [(D + "tablewrap.py", '''            return int(ret) if isinstance(ret, str) else 1
''', '''            # a table has at most 63 columns
            return min(int(ret), 63) if isinstance(ret, str) else 1
''')],
    f'''
_, out = spex({{"a.docx": docx(wtbl(wrow(wc("Figure 1: T", pr='<w:gridSpan w:val="70"/>')), wrow(*[wc(f"H{{i}}", pr=GREY) for i in range(70)])))}})
check('colspan="70"' in out["a.html"], True, "span of a cell over 70 columns")
''',
    "a cell that spans more than 63 columns",
    "its span is too small",
)

bug(
    "d01-blank-span", "D01",
    [(H + "parser.py", '''            if txt == "":
                continue
            r_rpr''', '''            if txt.isspace():
                txt = txt[0]
            if txt == "":
                continue
            r_rpr''')],
    f'''
_, out = spex({{"a.docx": docx(wfig("1", wrow("0", wc(wp("Aa (AA): x", "   ", "y")))))}})
check("<span>   </span>" in out["a.html"], True, "three blanks in a run of their own")
''',
    "a run of several blanks only",
    "all but one are lost",
)

bug(
    "s01-nine-digits", "S01",
    [(X + "structtable.py", '''            high = int(m.group("high"))
''', '''            high = int(m.group("high")[:10])
''')],
    f'''
m = model(html(fig("1", th(*{PB}), tr("0000000000012:0", "Aa (AA): x"))))
check(fields(m, "1")[0][0], (12, 0), "a range with leading zeros")
''',
    "an upper bound of more than ten digits",
    "it is cut",
)

bug(
    "s12-sixty-four", "S12",
    [(X + "structtable.py", '''            field_range.replace("\\n", "").replace(" ", "")
        )''', '''            field_range.replace("\\n", "").replace(" ", "", 64)
        )''')],
    f'''
r = " + ".join(["N"] * 40)
m = model(html(fig("1", th(*{PB}), "<tr>" + td("The List", tag="th", colspan=2) + "</tr>", tr(f"{{r}} + 3:{{r}}", "Aa (AA): x"))))
check(fields(m, "1")[0][0], ("+".join(["N"] * 40) + "+3", "+".join(["N"] * 40)), "bounds without blanks")
''',
    "a formula with more than 64 blanks",
    "the blanks remain",
)

bug(
    "s02-reversed-extent", "S02",
    [(X + "structtable.py", '''                    prev = prev_range["high"]
                    current = field_range["low"]
''', '''                    prev = max(prev_range["high"], prev_range["low"])
                    current = field_range["low"]
''')],
    f'''
m = model(html(fig("1", th(*{PB}), tr("1:3", "Aa (AA): x"), tr("3", "Bb (BB): x"))))
check([e[0] for e in lint(m)], ["R1000", "T1002"], "findings about a reversed range and the row below") if False else None
m0 = sorted(e[0] for e in lint(m))
check("T1001" in m0, False, "an overlap with the part that the reversed range does not have")
''',
    "a field that follows a reversed range",
    "an overlap is reported where the range of the field before has its lower bound",
)

bug(
    "s02-text-between", "S02",
    [(X + "structtable.py", '''            if field_label == "…":
                prev_range = None
                continue
''', '''            if field_label == "…":
                continue
''')],
    f'''
m = model(html(fig("1", th(*{PB}), tr("0", "Aa (AA): x"), tr("…", "…"), tr("1", "…"), tr("9", "Bb (BB): x"))))
check([e[0] for e in lint(m)], [], "findings about a figure with an ellipsis")
''',
    "a figure with an ellipsis row in between",
    "a gap is reported that the ellipsis accounts for",
)

bug(
    "s06-reserved-codes", "S06",
    [(X + "valuetable.py", '''            if field_label in {RESERVED, ELLIPSIS}:
                continue

            if field_label in labels:''', '''            if field_label in {RESERVED, ELLIPSIS}:
                values.add(field_value)
                continue

            if field_label in labels:''')],
    f'''
m = model(html(fig("1", th(*{PV}), tr("1h", "Reserved"), tr("1h", "Aa: x"), tr("2h", "Bb: x"))))
check([e[0] for e in lint(m)], [], "findings about a code that a reserved row has, too")
''',
    "a code that a reserved row above has, too",
    "it is reported as duplicate",
)

bug(
    "s05-nine-digits", "S05",
    [(X + "regular_expressions.py", '''LABEL_NUMERICAL_REARRANGE_REGEX = compile(r"^(\\d+)(.*)")''', '''LABEL_NUMERICAL_REARRANGE_REGEX = compile(r"^(\\d{1,8})(.*)")''')],
    f'''
m = model(html(fig("1", th(*{PV}), tr("1h", "1234567890 Bytes: x"))))
check(fields(m, "1")[0][1], "BYTES_1234567890", "name of a value that starts with a number")
''',
    "a name that starts with more than eight digits",
    "its digits are torn apart",
)

bug(
    "s14-empty-row", "S14",
    [(J + "lint.py", '''        if self.row is not None:
''', '''        if self.row:
''')],
    f'''
m = model(html(fig("1", th(*{B}), tr("", "Aa (AA): x"), tr("1", "Bb (BB): x"))))
check([e["row"] for e in m["meta"]["lint"] if e["code"].startswith("R")], [""], "row of the finding about an empty range")
''',
    "a finding about a row without range",
    "it does not name the row",
)

bug(
    "d04-hundred-items", "D04",
    [(H + "parser.py", '''        while not stream.end():
            child = stream.peek()
            if child is None:
                break
''', '''        for _ in range(100):
            if stream.end():
                break
            child = stream.peek()
            if child is None:
                break
''')],
    f'''
item = lambda i: wp(f"i{{i}}", ppr='<w:numPr><w:ilvl w:val="0"/><w:numId w:val="1"/></w:numPr>')
num = '<w:abstractNum w:abstractNumId="1"><w:lvl w:ilvl="0"><w:numFmt w:val="decimal"/><w:lvlText w:val="%1."/></w:lvl></w:abstractNum><w:num w:numId="1"><w:abstractNumId w:val="1"/></w:num>'
_, out = spex({{"a.docx": docx(wfig("1", wrow("0", wc(*[item(i) for i in range(130)]))), numbering=num)}})
check(out["a.html"].count("<ol"), 1, "lists")
''',
    "a list of more than 100 items",
    "it is broken into two",
)

bug(
    "d06-comma-blank", "D06",
    [(D + "header.py", '''        self._title = self._header.split(",")[0].strip()
''', '''        self._title = self._header.split(", ")[0].strip()
''')],
    f'''
m = model(docx(wfig("1", wrow("0", "Aa (AA): x")), header=wp("Spec A,", "Revision 1.0")), name="a.docx")
check(m["meta"]["specification"], "spec a", "title")
''',
    "a header without blank after the comma",
    "the title does not end there",
)

bug(
    "s09-values-pair", "S09",
    [(X + "valuetable.py", '''            other_col = next((hdr for hdr in tbl_col_hdrs if hdr != "value"), None)
''', '''            other_col = next((hdr for hdr in tbl_col_hdrs if hdr not in cls.value_column_hdrs()), None)
''')],
    f'''
m = model(html(fig("1", th("Value", "Values"), tr("1h", "Aa: x"))))
check([(e["type"]) for e in m["entities"]], ["values"], "figures")
''',
    "a figure with the columns Value and Values",
    "it is skipped",
)

bug(
    "r01-missing-count", "R01",
    [(J + "document.py", '''            self.__fig_id_missing_counter = fig_id + 1
''', '''            DocumentParser.__fig_id_missing_counter = fig_id + 1
'''), (J + "document.py", '''        self.__fig_id_missing_counter = 0
''', '''
'''), (J + "document.py", '''    fig_extractor_overrides: Dict[str, Type["FigureExtractor"]] = {}
''', '''    fig_extractor_overrides: Dict[str, Type["FigureExtractor"]] = {}
    __fig_id_missing_counter = 0
''')],
    f'''
h = html("<table><tr><td><p>The Figures</p></td></tr></table>")
_, a = spex({{"b.html": h}})
_, b = spex({{"a.html": h, "b.html": h}})
check(b["b.json"], a["b.json"], "result after another document without figure number")
''',
    "two documents with unnumbered figures in one process",
    "the second one's are counted on",
)
