"""Planted bugs, fourth batch, see plant.py."""
J = "src/spex/jsonspec/"
X = J + "extractors/"
H = "src/spex/htmlspec/"
D = H + "docx/"
A = "src/spexsrv/application/app.py"
V = "src/spexsrv/application/report_view.py"
L = "src/spex/log/_log_config.py"
BUGS = {}


def bug(bid, prop, edits, demo, needs, breaks):
    BUGS[bid] = dict(prop=prop, edits=edits, demo="from lib import *\n\n" + demo.lstrip("\n") + "\ndone()\n", needs=needs, breaks=breaks)


NUMS = '''
import re

def numbering(defs):
    out = ""
    for a, lv in defs.items():
        out += f'<w:abstractNum w:abstractNumId="{a}">' + "".join(f'<w:lvl w:ilvl="{i}"><w:start w:val="1"/><w:numFmt w:val="{f}"/><w:lvlText w:val="{chr(8226) if f == "bullet" else f"%{i+1}."}"/></w:lvl>' for i, f in lv) + "</w:abstractNum>"
    return out + "".join(f'<w:num w:numId="{a + 1}"><w:abstractNumId w:val="{a}"/></w:num>' for a in defs)

def li(text, a, l):
    return wp(text, ppr=f'<w:numPr><w:ilvl w:val="{l}"/><w:numId w:val="{a + 1}"/></w:numPr>')

def marker(out, text):
    """what the class of the list of this item says; None without a rule."""
    from lxml import etree
    root = etree.HTML(out["a.html"])
    e = [x for x in root.iter("li") if "".join(x.xpath("./span/text()")) == text][0].getparent()
    got = None
    for sel, body in re.findall(r"([^{}]+)\\{([^{}]*)\\}", out["a.css"]):
        sel = re.sub(r"/\\*.*?\\*/", "", sel, flags=re.S).strip()
        if sel == f"{e.tag}.{e.get('class')}" or sel == "." + e.get("class"):
            got = re.search(r"list-style-type:\\s*([\\w-]+)", body)[1]
    return e.tag, got
'''

bug(
    "d08-one-rule-per-kind", "D08",
    [(H + "htmlrenderer.py", '''            for nstyle in self._document.numbering_xml.iter_styles():
                for ilvl in nstyle.ilvls:
                    s.emitln(ilvl.to_css())
''', '''            levels = {}
            for nstyle in self._document.numbering_xml.iter_styles():
                for ilvl in nstyle.ilvls:
                    levels.setdefault((ilvl.ilvl, ilvl.num_fmt, ilvl.lvl_text), ilvl)
            for ilvl in levels.values():
                s.emitln(ilvl.to_css())
''')],
    NUMS + '''
n = numbering({0: [(0, "decimal"), (1, "lowerLetter")], 3: [(0, "bullet"), (1, "lowerLetter")]})
rc, out = spex({"a.docx": docx(wtbl(wrow(wc(li("p", 0, 0), li("q", 0, 1), wp("x"), li("r", 3, 0), li("s", 3, 1), wp()))), numbering=n)})
check((rc, marker(out, "p"), marker(out, "q"), marker(out, "r"), marker(out, "s")), (0, ("ol", "decimal"), ("ol", "lower-alpha"), ("ul", "disc"), ("ol", "lower-alpha")), "markers of two definitions with equal levels")
''',
    "two numbering definitions that have a level in common",
    "the second definition's level has no rule and takes the marker of the list around it",
)

bug(
    "d09-short-hex", "D09",
    [(H + "parser.py", '''        return {"background-color": f"#{self.shd_fill}"}
''', '''        fill = self.shd_fill or ""
        if fill[0:1] == fill[1:2] and fill[2:3] == fill[3:4]:
            fill = fill[::2]  # short form
        return {"background-color": f"#{fill}"}
''')],
    '''
import re
g = lambda n, f: wc(n, pr=f'<w:shd w:val="clear" w:fill="{f}"/>')
rc, out = spex({"a.docx": docx(wtbl(wrow(g("a", "00FF22"), g("b", "FFEE05"))))})
full = [c if len(c) == 6 else "".join(x * 2 for x in c) for c in re.findall(r"background-color: #(\\w+);", out["a.css"])]
check((rc, full), (0, ["00FF22", "FFEE05"]), "backgrounds")
''',
    "a fill whose first two components can be shortened and whose third cannot",
    "the third component of the background is wrong",
)

bug(
    "d09-fill-within", "D09",
    [(H + "parser.py", '''                shd_fill = Xpath.attr_first(gridcell.cell, "./w:tcPr/w:shd/@w:fill")
''', '''                shd_fill = Xpath.attr_first(gridcell.cell, ".//w:shd/@w:fill")
''')],
    '''
from lxml import etree
rc, out = spex({"a.docx": docx(wtbl(wrow(wc(wp(wr("a", rpr='<w:shd w:val="clear" w:fill="FFFF00"/>'))), wc("b"))))})
cells = etree.HTML(out["a.html"]).findall(".//td")
check((rc, [c.get("class") for c in cells]), (0, [None, None]), "classes of cells without a fill")
''',
    "a cell without fill that holds a run (or a nested table) with one",
    "the cell has the background of something in it",
)

bug(
    "r07-count-all", "R07",
    [("src/spex/parse.py", '''                f"Encountered {len(reported_lint_errs)} "
''', '''                f"Encountered {len(dparser.linter.lint_entries())} "
''')],
    '''
d = SCRATCH / "c"
d.mkdir()
(d / "a.html").write_text(html(fig("1", th("Bits", "Description"), tr("7", "Ab Cd (AC): x"), tr("1", "Ef Gh (EG): x"), tr("0", "Ef Gh (EG): x"))))
r = subprocess.run([sys.executable, "-m", "spex", "a.html", "--lint-ignore", "T1002"], cwd=d, env=ENV, capture_output=True, text=True, timeout=100)
n = len(json.loads((d / "a.json").read_text())["meta"]["lint"])
check((r.returncode, n, f" {n} linting" in r.stderr), (0, 1, True), "number of entries on the console")
''',
    "a run that ignores a lint code which occurs, beside another one which is not ignored",
    "the console tells a number of entries that the result does not have",
)

bug(
    "r07-log-grows", "R07",
    [(L, '''SPEX_LOG_PATH.unlink(missing_ok=True)
''', '''if SPEX_LOG_PATH.is_symlink() or not SPEX_LOG_PATH.is_file():
    SPEX_LOG_PATH.unlink(missing_ok=True)
'''), (L, '''        self._fp = open(fpath, "w")
''', '''        self._fp = open(fpath, "a")
''')],
    '''
d = SCRATCH / "c"
d.mkdir()
(d / "a.html").write_text(html(fig("1", th("Bits", "Description"), tr("7:0", "Ab Cd (AC): x"))))
n = []
for i in range(2):
    subprocess.run([sys.executable, "-m", "spex", "a.html"], cwd=d, env=ENV, capture_output=True, timeout=100)
    n.append(len((d / "spex.log").read_text().splitlines()))
check(n[0], n[1], "length of the log of two equal runs")
''',
    "a second run in the same directory",
    "the log has the messages of the earlier run, too",
)

bug(
    "r07-short-messages", "R07",
    [("src/spex/log/_log_config.py", '''            "msg": record["message"],
''', '''            "msg": record["message"][:2000],
''')],
    '''
d = SCRATCH / "c"
d.mkdir()
x = "<tr><td><p>5</p></td><td>no paragraph</td></tr>"
t = "Long " * 500 + "end"
(d / "a.html").write_text(html(fig("1", th("Bits", "Description"), x, title="Figure 1: " + t)))
subprocess.run([sys.executable, "-m", "spex", "a.html", "-s"], cwd=d, env=ENV, capture_output=True, timeout=100)
log = [json.loads(x) for x in (d / "spex.log").read_text().splitlines()]
check(any(t in e["msg"] for e in log), True, "the title is in a message of the log")
''',
    "a figure with a very long title that fails",
    "the message in the log ends early",
)

bug(
    "d05-first-name-wins", "D05",
    [(D + "styles.py", '''            alias_dct[canonical_style_name] = canonical_style_name
''', '''            alias_dct.setdefault(canonical_style_name, canonical_style_name)
''')],
    '''
import re
st = lambda i, al, rpr: f'<w:style w:type="character" w:styleId="{i}"><w:name w:val="{i}"/><w:aliases w:val="{al}"/><w:rPr>{rpr}</w:rPr></w:style>'
s = st("x", "Strong", "<w:i/>") + st("Strong", "y", "<w:b/>")
rc, out = spex({"a.docx": docx(wtbl(wrow(wc(wp(wr("t", rpr='<w:rStyle w:val="Strong"/>'))))), styles=s)})
check((rc, re.findall(r"font-(?:weight|style): \\w+;", out["a.css"])), (0, ["font-weight: bold;"]), "style whose id is another one's alias")
''',
    "two styles, the id of the second one being an alias of the first one",
    "text has the format of the other style",
)

bug(
    "d08-deep-bullets", "D08",
    [(D + "numbering.py", '''            style = ul_styles[ilvl % len(ul_styles)]
''', '''            style = ul_styles[min(ilvl, len(ul_styles) - 1)]
''')],
    NUMS + '''
n = numbering({0: [(0, "bullet"), (1, "bullet"), (2, "bullet")]})
rc, out = spex({"a.docx": docx(wtbl(wrow(wc(li("p", 0, 0), li("q", 0, 1), li("r", 0, 2), wp()))), numbering=n)})
check((rc, marker(out, "p"), marker(out, "q"), marker(out, "r")), (0, ("ul", "disc"), ("ul", "circle"), ("ul", "disc")), "markers of three bulleted levels")
''',
    "a bulleted list of three levels",
    "the third level has the marker of the second one",
)

bug(
    "s06-reserved-in-briefs", "S06",
    [(X + "structtable.py", '''                if field_label in labels:
                    self.add_issue(
                        LintErr.LBL_DUPLICATE,
''', '''                if field_label in labels and field_label != fields[0]["label"]:
                    self.add_issue(
                        LintErr.LBL_DUPLICATE,
''')],
    '''
f = fig("1", th("Bytes", "Description"), tr("0", "A B (AB): x"), tr("1", "C D (CD): x"), tr("2", "A B (AB): x"))
check(lint(model(html(f))), [("L1002", "1", "2")], "name of the first field again")
''',
    "a name that occurred first in the very first field",
    "the duplicate is not reported",
)

bug(
    "s05-values-int", "S05",
    [(X + "valuetable.py", '''        return XmlUtils.to_text(val_cell).lower()
''', '''        val = XmlUtils.to_text(val_cell).lower()
        if val.endswith("b") and len(val) > 8:
            val = val[:-1].rstrip() + "b"
        return val
''')],
    '''
f = fig("1", th("Value", "Description"), tr("01", "Xx: x"), tr("0000 0001 b", "Yy: x"))
check(fields(model(html(f)), "1"), [("01", "XX", "x"), ("0000 0001 b", "YY", "x")], "codes")
''',
    "a long binary code whose b is set apart by a blank",
    "the code is changed",
)

bug(
    "s08-second-table", "S08",
    [(X + "figure.py", '''        for tbl in tbls:
            yield from self._parse(entity_base, tbl)
''', '''        for tbl in tbls:
            yield from self._parse(entity_base, tbl)
            if self.parent_fig_id is not None:
                break  # one level of detail is enough
''')],
    '''
inner = lambda a: sub(th("Bits", "Description"), tr("7:0", f"{a} {a} ({a}): x"))
mid = sub(th("Bits", "Description"), tr("7:0", td("M M (MM): x", inner("PP"), inner("QQ"))))
m = model(html(fig("1", th("Bits", "Description"), tr("7:0", td("O O (OO): x", mid)))))
check([(e["fig_id"], e["fields"][0]["label"]) for e in m["entities"]], [("1_0_0", "pp"), ("1_0_0", "qq"), ("1_0", "mm"), ("1", "oo")], "entities")
''',
    "two tables in one cell of a figure that is nested itself",
    "the second table is lost",
)

