"""Planted bugs, tenth batch, see plant.py."""
J = "src/spex/jsonspec/"
X = J + "extractors/"
H = "src/spex/htmlspec/"
D = H + "docx/"
A = "src/spexsrv/application/app.py"
V = "src/spexsrv/application/report_view.py"
BUGS = {}

def bug(bid, prop, edits, demo, needs, breaks):
    BUGS[bid] = dict(prop=prop, edits=edits, demo="from lib import *\n\n" + demo.lstrip("\n") + "\ndone()\n", needs=needs, breaks=breaks)

B = '("Bits", "Description")'

PB = '("Bytes", "Description")'
PV = '("Value", "Description")'

A_ = '("Bits", "Attribute", "Description")'

bug(
    "s07-colspan-ten", "S07",
    [(J + "rowiter.py", '''                alst_insert(alst, column_offset, elem, row_span)
            column_offset += int(td.get("colspan", 1))
''', '''                alst_insert(alst, column_offset, elem, row_span)
            column_offset += int(td.get("colspan", "1")[:1])
''')],
    f'''
rows = ["<tr>" + td("x", colspan=12) + td("7:0", rowspan=2) + td("Aa (AA): x") + "</tr>", "<tr>" + td("x", colspan=12) + td("Bb (BB): x") + "</tr>"]
m = model(html(fig("1", th("Kind", *{B}), *rows)))
check([f[0] for f in fields(m, "1")], [(7, 0), (7, 0)], "ranges of two rows with a merged one")
''',
    "a merged cell to the right of one that spans ten or more columns",
    "it lands in another column of the row below",
)

bug(
    "s07-fifty-rows", "S07",
    [(J + "rowiter.py", '''            row_span = int(td.get("rowspan", 1))
''', '''            row_span = min(int(td.get("rowspan", 1)), 50)
''')],
    f'''
m = model(html(fig("1", th("Bits", "Attribute", "Description"), "<tr>" + td("80") + td("Aa: x", rowspan=60) + td("d: x") + "</tr>", *["<tr>" + td(str(79 - i)) + td("d: x") + "</tr>" for i in range(59)])), "-s")
check(len(fields(m, "1")), 60, "rows under a merged cell")
''',
    "a cell merged down more than 50 rows",
    "the rows below lose it",
)

bug(
    "s06-recent-names", "S06",
    [(X + "structtable.py", '''                labels.add(field_label)
''', '''                labels.add(field_label)
            if len(labels) > 64:
                labels = {field_label}
''')],
    f'''
names = ["Xx"] + [f"N{{i}}" for i in range(80)] + ["Xx"]
m = model(html(fig("1", th(*{PB}), *[tr(str(i), f"F ({{n}}): x") for i, n in enumerate(names)])))
check([e[0] for e in lint(m)], ["L1002"], "findings about a name given again 80 rows below")
''',
    "a name given again more than 64 names below",
    "it is not reported",
)

bug(
    "s08-depth-eight", "S08",
    [(X + "figure.py", '''        if len(tbls) == 0:
            return
''', '''        if len(tbls) == 0 or self.fig_id.count("_") > 7:
            return
''')],
    f'''
t = ""
for i in range(12):
    t = "<table>" + th(*{B}) + "<tr><td><p>1</p></td><td><p>Aa (AA): x</p>" + t + "</td></tr></table>"
m = model(html(fig("1", th(*{B}), "<tr><td><p>1</p></td><td><p>Aa (AA): x</p>" + t + "</td></tr>")))
check(len(ents(m)), 13, "nested figures")
''',
    "figures nested more than eight deep",
    "the innermost ones are lost",
)

bug(
    "w05-hundred-figures", "W05",
    [(V, '''    for figure in figures:
''', '''    for figure in figures[:100]:
''')],
    f'''
import sys
sys.path.insert(0, "src")
from pathlib import Path
from spexsrv.application.report_view import get_erroneous_figures
import tempfile
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "a.html"
    p.write_text("<html><body>" + "".join(f"<table id='{{i}}'><tr><td>x</td></tr></table>" for i in range(150)) + "</body></html>")
    check(len(get_erroneous_figures([str(i) for i in range(150)], p)), 150, "figures shown")
''',
    "findings about more than 100 figures",
    "some of the figures are not shown",
)

bug(
    "s02-large-gap", "S02",
    [(X + "structtable.py", '''                        elif prev + 1 != current:
''', '''                        elif 1 < current - prev < 4096:
''')],
    f'''
m = model(html(fig("1", th(*{PB}), tr("0", "Aa (AA): x"), tr("8191:8000", "Bb (BB): x"))))
check([e[0] for e in lint(m)], ["T1002"], "findings about a large gap")
''',
    "a gap of 4095 bytes or more",
    "it is not reported",
)

bug(
    "s02-two-hundred-rows", "S02",
    [(X + "structtable.py", '''        for field in fields[1:]:
            field_label''', '''        for field in fields[1:200]:
            field_label''')],
    f'''
m = model(html(fig("1", th(*{PB}), *[tr(str(i if i < 240 else i + 1), f"F (N{{i}}): x") for i in range(250)])))
check([e[0] for e in lint(m)], ["T1002"], "findings about a gap below 240 rows")
''',
    "a defect below the 200th row",
    "it is not reported",
)

bug(
    "s03-three-hundred", "S03",
    [(J + "rowiter.py", '''        yield row

        alst = alst_count_decr(alst)
        row_cnt += 1
''', '''        yield row

        alst = alst_count_decr(alst)
        row_cnt += 1
        if row_cnt > 300:
            break
''')],
    f'''
m = model(html(fig("1", th(*{PB}), *[tr(str(i), f"F (N{{i}}): x") for i in range(400)])))
check(len(fields(m, "1")), 400, "fields")
''',
    "a figure of more than 300 rows",
    "the last ones are lost",
)

bug(
    "w01-thirty-two", "W01",
    [(A, '''                app.config[SPEX_CACHE_LOOKUP][hash] = cache_entry
''', '''                lookup = app.config[SPEX_CACHE_LOOKUP]
                if len(lookup) >= 32:
                    del lookup[next(iter(lookup))]
                lookup[hash] = cache_entry
''')],
    f'''
async def scenario(upload, get, app):
    urls = []
    for i in range(36):
        urls.append((await upload("a.html", html(fig("1", th(*{B}), tr("7:0", f"Aa (A{{i}}): x")))))[2])
    return [(await get(u))[0] for u in urls]

check(set(web(scenario)), {{200}}, "status of the reports of 36 documents")
''',
    "more than 32 documents",
    "the addresses of the first ones lead nowhere",
)

bug(
    "d01-long-run", "D01",
    [(H + "htmlrenderer.py", '''        txt = html_escape(span.text)
''', '''        txt = html_escape(span.text[:32767])
''')],
    f'''
_, out = spex({{"a.docx": docx(wfig("1", wrow("0", "Aa (AA): " + "x" * 40000)))}})
check(out["a.html"].count("x" * 40000), 1, "a text of 40000 characters")
''',
    "a run of more than 32767 characters",
    "its end is lost",
)

bug(
    "d07-five-hundred", "D07",
    [(H + "parser.py", '''        for rndx, row in enumerate(tw.grid()):
''', '''        for rndx, row in enumerate(tw.grid()[:500]):
''')],
    f'''
m = model(docx(wfig("1", *[wrow(str(600 - i), f"F (N{{i}}): x") for i in range(600)])), name="a.docx")
check(len(fields(m, "1")), 600, "fields")
''',
    "a table of more than 500 rows",
    "the last ones are lost",
)

bug(
    "d02-long-merge", "D02",
    [(D + "tablewrap.py", '''        return self.bottom - self.top + 1
''', '''        return min(self.bottom - self.top + 1, 100)
''')],
    f'''
V = '<w:vMerge{{}}/>'
_, out = spex({{"a.docx": docx(wtbl(wrow(wc("a", pr=V.format(' w:val="restart"')), "0"), *[wrow(wc("", pr=V.format("")), str(i)) for i in range(120)]))}})
check('rowspan="121"' in out["a.html"], True, "a cell merged down 121 rows")
''',
    "a cell merged down more than 100 rows",
    "its span is too small",
)
