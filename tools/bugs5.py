"""Planted bugs, fifth batch (the pages), see plant.py."""
T = "src/spexsrv/templates/"
R, U = T + "report.html", T + "upload-form.html"
BUGS = {}

HEAD = '''
from lib import *
from pagelib import *

'''


def bug(bid, prop, edits, demo, needs, breaks):
    BUGS[bid] = dict(prop=prop, edits=edits, demo=HEAD + demo.lstrip("\n") + "\ndone()\n", needs=needs, breaks=breaks, page=True)


bug(
    "w06-same-row-once", "W06",
    [(R, '''<template x-for="lint_err in e">''', '''<template x-for="lint_err in e" :key="`${lint_err.code}/${lint_err.row}`">''')],
    '''
p = report_page(html(fig("1", th("Value", "Description"), *[tr("1h", f"A{c} (A{c}): x") for c in "abc"], id="1")))
p.click("Figures")
lint = p.report["meta"]["lint"]
check(len([t for t in p.texts() if t == "V1002"]), len([e for e in lint if e["code"] == "V1002"]), "every finding is shown")
''',
    "two findings of the same code at the same row of a figure",
    "the second is not shown",
)

bug(
    "w06-clear-first", "W06",
    [(R, '''            this.rows = this.rows.map(r => {
                r.selected = false;
                return r;
            })
        },''', '''            const row = this.rows.find(r => r.selected);
            if (row) {
                row.selected = false;
            }
        },''')],
    '''
p = report_page(TWO_CODES)
a, b = sorted({e["code"] for e in p.report["meta"]["lint"]})[:2]
p.click(a); p.click(b); p.click("Clear all filters")
p.click("Figures")
check(p.figures(), sorted({e["fig"] for e in p.report["meta"]["lint"]}), "all figures after clearing")
''',
    "two codes selected when the selection is cleared",
    "one of them stays selected",
)

bug(
    "w06-both-codes", "W06",
    [(R, '''lints = lints.filter(l => filter_codes.find(c => c === l.code));''', '''lints = lints.filter(l => filter_codes.every(c => c === l.code));''')],
    '''
p = report_page(TWO_CODES)
a, b = sorted({e["code"] for e in p.report["meta"]["lint"]})[:2]
p.click(a); p.click(b); p.click("Figures")
check(p.figures(), sorted({e["fig"] for e in p.report["meta"]["lint"] if e["code"] in (a, b)}), "figures of both codes")
''',
    "two codes selected at a time",
    "no figure is shown",
)

bug(
    "w06-count-figures", "W06",
    [(R, '''            if (acc[entry.code]) {
                acc[entry.code].amount++;
            } else {
                acc[entry.code] = { code: entry.code, msg: entry.msg, amount: 1 };
            }''', '''            const group = acc[entry.code];
            if (!group) {
                acc[entry.code] = { code: entry.code, msg: entry.msg, amount: 1, row: entry.row };
            } else if (entry.row === undefined || entry.row !== group.row) {
                group.amount++;
                group.row = entry.row;
            }''')],
    '''
p = report_page(html(*[fig(str(n), th("Bits", "Description"), tr("0", "Aa (AA): x"), tr("2", "Bb (BB): y"), tr("x<y", "Cc (CC): z"), id=str(n)) for n in (1, 2)]))
lint = p.report["meta"]["lint"]
for c in sorted({e["code"] for e in lint}):
    check(p.row(c)[-1], str(sum(e["code"] == c for e in lint)), f"count of {c}")
''',
    "findings of one code at equally named rows of two figures",
    "they are counted once",
)

bug(
    "w06-ten-codes", "W06",
    [(R, '''        let arr = Object.values(grouped);
        // sort in descending order
        arr.sort((a, b) => b.amount - a.amount)
        return arr;''', '''        let arr = Object.values(grouped);
        // sort in descending order, the rest is of little use
        arr.sort((a, b) => b.amount - a.amount)
        return arr.slice(0, 8);''')],
    '''
B, V = ("Bits", "Description"), ("Value", "Description")
figs = [
    fig("1", th(*B), tr("3:2", "Aa (AA): x"), tr("9:8", "Bb (BB): x"), id="1"),
    fig("2", th(*B), tr("x<y", "Aa (AA): x"), tr("0:4", "Cc (CC): x"), id="2"),
    fig("3", th(*B), tr("0", "no name and no colon here"), tr("1", ""), id="3"),
    fig("", th(*B), tr("0", "Aa (AA): x"), title="Figure: Nn"),
    fig("5", th("Foo", "Bar"), tr("0", "Aa (AA): x"), id="5"),
    fig("6", th(*B), tr("0", "Aa (AA): x"), tr("1", "Aa (AA): x"), id="6"),
    fig("7", th(*V), tr("0h", "Aa"), tr("0h", "Aa"), id="7"),
    fig("8", th(*B), tr("4", "Aa (AA): x"), tr("0:0", "Bb (BB): x"), tr("0", "Bb (BC): x"), id="8"),
    fig("8", th(*B), tr("0", "Aa (AA): x")),
    fig("9", th("Bytes", "Value"), tr("q", "Aa"), id="9"),
]
p = report_page(html(*figs))
lint = p.report["meta"]["lint"]
codes = sorted({e["code"] for e in lint})
assert len(codes) > 8, codes
check([c for c in codes if not p.row(c)], [], "every code has its row")
''',
    "a result with findings of more than eight codes",
    "the rarest are not in the summary",
)

bug(
    "w06-one-detail", "W06",
    [(R, '''x-for="[k, v] in Object.entries(lint_err.context)">''', '''x-for="[k, v] in Object.entries(lint_err.context).slice(0, 1)">''')],
    '''
p = report_page(html(fig("1", th("Bit", "Description"), tr("0", "Same (SA): x"), id="1")))
p.click("Figures")
spans = [t for n in p.nodes() if n["t"] == "span" for t in n["k"] if isinstance(t, str)]
lint = p.report["meta"]["lint"]
assert any(len(e.get("context", {})) > 1 for e in lint), lint
for e in lint:
    for k, v in e.get("context", {}).items():
        check(k in spans and str(v) in spans, True, f"{e['code']}: {k}: {v}")
''',
    "a finding with two details",
    "only the first of them is shown",
)

bug(
    "w06-row-markup", "W06",
    [(R, '''<span x-text="lint_err.row"></span>''', '''<span x-html="lint_err.row"></span>''')],
    '''
p = report_page(html(fig("1", th("Bits", "Description"), tr("a<b>c", "Aa (AA): x"), id="1")))
p.click("Figures")
rows = [e["row"] for e in p.report["meta"]["lint"] if e.get("row")]
assert rows
spans = [t for n in p.nodes() if n["t"] == "span" for t in n["k"] if isinstance(t, str)]
check([r for r in rows if r not in spans], [], "rows are shown as they are")
''',
    "a row whose name has markup in it",
    "the name is used as HTML",
)

bug(
    "w06-nested-joined", "W06",
    [(R, '''                let lints_by_fig = lints.reduce((acc, l) => {
                    if (acc[l.fig]) {
                        acc[l.fig].push(l);
                    } else {
                        acc[l.fig] = [l];
                    }
                    return acc;''', '''                let lints_by_fig = lints.reduce((acc, l) => {
                    const fig_id = l.fig.split("_").slice(0, 2).join("_");
                    if (acc[fig_id]) {
                        acc[fig_id].push(l);
                    } else {
                        acc[fig_id] = [l];
                    }
                    return acc;''')],
    '''
B = ("Bits", "Description")
deep = sub(th(*B), tr("3", "Aa (AA): x"), tr("5", "Bb (BB): x"))
inner = sub(th(*B), tr(td("1"), td("Dd (DD): x", deep)), tr("4", "Ee (EE): x"))
p = report_page(html(fig("1", th(*B), tr(td("9"), td("Ff (FF): x", inner)), id="1")))
p.click("Figures")
check(p.figures(), sorted({e["fig"] for e in p.report["meta"]["lint"]}), "figures of the findings")
''',
    "findings in a figure nested two levels deep",
    "they are shown with the figure around it",
)

bug(
    "w07-form-kept", "W07",
    [(U, '''const submitForm = () => {
    let url = null;
    const inputFile = document.querySelector("input[type='file']");
    const fData = new FormData();
    fData.append("document", inputFile.files[0]);
''', '''const fData = new FormData();

const submitForm = () => {
    let url = null;
    const inputFile = document.querySelector("input[type='file']");
    fData.append("document", inputFile.files[0]);
''')],
    '''
p = form_page()
p.upload("a.html", [BAD], end=True)
p.upload("b.html", [GOOD], end=True)
check([len(a["body"]) for a in p.shot["asked"]], [1, 1], "one document per request")
''',
    "a second upload after one that failed",
    "both documents are sent, the first is processed again",
)

bug(
    "w07-progress-grows", "W07",
    [(U, '''    if (phase === "html") {
        store = Alpine.store("progress_html");
        store.current = fig_ndx;
        store.max = num_figs;''', '''    if (phase === "html") {
        store = Alpine.store("progress_html");
        store.current = Math.max(store.current, fig_ndx); // never back
        store.max = num_figs;''')],
    '''
p = form_page()
p.upload("a.docx", [ev(phase="html", fig_ndx=7, num_figs=9)], end=True)
p.upload("b.docx", [ev(phase="html", fig_ndx=1, num_figs=9)])
check(p.bars()[0], (1.0, 9.0), "progress of the second upload")
''',
    "a second upload after one that failed midway",
    "its progress starts where the first one's ended",
)

bug(
    "w07-early-progress", "W07",
    [(U, '''    fData.append("document", inputFile.files[0]);
''', '''    fData.append("document", inputFile.files[0]);
    Alpine.store("processing", true);
'''), (U, '''            Alpine.store("processing", true);
            return reader''', '''            return reader''')],
    '''
p = form_page()
p.upload("a.docx", [], status=413)
check(p.has_form(), True, "the form after a refused upload")
p.upload("b.docx", [GOOD], end=True)
check(p.shot["went"], ["/report/x"], "the next upload")
''',
    "an upload that the server refuses",
    "the page shows progress for ever",
)

bug(
    "w07-old-address", "W07",
    [(U, '''const submitForm = () => {
    let url = null;
''', '''let url = null;

const submitForm = () => {
''')],
    '''
p = form_page()
p.upload("a.html", [GOOD], fail=True)
n = len(p.shot["went"])
p.upload("b.html", [BAD], end=True)
check(p.shot["went"][n:], [], "pages the failed upload led to")
''',
    "an upload that fails after one whose connection broke right after its completion",
    "the page leaves for the report of the earlier one",
)

bug(
    "w07-last-of-piece", "W07",
    [(U, '''                            if (msg.type === "progress-update") {
                                onProgressUpdate(msg);
                            } else''', '''                            if (msg.type === "progress-update") {
                                if (msg.fig_ndx === 1 || msg.fig_ndx % 10 === 0) { // few are enough
                                    onProgressUpdate(msg);
                                }
                            } else''')],
    '''
p = form_page()
p.upload("a.html", [*[ev(phase="json", fig_ndx=i, num_figs=12) for i in range(1, 13)]])
check(p.bars()[1], (12.0, 12.0), "progress after the twelfth figure")
''',
    "positions that are no multiples of ten",
    "the last figure's progress is not shown",
)
