"""Documents that exercise every kind of state of the pipeline."""
from . import docx as dx
from .tree import E, document, figure, html, nested, table, td, th, title_row, tr
from .util import std_row

NVM = ("NVM Express® NVM Command Set Specification", "1.0c")
ZNS = ("NVM Express® Zoned Namespace Command Set Specification", "1.1c")


def bits(n, *rows, title="T"):
    return figure(n, ["Bits", "Description"], list(rows), title=title)


def good(n="1"):
    return bits(n, std_row("7:4"), std_row("3:0", 1))


def gap(n="2"):
    return bits(n, std_row("7:4"), std_row("1:0", 1))


def value(n="3"):
    return figure(n, ["Value", "Description"], [tr(td("0h"), td("Alpha")), tr(td("1h"), td("Beta"))])


def bad(n="4"):
    return bits(n, std_row("7"), tr(td("5"), E("td", "no paragraph")))


def numberless():
    return table([title_row("Figure: no number"), tr(th("Bits"), th("Description")), std_row("0")])


def nest(n="5"):
    return bits(n, tr(td("9"), td("Outer One (OUT): o", nested(["Bits", "Description"], [std_row("1"), std_row("0", 1)]))))


def deep(n="6"):
    inner = nested(["Bits", "Description"], [tr(td("8"), td("In Two (INT): o", nested(["Value", "Description"], [tr(td("0h"), td("Aa"))])))])
    return bits(n, tr(td("9"), td("Outer One (OUT): o", inner)))


def skipped(n="7"):
    return figure(n, ["Thing", "Other"], [tr(td("a"), td("b"))])


def hdr(n="8"):
    return figure(n, ["Bit", "Description"], [tr(td("3"), td("no label here at all, nothing")), tr(td("2"), td("Reserved"))])


def dup(n="9"):
    return bits(n, tr(td("3"), td("Same Name (SN): x")), tr(td("2"), td("Same Name (SN): x")), tr(td("x"), td("Y Z (YZ): q")), tr(td("0:1"), td("Rev (RV): q")))


def fields(n):
    return figure(n, ["Bytes", "Description"], [tr(td("3:0"), td("Reserved")), tr(td("7:4"), td("Nothing"))])


def htm(*tables, spec="Spec", rev="1.0"):
    return html(document(list(tables), spec, rev)).encode("utf-8")


def dtable(n, *rows):
    return dx.tbl(
        dx.row(dx.cell(f"Figure {n}: T", span=2)),
        dx.row(dx.cell("Bits", fill="D9D9D9"), dx.cell("Description", fill="D9D9D9")),
        *[dx.row(dx.cell(a), b if b.startswith("<w:tc>") else dx.cell(b)) for a, b in rows],
    )


ROWS = [("7:4", "Field One (FO): x"), ("3:0", "Field Two (FT): y")]


def styled(rpr, style=None):
    """a .docx whose runs use direct and inherited formatting."""
    run = dx.run("Field One (FO): x", rpr=(f'<w:rStyle w:val="{style}"/>' if style else "") + rpr)
    return [dtable("1", ("1", dx.cell(dx.para(run))), ("0", "Field Two (FT): y"))]


def listed(fmt):
    blocks = [dx.para("Field One (FO): x"), dx.para("i", num=(1, 0)), dx.para("j", num=(1, 1)), dx.para("k", num=(1, 0))]
    return [dtable("1", ("0", dx.cell(*blocks)))]


NUM_A = dx.abstract(0, [(0, "decimal", "%1."), (1, "bullet", "o")]) + dx.num(1, 0)
NUM_B = dx.abstract(0, [(0, "bullet", "o"), (1, "lowerLetter", "%2.")]) + dx.num(1, 0)


def state_docs():
    """name with suffix -> bytes."""
    d = {
        "h1.html": htm(good("1"), gap("2"), value("3")),
        "h2.html": htm(numberless(), hdr("8"), skipped("7"), numberless()),
        "h3.html": htm(dup("1"), nest("5"), deep("6"), fields("4")),
        "h4.html": htm(good("1"), bad("4"), gap("5")),
        "q1.html": htm(value("33"), hdr("1"), good("100"), spec=NVM[0], rev=NVM[1]),
        "q2.html": htm(value("33"), hdr("1"), good("100"), spec=ZNS[0], rev=ZNS[1]),
        "m1.html": b"<html><head>",
        "d1.docx": dx.docx(styled("<w:b/>", "S"), styles=dx.style("S", "<w:i/>", base="B") + dx.style("B", '<w:color w:val="FF0000"/>')),
        "d2.docx": dx.docx(styled('<w:u w:val="single"/>', "S"), styles=dx.style("S", "<w:strike/>"), header=dx.para(dx.run("Other, Revision 2.0"))),
        "d3.docx": dx.docx(listed(0), numbering=NUM_A),
        "d4.docx": dx.docx(listed(0) + [dtable("2", *ROWS)], numbering=NUM_B),
        "d5.docx": dx.docx(listed(0)),
        "d6.docx": dx.docx([dtable("1", *ROWS)], header=dx.para(dx.run("No identity"))),
        "m2.docx": b"PK not a zip",
    }
    return d
