"""Minimal .docx files as strings and zip bytes."""
import io
import zipfile
from xml.sax.saxutils import escape as _esc, quoteattr

W = "http://schemas.openxmlformats.org/wordprocessingml/2006/main"
NS = f'xmlns:w="{W}" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships"'


def esc(s):
    return _esc(s, {"\r": "&#13;"})


def t(text):
    return f'<w:t xml:space="preserve">{esc(text)}</w:t>'


def run(*texts, rpr=""):
    """one w:r; texts are the contents of its w:t elements (or raw xml starting with <)."""
    body = "".join(x if x.startswith("<w:") else t(x) for x in texts)
    return f"<w:r>{'<w:rPr>' + rpr + '</w:rPr>' if rpr else ''}{body}</w:r>"


def link(*items):
    return f'<w:hyperlink r:id="rId1">{"".join(items)}</w:hyperlink>'


def fld(*items):
    return f'<w:fldSimple w:instr="REF x">{"".join(items)}</w:fldSimple>'


# elements that may stand around content without changing what it says
WRAPS = ["sdt", "ins", "moveTo", "smartTag", "customXml"]


def wrap(kind, *items):
    """items in a content control (sdt), tracked change (ins, del, moveTo, moveFrom), smart tag or custom XML."""
    x = "".join(items)
    if kind == "sdt":
        return f'<w:sdt><w:sdtPr><w:alias w:val="no"/><w:id w:val="7"/></w:sdtPr><w:sdtContent>{x}</w:sdtContent></w:sdt>'
    if kind == "smartTag":
        return f'<w:smartTag w:uri="u" w:element="e"><w:smartTagPr><w:attr w:name="n" w:val="no"/></w:smartTagPr>{x}</w:smartTag>'
    if kind == "customXml":
        return f'<w:customXml w:uri="u" w:element="e"><w:customXmlPr/>{x}</w:customXml>'
    return f'<w:{kind} w:id="9" w:author="A" w:date="2024-01-01T00:00:00Z">{x}</w:{kind}>'


def para(*items, num=None, ppr=""):
    """items: runs as xml or plain strings; num: (numId, ilvl)."""
    if num is not None:
        nid, lvl = num
        il = f'<w:ilvl w:val="{lvl}"/>' if lvl is not None else ""
        ppr = f'<w:numPr>{il}<w:numId w:val="{nid}"/></w:numPr>' + ppr
    p = f"<w:pPr>{ppr}</w:pPr>" if ppr else ""
    return f"<w:p>{p}{''.join(i if i.startswith('<w:') else run(i) for i in items)}</w:p>"


def cell(*blocks, span=1, vmerge=None, fill=None):
    """vmerge: None, 'restart', 'continue', '' (continue without value)."""
    pr = ""
    if span > 1:
        pr += f'<w:gridSpan w:val="{span}"/>'
    if vmerge is not None:
        pr += "<w:vMerge/>" if vmerge == "" else f'<w:vMerge w:val="{vmerge}"/>'
    if fill is not None:
        pr += f'<w:shd w:val="clear" w:color="auto" w:fill="{fill}"/>'
    pr = f"<w:tcPr>{pr}</w:tcPr>" if pr else ""
    body = "".join(b if b.startswith("<w:") else para(b) for b in blocks)
    return f"<w:tc>{pr}{body}</w:tc>"


def row(*cells):
    return f"<w:tr>{''.join(cells)}</w:tr>"


def tbl(*rows):
    return f"<w:tbl><w:tblPr/>{''.join(rows)}</w:tbl>"


def style(sid, rpr="", base=None, kind="character", aliases=None):
    a = f"<w:aliases w:val={quoteattr(aliases)}/>" if aliases else ""
    b = f"<w:basedOn w:val={quoteattr(base)}/>" if base else ""
    r = f"<w:rPr>{rpr}</w:rPr>" if rpr else ""
    return f'<w:style w:type="{kind}" w:styleId={quoteattr(sid)}><w:name w:val={quoteattr(sid)}/>{a}{b}{r}</w:style>'


def abstract(aid, levels, before=""):
    """levels: [(ilvl, numFmt, lvlText)], None for what is not given, False for given without value."""

    def given(tag, v):
        return "" if v is None else f"<w:{tag}/>" if v is False else f"<w:{tag} w:val={quoteattr(v)}/>"

    ls = "".join(
        f'<w:lvl w:ilvl="{i}"><w:start w:val="1"/>{given("numFmt", f)}{given("lvlText", x)}</w:lvl>'
        for i, f, x in levels
    )
    return f'<w:abstractNum w:abstractNumId="{aid}">{before}{ls}</w:abstractNum>'


def num(nid, aid):
    return f'<w:num w:numId="{nid}"><w:abstractNumId w:val="{aid}"/></w:num>'


DECL = '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n'
DEFAULT_HEADER = para(run("Spec A, "), run("Revision 1.0"))


def docx(body, header=DEFAULT_HEADER, styles="", numbering=None, raw=None):
    """bytes of a .docx; raw overrides or adds parts, None removes one."""
    parts = {
        "[Content_Types].xml": DECL + '<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"/>',
        "word/document.xml": f"{DECL}<w:document {NS}><w:body>{''.join(body)}</w:body></w:document>",
        "word/styles.xml": f"{DECL}<w:styles {NS}>{styles}</w:styles>",
        "word/header1.xml": f"{DECL}<w:hdr {NS}>{header}</w:hdr>",
    }
    if numbering is not None:
        parts["word/numbering.xml"] = f"{DECL}<w:numbering {NS}>{numbering}</w:numbering>"
    for k, v in (raw or {}).items():
        if v is None:
            parts.pop(k, None)
        else:
            parts[k] = v
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w", zipfile.ZIP_STORED) as z:
        for k, v in parts.items():
            z.writestr(zipfile.ZipInfo(k), v.encode("utf-8") if isinstance(v, str) else v)
    return buf.getvalue()
