"""D01-D07: from .docx to HTML (and on to the model)."""
import itertools
import json
import os
import re
import shutil
from pathlib import Path
from xml.sax.saxutils import quoteattr
from urllib.parse import unquote_to_bytes, urlsplit

from . import docx as dx
from . import impl, ref2
from .checks_s2 import compositions, tilings
from .core import Check, Space, scratch
from .tree import E, document, figure, from_lxml, html, kids, nested, p, table, td, text, text_of, th, title_row, tr
from .util import AFFIXED, AFFIXES, Q, alpha, chunks, diff, noblank, sequences, std_row

NOTE_D = (
    "Every .docx of the stated family is built as a minimal file and converted by the real code;"
    " HTML and CSS are read back with an XML parser and compared with what the file says. Word"
    " constructs outside the generated subset (drawings and text boxes, symbols, footnotes, grid"
    " offsets, legacy horizontal merges) are not covered."
)


class Converted:
    def __init__(self, html, css, json, error):
        self.html_text, self.css, self.json, self.error = html, css, json, error
        self._root = None

    @property
    def root(self):
        from lxml import etree

        if self._root is None:
            self._root = from_lxml(etree.fromstring(self.html_text.encode("utf-8")))
        return self._root

    @property
    def tables(self):
        return kids(kids(self.root, "body")[0], "table")


def convert(data, name="doc", skip=True):
    """run the pipeline on a .docx, read all outputs."""
    from spex.jsonspec.parserargs import ParserArgs
    from spex.parse import parse_spec

    d = scratch() / f"d-{os.getpid()}"
    if d.exists():
        shutil.rmtree(d)
    d.mkdir()
    src = d / f"{name}.docx"  # (a name with surrogates is one that is not valid UTF-8)
    src.write_bytes(data)
    error = None
    try:
        for _ in parse_spec(src, ParserArgs(output_dir=d, skip_fig_on_error=skip)):
            pass
    except Exception as e:
        error = repr(e)

    def read(ext):
        f = d / (name + ext)
        return f.read_bytes().decode("utf-8") if f.exists() else None

    js = read(".json")
    try:
        js = json.loads(js) if js else None
    except ValueError:
        js = None
    return Converted(read(".html"), read(".css"), js, error)


def spans(node):
    """text of all spans directly or indirectly below node, not below nested tables."""
    out = []

    def walk(n):
        for c in kids(n):
            if c[0] == "table":
                continue
            if c[0] == "span":
                out.append(text_of(c))
            else:
                walk(c)

    walk(node)
    return out


def plain(node):
    return "".join(spans(node))


def strip_ws(s):
    return "".join(s.split())


class DCheck(Check):
    NOTE = NOTE_D
    ASSUMPTIONS = ("the generated .docx files are minimal but structured as Word writes them",)

    def conv(self, ctx, body, n=1, name="doc", **kw):
        c = convert(dx.docx(body, **kw), name)
        ctx.replays += 1
        ctx.step(n)
        return c


class D01(DCheck):
    ID = "D01"
    TECHNIQUE = "bounded exhaustive exploration of cell contents, special characters and names through the real conversion"

    CH = ["a", " ", "<", "&", '"', "'", ">", ";", "\\", "é", "☃", "\U0001f600", "\u00a0", "\t", "\n", "\r", "\u2028", "\x85", "%", "{", "--", "]]>", "&amp;", "<b>", "<!--", "…", "\u200b"]

    def judge(self, contents, ctx, **kw):
        """contents: [(xml blocks, expected text)]."""
        rows = [dx.row(dx.cell(*blocks)) for blocks, _ in contents]
        c = self.conv(ctx, [dx.tbl(*rows)], len(rows), **kw)
        if c.error and "IndexError" not in c.error:
            return f"conversion failed with {c.error}"
        if c.html_text is None:
            return "no HTML written"
        t = c.tables
        if len(t) != 1:
            return f"{len(t)} tables in {c.html_text}"
        got = [plain(kids(r)[0]) for r in kids(t[0], "tr")]
        want = [w for _, w in contents]
        ctx.state(want)
        # a line of nothing but tabs and breaks may be left out, as empty lines are
        got = [w if w and not g and not w.strip("\t\n") else g for g, w in zip(got, want)] + got[len(want) :]
        if got != want:
            return diff("cell texts", want, got, repr([b for b, _ in contents])[:1500])
        if c.json is None:
            return f"the HTML could not be read by the next stage: {c.error} {c.html_text[:1500]}"
        return None

    def gen_chars(self):
        # all texts of 1..3 pieces, in one, two and three runs
        yield from chunks((s for s in sequences(self.CH, 1, 3)), 24)
        small = ["a", " ", "<", "&", "\n", '"', "é"]
        yield from chunks((s for s in sequences(small, 4, Q(5, 6))), 24)

    def ev_chars(self, case, ctx):
        contents = []
        for s in case:
            txt = "".join(s)
            contents.append(([dx.para(dx.run(txt))], txt))
            contents.append(([dx.para(*[dx.run(x) for x in s])], txt))
            contents.append(([dx.para(dx.run(*s))], txt))
        return self.judge(contents, ctx)

    # structure: items of a paragraph
    def item(self, k, tag):
        r = lambda s: dx.run(tag + s)
        E_ = lambda *xs: (xs[0], "".join(tag + x for x in xs[1:]))
        return {
            "run": lambda: E_(r("a"), "a"),
            "bold": lambda: E_(dx.run(tag + "b", rpr="<w:b/>"), "b"),
            "two t": lambda: E_(dx.run(tag + "c", tag + "d"), "c", "d"),
            "tab": lambda: (dx.run(tag + "e", "<w:tab/>", tag + "f"), f"{tag}e\t{tag}f"),
            "br": lambda: (dx.run("<w:br/>", tag + "g"), f"\n{tag}g"),
            "line br": lambda: (dx.run(tag + "g", '<w:br w:type="textWrapping" w:clear="all"/>'), f"{tag}g\n"),
            "page br": lambda: (dx.run(tag + "g", '<w:br w:type="page"/>', "<w:lastRenderedPageBreak/>", tag + "g"), f"{tag}g{tag}g"),
            "cr": lambda: (dx.run(tag + "h", "<w:cr/>", "<w:cr/>"), f"{tag}h\n\n"),
            "hyphen": lambda: (dx.run(tag + "i", "<w:noBreakHyphen/>", tag + "j"), f"{tag}i-{tag}j"),
            "hyphen alone": lambda: (dx.run("<w:noBreakHyphen/>"), "-"),
            "tab alone": lambda: (dx.run("<w:tab/>", rpr="<w:b/>"), "\t"),
            "tab in link": lambda: (dx.link(dx.run("<w:tab/>"), dx.run("<w:br/>", tag)), f"\t\n{tag}"),
            "del": lambda: (dx.wrap("del", "<w:r><w:delText>no</w:delText></w:r>"), ""),
            "move from": lambda: (dx.wrap("moveFrom", dx.run("no")), ""),
            **{w: lambda w=w: (dx.wrap(w, r("a"), dx.run("<w:tab/>", tag + "b", rpr="<w:b/>")), f"{tag}a\t{tag}b") for w in dx.WRAPS},
            **{w + " in link": lambda w=w: (dx.link(dx.wrap(w, r("a")), r("b")), f"{tag}a{tag}b") for w in dx.WRAPS},
            **{"link in " + w: lambda w=w: (dx.wrap(w, dx.link(r("a"), dx.wrap("ins", r("b"))), dx.fld(r("c"))), f"{tag}a{tag}b{tag}c") for w in dx.WRAPS},
            **{f"{v} in {w}": lambda v=v, w=w: (dx.wrap(w, r("a"), dx.wrap(v, r("b")), dx.wrap(v, dx.wrap(w, r("c"))), dx.wrap(v)), f"{tag}a{tag}b{tag}c") for w in dx.WRAPS for v in dx.WRAPS},
            "link": lambda: E_(dx.link(r("h")), "h"),
            "link2": lambda: E_(dx.link(r("i"), dx.run(tag + "j", rpr="<w:i/>")), "i", "j"),
            "link3": lambda: E_(dx.link(dx.run(tag + "k", tag + "l"), "<w:bookmarkStart w:id='1' w:name='x'/>", r("m")), "k", "l", "m"),
            "fld": lambda: E_(dx.fld(r("n")), "n"),
            "fld2": lambda: E_(dx.fld(r("o"), r("p")), "o", "p"),
            "fld in link": lambda: E_(dx.link(r("q"), dx.fld(r("r")), r("s")), "q", "r", "s"),
            "link in fld": lambda: E_(dx.fld(dx.link(r("t"), r("u"))), "t", "u"),
            "link in link": lambda: E_(dx.link(dx.link(r("v")), r("w")), "v", "w"),
            "empty run": lambda: ("<w:r/>", ""),
            "empty t": lambda: (dx.run(""), ""),
            "empty link": lambda: (dx.link(), ""),
            "bookmark": lambda: ("<w:bookmarkStart w:id='0' w:name='_Ref'/>", ""),
            "proof": lambda: ("<w:proofErr w:type='spellStart'/>", ""),
            "field chars": lambda: E_("<w:r><w:fldChar w:fldCharType='begin'/></w:r><w:r><w:instrText> REF x </w:instrText></w:r><w:r><w:fldChar w:fldCharType='separate'/></w:r>" + r("x") + "<w:r><w:fldChar w:fldCharType='end'/></w:r>", "x"),
            "space": lambda: (dx.run(" "), " "),
        }[k]()

    ITEMS = ["run", "bold", "two t", "tab", "br", "link", "link2", "link3", "fld", "fld2", "fld in link", "link in fld", "link in link", "empty run", "empty t", "empty link", "bookmark", "proof", "field chars", "space"]

    NEW = ["line br", "page br", "cr", "hyphen", "hyphen alone", "tab alone", "tab in link", "del", "move from"]

    def gen_wraps(self):
        """breaks, hyphens, content controls and tracked changes between other items."""
        more = self.NEW + [k for w in dx.WRAPS for k in (w, w + " in link", "link in " + w)]
        for k in more + [f"{v} in {w}" for v in dx.WRAPS for w in dx.WRAPS]:
            yield [(k,), ("run", k), (k, "run"), ("run", k, "bold"), (k, k), ("space", k), (k, "empty run"), ("tab", k, "br")]
        yield from chunks(itertools.product(more, repeat=2), 24)
        yield from chunks(sequences(["run", "tab alone", "br", "hyphen alone", "ins", "del", "sdt"], 3, Q(4, 5)), 24)

    def gen_items(self):
        yield from chunks(sequences(self.ITEMS, 0, 3), 24)
        small = ["run", "two t", "link2", "fld in link", "empty run", "bookmark", "space"]
        yield from chunks(sequences(small, 4, Q(5, 6)), 24)

    def ev_items(self, case, ctx):
        contents = []
        for s in case:
            items = [self.item(k, str(i)) for i, k in enumerate(s)]
            contents.append(([dx.para(*[x for x, _ in items])], "".join(w for _, w in items)))
        return self.judge(contents, ctx)

    PARAS = ["text", "two", "empty", "none", "link", "list0", "list1", "ppr", "spaces", "sdt", "blank"]
    MORE_PARAS = ["text", "empty", "list0", "sdt", "sdts", "ins", "customXml", "sdt list", "blank", "tabs", "moved away", "tab stop"]

    def gen_paras(self):
        yield from chunks(sequences(self.PARAS, 0, Q(3, 5)), 24)
        yield from chunks(sequences(self.MORE_PARAS, 1, Q(3, 4)), 24)
        yield from chunks(sequences(["text", "empty", "none", "list0", "list1", "spaces"], 4, Q(4, 6)), 24)

    def ev_paras(self, case, ctx):
        contents = []
        for s in case:
            blocks, want = [], ""
            for i, k in enumerate(s):
                x = f"{i}z"
                b, w = {
                    "text": (dx.para(x), x),
                    "two": (dx.para(dx.run(x), dx.run("y", rpr="<w:b/>")), x + "y"),
                    "empty": (dx.para(), ""),
                    "none": ("<w:bookmarkEnd w:id='3'/>", ""),
                    "link": (dx.para(dx.link(dx.run(x))), x),
                    "list0": (dx.para(x, num=(1, 0)), x),
                    "list1": (dx.para(x, num=(1, 1)), x),
                    "ppr": (dx.para(dx.run(x), ppr="<w:pStyle w:val='P'/><w:jc w:val='center'/><w:rPr><w:b/></w:rPr>"), x),
                    "spaces": (dx.para(f"  {x}  "), f"  {x}  "),
                    "sdt": (dx.wrap("sdt", dx.para(x)), x),
                    "sdts": (dx.wrap("sdt", dx.para(x), dx.wrap("sdt", dx.para(), dx.para(x)), dx.para("y")), x + x + "y"),
                    "ins": (dx.wrap("ins", dx.para(dx.wrap("ins", dx.run(x)))), x),
                    "customXml": (dx.wrap("customXml", dx.para(x)), x),
                    "sdt list": (dx.wrap("sdt", dx.para(x, num=(1, 0)), dx.para("y", num=(1, 1))), x + "y"),
                    "tabs": (dx.para(dx.run("<w:tab/>", x, "<w:br/>")), f"\t{x}\n"),
                    "blank": (dx.para(" \u00a0"), " \u00a0"),
                    "moved away": (dx.para(dx.wrap("moveFrom", dx.run(x)), dx.wrap("del", "<w:r><w:delText>no</w:delText></w:r>")), ""),
                    "tab stop": (dx.para(dx.run(x), ppr='<w:tabs><w:tab w:val="left" w:pos="720"/></w:tabs>'), x),
                }[k]
                blocks.append(b)
                want += w
            contents.append((blocks, want))
        return self.judge(contents, ctx, numbering=dx.abstract(0, [(0, "bullet", "o"), (1, "decimal", "%2.")]) + dx.num(1, 0))

    NAMECH = ["a", "<", "&", '"', "'", " ", "é", "☃", ">", ";", "#", "%20", "&amp;", ".", "</title>", "x" * 30]
    # only in names of files
    FILECH = ["?", ":", "%", "//", "http:", "\x01", "\n", "\t", "\x7f", "\ufffe", "\udcff", "\udce9x", "+", ";", "=", "*", "|", "@", "~", "\\", "\u202e", "e\u0301", "-"]

    def gen_head(self):
        # special characters in title, revision and file name
        for where in ("title", "revision", "name"):
            for s in sequences(self.NAMECH, 1, Q(2, 3)):
                yield (where, "".join(s))
        for s in sequences(self.FILECH + ["a", "#", ".", "&"], 1, Q(2, 3)):
            yield ("name", "".join(s))
        for a in self.NAMECH:
            for b in self.NAMECH:
                for c in self.NAMECH:
                    yield ("all", (a, b, c))

    def ev_head(self, case, ctx):
        where, s = case
        a, b, c = s if where == "all" else (s if where == "title" else "Spec", s if where == "revision" else "1.0", s if where == "name" else "doc")
        if not b.split():
            return None
        name = "n" + c.replace("/", "\u2044")
        header = dx.para(dx.run(f"T{a}, "), dx.run(f"Revision {b}"))
        conv = self.conv(ctx, [dx.tbl(dx.row(dx.cell("x")))], name=name, header=header)
        if conv.html_text is None or conv.css is None:
            return f"no output for {case}: {conv.error}"
        head = kids(conv.root, "head")[0]
        meta = kids(head, "meta")[0][1]
        title = kids(head, "title")[0]
        link = kids(head, "link")[0][1]
        ctx.state(case)
        # the name as far as XML has characters for it
        shown = re.sub("[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff]", "\ufffd", os.fsencode(name).decode("utf-8", "replace"))
        got = (text_of(title), len(conv.tables))
        if got != (shown, 1):
            return f"head {got} for {case}"
        url = urlsplit(link["href"])
        if url[0] or url[1] or url[3] or url[4] or "?" in link["href"] or "#" in link["href"] or unquote_to_bytes(url.path) not in (os.fsencode(name + ".css"), b"./" + os.fsencode(name + ".css")):
            return f"the style sheet {name + '.css'!r} is linked as {link['href']!r} for {case}"
        if conv.json is None:
            return f"the next stage cannot read the HTML: {conv.error} for {case}"
        return None

    REPEATS = [*range(2, 41), 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000]

    def gen_repeated(self):
        for c in self.CH + ["- ", ". ", "\t ", "\u00a0 ", "_", "=", "ab"]:
            yield from ((c, ns) for ns in chunks(self.REPEATS, 8))

    def ev_repeated(self, case, ctx):
        c, ns = case
        contents = []
        for n in ns:
            t = c * n
            for runs in ([t], ["a", t, "b"], [t, "b"], ["a", t], ["a" + t + "b"], [t, t], ["a", *[c] * min(n, 70), "b"]):
                contents.append(([dx.para(*[dx.run(x) for x in runs])], "".join(runs)))
            contents.append(([dx.para(dx.link(dx.run(t, rpr="<w:b/>"), dx.run("b")))], t + "b"))
        return self.judge(contents, ctx)

    def gen_ids(self):
        for n in ["1", "12", "007", "x", "", "1a", "3.1"]:
            for suffix in [": T", ":", " T", ": <&'\">", ": é"]:
                for tail in ["", "'", "&"]:
                    yield (n, suffix, tail)

    def ev_ids(self, case, ctx):
        n, suffix, tail = case
        txt = f"Figure {n}{suffix}{tail}"
        return self.judge([([dx.para(txt)], txt), ([dx.para("b")], "b")], ctx)

    SIZES = sorted({10**i for i in range(1, 6)} | {2**i + d for i in range(3, 18) for d in (-1, 0, 1)})

    def gen_sizes(self):
        for n in self.SIZES:
            for how in ("text", "t", "runs", "links", "runs of a link", "paragraphs", "rows", "cells", "list", "fields", "deep links"):
                if n <= {"text": 10**6, "deep links": 70}.get(how, Q(1025, 8193)):
                    yield (how, n)

    def ev_sizes(self, case, ctx):
        how, n = case
        ws = [f"w{i} " for i in range(n)] if how != "text" else []
        num = dict(numbering=dx.abstract(0, [(0, "bullet", "o")]) + dx.num(1, 0))
        if how == "rows":
            return self.judge([([dx.para(w)], w) for w in ws], ctx)
        if how == "cells":
            c = self.conv(ctx, [dx.tbl(dx.row(*[dx.cell(w) for w in ws]))], n)
            if c.html_text is None or c.json is None and "IndexError" not in c.error:
                return f"conversion failed: {c.error} for {case}"
            got = [plain(x) for x in kids(kids(c.tables[0], "tr")[0])]
            ctx.state(case)
            return diff("cell texts", ws, got, repr(case))
        if how == "text":
            txt = ("The quick (brown) fox: 12 " * (n // 20 + 1))[:n]
            blocks = [dx.para(txt)]
        else:
            txt = "".join(ws)
            if how == "t":
                blocks = [dx.para(dx.run(*ws))]
            elif how == "runs":
                blocks = [dx.para(*[dx.run(w, rpr="<w:b/>" if i % 3 else "") for i, w in enumerate(ws)])]
            elif how == "links":
                blocks = [dx.para(*[dx.link(dx.run(w)) for w in ws])]
            elif how == "runs of a link":
                blocks = [dx.para(dx.link(*[dx.run(w) for w in ws]))]
            elif how == "fields":
                blocks = [dx.para(*[dx.fld(dx.run(w)) for w in ws])]
            elif how == "deep links":
                x = ""
                for w in reversed(ws):
                    x = dx.link(dx.run(w), *([x] if x else []))
                blocks = [dx.para(x)]
            elif how == "list":
                blocks = [dx.para(w, num=(1, 0)) for w in ws] + [dx.para()]
            else:
                blocks = [dx.para(w) for w in ws]
        return self.judge([(blocks, txt), ([dx.para("end")], "end")], ctx, **(num if how == "list" else {}))

    def spaces(self):
        return [
            Space("sizes", self.gen_sizes, self.ev_sizes, f"texts of up to {self.SIZES[-1]} characters at every power of two and ten and beside it; up to {Q(1025,8193)} runs, w:t, links, fields, paragraphs, items, cells and rows"),
            Space("characters", self.gen_chars, self.ev_chars, f"all texts of 1..3 pieces out of {len(self.CH)}, of 4..{Q(5,6)} out of 7, in one run, one run per piece, one w:t per piece"),
            Space("repeated", self.gen_repeated, self.ev_repeated, f"each of these {len(self.CH)} and 7 more given {self.REPEATS[0]}..{self.REPEATS[-1]} times (all up to 40, at powers of two and ten) in a run of its own or of others"),
            Space("items", self.gen_items, self.ev_items, f"all paragraphs of 0..3 items out of {len(self.ITEMS)}, of 4..{Q(5,6)} out of 7"),
            Space("wrapped", self.gen_wraps, self.ev_items, f"breaks, tabs, hyphens, deletions and six kinds of wrappers (content controls, insertions ...) nested in each other and in links: each between other items, all pairs, all paragraphs of 3..{Q(4,5)} out of 7"),
            Space("paragraphs", self.gen_paras, self.ev_paras, f"all cells of 0..{Q(3,5)} paragraphs out of {self.PARAS}, of 1..{Q(3,4)} out of {self.MORE_PARAS}, of {Q(4,'4..6')} out of 6"),
            Space("head", self.gen_head, self.ev_head, f"all titles, revisions and file names of 1..{Q(2,3)} of {len(self.NAMECH)} pieces, all triples; file names of 1..{Q(2,3)} of {len(self.FILECH)+4} pieces that are special in URLs, XML or file systems"),
            Space("titles", self.gen_ids, self.ev_ids, "figure titles with special characters"),
        ]


FILLS = [None, "auto", "FFFFFF", "ffffff", "D9D9D9", "BFBFBF", "000000", "a6a6a6", "FF0000", "C6D9F1", "D9D9D8", "9D9D9D"]


def is_head(fill):
    return fill is not None and len(fill) == 6 and fill.lower() != "ffffff" and fill[0:2] == fill[2:4] == fill[4:6]


class D02(DCheck):
    ID = "D02"
    TECHNIQUE = "bounded exhaustive exploration of all merge patterns and backgrounds through the real conversion"

    # ways to put rows and cells into elements that mean nothing
    def wrapping(self, how, row):
        """xml of cells -> content of the row, and rows -> content of the table."""
        if how is None:
            return "".join(row)
        each, kind = how
        w = lambda *x: dx.wrap(kind, *x)
        if each == "each":
            return "".join(w(x) for x in row)
        if each == "all":
            return w(*row)
        if each == "first":
            return w(row[0]) + "".join(row[1:]) if row else ""
        if each == "rest":
            return "".join(row[:1]) + w(*row[1:])
        return w(*row[:1], w(*row[1:]))  # nested

    def build(self, R, C, tiles, cont, fills=None, content=lambda i: f"c{i}", wrap=(None, None)):
        """tiles in reading order; returns docx table and expected rows."""
        order = sorted(tiles)
        rows, want = [], []
        for r in range(R):
            cells, exp = [], []
            for i, (r0, c0, h, w) in sorted(((i, t) for i, t in enumerate(order) if t[0] <= r < t[0] + t[2]), key=lambda x: x[1][1]):
                fill = fills[i] if fills else None
                if r0 == r:
                    cells.append(dx.cell(content(i), span=w, vmerge="restart" if h > 1 else None, fill=fill))
                    exp.append(("th" if is_head(fill) else "td", w, h, content(i)))
                else:
                    cells.append(dx.cell(dx.para(), span=w, vmerge=cont, fill=fill if r % 2 else None))
            rows.append(dx.row(self.wrapping(wrap[1], cells)))
            want.append(exp)
        return dx.tbl(self.wrapping(wrap[0], rows)), want

    def gen_wrapped(self):
        ways = [None] + [(e, k) for e in ("each", "all", "first", "rest", "nested") for k in ("sdt", "ins", "customXml")]
        for a, b in itertools.product(ways, repeat=2):
            if a or b:
                for R, C in ((2, 2), (3, 2), (2, 3), (1, 3), (3, 1)) + Q((), ((3, 3),)):
                    yield ((R, C), a, b)

    def ev_wrapped(self, case, ctx):
        (R, C), a, b = case
        return self.judge([self.build(R, C, t, "", wrap=(a, b)) for t in tilings(R, C)], ctx, case)

    def read(self, t):
        return [
            [(c[0], int(c[1].get("colspan", 1)), int(c[1].get("rowspan", 1)), plain(c)) for c in kids(r)]
            for r in kids(t, "tr")
        ]

    def judge(self, pairs, ctx, what):
        c = self.conv(ctx, [x for x, _ in pairs], len(pairs))
        if c.html_text is None:
            return f"conversion failed: {c.error} for {what}"
        want = [w for _, w in pairs]
        ctx.state(want)
        return diff("tables", want, [self.read(t) for t in c.tables], f"{what}: {pairs!r}"[:1500])

    def gen_tilings(self):
        sizes = [(r, c) for r in range(1, 4) for c in range(1, 4)] + [(1, 4), (4, 1), (2, 4), (4, 2), (1, 6), (6, 1)] + Q([(3, 4), (4, 3)], [(3, 4), (4, 3), (5, 2), (2, 5), (5, 3), (4, 4)])
        for R, C in sizes:
            for cont in ("", "continue"):
                yield from (((R, C, cont), b) for b in chunks(tilings(R, C), 12))

    def ev_tilings(self, case, ctx):
        (R, C, cont), batch = case
        return self.judge([self.build(R, C, t, cont) for t in batch], ctx, case)

    def gen_fills(self):
        for fills in itertools.product(range(len(FILLS)), repeat=2):
            for R, C in ((1, 2), (2, 1), (2, 2)):
                yield (R, C, fills)
        for fills in itertools.product((0, 2, 4, 8), repeat=4):
            yield (2, 2, fills)

    def ev_fills(self, case, ctx):
        R, C, fills = case
        pairs = []
        for t in tilings(R, C):
            for cont in ("", "continue"):
                pairs.append(self.build(R, C, t, cont, [FILLS[fills[i % len(fills)]] for i in range(len(t))]))
        return self.judge(pairs, ctx, case)

    def gen_long(self):
        for n in Q((9, 10, 11, 24), (9, 10, 11, 24, 60)):
            for k in range(1, n + 1):
                for o in {0, 1, n - k}:
                    for d in ("h", "v", "both"):
                        if o + k <= n:
                            yield (n, k, o, d)
        for n in Q((33, 66, 130), (33, 66, 130, 300)):
            for k in {2, 3, 9, 10, 31, 32, 62, 63, 64, 65, 99, 100, 127, 128, 129, n - 1, n}:
                for o in {0, 1, n - k}:
                    for d in ("h", "v", "both"):
                        if o >= 0 and o + k <= n:
                            yield (n, k, o, d)

    def ev_long(self, case, ctx):
        n, k, o, d = case
        if d == "h":
            R, C = 2, n
            tiles = [(0, o, 1, k)] + [(0, c, 1, 1) for c in range(n) if not o <= c < o + k] + [(1, c, 1, 1) for c in range(n)]
        elif d == "v":
            R, C = n, 2
            tiles = [(o, 0, k, 1)] + [(r, 0, 1, 1) for r in range(n) if not o <= r < o + k] + [(r, 1, 1, 1) for r in range(n)]
        else:
            R, C = n, 3
            tiles = [(o, 0, k, 2)] + [(r, c, 1, 1) for r in range(n) for c in (0, 1) if not o <= r < o + k] + [(r, 2, 1, 1) for r in range(n)]
        return self.judge([self.build(R, C, tiles, "")], ctx, case)

    CONT = ["a", "p+p", "list", "table", "empty", "link"]

    def gen_content(self):
        for t in list(tilings(2, 2)) + list(tilings(3, 2)):
            for ks in itertools.product(range(len(self.CONT)), repeat=2):
                yield (t, ks)

    def ev_content(self, case, ctx):
        t, ks = case
        R = max(r + h for r, c, h, w in t)
        parts = {
            "a": dx.para("a"),
            "p+p": dx.para("b") + dx.para("c"),
            "list": dx.para("d", num=(1, 0)) + dx.para("e", num=(1, 1)),
            "table": dx.para("f") + dx.tbl(dx.row(dx.cell("g", span=2)), dx.row(dx.cell("h"), dx.cell("i"))) + dx.para("j"),
            "empty": dx.para(),
            "link": dx.para(dx.link(dx.run("k"), dx.run("l"))),
        }
        texts = {"a": "a", "p+p": "bc", "list": "de", "table": "fj", "empty": "", "link": "kl"}
        kind = lambda i: self.CONT[ks[i % 2]]
        xml, want = self.build(R, 2, t, "", None, lambda i: parts[kind(i)])
        order = sorted(t)
        want = []
        for r in range(R):
            want.append([("td", w, h, texts[kind(i)]) for i, (r0, c0, h, w) in enumerate(order) if r0 == r])
        c = self.conv(ctx, [xml, dx.tbl(dx.row(dx.cell("z")))], numbering=dx.abstract(0, [(0, "bullet", "o"), (1, "decimal", "%2.")]) + dx.num(1, 0))
        if c.html_text is None:
            return f"conversion failed: {c.error} for {case}"
        ctx.state(want)
        got = [self.read(x) for x in c.tables]
        msg = diff("tables", [want, [[("td", 1, 1, "z")]]], got, repr(case))
        if msg:
            return msg
        # nested tables keep their own merges
        inner = [x for tr_ in kids(c.tables[0], "tr") for ce in kids(tr_) for x in kids(ce, "table")]
        n = sum(1 for i in range(len(order)) if kind(i) == "table")
        return diff("nested tables", [[[("td", 2, 1, "g")], [("td", 1, 1, "h"), ("td", 1, 1, "i")]]] * n, [self.read(x) for x in inner], repr(case))

    def spaces(self):
        return [
            Space("tilings", self.gen_tilings, self.ev_tilings, f"every tiling into rectangles of grids up to 3x3, 2x4, 4x2, {Q('3x4, 4x3', '3x4, 4x4, 5x3')}, 1x6, 6x1, both notations of continued merges"),
            Space("backgrounds", self.gen_fills, self.ev_fills, f"all pairs of {len(FILLS)} backgrounds on every tiling of up to 2x2, all 4-tuples of 4"),
            Space("long", self.gen_long, self.ev_long, f"merges of every length in tables of up to {Q(24,60)} rows or columns, of 17 lengths in tables of up to {Q(130,300)}"),
            Space("wrapped", self.gen_wrapped, self.ev_wrapped, f"every tiling of 2x2, 3x2, 2x3, 1x3, 3x1{Q('', ', 3x3')} with rows and cells in content controls, insertions and custom XML in every two of 16 ways"),
            Space("contents", self.gen_content, self.ev_content, f"all pairs of {self.CONT} in every tiling of 2x2 and 3x2"),
        ]


class D03(DCheck):
    ID = "D03"
    TECHNIQUE = "bounded exhaustive exploration of all forests of tables through the real conversion"

    # a forest is a tuple of items: "t" text paragraph, "e" empty paragraph, or a table
    # (layout, (cell content, ...)); cell content is again a tuple of items
    LAYOUT = {"1": 1, "2": 2, "v": 2, "h": 2}

    def cells_of(self, layout, contents, n):
        """docx rows, expected rows."""
        x = [self.items(c, n) for c in contents]
        blocks = [b for b, _ in x]
        want = [w for _, w in x]
        if layout == "wide":
            return [dx.row(*[dx.cell(*b) for b in blocks])], [want]
        if layout == "1":
            return [dx.row(dx.cell(*blocks[0]))], [[want[0]]]
        if layout == "2":
            return [dx.row(dx.cell(*blocks[0]), dx.cell(*blocks[1]))], [[want[0], want[1]]]
        if layout == "v":  # first cell spans two rows
            return (
                [dx.row(dx.cell(*blocks[0], vmerge="restart"), dx.cell("q")), dx.row(dx.cell(dx.para(), vmerge=""), dx.cell(*blocks[1]))],
                [[want[0], ["q"]], [want[1]]],
            )
        return [dx.row(dx.cell(*blocks[0], span=2)), dx.row(dx.cell("q"), dx.cell(*blocks[1]))], [[want[0]], [["q"], want[1]]]

    wrap = None

    def items(self, forest, n):
        blocks, want = self.items_(forest, n)
        if self.wrap == "each":
            blocks = [dx.wrap("sdt", b) for b in blocks]
        elif self.wrap == "tables":
            blocks = [dx.wrap("customXml", b) if b.startswith("<w:tbl") else b for b in blocks]
        elif self.wrap == "deep":
            blocks = [dx.wrap("sdt", dx.wrap("customXml", b), dx.wrap("ins")) for b in blocks]
        elif self.wrap == "all":
            blocks = [dx.wrap("sdt", *blocks)]
        return blocks, want

    def gen_wrapped(self):
        for n, forest in enumerate(itertools.chain(self.gen_flat(), self.gen_chain(), self.gen_deep())):
            if n % Q(5, 1) == 0 or n < 300:
                for how in ("each", "tables", "deep", "all"):
                    yield (how, forest)

    def ev_wrapped(self, case, ctx):
        self.wrap = case[0]
        try:
            return self.judge(case[1], ctx)
        finally:
            self.wrap = None

    def items_(self, forest, n):
        blocks, want = [], []
        for it in forest:
            if it == "t":
                n[0] += 1
                blocks.append(dx.para(f"x{n[0]}"))
                want.append(f"x{n[0]}")
            elif it == "e":
                blocks.append(dx.para())
            else:
                rows, exp = self.cells_of(it[0], it[1], n)
                blocks.append(dx.tbl(*rows))
                want.append(exp)
        if not blocks or blocks[-1].startswith("<w:tbl"):
            blocks.append(dx.para())
        return blocks, want

    def read_cell(self, c):
        out = []
        for k in kids(c):
            if k[0] == "table":
                out.append(self.read(k))
            else:
                out.append(plain(k))
        return out

    def read(self, t):
        return [[self.read_cell(c) for c in kids(r)] for r in kids(t, "tr")]

    def judge(self, forest, ctx):
        blocks, want = self.items(forest, [0])
        c = self.conv(ctx, blocks, repr(forest).count("("))
        if c.html_text is None:
            return f"conversion failed: {c.error} for {forest}"
        want = [w for w in want if not isinstance(w, str)]
        ctx.state(forest)
        return diff("tables", want, [self.read(t) for t in c.tables], repr(forest))

    def tables(self, depth, layouts, fill):
        for lay in layouts:
            for cs in itertools.product(list(fill(depth - 1)), repeat=self.LAYOUT[lay]):
                yield (lay, cs)

    def gen_deep(self):
        def fill0(d):
            yield ("t",)
            if d > 0:
                for t_ in self.tables(d, ("1", "2", "v"), fill0):
                    yield (t_,)

        def fill(d):
            yield from fill0(d)
            if d > 0:
                for t_ in self.tables(d, ("1",), fill0):
                    yield ("t", t_, "t")
                    yield (t_, t_)
                    yield ("e", t_)

        for t_ in self.tables(2, ("1", "2", "v", "h"), fill):
            yield (t_,)
        for t_ in self.tables(3, ("1",) if Q(1, 0) else ("1", "2"), fill):
            yield (t_,)
        # two top-level tables with everything small
        small = list(self.tables(2, ("1", "v"), fill0))
        for a in small:
            for b in small:
                for sep in ((), ("t",), ("e",)):
                    yield ("t", a) + sep + (b, "t")

    def gen_flat(self):
        one, two, nest, mid = ("1", (("t",),)), ("2", (("t",), ())), ("1", ((("1", (("t",),)),),)), ("v", (("t", ("1", (("t",),)), "t"), (("2", ((), ("t",))),)))
        yield from sequences(["t", "e", one, two, nest, mid], 0, Q(4, 5))

    def gen_chain(self):
        for n in range(1, Q(13, 25)):
            for lay in ("1", "2", "v", "h"):
                for pos in (0, 1):
                    t_ = ("1", (("t",),))
                    for _ in range(n):
                        cs = [("t", t_)] if lay == "1" else [("t",), ("t",)]
                        if lay != "1":
                            cs[pos] = (t_, "t")
                        t_ = (lay, tuple(cs))
                    yield (t_, ("1", (("t",),)))

    def gen_many(self):
        one = ("1", (("t",),))
        for n in Q((9, 33, 70, 150, 300), (9, 33, 70, 150, 300, 700, 1500)):
            yield (one,) * n  # side by side
            yield (("1", ((one,) * n,)),)  # in one cell
            yield ((("2", ((one,), (one, "t")))),) * n
            yield (("v", ((one, "t") * n, (one,))), one) * 2
            wide = ("wide", tuple((one,) for _ in range(n)))
            yield (wide, one)
            yield (("1", ((wide, "t"),)), one, wide)
            if n <= 70:
                yield (("1", (tuple(("1", ((one,) * 3,)) for _ in range(n)),)),)
                t_ = one
                for _ in range(n // 2):
                    t_ = ("2", ((one, t_), (one,)))
                yield (t_, one)

    def ev(self, forest, ctx):
        return self.judge(forest, ctx)

    # figure numbers
    TITLES = ["Figure 1: T", "Figure 12:", "Figure 12", "Figure  1: T", " Figure 1: T", "figure 1: T", "Figure 1a: T", "Figure: T", "The Figure 1: T", "", "Figure 007: T", "Figure 1 : T", "Figure 3.1: T"]

    def gen_ids(self):
        for t_ in self.TITLES:
            for split in range(0, len(t_) + 1, 2):
                for fill in (None, "D9D9D9", "FFFFFF", "C6D9F1"):
                    for pos in ("first", "second cell", "second row", "second para", "empty before", "nested", "after nested", "link", "list", "empty cell before", "blank cell before", "spanning empty cell before", "empty row before", "continued cell before", "nested in empty", "content control", "content controls", "inserted", "control before"):
                        yield (t_, split, fill, pos)

    def ev_ids(self, case, ctx):
        t_, split, fill, pos = case
        r = [dx.run(t_[:split]), dx.run(t_[split:], rpr="<w:b/>")]
        ttl = dx.para(*r)
        num = dx.abstract(0, [(0, "bullet", "o")]) + dx.num(1, 0)
        inner = lambda *b: dx.tbl(dx.row(dx.cell(*b)))
        want = None
        if pos == "first":
            x = dx.tbl(dx.row(dx.cell(ttl, fill=fill, span=2)), dx.row(dx.cell("a"), dx.cell("b")))
            want = t_
        elif pos == "second cell":
            x = dx.tbl(dx.row(dx.cell("a"), dx.cell(ttl, fill=fill)))
        elif pos == "second row":
            x = dx.tbl(dx.row(dx.cell("a")), dx.row(dx.cell(ttl, fill=fill)))
        elif pos == "second para":
            x = dx.tbl(dx.row(dx.cell(dx.para("a"), ttl, fill=fill)))
        elif pos == "empty before":
            x = dx.tbl(dx.row(dx.cell(dx.para(), ttl, fill=fill)))
            want = t_
        elif pos == "nested":
            x = dx.tbl(dx.row(dx.cell(dx.para("a"), inner(ttl), fill=fill)))
        elif pos == "after nested":
            x = dx.tbl(dx.row(dx.cell(inner(dx.para("a")), ttl, fill=fill)))
            want = "unspecified"
        elif pos == "empty cell before":
            x = dx.tbl(dx.row(dx.cell(dx.para()), dx.cell(ttl, fill=fill)), dx.row(dx.cell("a"), dx.cell("b")))
        elif pos == "blank cell before":
            x = dx.tbl(dx.row(dx.cell(" "), dx.cell(ttl, fill=fill)))
        elif pos == "spanning empty cell before":
            x = dx.tbl(dx.row(dx.cell(dx.para(), span=2), dx.cell(ttl, fill=fill)))
        elif pos == "empty row before":
            x = dx.tbl(dx.row(dx.cell(dx.para()), dx.cell(dx.para())), dx.row(dx.cell(ttl, fill=fill), dx.cell("b")))
        elif pos == "continued cell before":
            x = dx.tbl(dx.row(dx.cell("a", vmerge="restart"), dx.cell("b")), dx.row(dx.cell(dx.para(), vmerge=""), dx.cell(ttl, fill=fill)))
        elif pos == "content control":  # around the table, the cell's content and the text
            x = dx.wrap("sdt", dx.tbl(dx.row(dx.cell(dx.wrap("sdt", dx.para(dx.wrap("sdt", *r))), fill=fill)), dx.row(dx.cell("a"))))
            want = t_
        elif pos == "content controls":  # around the row, the cell, and each run
            x = dx.tbl(dx.wrap("sdt", dx.row(dx.wrap("sdt", dx.cell(dx.para(dx.wrap("sdt", r[0]), dx.wrap("sdt", r[1])), fill=fill)))), dx.row(dx.cell("a")))
            want = t_
        elif pos == "inserted":
            x = dx.tbl(dx.row(dx.cell(dx.para(dx.wrap("del", "<w:r><w:delText>Figure 5: no</w:delText></w:r>"), dx.wrap("ins", r[0]), r[1]), fill=fill)), dx.row(dx.cell("a")))
            want = t_
        elif pos == "control before":
            x = dx.tbl(dx.row(dx.cell(dx.wrap("sdt", dx.para("a")), ttl, fill=fill)))
        elif pos == "nested in empty":
            x = dx.tbl(dx.row(dx.cell(inner(ttl), fill=fill), dx.cell("b")))
        elif pos == "link":
            x = dx.tbl(dx.row(dx.cell(dx.para(dx.link(*r)), fill=fill)))
            want = t_
        else:
            x = dx.tbl(dx.row(dx.cell(dx.para(*r, num=(1, 0)), fill=fill)))
            want = "unspecified"
        c = self.conv(ctx, [x, inner(dx.para("Figure 99: x"))], numbering=num)
        if c.html_text is None:
            return f"conversion failed: {c.error} for {case}"
        got = [t[1].get("id") for t in c.tables]
        ctx.state((case, got))
        if want == "unspecified":
            return diff("id of the other table", "99", got[1], repr(case))
        m = re.fullmatch(r"Figure ([0-9]+):.*", want) if want and not is_head(fill) else None
        return diff("ids", [m.group(1) if m else None, "99"], got, repr(case))

    def gen_texts(self):
        def titles():
            for a in AFFIXES:
                yield from (f.format(a) for f in ("{}Figure 1: T", "Figure{} 1: T", "Figure {}1: T", "Figure 1{}: T", "Figure 1:{} T", "Figure 1: T{}", "Figure 1{}2: T"))
            for n in range(1, Q(60, 150)):
                yield from ("Figure " + "1" * n + ": T", "Figure " + "0" * n + "1: T", "Figure" + " " * n + "1: T", "Figure 1" + " " * n + ": T", "Figure 1" + ":" * n + "T", "Figure 1: " + "T " * n)

        yield from chunks(titles(), 48)

    def ev_texts(self, ts, ctx):
        c = self.conv(ctx, [dx.tbl(dx.row(dx.cell(t))) for t in ts])
        if c.html_text is None:
            return f"conversion failed: {c.error} for {ts}"
        want = [(m.group(1) if (m := re.match("Figure ([0-9]+):", t)) else None, t) for t in ts]
        ctx.state(want)
        return diff("ids", want, [(t[1].get("id"), x) for t, x in zip(c.tables, ts)] if len(c.tables) == len(ts) else len(c.tables), repr(ts))

    def spaces(self):
        return [
            Space("nested", self.gen_deep, self.ev, "all tables of depth 2 over 4 layouts and of depth 3 over single cells, with text before, between and after; all pairs of small top-level tables"),
            Space("flat", self.gen_flat, self.ev, f"all sequences of 0..{Q(4,5)} of text, empty paragraph and four kinds of tables"),
            Space("chains", self.gen_chain, self.ev, f"chains of up to {Q(13,25)} levels"),
            Space("many", self.gen_many, self.ev, f"up to {Q(300,1500)} tables side by side, in one cell, in the cells of one row, at two levels; trees of up to 35 levels"),
            Space("wrapped", self.gen_wrapped, self.ev_wrapped, f"{Q('every fifth of ', '')}the forests of the first three spaces with blocks or tables in content controls and custom XML in 4 ways"),
            Space("identifiers", self.gen_ids, self.ev_ids, f"{len(self.TITLES)} titles split into runs at every place x 4 backgrounds x 19 positions"),
            Space("titles", self.gen_texts, self.ev_texts, f"{AFFIXED} at 7 places of a title; numbers, blanks, words and colons of 1..{Q(59,149)}"),
        ]


class D04(DCheck):
    ID = "D04"
    TECHNIQUE = "bounded exhaustive exploration of all paragraph sequences through the real conversion, against a stack model of lists"
    ASSUMPTIONS = DCheck.ASSUMPTIONS + ("instances (w:num) of the same abstract numbering are the same list",)

    # numId -> abstract, abstract -> level -> ordered
    KIND = {0: {0: True, 1: False, 2: True}, 1: {0: False, 1: False, 2: True}, 7: {0: True, 1: True, 2: False}}
    NUMS = {1: 0, 2: 0, 3: 1, 12: 7}

    def numbering(self):
        out = ""
        for a, lv in self.KIND.items():
            fm = lambda o, i: ("decimal" if i == 0 else "lowerLetter", f"%{i+1}.") if o else ("bullet", "•")
            out += dx.abstract(a, [(i,) + fm(o, i) for i, o in lv.items()])
        return out + "".join(dx.num(n, a) for n, a in self.NUMS.items()) + dx.num(40, 444) + dx.num(0, 0)

    TOK = {"p": None, "e": None, "t": None, "b": None, "U0": (99, 0), "A0": (1, 0), "A1": (1, 1), "A2": (1, 2), "C0": (2, 0), "B0": (3, 0), "B1": (3, 1), "D0": (12, 0), "An": (1, None), "E0": (1, 0)}
    # in content controls; not a list: number 0, no such level, no such definition
    TOK2 = {"sA0": (1, 0), "sA1": (1, 1), "sB0": (3, 0), "sp": None, "Z0": (0, 0), "A5": (1, 5), "M0": (40, 0), "A0": (1, 0), "A1": (1, 1), "p": None, "b": None}
    TOKS = {**TOK, **TOK2}

    def block(self, k, i):
        if k[0] == "s":
            return dx.wrap("sdt", self.block(k[1:], i))
        if k == "p":
            return dx.para(f"p{i}")
        if k == "e":
            return dx.para()
        if k == "t":
            return dx.tbl(dx.row(dx.cell(f"t{i}")))
        if k == "b":
            return "<w:bookmarkEnd w:id='1'/>"
        if k == "E0":
            return dx.para(num=self.TOKS[k])
        return dx.para(f"i{i}", num=self.TOKS[k])

    def expected(self, seq):
        """[('p', text) | ('t', text) | list]; list = (tag, [text | list])."""
        out, stack, cur = [], [], None  # stack of (level, list)
        for i, k in enumerate(seq):
            num = self.TOKS[k]
            if num is None or num[0] not in self.NUMS or (num[1] or 0) not in self.KIND[self.NUMS[num[0]]]:
                if k == "b":
                    continue
                stack, cur = [], None
                if k == "t":
                    out.append(("t", f"t{i}"))
                elif num:
                    out.append(("p", f"i{i}"))
                elif k in ("p", "sp"):
                    out.append(("p", f"p{i}"))
                continue
            a, lvl = self.NUMS[num[0]], num[1] or 0
            txt = "" if k == "E0" else f"i{i}"
            if cur != a:
                stack, cur = [], a
            while stack and stack[-1][0] > lvl:
                stack.pop()
            if not stack or stack[-1][0] < lvl:
                new = ("ol" if self.KIND[a][lvl] else "ul", [])
                (stack[-1][1][1] if stack else out).append(new)
                stack.append((lvl, new))
            stack[-1][1][1].append(txt)
        return out

    def read_list(self, n):
        items = []
        for li in kids(n):
            if li[0] != "li":
                raise AssertionError(f"<{li[0]}> directly in <{n[0]}>")
            own = [k for k in kids(li) if k[0] == "span"]
            subs = [k for k in kids(li) if k[0] in ("ul", "ol")]
            if len(own) + len(subs) != len(kids(li)):
                raise AssertionError(f"unexpected content of a list item {li}")
            if kids(li)[: len(own)] != own:
                raise AssertionError(f"text after a nested list in {li}")
            if own or not subs:
                items.append("".join(text_of(s) for s in own))
            items += [self.read_list(s) for s in subs]
        return (n[0], items)

    def read(self, cell):
        out = []
        for k in kids(cell):
            if k[0] == "p":
                out.append(("p", plain(k)))
            elif k[0] == "table":
                out.append(("t", "".join(spans(k))))
            else:
                out.append(self.read_list(k))
        return out

    def judge(self, seqs, ctx):
        rows = [dx.row(dx.cell(*[self.block(k, i) for i, k in enumerate(s)], dx.para())) for s in seqs]
        c = self.conv(ctx, [dx.tbl(*rows)], len(rows), numbering=self.numbering())
        if c.html_text is None:
            return f"conversion failed: {c.error} for {seqs}"
        try:
            got = [self.read(kids(r)[0]) for r in kids(c.tables[0], "tr")]
        except AssertionError as e:
            return f"{e} for {seqs}"
        want = [self.drop_empty(self.expected(s)) for s in seqs]
        for w in want:
            ctx.state(w)
        return diff("lists", want, [self.drop_empty(g) for g in got], repr(seqs))

    def drop_empty(self, x):
        """items without any text do not count."""

        def lst(l):
            return (l[0], [lst(i) if isinstance(i, tuple) else i for i in l[1] if i != ""])

        return [b if b[0] in ("p", "t") else lst(b) for b in x]

    def gen_seq(self):
        keys = list(self.TOK)
        yield from chunks(sequences(keys, 0, 3), 24)
        four = ["p", "A0", "A1", "A2", "B0", "B1", "C0", "b", "t"]
        yield from chunks(sequences(four, 4, 4), 24)
        if Q(0, 1):
            yield from chunks(sequences(keys, 4, 4), 24)
        yield from chunks(sequences(["A0", "A1", "A2", "B1", "p"], 5, Q(6, 7)), 24)
        yield from chunks(sequences(list(self.TOK2), 1, Q(3, 4)), 24)

    # what is given of a level: format and text
    GIVEN = [("decimal", "%1."), ("decimal", None), ("decimal", False), (None, "%1)"), (None, None), (None, "-"), (False, "%1"), (False, False), ("bullet", None), ("bullet", False), ("bullet", "o"), ("lowerRoman", "%1"), ("none", "")]

    def gen_given(self):
        for a, b in itertools.product(range(len(self.GIVEN)), repeat=2):
            for link in (None, "before", "behind", "to nothing", "two"):
                yield (a, b, link)

    def ev_given(self, case, ctx):
        """incomplete levels, in the definition used or in the list style it refers to."""
        a, b, link = case
        lv = [(i, f, x.replace("1", str(i + 1)) if x else x) for i, (f, x) in enumerate((self.GIVEN[a], self.GIVEN[b]))]
        own = dx.abstract(1, [] if link else lv, '<w:numStyleLink w:val="Sty"/>' if link else "")
        style = dx.abstract(7, lv, f'<w:styleLink w:val="{"Sty" if link != "to nothing" else "Other"}"/>')
        second = dx.abstract(8, [], '<w:numStyleLink w:val="Sty"/>')
        numb = {None: own, "before": style + own, "behind": own + style, "to nothing": own + style, "two": own + style + second}[link]
        numb += dx.num(3, 1) + (dx.num(4, 8) if link == "two" else "")
        tag = ["ol" if x and "%" in x else "ul" for _, _, x in lv]
        seq = [(3, 0), (3, 1), (3, 0), None, (3, 1)] + ([(4, 1), (4, 0), (3, 0), None, (4, 0)] if link == "two" else [])
        blocks = [dx.para(f"i{i}", num=k) for i, k in enumerate(seq)]
        if link == "to nothing":
            want = [("p", f"i{i}") for i in range(len(seq))]
        else:
            want, part = [], []
            for i, k in enumerate(seq + [None]):
                if k:
                    part.append((k[0], k[1], f"i{i}", tag[k[1]]))
                else:
                    want += self.lists(part) + ([("p", f"i{i}")] if i < len(seq) else [])
                    part = []
        c = self.conv(ctx, [dx.tbl(dx.row(dx.cell(*blocks)))], numbering=numb)
        if c.html_text is None:
            return f"conversion failed: {c.error} for {case}"
        try:
            got = self.read(kids(kids(c.tables[0], "tr")[0])[0])
        except AssertionError as e:
            return f"{e} for {case}"
        ctx.state((case, want))
        return diff("lists", want, got, f"{case} {numb}")

    def gen_levels(self):
        for n in range(1, Q(7, 8)):
            yield from chunks(sequences(["A0", "A1", "A2"], n, n), 24)

    def gen_long(self):
        for n in Q((12, 30), (12, 30, 100)):
            for pat in sequences(["A0", "A1", "A2", "B0", "p"], 1, 3):
                yield ((pat * n)[:n],)

    def gen_many(self):
        for n in list(range(4, Q(150, 400))) + [199, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1001, 1023, 1024, 1025] + Q([], [2048, 4096, 5000]):
            for pat in (("A0",), ("B0",), ("A0", "A1"), ("A1", "A0", "A2"), ("A0", "p"), ("A0",) * 20 + ("A1",), ("A1",) * 20 + ("p",)):
                if n < 40 or len(pat) == 1 or n % 5 == 0:
                    yield ((pat * n)[:n],)

    def gen_place(self):
        for s in sequences(["A0", "A1", "p", "B0"], 1, 3):
            for place in ("first row", "merged", "nested", "header", "with link"):
                yield (s, place)

    def ev_place(self, case, ctx):
        s, place = case
        blocks = [self.block(k, i) for i, k in enumerate(s)]
        if place == "first row":
            x = dx.tbl(dx.row(dx.cell(*blocks), dx.cell("x")))
            find = lambda t: kids(kids(t, "tr")[0])[0]
        elif place == "merged":
            x = dx.tbl(dx.row(dx.cell(*blocks, vmerge="restart", span=2), dx.cell("x")), dx.row(dx.cell(dx.para(), vmerge="", span=2), dx.cell("y")))
            find = lambda t: kids(kids(t, "tr")[0])[0]
        elif place == "nested":
            x = dx.tbl(dx.row(dx.cell(dx.tbl(dx.row(dx.cell(*blocks))), dx.para())))
            find = lambda t: kids(kids(kids(kids(kids(t, "tr")[0])[0], "table")[0], "tr")[0])[0]
        elif place == "header":
            x = dx.tbl(dx.row(dx.cell(*blocks, fill="D9D9D9")))
            find = lambda t: kids(kids(t, "tr")[0])[0]
        else:
            x = dx.tbl(dx.row(dx.cell(*[b.replace("<w:r>", "<w:hyperlink r:id='a'><w:r>").replace("</w:r>", "</w:r></w:hyperlink>") for b in blocks])))
            find = lambda t: kids(kids(t, "tr")[0])[0]
        c = self.conv(ctx, [x], numbering=self.numbering())
        if c.html_text is None:
            return f"conversion failed: {c.error} for {case}"
        try:
            got = self.read(find(c.tables[0]))
        except AssertionError as e:
            return f"{e} for {case}"
        want = self.expected(s)
        ctx.state((place, want))
        return diff("lists", want, got, repr(case))

    def gen_defs(self):
        """numbering definitions: kinds per level, order of levels and of definitions."""
        for kinds in itertools.product((True, False), repeat=3):
            for order in itertools.permutations(range(3)):
                for ids in ((0, 1), (5, 3), (1, 0)):
                    for fmt in ("decimal", "lowerLetter", "upperRoman"):
                        yield (kinds, order, ids, fmt, "%{})", "-")
                    # what is printed around the number, and what instead of one
                    if order == (0, 1, 2):
                        for text in self.ORDERED:
                            for bullet in self.BULLETS:
                                yield (kinds, order, ids, "decimal", text, bullet)

    ORDERED = ["%{}", "%{}.", "(%{})", "[%{}]", "Step %{}:", " %{} ", "\u00a7%{}"]
    BULLETS = ["-", "\u2022", "\uf0b7", "", "o", "*", "1."]

    def ev_defs(self, case, ctx):
        kinds, order, (a, b), fmt, text, bullet = case
        lv = lambda i, o: (i, fmt, text.format(i + 1)) if o else (i, "bullet", bullet)
        other = [not k for k in kinds]
        numb = dx.abstract(a, [lv(i, kinds[i]) for i in order]) + dx.abstract(b, [lv(i, other[i]) for i in range(3)]) + dx.num(a + 1, b) + dx.num(b + 1, a) if abs(a - b) != 1 or a > b else dx.abstract(a, [lv(i, kinds[i]) for i in order]) + dx.abstract(b, [lv(i, other[i]) for i in range(3)]) + dx.num(4, a) + dx.num(2, b)
        na, nb = (b + 1, a + 1) if abs(a - b) != 1 or a > b else (4, 2)
        blocks, want = [], []
        tagof = lambda o: "ol" if o else "ul"
        blocks = [dx.para("x", num=(na, 0)), dx.para("y", num=(na, 1)), dx.para("z", num=(na, 2)), dx.para("u", num=(nb, 0)), dx.para("v", num=(nb, 1)), dx.para("w", num=(nb, 2))]
        want = [
            (tagof(kinds[0]), ["x", (tagof(kinds[1]), ["y", (tagof(kinds[2]), ["z"])])]),
            (tagof(other[0]), ["u", (tagof(other[1]), ["v", (tagof(other[2]), ["w"])])]),
        ]
        c = self.conv(ctx, [dx.tbl(dx.row(dx.cell(*blocks)))], numbering=numb)
        if c.html_text is None:
            return f"conversion failed: {c.error} for {case}"
        got = self.read(kids(kids(c.tables[0], "tr")[0])[0])
        ctx.state(case)
        return diff("lists", want, got, f"{case} {numb}")

    def ev_seq(self, case, ctx):
        return self.judge(case, ctx)

    # all nine levels, many definitions
    def gen_nine(self):
        yield from chunks((s for n in range(1, 5) for s in sequences(range(9), n, n)), 48)
        for n in Q((12, 60), (12, 60, 200)):
            for pat in sequences((0, 4, 7, 8), 1, 4):
                yield ((pat * n)[:n],)

    def lists(self, items):
        """expected lists of [(definition, level, text)], tag given by tagof."""
        out, stack, cur = [], [], None
        for a, lvl, txt, tag in items:
            if cur != a:
                stack, cur = [], a
            while stack and stack[-1][0] > lvl:
                stack.pop()
            if not stack or stack[-1][0] < lvl:
                new = (tag, [])
                (stack[-1][1][1] if stack else out).append(new)
                stack.append((lvl, new))
            stack[-1][1][1].append(txt)
        return out

    def cells(self, cells, numbering, ctx, what):
        """cells: [[(numId, level, definition, tag)]]."""
        rows, want = [], []
        for c in cells:
            rows.append(dx.row(dx.cell(*[dx.para(f"i{i}", num=(n, l)) for i, (n, l, a, tag) in enumerate(c)], dx.para())))
            want.append(self.lists([(a, l, f"i{i}", tag) for i, (n, l, a, tag) in enumerate(c)]))
        c = self.conv(ctx, [dx.tbl(*rows)], len(rows), numbering=numbering)
        if c.html_text is None:
            return f"conversion failed: {c.error} for {what}"
        try:
            got = [[b for b in self.read(kids(r)[0]) if b != ("p", "")] for r in kids(c.tables[0], "tr")]
        except AssertionError as e:
            return f"{e} for {what}"
        ctx.state(want)
        return diff("lists", want, got, repr(what))

    def ev_nine(self, case, ctx):
        tag = lambda l: "ol" if l % 3 != 1 else "ul"
        numb = dx.abstract(4, [(l, "decimal" if l % 3 == 0 else "bullet" if l % 3 == 1 else "lowerRoman", "o" if l % 3 == 1 else f"%{l+1}.") for l in range(9)]) + dx.num(6, 4)
        return self.cells([[(6, l, 4, tag(l)) for l in s] for s in case], numb, ctx, case)

    def gen_numbers(self):
        for n in Q((1, 2, 9, 10, 11, 33, 65, 130, 260), (1, 2, 9, 10, 11, 33, 65, 130, 260, 520)):
            for ids in ("same", "reversed", "shifted", "large", "shared"):
                for use in ("in turn", "backwards", "twice"):
                    yield (n, ids, use)

    def ev_numbers(self, case, ctx):
        n, ids, use = case
        num = {"same": lambda a: a, "reversed": lambda a: n + 1 - a, "shifted": lambda a: a % n + 1, "large": lambda a: 2**31 - 1 - a, "shared": lambda a: a}[ids]
        ab = lambda a: a // 2 if ids == "shared" else a
        tag = lambda a: "ol" if ab(a) % 2 else "ul"
        numb = ""
        for a in sorted({ab(a) for a in range(1, n + 1)}):
            numb += dx.abstract(a, [(0, "decimal" if a % 2 else "bullet", "%1." if a % 2 else "\uf0b7")])
        numb += "".join(dx.num(num(a), ab(a)) for a in range(1, n + 1))
        order = list(range(1, n + 1))
        if use == "backwards":
            order.reverse()
        if use == "twice":
            order = [a for a in order for _ in (0, 1)]
        cell = [(num(a), 0, ab(a), tag(a)) for a in order]
        return self.cells([cell] + [[c] for c in cell[:40]], numb, ctx, case)

    def spaces(self):
        return [
            Space("nine levels", self.gen_nine, self.ev_nine, f"all sequences of 1..4 of nine levels; all periodic sequences of period 1..4 over four levels up to {Q(60,200)} items"),
            Space("numbers", self.gen_numbers, self.ev_numbers, f"up to {Q(260,520)} definitions with five ways to number them, used in turn, backwards and twice"),
            Space("sequences", self.gen_seq, self.ev_seq, f"all sequences of 0..3 blocks over {list(self.TOK)} and over {list(self.TOK2)} (s: in a content control; Z, A5, M: no such number, level, definition), of 4 over 9, of 5..{Q(6,7)} over 5"),
            Space("given", self.gen_given, self.ev_given, f"two levels with every two of {len(self.GIVEN)} combinations of what is given of format and text, directly and through a list style before, behind, shared or missing"),
            Space("levels", self.gen_levels, self.ev_seq, f"all level sequences of length up to {Q(6,7)}"),
            Space("long", self.gen_long, self.ev_seq, f"all periodic sequences of period 1..3 up to {Q(30,100)} blocks"),
            Space("many", self.gen_many, self.ev_seq, f"lists of up to {Q(150, 400)} items of one level or alternating ones, and around 200, 256, 300, 512, 1000 and 1024"),
            Space("places", self.gen_place, self.ev_place, "lists in merged, nested, header and linked cells"),
            Space("definitions", self.gen_defs, self.ev_defs, "all kinds of three levels, in every order of definition, 3 numberings of definitions, 7 texts around the number, 7 bullets"),
        ]


class D05(DCheck):
    ID = "D05"
    TECHNIQUE = "bounded exhaustive exploration of all three-valued settings on run, style and base style through the real conversion"
    ASSUMPTIONS = DCheck.ASSUMPTIONS + ("colours are hexadecimal", "styles are not based on themselves")

    # property -> list of (xml, value); None is absent
    PROPS = {
        "b": [None, ("<w:b/>", True), ('<w:b w:val="0"/>', False)],
        "i": [None, ("<w:i/>", True), ('<w:i w:val="false"/>', False)],
        "u": [None, ('<w:u w:val="single"/>', True), ('<w:u w:val="none"/>', False)],
        "s": [None, ('<w:strike/>', True), ('<w:strike w:val="0"/>', False)],
        "v": [None, ('<w:vertAlign w:val="superscript"/>', "super"), ('<w:vertAlign w:val="subscript"/>', "sub"), ('<w:vertAlign w:val="baseline"/>', "baseline")],
        "c": [None, ('<w:color w:val="FF0000"/>', "#FF0000"), ('<w:color w:val="0000FF"/>', "#0000FF")],
    }
    # spellings of on and off
    SPELL = {
        "b": [('<w:b w:val="1"/>', True), ('<w:b w:val="true"/>', True), ('<w:b w:val="on"/>', True), ('<w:b w:val="false"/>', False), ('<w:b w:val="off"/>', False), ('<w:b w:val="0"/>', False)],
        "i": [('<w:i w:val="1"/>', True), ('<w:i w:val="true"/>', True), ('<w:i w:val="on"/>', True), ('<w:i w:val="0"/>', False), ('<w:i w:val="off"/>', False)],
        "s": [('<w:strike w:val="1"/>', True), ('<w:strike w:val="true"/>', True), ('<w:strike w:val="on"/>', True), ('<w:strike w:val="false"/>', False), ('<w:strike w:val="off"/>', False)],
        "u": [('<w:u w:val="double"/>', True), ('<w:u w:val="dash"/>', True), ('<w:u w:val="words" w:color="FF0000"/>', True)],
    }
    KEYS = list(PROPS)

    def effective(self, layers):
        """layers: base first; each a dict prop -> value."""
        eff = {}
        for l in layers:
            eff.update(l)
        out = {}
        if "b" in eff:
            out["font-weight"] = "bold" if eff["b"] else "normal"
        if "i" in eff:
            out["font-style"] = "italic" if eff["i"] else "normal"
        if "u" in eff or "s" in eff:
            out["text-decoration-line"] = " ".join(n for k, n in (("u", "underline"), ("s", "line-through")) if eff.get(k)) or "none"
        if "v" in eff:
            out["vertical-align"] = eff["v"]
        if "c" in eff:
            out["color"] = eff["c"]
        return out

    def judge(self, runs, styles, ctx, what, rows=None, **kw):
        """runs: [(rpr xml, expected declarations)], in rows of their own or in those given."""
        per = 8
        given, rows = rows, rows or []
        for k in range(0, 0 if given else len(runs), per):
            rows.append(dx.row(dx.cell(dx.para(*[dx.run(f"r{k+i}", rpr=r) for i, (r, _) in enumerate(runs[k : k + per])]))))
        c = self.conv(ctx, [dx.tbl(*rows)], len(runs), styles=styles, **kw)
        if c.html_text is None or c.css is None:
            return f"conversion failed: {c.error} for {what}"
        rules = {}
        for sel, body in re.findall(r"([^{}]+)\{([^{}]*)\}", c.css):
            for s in sel.split(","):
                s = re.sub(r"/\*.*?\*/", "", s, flags=re.S).strip()
                if s.startswith("."):
                    decl = dict(tuple(x.strip() for x in d.split(":", 1)) for d in body.split(";") if ":" in d)
                    rules.setdefault(s[1:], []).append(decl)
        found = []

        def walk(n):
            for k in kids(n):
                if k[0] == "span":
                    found.append(k)
                else:
                    walk(k)

        walk(c.root)
        if [text_of(s) for s in found] != [f"r{i}" for i in range(len(runs))]:
            return f"runs are missing for {what}: {c.html_text[:1500]}"
        by_decl = {}
        for s, (rpr, want) in zip(found, runs):
            cls = s[1].get("class")
            ctx.state(sorted(want.items()))
            if cls is None:
                got = {}
            else:
                if len(rules.get(cls, [])) != 1:
                    return f"class {cls} is defined {len(rules.get(cls, []))} times for {what} run {rpr}"
                got = rules[cls][0]
                if not got:
                    return f"class {cls} without declarations for {what} run {rpr}"
            norm = lambda d: {k: (" ".join(sorted(v.split())) if k == "text-decoration-line" else v.lower()) for k, v in d.items()}
            if norm(got) != norm(want):
                return f"expected {want} got {got} for run {rpr} in {what} styles {styles}"
            key = repr(sorted(norm(want).items()))
            if by_decl.setdefault(key, cls) != cls:
                return f"two classes {cls} and {by_decl[key]} for {want} in {what}"
        if len({v for v in by_decl.values()}) != len(by_decl):
            return f"different formatting shares a class: {by_decl} in {what}"
        return None

    def combos(self, keys):
        """all assignments of keys: (xml, dict)."""
        for opts in itertools.product(*[self.PROPS[k] for k in keys]):
            yield "".join(o[0] for o in opts if o), {k: o[1] for k, o in zip(keys, opts) if o}

    def gen_pairs(self):
        """two properties on run x style x base."""
        for n in (1, 2):
            for keys in itertools.combinations(self.KEYS, n):
                cs = len(list(self.combos(keys)))
                for b in range(cs):
                    yield (keys, b)

    def ev_pairs(self, case, ctx):
        keys, b = case
        cs = list(self.combos(keys))
        styles = dx.style("Base", cs[b][0])
        runs = []
        for s, (sx, sd) in enumerate(cs):
            styles += dx.style(f"S{s}", sx, base="Base")
            for rx, rd in cs:
                runs.append((f'<w:rStyle w:val="S{s}"/>' + rx, self.effective([cs[b][1], sd, rd])))
        return self.judge(runs, styles, ctx, case)

    def gen_all(self):
        """all properties on the run, alone and over a style with all properties."""
        for s in range(0, 972, Q(27, 4)):
            yield s

    def ev_all(self, s, ctx):
        cs = list(self.combos(self.KEYS))
        sx, sd = cs[s]
        styles = dx.style("S", sx)
        runs = [(rx, self.effective([rd])) for rx, rd in cs[:: Q(1, 1)]] if s == 0 else []
        runs += [('<w:rStyle w:val="S"/>' + rx, self.effective([sd, rd])) for rx, rd in cs]
        return self.judge(runs, styles, ctx, s)

    def gen_spell(self):
        for k in self.SPELL:
            for i in range(len(self.SPELL[k])):
                yield (k, i)

    def ev_spell(self, case, ctx):
        k, i = case
        sx, sv = self.SPELL[k][i]
        styles = dx.style("S", sx) + dx.style("T", "", base="S") + dx.style("On", self.PROPS[k][1][0]) + dx.style("Off", self.PROPS[k][2][0])
        runs = [(sx, self.effective([{k: sv}])), ('<w:rStyle w:val="S"/>', self.effective([{k: sv}])), ('<w:rStyle w:val="T"/>', self.effective([{k: sv}]))]
        for st, v in (("On", True), ("Off", False)):
            runs.append((f'<w:rStyle w:val="{st}"/>' + sx, self.effective([{k: sv}])))
        for x, v in self.SPELL[k]:
            runs.append(('<w:rStyle w:val="S"/>' + x, self.effective([{k: v}])))
        return self.judge(runs, styles, ctx, case)

    def gen_chain(self):
        """chains of base styles up to depth 5 for one property, styles in any order."""
        for k in self.KEYS:
            for n in range(1, Q(5, 6)):
                for a in itertools.product(range(len(self.PROPS[k])), repeat=n):
                    yield (k, a)

    def ev_chain(self, case, ctx):
        k, a = case
        # S0 is the root, S(n-1) the most specific one
        defs = []
        for i, v in enumerate(a):
            o = self.PROPS[k][v]
            defs.append(dx.style(f"S{i}", o[0] if o else "", base=f"S{i-1}" if i else None))
        layers = [{k: self.PROPS[k][v][1]} if self.PROPS[k][v] else {} for v in a]
        for order in (defs, defs[::-1]):
            # a paragraph style of the same name and the default style play no part
            styles = dx.style("S0", "<w:b/><w:i/>", kind="paragraph") + "".join(order) + dx.style("Z", '<w:u w:val="single"/>')
            runs = []
            for i in range(len(a)):
                for o in self.PROPS[k]:
                    runs.append((f'<w:rStyle w:val="S{i}"/>' + (o[0] if o else ""), self.effective(layers[: i + 1] + ([{k: o[1]}] if o else []))))
            msg = self.judge(runs, styles, ctx, case)
            if msg:
                return msg
        return None

    def gen_order(self):
        """classes of pairs and triples of runs, in every order."""
        yield from sequences(range(9), 1, 3)

    ORDER = ["", "<w:b/>", "<w:i/>", "<w:b/><w:i/>", '<w:b w:val="0"/>', '<w:color w:val="FF0000"/>', '<w:color w:val="00FF00"/>', '<w:rStyle w:val="B"/>', '<w:noProof/><w:sz w:val="24"/>']
    ORDER_D = [{}, {"b": True}, {"i": True}, {"b": True, "i": True}, {"b": False}, {"c": "#FF0000"}, {"c": "#00FF00"}, {"b": True}, {}]

    def ev_order(self, case, ctx):
        runs = [(self.ORDER[i], self.effective([self.ORDER_D[i]])) for i in case]
        return self.judge(runs, dx.style("B", "<w:b/>"), ctx, case)

    def gen_many(self):
        for n in Q((9, 10, 11, 31, 59, 60, 61, 64, 65, 100, 130, 260, 520), (9, 10, 11, 31, 59, 60, 61, 64, 65, 100, 130, 260, 520, 1030, 2050)):
            for how in ("colours", "styles", "styles backwards", "shared base", "chain", "chain twice", "each over its base"):
                if how.startswith("chain") and n > 130:
                    continue
                yield (how, n)

    def ev_many(self, case, ctx):
        how, n = case
        col = lambda i: f"{(i * 2654435761) % 0xFFFFFE + 1:06X}"
        cx = lambda i: f'<w:color w:val="{col(i)}"/>'
        eff = lambda *ls: self.effective(ls)
        c = lambda i: {"c": "#" + col(i)}
        use = lambda i: f'<w:rStyle w:val="S{i}"/>'
        styles, runs = "", []
        if how == "colours":
            runs = [(cx(i), eff(c(i))) for i in range(n)]
            runs += runs[::-1] + runs
        elif how in ("styles", "styles backwards"):
            styles = "".join(dx.style(f"S{i}", cx(i)) for i in range(n))
            runs = [(use(i), eff(c(i))) for i in range(n)]
            runs = (runs + runs) if how == "styles" else (runs[::-1] + runs[::-1])
        elif how == "shared base":
            styles = "".join(dx.style(f"S{i}", cx(i) if i % 2 else "", base="Base") for i in range(n)) + dx.style("Base", "<w:b/>" + cx(n))
            runs = [(use(i), eff({"b": True}, c(n), c(i) if i % 2 else {})) for i in range(n)] * 2
        elif how == "each over its base":
            styles = "".join(dx.style(f"S{i}", "<w:i/>", base=f"B{i}") + dx.style(f"B{i}", cx(i)) for i in range(n))
            runs = [(use(i) + "<w:b/>", eff(c(i), {"i": True}, {"b": True})) for i in range(n)] * 2
        else:
            styles = dx.style("S0", "<w:b/>" + cx(0)) + "".join(dx.style(f"S{i}", cx(i) if i % 5 == 0 else "", base=f"S{i-1}") for i in range(1, n))
            runs = [(use(i), eff({"b": True}, c(i - i % 5))) for i in range(n)]
            runs = runs[::-1] if how == "chain" else runs + runs
        return self.judge(runs, styles, ctx, case)

    # references to styles
    SIDS = ["S", "a b", 'q"q', "it's", "both'\"", "[x]", "1", "\u00e9", "&<", "s", "S  S", "Alias", "Two"]
    RPRS = ["<w:b/>", '<w:i w:val="0"/>', "<w:u/>", ""]

    def gen_refs(self):
        for sid in self.SIDS:
            for base in self.SIDS + ["missing", "", None]:
                for kind in ("character", "paragraph", "table"):
                    for order in (0, 1):
                        yield (sid, base, kind, order)

    def ev_refs(self, case, ctx):
        """a style sid on a base of some kind; runs refer to both, to others and to none."""
        sid, base, kind, order = case
        if sid == base:
            return None
        decls = {"<w:b/>": {"b": True}, '<w:i w:val="0"/>': {"i": False}, "<w:u/>": {}, "": {}}
        own = dx.style(sid, '<w:color w:val="FF0000"/><w:u/>', base=base)
        defs = [own, dx.style("Z", "<w:strike/>", aliases=f"{sid}, x,{base if base and kind == 'character' and base != 'missing' else 'y'}"), dx.style("P", "<w:i/>", kind="paragraph", aliases=f"{sid},missing")]
        have = {sid: {"c": "#FF0000"}, "Z": {"s": True}}
        if base and base != "missing":
            defs.append(dx.style(base, '<w:u w:val="single"/><w:color w:val="0000FF"/>', kind=kind))
            if kind == "character":
                have[sid] = {"c": "#FF0000", "u": True}
                have[base] = {"c": "#0000FF", "u": True}
        if order:
            defs.reverse()
        runs = []
        for ref in [sid, base or "", "missing", "P", "Z", "", None, "o'r", 'x"]|//w:style[@w:styleId="Z', sid.swapcase() + "!"]:
            for r in self.RPRS:
                use = "" if ref is None else f"<w:rStyle w:val={quoteattr(ref)}/>"
                runs.append((use + r, self.effective([have.get(ref, {}), decls[r]])))
        return self.judge(runs, "".join(defs), ctx, case)

    # where the run is
    PLACES = ["plain", "link", "field", "item", "sub-item", "nested", "grey", "merged", "second paragraph", "link in item", "content control", "inserted"]

    def gen_places(self):
        for a, b in itertools.product(self.PLACES, repeat=2):
            yield (a, b)

    def ev_places(self, case, ctx):
        styles = dx.style("B", "<w:b/>") + dx.style("C", '<w:i/><w:color w:val="00FF00"/>', base="B")
        fm = [(x, self.effective([d])) for x, d in zip(self.ORDER, self.ORDER_D)] + [('<w:rStyle w:val="C"/><w:b w:val="0"/>', self.effective([{"b": False, "i": True, "c": "#00FF00"}]))]
        rows, n, runs = [], 0, []
        for place in case:
            for x, want in fm:
                r = dx.run(f"r{n}", rpr=x)
                n += 1
                runs.append((x, want))
                kw = {}
                if place == "plain":
                    b = [dx.para(r)]
                elif place == "link":
                    b = [dx.para(dx.link(r))]
                elif place == "field":
                    b = [dx.para(dx.fld(r))]
                elif place == "item":
                    b = [dx.para(r, num=(1, 0))]
                elif place == "sub-item":
                    b = [dx.para(r, num=(1, 1))]
                elif place == "nested":
                    b = [dx.tbl(dx.row(dx.cell(dx.para(r)))), dx.para()]
                elif place == "grey":
                    b, kw = [dx.para(r)], {"fill": "D9D9D9"}
                elif place == "merged":
                    b, kw = [dx.para(r)], {"span": 3}
                elif place == "second paragraph":
                    b = [dx.para(), dx.para(r)]
                elif place == "content control":
                    b = [dx.wrap("sdt", dx.para(dx.wrap("sdt", r)))]
                elif place == "inserted":
                    b = [dx.para(dx.wrap("ins", dx.wrap("smartTag", r)))]
                else:
                    b = [dx.para(dx.link(r), num=(1, 0))]
                rows.append(dx.row(dx.cell(*b, **kw)))
        return self.judge(runs, styles, ctx, case, rows, numbering=dx.abstract(0, [(0, "bullet", "o"), (1, "decimal", "%2.")]) + dx.num(1, 0))

    def spaces(self):
        return [
            Space("many", self.gen_many, self.ev_many, f"up to {Q(520,2050)} formats and styles, each used repeatedly and in different orders; chains of up to 130 styles"),
            Space("places", self.gen_places, self.ev_places, f"ten formats in every two of {len(self.PLACES)} places"),
            Space("references", self.gen_refs, self.ev_refs, f"every two of {len(self.SIDS)} names of styles, some with quotes, and bases that are missing or of another type; references to each, to other types, to missing ones and to none; names that are aliases of other styles; underlines without value"),
            Space("pairs", self.gen_pairs, self.ev_pairs, "every value of every pair of the six properties on run x style x base style"),
            Space("all", self.gen_all, self.ev_all, f"all 972 settings of the six properties on a run, alone and over every {Q('27th','4th')} of the 972 settings on its style"),
            Space("spellings", self.gen_spell, self.ev_spell, "all spellings of on and off on run, style and base"),
            Space("chains", self.gen_chain, self.ev_chain, f"all values of one property along style chains of up to {Q(4,5)}, in both orders of definition"),
            Space("orders", self.gen_order, self.ev_order, "all sequences of 1..3 runs over 9 formattings"),
        ]


class D06(DCheck):
    ID = "D06"
    TECHNIQUE = "bounded exhaustive exploration of page headers through both stages of the real code"

    TOK = ["Spec", "NVM Express®", ",", " ", "Revision", "revision", "1.0c", "2.0", "&", "<A>", '"', "Ünï", "(x)"]

    def expect(self, s):
        title = s.split(",")[0].strip()
        best = None
        for m in re.finditer("[Rr]evision", s):
            rest = s[m.end() :]
            if rest[:1].isspace() and rest.split():
                best = rest.split()[0]
        return title, best

    def judge(self, s, runs, ctx, header=None):
        header = header if header is not None else dx.para(*runs)
        c = self.conv(ctx, [dx.tbl(dx.row(dx.cell("x")))], header=header)
        title, rev = self.expect(s)
        ctx.state((title, rev))
        if rev is None:
            if c.error is None:
                return f"a document without revision was accepted as {c.json and c.json['meta']} for header {s!r}"
            return None
        if c.error or c.json is None:
            return f"failed with {c.error} for header {s!r}"
        meta = [m for m in kids(kids(c.root, "head")[0], "meta") if "data-spec" in m[1]]
        got = (meta[0][1].get("data-spec"), meta[0][1].get("data-revision"))
        if got != (title, rev):
            return f"HTML says {got}, expected {(title, rev)} for header {s!r}"
        got = (c.json["meta"]["specification"], c.json["meta"]["revision"])
        if got != (title.lower(), rev.lower()):
            return f"JSON says {got}, expected {(title.lower(), rev.lower())} for header {s!r}"
        return None

    def gen_tokens(self):
        for s in sequences(self.TOK, 0, 3):
            yield s
        small = ["A", ",", " ", "Revision", "1.0", "é&"]
        for s in sequences(small, 4, Q(6, 7)):
            yield s
        for s in sequences(self.TOK, 1, 2):
            yield s + (", Revision", " ", "3.1")
            yield ("Title", ", ", "Revision", " ") + s

    def ev_tokens(self, case, ctx):
        s = "".join(case)
        return self.judge(s, [dx.run(s)], ctx)

    def gen_affixes(self):
        for a in AFFIXES:
            for f in ("{}Tt Uu, Revision 1.0", "Tt Uu{}, Revision 1.0", "Tt Uu,{} Revision 1.0", "Tt Uu, {}Revision 1.0", "Tt Uu, Revision{} 1.0", "Tt Uu, Revision {}1.0", "Tt Uu, Revision 1.0{}")[0 if len(a) == 1 else 4 :]:
                yield f.format(a)

    def ev_affixes(self, s, ctx):
        return self.judge(s, [dx.run(s)], ctx)

    # every character, in the title and in the revision
    def gen_chars(self):
        top = Q(0x11000, 0x110000)
        for i in range(0, top, 32):
            yield i

    def ev_chars(self, i, ctx):
        cs = [chr(c) for c in range(i, i + 32) if c >= 32 and not 0xD800 <= c <= 0xDFFF and c not in (0xFFFE, 0xFFFF)]
        if not cs:
            return None
        for s in ("T" + "x".join(cs) + "U, Revision 1", "T, Revision 1" + "x".join(cs) + "2"):
            msg = self.judge(s, [dx.run(s)], ctx)
            if msg:
                return msg
        return None

    def gen_splits(self):
        for s in ["NVM Express® Base, Revision 2.0c", "A, revision 1", "B Revision 1, Revision 2", "<C> & 'D', Revision \"1\""]:
            n = len(s)
            for i in range(n + 1):
                for j in range(i, n + 1):
                    yield (s, i, j)

    def ev_splits(self, case, ctx):
        s, i, j = case
        parts = [s[:i], s[i:j], s[j:]]
        return (
            self.judge(s, [dx.run(x) for x in parts], ctx)
            or self.judge(s, [dx.run(*parts)], ctx)
            or self.judge(s, None, ctx, "".join(dx.para(x) for x in parts))
            or self.judge(s, None, ctx, dx.tbl(dx.row(dx.cell(dx.para(parts[0])), dx.cell(dx.para(dx.link(dx.run(parts[1])), dx.run(parts[2], rpr="<w:b/>"))))))
        )

    # elements of a run and the text they stand for
    ELEMS = {"<w:tab/>": "\t", "<w:br/>": "\n", "<w:cr/>": "\n", "<w:noBreakHyphen/>": "-", '<w:br w:type="page"/>': "", "A": "A", "Revision": "Revision", "2.0": "2.0", ",": ",", " ": " "}

    def gen_elems(self):
        yield from sequences(list(self.ELEMS), 1, 3)
        for x in sequences(list(self.ELEMS), 1, 3):
            yield ("A", ",", "Revision") + x + ("1.0c",)
        for x in sequences(list(self.ELEMS), 1, 2):
            yield x + ("B", ",", " ", "Revision", " ", "1")
            yield ("C", ",", " ", "revision", " ", "1") + x

    def ev_elems(self, case, ctx):
        s = "".join(self.ELEMS.get(x, x) for x in case)
        m = len(case) // 2
        return (
            self.judge(s, [dx.run(*case)], ctx)
            or self.judge(s, [dx.run(x) for x in case], ctx)
            or self.judge(s, None, ctx, dx.wrap("sdt", dx.para(dx.wrap("sdt", dx.run(*case[:m])), dx.wrap("ins", dx.run(*case[m:])), dx.wrap("del", "<w:r><w:delText>, Revision 9</w:delText></w:r>"))))
            or self.judge(s, None, ctx, dx.para(dx.wrap("moveFrom", dx.run("Z, Revision 8")), dx.wrap("moveTo", dx.run(*case)), dx.wrap("moveFrom", dx.wrap("ins", dx.run(", Revision 9")))))
        )

    def gen_long(self):
        for n in Q((9, 33, 65, 130, 257, 520, 1030, 5000), (9, 33, 65, 130, 257, 520, 1030, 5000, 70000)):
            for shape in ("title", "words", "revisions", "revision word", "behind", "commas", "revision in title"):
                for split in (0, 1, 7):
                    yield (shape, n, split)
        for ws in ("\t", "\u00a0", "\n", "  ", " \t ", "\u2009", "\r"):
            for s in (f"A Title, Revision{ws}1.0c", f"A{ws}Title, Revision 2.0{ws}Final", f"{ws}T{ws}, Revision 3", f"T, Revision 1{ws}Revision{ws}4", f"T Revision{ws}1, revision{ws}"):
                for split in (0, 1, 3):
                    yield (s, None, split)

    def ev_long(self, case, ctx):
        shape, n, split = case
        s = shape if n is None else {
            "title": "T" * n + ", Revision 1.0",
            "words": "Word " * n + ", Revision 1.0",
            "revisions": "T, " + "".join(f"Revision {i}.{i % 7} " for i in range(n)),
            "revision word": "T, Revision " + "1." * n,
            "behind": "T, Revision 2.0 " + "x y " * n,
            "commas": "T" + ", U" * n + " Revision 3.1, " * 2,
            "revision in title": "The Revision 9 " * (n // 9) + ", Revision 1.0",
        }[shape]
        k = len(s) if not split else max(1, split)
        if len(s) > 20000 and split:
            k = 997
        runs = [dx.run(s[i : i + k]) for i in range(0, len(s), k)]
        return self.judge(s, runs, ctx)

    def gen_missing(self):
        for kind in ("no header", "empty header", "no paragraphs", "no styles", "no document", "broken header", "only picture"):
            yield kind

    def ev_missing(self, kind, ctx):
        raw = {
            "no header": {"word/header1.xml": None},
            "empty header": {},
            "no paragraphs": {},
            "no styles": {"word/styles.xml": None},
            "no document": {"word/document.xml": None},
            "broken header": {"word/header1.xml": "<w:hdr"},
            "only picture": {},
        }[kind]
        header = {"no paragraphs": "", "only picture": dx.para(dx.run("<w:drawing/>"))}.get(kind, dx.para() if kind == "empty header" else dx.DEFAULT_HEADER)
        c = convert(dx.docx([dx.tbl(dx.row(dx.cell("x")))], header=header, raw=raw))
        ctx.replays += 1
        ctx.step()
        ctx.state(kind)
        if c.error is None:
            return f"{kind}: accepted as {c.json and c.json['meta']}"
        return None

    def spaces(self):
        return [
            Space("texts", self.gen_tokens, self.ev_tokens, f"all header texts of 0..3 tokens over {self.TOK}, of 4..{Q(6,7)} over 6"),
            Space("splits", self.gen_splits, self.ev_splits, "4 header texts split at every pair of places into runs, texts, paragraphs, cells and links"),
            Space("long", self.gen_long, self.ev_long, "headers of up to 5000 (70000) characters, words, revisions and commas, with 7 kinds of white space, in one run, one per character, one per 3 or 7"),
            Space("elements", self.gen_elems, self.ev_elems, f"all sequences of 1..3 of {len(self.ELEMS)} pieces, also between title and revision, in front and behind: texts, tabs, breaks, hyphens; in one run, in one each, in content controls and tracked changes"),
            Space("affixes", self.gen_affixes, self.ev_affixes, f"{AFFIXED} around the revision, single ones at 7 places of a header"),
            Space("characters", self.gen_chars, self.ev_chars, f"each of the characters U+0020..U+{Q(0x10FFF,0x10FFFF):X} in title and revision"),
            Space("missing", self.gen_missing, self.ev_missing, "documents without a usable header"),
        ]


class D07(DCheck):
    ID = "D07"
    TECHNIQUE = (
        "bounded exhaustive exploration of logical figures rendered to .docx in every way, both real"
        " stages against the stage-2 reference model, and re-processing of the HTML"
    )

    # logical cell text -> docx blocks in several ways
    WAYS = ["plain", "runs", "link", "fld", "styled", "wrapped", "pieces"]

    def blocks(self, node, way):
        """docx blocks of a logical cell node (td/th with p and table children)."""
        out = []
        for k in kids(node):
            if k[0] == "p":
                s = text_of(k)
                mid = len(s) // 2
                out.append({
                    "plain": lambda: dx.para(s),
                    "runs": lambda: dx.para(dx.run(s[:mid]), dx.run(s[mid:])),
                    "link": lambda: dx.para(dx.run(s[:mid]), dx.link(dx.run(s[mid:]))),
                    "fld": lambda: dx.para(dx.fld(dx.run(s[:mid]), dx.run(s[mid:]))),
                    "wrapped": lambda: dx.wrap("sdt", dx.para(dx.wrap("sdt", dx.run(s[:mid])), dx.wrap("del", "<w:r><w:delText>no</w:delText></w:r>"), dx.wrap("ins", dx.run(s[mid:])))),
                    "pieces": lambda: dx.para(dx.run("<w:lastRenderedPageBreak/>", *[x if x != "-" else "<w:noBreakHyphen/>" for x in re.split("(-)", s)], '<w:br w:type="page"/>')),
                    "styled": lambda: dx.para(dx.run(s[:mid], rpr="<w:b/>"), dx.run(s[mid:], rpr='<w:color w:val="FF0000"/>')),
                }[way]())
            elif k[0] == "table":
                out.append(self.render(k, way))
        if not out or out[-1].startswith(("<w:tbl", "<w:sdt")):
            out.append(dx.para())
        return out

    def render(self, t, way):
        """logical table with row and column spans -> docx table."""
        grid = []  # per row: list of (col, node or None(continued), width, starts)
        pending = {}
        for r, row in enumerate(kids(t, "tr")):
            cells, col = [], 0
            own = iter(kids(row))
            while True:
                if col in pending:
                    node, left, w = pending[col]
                    cells.append((node, w, "continue"))
                    if left == 1:
                        del pending[col]
                    else:
                        pending[col] = (node, left - 1, w)
                    col += w
                    continue
                node = next(own, None)
                if node is None:
                    break
                w, h = int(node[1].get("colspan", 1)), int(node[1].get("rowspan", 1))
                cells.append((node, w, "restart" if h > 1 else None))
                if h > 1:
                    pending[col] = (node, h - 1, w)
                col += w
            grid.append(cells)
        rows = []
        for cells in grid:
            out = []
            for node, w, vm in cells:
                fill = "BFBFBF" if node[0] == "th" else None
                if vm == "continue":
                    out.append(dx.cell(dx.para(), span=w, vmerge="", fill=fill))
                else:
                    out.append(dx.cell(*self.blocks(node, way), span=w, vmerge=vm, fill=fill))
            if way == "wrapped":
                rows.append(dx.wrap("customXml", dx.row(*[dx.wrap("sdt", x) for x in out])))
            else:
                rows.append(dx.row(*out))
        return dx.wrap("sdt", dx.tbl(*rows)) if way == "wrapped" else dx.tbl(*rows)

    def proj(self, entities):
        sq = lambda s: strip_ws(s) if isinstance(s, str) else s
        out = []
        for e in entities:
            fs = []
            for f in noblank(e["fields"]):
                fs.append({k: (sq(v) if k == "brief" else v) for k, v in f.items()})
            out.append((e["fig_id"], e.get("parent_fig_id"), sq(e.get("title")), e["type"], fs))
        return out

    def judge(self, tables, ctx, way, what):
        root = document(tables, "Spec A", "1.0")
        body = [self.render(t, way) for t in tables]
        c = self.conv(ctx, body)
        if c.error or c.json is None or "lint" not in c.json["meta"]:
            return f"failed: {c.error} for {what}"
        want = ref2.reference(root)
        got = c.json
        w = self.proj(want.entities)
        ctx.state(w)
        msg = diff("entities", w, self.proj(got["entities"]), f"{what} {c.html_text[:3000]}")
        if msg:
            return msg
        gl = sorted((x["code"], x["fig"], x.get("row") or "") for x in got["meta"]["lint"])
        wl = sorted((x[0], x[1], x[2] or "") for x in want.lint)
        msg = diff("lint", wl, gl, str(what))
        if msg:
            return msg
        # processing the HTML gives the identical document
        from spex.jsonspec.parserargs import ParserArgs
        from spex.parse import parse_spec

        d = scratch() / f"d-{os.getpid()}"
        o = d / "again"
        o.mkdir()
        for _ in parse_spec(d / "doc.html", ParserArgs(output_dir=o, skip_fig_on_error=True)):
            pass
        if (o / "doc.json").read_bytes() != (d / "doc.json").read_bytes():
            return f"processing the HTML again gives another document for {what}"
        return None

    def gen_spans(self):
        for kind in ("Bytes", "Bits", "Value"):
            for R in (1, 2, 3):
                for parts in itertools.product(list(compositions(R)), repeat=3):
                    for way in self.WAYS if R < 3 else self.WAYS[:1]:
                        yield (kind, R, parts, way)
            for R in (4,) if Q(1, 0) else (4, 5):
                for parts in itertools.product(list(compositions(R)), repeat=2):
                    yield (kind, R, parts, "plain")

    def fig_spans(self, kind, R, parts, num=1):
        hdrs = {2: [kind, "Description"], 3: [kind, "Attribute", "Description"]}[len(parts)]
        starts = []
        for comp in parts:
            s, r = {}, 0
            for h in comp:
                s[r] = h
                r += h
            starts.append(s)
        rows = []
        for r in range(R):
            cells = []
            for c, h in enumerate(hdrs):
                if r not in starts[c]:
                    continue
                a = {"rowspan": str(starts[c][r])} if starts[c][r] > 1 else {}
                txt = {0: f"{r * 4 + 3}:{r * 4}" if kind != "Value" else f"{r:02X}h", 1: f"Na{alpha(r)}: x"}.get(c) if len(hdrs) == 3 or c == 0 else None
                cells.append(td(txt or f"Desc Of {alpha(r)} (D{alpha(r)}): b {r}.", **a))
            rows.append(tr(*cells))
        return figure(num, hdrs, rows)

    def ev_spans(self, case, ctx):
        kind, R, parts, way = case
        return self.judge([self.fig_spans(kind, R, parts)], ctx, way, case)

    ROWS = ["std", "reserved", "lone…", "note", "heading", "two paras", "nested bits", "nested value", "nested skip", "bad range", "dup", "empty desc", "special"]

    def row(self, k, i, kind):
        key = f"{i:02x}h" if kind == "Value" else str(i)
        D = f"Desc Of {alpha(i)} (D{alpha(i)}): brief {i}."
        if k == "std":
            return tr(td(key), td(D))
        if k == "reserved":
            return tr(td(key), td("Reserved"))
        if k == "lone…":
            return tr(td("…", colspan="2"))
        if k == "note":
            return tr(td("Notes: 1. x", colspan="2"))
        if k == "heading":
            return tr(th("Some List", colspan="2"))
        if k == "two paras":
            return tr(td(key), td(f"Desc Of {alpha(i)} (D{alpha(i)}): one", "two"))
        if k == "nested bits":
            return tr(td(key), td(f"Outer {alpha(i)} (O{alpha(i)})", nested(["Bits", "Description"], [tr(td("1", rowspan="2"), td("In A (IA)")), tr(td("In B (IB)"))])))
        if k == "nested value":
            return tr(td(key), td(f"Outer {alpha(i)} (O{alpha(i)})", nested(["Value", "Definition"], [tr(td("0b"), td("Off")), tr(td("1b"), td("On"))])))
        if k == "nested skip":
            return tr(td(key), td(f"Outer {alpha(i)} (O{alpha(i)})", nested(["Name", "Definition"], [tr(td("x"), td("y"))])))
        if k == "bad range":
            return tr(td("N+" + key), td(D))
        if k == "dup":
            return tr(td(key), td("Same Name (SN): x"))
        if k == "empty desc":
            return tr(td(key), td(""))
        if k == "special":
            return tr(td(key), td(f"A<{alpha(i)}> & \"B\" 'C' (S{alpha(i)}): é ☃"))
        raise KeyError(k)

    def gen_rows(self):
        for kind in ("Bytes", "Bits", "Value"):
            for s in sequences(self.ROWS, 0, 2):
                yield (kind, s, "plain")
            for k in self.ROWS:
                for way in self.WAYS[1:]:
                    yield (kind, (k,), way)
        for s in sequences(self.ROWS, 3, 3):
            yield ("Bytes", s, "plain")
        if Q(0, 1):
            for s in sequences(self.ROWS, 3, 3):
                yield ("Value", s, "runs")

    def ev_rows(self, case, ctx):
        kind, s, way = case
        rows = [self.row(k, i, kind) for i, k in enumerate(s)]
        # an empty paragraph does not reach the HTML, so neither in the logical table
        rows = [r if k != "empty desc" else tr(kids(r)[0], E("td")) for r, k in zip(rows, s)]
        return self.judge([figure(1, [kind, "Description"], rows)], ctx, way, case)

    def gen_docs(self):
        yield from sequences(["bits", "value", "skip", "untitled", "fail", "nest"], 0, Q(4, 5))

    def gen_ways(self):
        for s in sequences(["bits", "value", "skip", "untitled", "fail", "nest"], 2, 2):
            for way in self.WAYS[1:]:
                yield (s, way)

    def ev_docs2(self, case, ctx):
        return self.ev_docs(case[0], ctx, case[1])

    def gen_large(self):
        for kind in ("Bytes", "Bits", "Value"):
            for n in (12, 40) + Q((130,), (130, 300, 1100)):
                for k in self.ROWS:
                    yield ("rows", kind, n, k, "all")
                    yield ("rows", kind, n, k, "turns")
                    for at in (0, n // 2, n - 1):
                        yield ("rows", kind, n, k, at)
                for C in (2, 3):
                    for c in range(C):
                        for h in (2, 9, 10, 11, n):
                            for at in {0, (n - h) // 2, n - h} if 0 < h <= n else ():
                                yield ("span", kind, n, C, c, h, at)
        for kind in ("Bytes", "Bits", "Value"):
            for n in Q((300, 520, 1030), (520, 2050)):
                yield ("rows", kind, n, "std", "all")
                yield ("rows", kind, n, "reserved", n - 1)
        for n in (12, 40) + Q((130,), (130, 300)):
            for k in ("bits", "value", "skip", "untitled", "fail", "nest"):
                yield ("docs", n, k)

    def ev_large(self, case, ctx):
        if case[0] == "rows":
            _, kind, n, k, how = case
            ks = [k if how == "all" or how == "turns" and i % 2 or how == i else "std" for i in range(n)]
            return self.ev_rows((kind, ks, "plain"), ctx)
        if case[0] == "span":
            _, kind, n, C, c, h, at = case
            parts = [(1,) * at + (h,) + (1,) * (n - h - at) if x == c else (1,) * n for x in range(C)]
            return self.judge([self.fig_spans(kind, n, parts)], ctx, "plain", case)
        _, n, k = case
        return self.ev_docs([k if i % 2 else "bits" for i in range(n)], ctx)

    def ev_docs(self, s, ctx, way="plain"):
        ts = []
        for i, k in enumerate(s):
            n = i + 1
            ts.append({
                "bits": lambda: self.fig_spans("Bits", 3, ((3,), (1, 2)), n),
                "value": lambda: self.fig_spans("Value", 2, ((1, 1), (2,), (1, 1)), n),
                "skip": lambda: figure(n, ["Name", "Meaning"], [tr(td("a"), td("b"))]),
                "untitled": lambda: table([title_row("Some table"), tr(th("Bits"), th("Description")), std_row("0")]),
                "fail": lambda: figure(n, ["Bits", "Description"], [std_row("3"), tr(td("2"), E("td"))]),
                "nest": lambda: figure(n, ["Bytes", "Description"], [self.row("nested bits", 0, "Bytes"), self.row("nested value", 1, "Bytes")]),
            }[k]())
        return self.judge(ts, ctx, way, s)

    def spaces(self):
        return [
            Space("spans", self.gen_spans, self.ev_spans, f"every cut of three columns of up to 3 rows and of two columns of up to {Q(4,5)} rows into spans, 3 kinds, 7 renderings of text"),
            Space("rows", self.gen_rows, self.ev_rows, f"all sequences of 0..2 rows (3 for bytes) over {self.ROWS}, 3 kinds; single rows in 7 renderings"),
            Space("documents", self.gen_docs, self.ev_docs, f"all sequences of 0..{Q(4,5)} tables of 6 kinds"),
            Space("ways", self.gen_ways, self.ev_docs2, "every two of the 6 kinds of tables in 6 other renderings"),
            Space("large", self.gen_large, self.ev_large, f"figures of 12, 40, 130{Q('', ', 300, 1100')} rows of every kind of row, alone, alternating, or at one place, of up to {Q(1030, 2050)} plain ones; spans of 2, 9..11 and all rows; documents of 12, 40, 130 figures"),
        ]


# -- the style sheet ------------------------------------------------------------------


def css_rules(css):
    """[(selector, {property: value})] in order of appearance."""
    out = []
    for sel, body in re.findall(r"([^{}]+)\{([^{}]*)\}", re.sub(r"/\*.*?\*/", "", css, flags=re.S)):
        decl = dict(tuple(x.strip() for x in d.split(":", 1)) for d in body.split(";") if ":" in d)
        out += [(s.strip(), decl) for s in sel.split(",")]
    return out


class Selector:
    """tags, classes, ids and :first-child/:last-child, joined by blanks and >."""

    def __init__(self, text):
        parts = re.findall(r"\s*>\s*|\s+|[^\s>]+", text.strip())
        self.steps, comb = [], None
        for p in parts:
            if p.strip() in ("", ">"):
                comb = p.strip() or " "
            else:
                tag = re.match(r"[\w*-]*", p).group()
                self.steps.append((comb, tag if tag != "*" else "", re.findall(r"\.([\w-]+)", p), re.findall(r"#([\w-]+)", p), re.findall(r":([\w-]+)", p)))
        self.weight = (sum(len(s[3]) for s in self.steps), sum(len(s[2]) + len(s[4]) for s in self.steps), sum(bool(s[1]) for s in self.steps))

    def one(self, step, node):
        _, tag, classes, ids, pseudo = step
        if pseudo:
            return False  # of no importance for what is looked at here
        return (not tag or node[0] == tag) and set(classes) <= set(node[1].get("class", "").split()) and all(node[1].get("id") == i for i in ids)

    def matches(self, path, k=None):
        """path: nodes from the root to the one in question."""
        k = len(self.steps) - 1 if k is None else k
        if not path or not self.one(self.steps[k], path[-1]):
            return False
        if k == 0:
            return True
        if self.steps[k][0] == ">":
            return self.matches(path[:-1], k - 1)
        return any(self.matches(path[:i], k - 1) for i in range(1, len(path)))


class Sheet:
    def __init__(self, css):
        self.rules = [(Selector(s), d) for s, d in css_rules(css)]
        self.cache = {}

    def value(self, path, prop):
        key = (prop, tuple((n[0], n[1].get("class"), n[1].get("id")) for n in path))
        if key not in self.cache:
            best = None
            for i, (s, d) in enumerate(self.rules):
                if prop in d and s.matches(path) and (best is None or (s.weight, i) >= best[0]):
                    best = ((s.weight, i), d[prop])
            self.cache[key] = best and best[1]
        return self.cache[key]


class D08(DCheck):
    ID = "D08"
    TECHNIQUE = (
        "bounded exhaustive exploration of numbering definitions and list structures through the real conversion; the"
        " marker every list gets is computed from HTML and style sheet by the cascade and compared with the definition"
    )
    ASSUMPTIONS = DCheck.ASSUMPTIONS + ("number formats other than decimal, lower-case letters and lower-case roman are shown as some ordered marker",)
    KNOWN = {"decimal": "decimal", "no format": "decimal", "lowerLetter": "lower-alpha", "lowerRoman": "lower-roman"}
    ORD = ["decimal", "lower-alpha", "lower-roman", "upper-alpha", "upper-roman", "lower-latin", "upper-latin", "decimal-leading-zero"]

    def marker(self, fmt, lvl):
        """what a level is shown with; None: any ordered marker."""
        if fmt in self.UNORD:
            return ("disc", "circle")[lvl % 2]
        return self.KNOWN.get(fmt)

    # levels of which the format or the text is not given
    UNORD = {"bullet", "bullet, no text", "no text", "nothing"}

    def level(self, i, f):
        if f == "no format":
            return (i, None, f"%{i+1}.")
        if f == "nothing":
            return (i, None, None)
        if f.endswith("no text"):
            return (i, "bullet" if f != "no text" else "lowerRoman", None)
        return (i, f, "\u2022" if f == "bullet" else f"%{i+1}.")

    def judge(self, defs, items, ctx, what, linked=False):
        """defs: {definition: {level: format}}; items: [[(definition, level)]], one list of them per cell."""
        numb = ""
        for a, lv in defs.items():
            lv = [self.level(i, f) for i, f in lv.items()]
            if linked:  # levels are those of a list style
                own, style = dx.abstract(a, [], f'<w:numStyleLink w:val="L{a}"/>'), dx.abstract(a + 5000, lv, f'<w:styleLink w:val="L{a}"/>')
                numb += own + style if linked == 1 else style + own
            else:
                numb += dx.abstract(a, lv)
        numb += "".join(dx.num(a + 1, a) for a in defs)
        rows = []
        for r, cell in enumerate(items):
            rows.append(dx.row(dx.cell(*[dx.para(f"{r} {i}", num=(a + 1, l)) for i, (a, l) in enumerate(cell)], dx.para())))
        c = self.conv(ctx, [dx.tbl(*rows)], len(rows), numbering=numb)
        if c.html_text is None or c.css is None:
            return f"conversion failed: {c.error} for {what}"
        sheet, found = Sheet(c.css), {}

        def walk(path):
            for k in kids(path[-1]):
                if k[0] == "li":
                    lst = path[-1]
                    t = "".join(text_of(s) for s in kids(k) if s[0] == "span")
                    val = sheet.value(path, "list-style-type")
                    if val is None:
                        depth = sum(n[0] in ("ul", "ol") for n in path)
                        val = "decimal" if lst[0] == "ol" else ("disc", "circle", "square")[min(depth, 3) - 1]
                    if t:
                        found[t] = (lst[0], val)
                walk(path + [k])

        walk([c.root])
        for r, cell in enumerate(items):
            for i, (a, l) in enumerate(cell):
                fmt = defs[a][l]
                tag, val = found.get(f"{r} {i}", (None, None))
                want = self.marker(fmt, l)
                ctx.state((fmt, l, tag, val))
                if tag != ("ul" if fmt in self.UNORD else "ol"):
                    return f"item {i} of {cell} is in <{tag}>, its level is {fmt}: {what}"
                if (val != want) if want else (val not in self.ORD):
                    return f"item {i} of {cell} is shown with {val}, expected {want} for {fmt} at level {l}: {what} {c.css[-1500:]}"
        return None

    FMTS = ["bullet", "decimal", "lowerLetter", "lowerRoman", "upperRoman"]

    def gen_kinds(self):
        """formats of three levels x all sequences of levels."""
        for fmts in itertools.product(self.FMTS, repeat=3):
            for n in range(1, Q(4, 5)):
                yield (fmts, n)

    def ev_kinds(self, case, ctx):
        fmts, n = case
        defs = {3: dict(enumerate(fmts))}
        return self.judge(defs, [[(3, l) for l in s] for s in sequences(range(3), n, n)], ctx, case)

    def gen_two(self):
        """two definitions, one list of which comes after or within a table with the other."""
        small = ["bullet", "decimal", "lowerRoman"]
        for a in itertools.product(small, repeat=2):
            for b in itertools.product(small, repeat=2):
                for ids in ((0, 1), (1, 0), (1, 11), (11, 1), (12, 2), (0, 100)):
                    yield (a, b, ids)

    def ev_two(self, case, ctx):
        a, b, (i, j) = case
        defs = {i: dict(enumerate(a)), j: dict(enumerate(b))}
        toks = [(i, 0), (i, 1), (j, 0), (j, 1)]
        return self.judge(defs, list(sequences(toks, 1, Q(3, 4))), ctx, case)

    MORE = ["bullet", "decimal", "lowerRoman", "no format", "no text", "bullet, no text", "nothing"]

    def gen_given(self):
        for fmts in itertools.product(self.MORE, repeat=2):
            for other in itertools.product(["bullet", "decimal", "no format"], repeat=2):
                for linked in (0, 1, 2):
                    yield (fmts, other, linked)

    def ev_given(self, case, ctx):
        fmts, other, linked = case
        defs = {1: dict(enumerate(fmts)), 12: dict(enumerate(other))}
        toks = [(1, 0), (1, 1), (12, 0), (12, 1)]
        return self.judge(defs, list(sequences(toks, 1, Q(2, 3))), ctx, case, linked)

    def gen_nine(self):
        for a in range(9):
            for f in self.FMTS:
                for g in self.FMTS:
                    yield (a, f, g)

    def ev_nine(self, case, ctx):
        """one level differs from the others; all chains from every level to every deeper one."""
        a, f, g = case
        defs = {4: {l: g if l == a else f for l in range(9)}}
        cells = [[(4, l) for l in range(x, y + 1)] for x in range(9) for y in range(x, 9)]
        cells += [[(4, x), (4, y), (4, x)] for x in range(9) for y in range(9)]
        return self.judge(defs, cells, ctx, case)

    def gen_many(self):
        for n in Q((10, 70, 130, 260), (10, 70, 130, 260, 1100)):
            for shift in range(3):
                yield (n, shift)

    def ev_many(self, case, ctx):
        n, shift = case
        f = self.FMTS
        defs = {k: {l: f[(k * 7 + l * (shift + 1) + shift) % len(f)] for l in range(3)} for k in range(n)}
        return self.judge(defs, [[(k, 0), (k, 1), (k, 2), (k, 0)] for k in range(n)], ctx, case)

    def spaces(self):
        return [
            Space("kinds", self.gen_kinds, self.ev_kinds, f"all assignments of {self.FMTS} to three levels x all sequences of 1..{Q(3,4)} levels"),
            Space("two", self.gen_two, self.ev_two, f"all pairs of two-level definitions over 3 formats with 6 pairs of numbers x all sequences of 1..{Q(3,4)} items"),
            Space("given", self.gen_given, self.ev_given, f"all pairs of {len(self.MORE)} levels without format or text x 9 of a second definition, directly and through list styles before or behind, all sequences of 1..{Q(2,3)} items"),
            Space("nine levels", self.gen_nine, self.ev_nine, "one of nine levels in a format of its own, 5 x 5 formats, all chains and returns"),
            Space("many", self.gen_many, self.ev_many, f"up to {Q(260, 1100)} definitions in one document"),
        ]


class D09(DCheck):
    ID = "D09"
    TECHNIQUE = "bounded exhaustive exploration of cell backgrounds through the real conversion; the background of every cell is computed from HTML and style sheet"
    ASSUMPTIONS = DCheck.ASSUMPTIONS + ("a fill is six hexadecimal digits or 'auto'",)

    def want(self, fill):
        if fill is None or fill == "auto" or fill.lower() == "ffffff":
            return None
        return fill.lower()

    def judge(self, grid, ctx, what, table=None, read=None):
        """grid: rows of fills."""
        n = 0
        rows = []
        for r in grid:
            cells = []
            for f in r:
                cells.append(dx.cell(f"c{n}", fill=f))
                n += 1
            rows.append(dx.row(*cells))
        return self.check([dx.tbl(*rows)], [f for r in grid for f in r], ctx, what)

    def check(self, body, fills, ctx, what):
        c = self.conv(ctx, body, len(fills))
        if c.html_text is None or c.css is None:
            return f"conversion failed: {c.error} for {what}"
        sheet, found, used = Sheet(c.css), {}, {}

        def walk(path):
            for k in kids(path[-1]):
                p = path + [k]
                if k[0] in ("td", "th"):
                    own = [plain(x) for x in kids(k) if x[0] == "p"]
                    val = sheet.value(p, "background-color") or sheet.value(p, "background")
                    if own:
                        found[own[0]] = (k[0], val, k[1].get("class"))
                walk(p)

        walk([c.root])
        defined = [s[1:] for s, _ in css_rules(c.css) if s.startswith(".")]
        by = {}
        for i, f in enumerate(fills):
            tag, val, cls = found.get(f"c{i}", (None,) * 3)
            if tag is None:
                return f"cell c{i} is missing for {what}"
            want = self.want(f)
            got = val.lower().lstrip("#") if val else None
            if got in ("transparent", "inherit", "none"):
                got = None
            ctx.state((want, got))
            if got != want:
                return f"cell with fill {f} has background {val} ({cls}) for {what} {c.css[-800:]}"
            if cls is not None:
                if defined.count(cls) != 1:
                    return f"class {cls} is defined {defined.count(cls)} times for {what}"
                if by.setdefault(f, cls) != cls:
                    return f"two classes {cls}, {by[f]} for fill {f} in {what}"
        return None

    VALS = [None, "auto", "FFFFFF", "ffffff", "fffFFF", "D9D9D9", "d9d9d9", "000000", "FF0000", "ff0000", "00FF00", "FFFFFE", "BFBFBF", "123456", "ABCDEF"]

    def gen_seq(self):
        yield from chunks(sequences(self.VALS, 1, 2), 24)
        yield from chunks(sequences(self.VALS[:9] if Q(1, 0) else self.VALS, 3, 3), 48)

    def ev_seq(self, case, ctx):
        return self.judge(case, ctx, case)

    def gen_digits(self):
        """every value of every digit pair; every digit in every place."""
        for k in range(3):
            for base in ("00", "ff", "7E"):
                yield [("".join(f"{v:02X}" if i == k else base for i in range(3)),) for v in range(256)]
        for k in range(6):
            yield [("".join(d if i == k else "0" for i in range(6)),) for d in "0123456789abcdefABCDEF"]

    def gen_many(self):
        for n in Q((10, 70, 130, 260, 520, 1100), (10, 70, 130, 260, 520, 1100, 4200)):
            for order in ("once", "twice", "back"):
                yield (n, order)

    def ev_many(self, case, ctx):
        n, order = case
        cols = [f"{i * 4099 % 0xFFFFFF:06X}" for i in range(n)]
        cols += {"once": [], "twice": cols, "back": cols[::-1]}[order]
        return self.judge([tuple(cols[i : i + 6]) for i in range(0, len(cols), 6)], ctx, case)

    def gen_places(self):
        for a in self.VALS[:9]:
            for b in self.VALS[:9]:
                for place in ("merged down", "merged across", "nested", "tables", "with text colour", "other shd attributes"):
                    yield (a, b, place)

    def ev_places(self, case, ctx):
        a, b, place = case
        c = lambda i, f, *more, **kw: dx.cell(dx.para(f"c{i}"), *more, fill=f, **kw)
        if place == "merged down":
            # the cells merged into another one have fills of their own, which do not show
            body = [dx.tbl(dx.row(c(0, a, vmerge="restart"), c(1, b)), dx.row(dx.cell(dx.para(), vmerge="", fill=b), c(2, a)))]
            fills = [a, b, a]
        elif place == "merged across":
            body = [dx.tbl(dx.row(c(0, a, span=2), c(1, b)), dx.row(c(2, b), c(3, a), c(4, b)))]
            fills = [a, b, b, a, b]
        elif place == "nested":
            body = [dx.tbl(dx.row(c(0, a, dx.tbl(dx.row(c(1, b), c(2, None))), dx.para()), c(3, a)))]
            fills = [a, b, None, a]
        elif place == "tables":
            body = [dx.tbl(dx.row(c(0, a))), dx.para("x"), dx.tbl(dx.row(c(1, b), c(2, a)))]
            fills = [a, b, a]
        elif place == "with text colour":
            run = lambda i, col: dx.para(dx.run(f"c{i}", rpr=f'<w:color w:val="{col or "auto"}"/>'))
            body = [dx.tbl(dx.row(dx.cell(run(0, b), fill=a), dx.cell(run(1, a), fill=b)))]
            fills = [a, b]
        else:
            body = [dx.tbl(dx.row(c(0, a), c(1, b))).replace('w:color="auto"', 'w:color="FF0000" w:themeFill="background1"')]
            fills = [a, b]
        return self.check(body, fills, ctx, case)

    def spaces(self):
        return [
            Space("sequences", self.gen_seq, self.ev_seq, f"all rows of 1..2 cells over {self.VALS}, of 3 over {Q(9, 15)} of them"),
            Space("digits", self.gen_digits, self.ev_seq, "every value of every component with three values of the others, every digit at every place in both cases"),
            Space("many", self.gen_many, self.ev_many, f"up to {Q(1100, 4200)} colours in one document, once or twice"),
            Space("places", self.gen_places, self.ev_places, "9 x 9 fills in merged, nested and several tables, with text colours, with other attributes"),
        ]
