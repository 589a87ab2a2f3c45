"""Element trees as plain tuples: (tag, attrs, children), text as str."""
from xml.sax.saxutils import escape as _esc, quoteattr


def E(tag, *children, **attrs):
    return (tag, attrs, list(children))


def text_of(node):
    """all text below node, in order, as the parser will see it."""
    out = []

    def walk(n):
        for c in n[2]:
            if isinstance(c, str):
                out.append(c)
            else:
                walk(c)

    walk(node)
    return "".join(out)


def text(node):
    return text_of(node).strip()


def ser(node):
    tag, attrs, ch = node
    a = "".join(f" {k}={quoteattr(str(v))}" for k, v in attrs.items())
    return f"<{tag}{a}>" + "".join(_esc(c) if isinstance(c, str) else ser(c) for c in ch) + f"</{tag}>"


def kids(node, tag=None):
    return [c for c in node[2] if not isinstance(c, str) and (tag is None or c[0] == tag)]


def from_lxml(e):
    ch = []
    if e.text:
        ch.append(e.text)
    for c in e:
        if isinstance(c.tag, str):
            ch.append(from_lxml(c))
        if c.tail:
            ch.append(c.tail)
    return (e.tag, dict(e.attrib), ch)


# -- builders for figures ----------------------------------------------------


def p(*parts):
    return E("p", *[E("span", t) if isinstance(t, str) else t for t in parts])


def cell(tag, content, **attrs):
    """content: str (one paragraph) or list of paragraphs (str) / nodes."""
    if isinstance(content, str):
        content = [content]
    return E(tag, *[p(c) if isinstance(c, str) else c for c in content], **attrs)


def td(*content, **attrs):
    return cell("td", list(content), **attrs)


def th(*content, **attrs):
    return cell("th", list(content), **attrs)


def tr(*cells):
    return E("tr", *cells)


def title_row(txt, ncols=2):
    return tr(td(txt, colspan=str(ncols)))


def table(rows, **attrs):
    return E("table", *rows, **attrs)


def figure(num, hdrs, rows, title="T", ncols=None):
    """a top-level figure: title row, header row, rows."""
    n = ncols or len(hdrs)
    return table(
        [title_row(f"Figure {num}: {title}", n), tr(*[th(h) for h in hdrs])] + list(rows)
    )


def nested(hdrs, rows):
    return table([tr(*[th(h) for h in hdrs])] + list(rows))


def document(tables, spec="Spec", rev="1.0"):
    return E(
        "html",
        E("head", E("meta", **{"data-spec": spec, "data-revision": rev})),
        E("body", *tables),
    )


def html(doc):
    return "<!DOCTYPE html>\n" + ser(doc)
