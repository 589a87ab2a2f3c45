"""Reference model of stage 2 (HTML -> entities and lint), on plain trees.

Written from the properties and the documentation; shares no code with
/repo.  Scanners instead of regular expressions, an occupancy grid instead of
the re-insertion lists, explicit recursion instead of generators.
"""
from .tree import kids, text

ELL = "…"
SPECIAL = ("RESERVED", ELL, "OBSOLETE")
MSG = {
    "O1000": "general error",
    "T1000": "error parsing table - the table's columns implied it should be parsed but some quirk of the table caused the parser to fail",
    "T1001": "field overlaps with range of prior field",
    "T1002": "gap between this and the prior field",
    "T1004": "row order wrong, bits should be in desc order, bytes in asc order",
    "T1006": "non-standard table header",
    "T1007": "table skipped",
    "T1008": "failed to extract figure ID from table header",
    "L1000": "error extracting label",
    "L1001": "empty label",
    "L1002": "duplicate label",
    "L1003": "label missing, using imputed value",
    "L1004": "label contained invalid characters",
    "L1007": "label manually overridden",
    "V1000": "error extracting value",
    "V1001": "empty value",
    "V1002": "duplicate value",
    "V1003": "invalid value",
    "R1000": "error extracting range",
    "R1001": "invalid range, neither single offset value, nor a [high:low] range",
    "R1002": "range reversed",
}


class Fail(Exception):
    """a figure cannot be parsed."""


def is_word(c):
    return c.isalnum() or c == "_"


def is_special(t):
    return t.upper() in SPECIAL or t.lower().startswith("note")


def span_while(s, i, ok):
    j = i
    while j < len(s) and ok(s[j]):
        j += 1
    return j


def split_content(t):
    """-> (label, acronym, brief) of a description text."""
    i = span_while(t, 0, lambda c: is_word(c) or c.isspace() or c in ",-./&")
    label = t[:i]
    if i < len(t) and t[i] == "(":
        i += 1
    j = span_while(t, i, lambda c: is_word(c) or c.isspace())
    acr = t[i:j]
    i = j
    if i < len(t) and t[i] == ")":
        i += 1
    if i < len(t) and t[i] == ":":
        i += 1
    return label, acr, t[i:]


def brief_of(t):
    if ":" not in t:
        return None
    b = split_content(t)[2]
    if b == "":
        return None
    b = b.rstrip(".").lstrip(" ")
    if len(b) > 60:
        b = b.split(".", 1)[0]
        if len(b) > 60:
            return None
    return b or None


def normalize(name):
    out = name.strip().replace(" ", "_").replace("/", "").replace("-", "_")
    return out.replace("__", "_").upper()


def well_formed(name):
    return (
        name != ""
        and name[0].isascii()
        and name[0].isalpha()
        and all(is_word(c) for c in name)
    )


def tolerated(name):
    # a leading dot or a lone ellipsis counts as an ellipsis name
    return name.lstrip().startswith(".") or name.rstrip() == ELL


def initials(t):
    return "".join(w[0] for w in t.split())


def parse_range(t):
    """-> (low, high) or None."""
    i = span_while(t, 0, str.isdecimal)
    if i == 0:
        return None
    hi = int(t[:i])
    j = span_while(t, i, str.isspace)
    if i == len(t):
        return hi, hi
    if j == len(t):
        return hi, hi
    if t[j] != ":":
        return None
    j = span_while(t, j + 1, str.isspace)
    k = span_while(t, j, str.isdecimal)
    if k == j or k != len(t):
        return None
    return int(t[j:k]), hi


def parse_dynamic(t):
    s = t.replace("\n", "").replace(" ", "")
    if s.count(":") != 1:
        return None
    a, b = s.split(":")
    ok = lambda x: x != "" and all((c.isascii() and c.isalnum()) or c in "+-*()" or c.isspace() for c in x)
    return (b, a) if ok(a) and ok(b) else None


HDR_ALIASES = {"code": "value", "bit": "bits", "byte": "bytes"}


def norm_hdr(t):
    t = t.lower().strip().replace("\n", " ").replace("\r", "")
    while "  " in t:
        t = t.replace("  ", " ")
    return t.strip()


def first_in(hdrs, names):
    return next((h for h in hdrs if h in names), None)


def struct_map(hdrs, rng, content=("description",), label=("attribute", "description")):
    r, l, c = first_in(hdrs, (rng,)), first_in(hdrs, label), first_in(hdrs, content)
    return None if None in (r, l, c) else (r, l, c)


def value_map(hdrs):
    content = ("definition", "description", "power scope")
    v = first_in(hdrs, ("value", "values"))
    l = first_in(hdrs, ("attribute",) + content)
    c = first_in(hdrs, content)
    if None not in (v, l, c):
        return v, l, c
    if len(hdrs) == 2 and v == "value":
        other = first_in([h for h in hdrs if h != "value"], hdrs)
        if other:
            return v, other, other
    return None


def choose(hdrs):
    m = struct_map(hdrs, "bytes")
    if m:
        return "bytes", m
    m = value_map(hdrs)
    if m:
        return "values", m
    m = struct_map(hdrs, "bits")
    if m:
        return "bits", m
    return None, None


def has_th(row):
    return bool(kids(row, "th"))


def data_rows(tbl):
    """[(row node, cells or None)] with spanning cells written out; None: heading."""
    out = []
    pending = []  # (column, node, rows left, width)
    for row in kids(tbl, "tr"):
        if has_th(row):
            out.append((row, None))
            pending = [(c, n, k - 1, w) for c, n, k, w in pending if k > 1]
            continue
        own = kids(row, "td")
        here = {c: (n, w) for c, n, k, w in pending}
        cells, col = [], 0
        nxt = [(c, n, k - 1, w) for c, n, k, w in pending if k > 1]
        own_it = iter(own)
        left = dict(here)
        while True:
            if col in left:
                n, w = left.pop(col)
                cells.append(n)
                col += w
                continue
            n = next(own_it, None)
            if n is None:
                break
            try:
                w = int(n[1].get("colspan", 1))
                k = int(n[1].get("rowspan", 1))
            except ValueError:
                raise Fail()
            cells.append(n)
            if k > 1:
                nxt.append((col, n, k - 1, w))
            col += w
        cells += [left[c][0] for c in sorted(left)]  # ragged rows only
        pending = sorted(nxt, key=lambda x: x[0])
        if cells:
            out.append((row, cells))
    return out


def row_text(cells):
    from .tree import text_of

    return "".join(text_of(c) for c in cells).strip()


class Model:
    def __init__(self, quirk=None, overrides=None):
        self.lint = []
        self.entities = []
        self.quirk = quirk or {}
        self.overrides = overrides or {}
        self.unnamed = 0
        self.failed_at = None
        self.aborted = False
        self.innermost = None

    def issue(self, code, fig, row=None, ctx=None):
        self.lint.append((code, fig, row, ctx or {}))

    # -- document ---------------------------------------------------------
    def document(self, root, skip=True):
        body = kids(root, "body")[0]
        for tbl in kids(body, "table"):
            trs = kids(tbl, "tr")
            if trs and kids(trs[0], "td"):
                first = kids(kids(trs[0], "td")[0])
                if first and first[0][0] == "table":
                    tbl = first[0]
                    trs = kids(tbl, "tr")
            if not trs:
                continue
            title = text(trs[0])
            if "Figure" not in title:
                continue
            num = figure_number(title)
            if num is None:
                self.issue("T1008", f"FIG_ID_MISSING[{self.unnamed}]", ctx={"title": title})
                self.unnamed += 1
                continue
            rest = list(tbl[2])
            rest.remove(trs[0])
            if not self.top_figure({"fig_id": num, "title": title}, (tbl[0], tbl[1], rest), skip):
                self.aborted = True
                return self
        return self

    def top_figure(self, meta, tbl, skip):
        """False: processing stops here."""
        self.innermost = None
        try:
            self.figure(meta, tbl, skip)
            return True
        except Fail:
            m = self.innermost or meta
            self.issue("T1000", m["fig_id"], ctx={"title": m["title"]} if "title" in m else {})
            self.innermost = None
            return skip

    def figure(self, meta, tbl, skip):
        fig = meta["fig_id"]
        trs = kids(tbl, "tr")
        hdrs = []
        if trs:
            for c in kids(trs[0]):
                h = norm_hdr(text(c))
                if h in HDR_ALIASES:
                    self.issue("T1006", fig, ctx={"got": h, "expected": HDR_ALIASES[h]})
                    h = HDR_ALIASES[h]
                hdrs.append(h)
        special = self.quirk.get(fig)
        if special:
            kind = special["kind"]
            m = struct_map(hdrs, kind)
            if m is None:
                raise Fail()
        else:
            kind, m = choose(hdrs)
            if kind is None:
                self.issue("T1007", fig, ctx={"columns": hdrs})
                return
        # the last column of a name is the one used
        cols = {h: i for i, h in enumerate(hdrs)}
        idx = tuple(cols[h] for h in m)
        try:
            glued = None
            if kind == "values":
                fields = self.values(meta, tbl, idx, skip)
            else:
                fields, glued = self.struct(meta, tbl, idx, kind, special, skip)
            self.entities.append({**meta, "type": kind, "fields": fields})
        except Fail:
            if self.innermost is None:
                self.innermost = meta
            raise
        if glued:
            gmeta, gtbl = glued
            if not self.top_figure(gmeta, gtbl, skip):
                raise Abort()

    def subtables(self, fig, key, content, skip):
        for t in kids(content, "table"):
            self.figure({"fig_id": f"{fig}_{key}", "parent_fig_id": fig}, t, skip)

    # -- bits and bytes -----------------------------------------------------
    def struct(self, meta, tbl, idx, kind, special, skip):
        fig = meta["fig_id"]
        ri, li, ci = idx
        fields, dyn, glued = [], False, None
        rows = data_rows(tbl)
        for pos, (row, cells) in enumerate(rows):
            if cells is None:
                wide = "".join(text(k) for c in kids(row) if "colspan" in c[1] for k in kids(c))
                if "List" in wide:
                    dyn = True
                continue
            lbl_p = kids(cells[li], "p") if li < len(cells) else []
            if ri >= len(cells) or ci >= len(cells) or not lbl_p:
                t = row_text(cells).lower()
                if t.startswith(ELL):
                    fields.append({"range": {"low": -1, "high": -1}, "label": ELL})
                    continue
                if t.startswith("note"):
                    break
                if special:
                    if special.get("skip_row") and row_text(cells).endswith(special["skip_row"]):
                        continue
                    if special.get("glued") and t.startswith(special["glued"][0]):
                        ttl = row_text(cells)
                        gm = {"fig_id": special["glued"][1]}
                        if "Figure" in ttl:
                            gm["title"] = ttl
                        trs = kids(tbl, "tr")
                        at = next(i for i, r in enumerate(trs) if r is row)
                        glued = (gm, ("table", {}, trs[at + 1 :]))
                        break
                    raise Fail()
                if len(cells) == 1:
                    continue
                raise Fail()
            rng, content, label = text(cells[ri]), text(cells[ci]), text(lbl_p[0])
            if is_special(rng):
                continue
            if is_special(content) or is_special(label):
                r = self.range_of(fig, rng)
                s = content if is_special(content) else label
                if s.upper() in SPECIAL:
                    fields.append({"range": r, "label": s.upper()})
                continue
            r = self.dynamic_of(fig, rng) if dyn else self.range_of(fig, rng)
            key = r if isinstance(r, str) else str(r["low"])
            f = {"range": r, "label": self.struct_name(fig, key, label, li == ci)}
            b = brief_of(content)
            if b:
                f["brief"] = b
            self.subtables(fig, key, cells[ci], skip)
            fields.append(f)
        if kind == "bits":
            fields.reverse()
        self.check_struct(fig, fields)
        return fields, glued

    def range_of(self, fig, t):
        r = parse_range(t)
        if r is None:
            self.issue("R1001", fig, t)
            return t
        if r[0] > r[1]:
            self.issue("R1002", fig, t)
        return {"low": r[0], "high": r[1]}

    def dynamic_of(self, fig, t):
        r = parse_dynamic(t)
        if r is None:
            self.issue("R1001", fig, t)
            return t
        return {"low": r[0], "high": r[1]}

    def struct_name(self, fig, key, t, same_col):
        if same_col:
            label, acr, _ = split_content(t)
            if acr:
                name = acr
            elif label:
                name = label if label.upper() in SPECIAL else initials(label)
            else:
                self.issue("L1000", fig, key)
                name = t
        else:
            head, colon, _ = t.partition(":")
            if not colon:
                self.issue("L1003", fig, key)
                name = initials(t)
            else:
                if " " in head:
                    self.issue("L1004", fig, key)
                name = head
        name = normalize(name)
        if not well_formed(name) and not tolerated(name):
            self.issue("L1004", fig, key, {"label": name})
        return name.lower()

    def check_struct(self, fig, fields):
        for x in struct_lint(fig, fields):
            self.issue(*x)

    # -- values ---------------------------------------------------------------
    def values(self, meta, tbl, idx, skip):
        fig = meta["fig_id"]
        vi, li, ci = idx
        fields = []
        for row, cells in data_rows(tbl):
            if cells is None:
                continue
            if vi >= len(cells) or ci >= len(cells):
                t = row_text(cells).lower()
                if t.startswith(ELL):
                    fields.append({"val": ELL, "label": ELL})
                elif t.startswith("notes:"):
                    break
                continue
            val = text(cells[vi]).lower()
            if val == ELL:
                fields.append({"val": ELL, "label": ELL})
                continue
            if (fig, val) in self.overrides:
                name = self.overrides[(fig, val)]
                self.issue("L1007", fig, val)
            else:
                name = self.value_name(fig, val, cells, li, ci)
            f = {"val": val, "label": name}
            b = brief_of(text(cells[ci]))
            if b:
                f["brief"] = b
            self.subtables(fig, val, cells[ci], skip)
            fields.append(f)
        for x in value_lint(fig, fields):
            self.issue(*x)
        return fields

    def value_name(self, fig, val, cells, li, ci):
        if li != ci:
            ps = kids(cells[li], "p") if li < len(cells) else []
            if not ps:
                raise Fail()
            t = text(ps[0]).lower()
            if t == "reserved":
                return "RESERVED"
            head, colon, _ = t.partition(":")
            if not colon:
                self.issue("L1003", fig, val)
            name = head.replace(" ", "_").upper()
            if name == "RESERVED":
                return name
        else:
            ps = kids(cells[ci], "p")
            if not ps:
                self.issue("L1000", fig, val)
                raise Fail()
            t = text(ps[0])
            if t.upper() == "RESERVED":
                return "RESERVED"
            i = span_while(t, 0, lambda c: is_word(c) or c.isspace() or c in "/-")
            name = t[:i]
            if name == "":
                self.issue("L1000", fig, val)
                name = t
        d = span_while(name, 0, str.isdecimal)
        if d:
            rest = name[d:].split("\n", 1)[0].strip("_")
            name = f"{rest}_{name[:d]}".strip("_")
        name = normalize(name)
        if not well_formed(name) and not tolerated(name):
            self.issue("L1004", fig, val, {"label": name})
        return name


class Abort(Exception):
    pass


def figure_number(title):
    if not title.startswith("Figure"):
        return None
    rest = title[6:]
    if rest == "" or not rest[0].isspace():
        return None
    rest = rest.lstrip()
    i = span_while(rest, 0, lambda c: not c.isspace() and c not in "^:")
    return rest[:i] or None


def row_key(rng):
    return str(rng["low"]) if isinstance(rng, dict) else rng


def numeric(f):
    r = f["range"]
    if f["label"] == ELL or isinstance(r, str):
        return None
    if not (isinstance(r["low"], int) and isinstance(r["high"], int)):
        return None
    return r["low"], r["high"]


def struct_lint(fig, fields):
    """order, duplicate, overlap and gap reports due for emitted fields."""
    for a, b in zip(fields, fields[1:]):
        x, y = numeric(a), numeric(b)
        if x and y and y[0] < x[0]:
            return [("T1004", fig, None, {})]
    out, seen = [], set()
    for i, f in enumerate(fields):
        name = f["label"]
        if name not in ("RESERVED", ELL):
            if name in seen:
                out.append(("L1002", fig, row_key(f["range"]), {"label": name}))
            seen.add(name)
        if i:
            x, y = numeric(fields[i - 1]), numeric(f)
            if x and y:
                if y[0] <= x[1]:
                    out.append(("T1001", fig, row_key(f["range"]), {}))
                elif y[0] > x[1] + 1:
                    out.append(("T1002", fig, row_key(f["range"]), {}))
    return out


def value_lint(fig, fields):
    out, names, vals = [], set(), set()
    for f in fields:
        if f["label"] in ("RESERVED", ELL):
            continue
        if f["label"] in names:
            out.append(("L1002", fig, f["val"], {"label": f["label"]}))
        names.add(f["label"])
        if f["val"] in vals:
            out.append(("V1002", fig, f["val"], {}))
        vals.add(f["val"])
    return out


QUIRKS = {
    ("nvm express® nvm command set specification", "1.0c"): (
        {"23": {"kind": "bits", "glued": ("figure 24", "24")}},
        {
            ("42_4", "00b"): "none",
            ("42_4", "01b"): "idle",
            ("42_4", "10b"): "normal",
            ("42_4", "11b"): "low",
            ("49_0_4", "00b"): "none",
            ("42_0_4", "01b"): "idle",
            ("49_0_4", "10b"): "normal",
            ("49_0_4", "11b"): "low",
            ("64_0_4", "00b"): "none",
            ("64_0_4", "01b"): "idle",
            ("64_0_4", "10b"): "normal",
            ("64_0_4", "11b"): "low",
        },
    ),
    ("nvm express® zoned namespace command set specification", "1.1c"): (
        {},
        {("37", "0"): "zt", ("37", "1"): "zs", ("37", "2"): "za"},
    ),
    ("nvm express® management interface specification", "1.2c"): (
        {"64": {"kind": "bits", "glued": ("figure 65", "65")}},
        {("19", "2"): "misc"},
    ),
    ("nvm express® key value command set specification", "1.0c"): (
        {"41": {"kind": "bytes", "skip_row": "(refer to Figure 39)."}},
        {},
    ),
    ("nvm express® key value command set specification", "1.0"): (
        {"41": {"kind": "bytes", "skip_row": "(refer to Figure 39)."}},
        {},
    ),
}


class Result:
    def __init__(self, entities, lint, failed):
        self.entities = entities
        self.lint = lint
        self.failed = failed


def reference(root, skip=True):
    """entities, lint [(code, fig, row, ctx)], whether processing stops with an error."""
    meta = kids(kids(root, "head")[0], "meta")[0]
    key = (meta[1]["data-spec"].lower(), meta[1]["data-revision"].lower())
    quirk, overrides = QUIRKS.get(key, ({}, {}))
    m = Model(quirk, overrides)
    try:
        m.document(root, skip)
    except Abort:
        m.aborted = True
    return Result(m.entities, m.lint, m.aborted)
