"""S07-S15: spans, nesting, headers, whole documents, special rules, schema, spelling."""
import itertools
import json
from pathlib import Path

from . import core, impl, ref2, web
from .checks_s1 import MODEL, NOTE, struct_entities
from .core import Check, Finding, REPO, Space, scratch
from .impl import lint_multiset
from .tree import E, document, figure, from_lxml, html, kids, nested, p, table, td, text, th, title_row, tr
from .util import AFFIXED, AFFIXES, Q, alpha, both, chunks, diff, forest_space, full_compare, ids, noblank, norm_entity, sequences, std_row, word_space


def compositions(n):
    """all ways to cut n rows into blocks: tuples of block lengths."""
    for cut in itertools.product((0, 1), repeat=n - 1):
        out, k = [], 1
        for c in cut:
            if c:
                out.append(k)
                k = 1
            else:
                k += 1
        yield tuple(out + [k])


def tilings(R, C):
    """all tilings of an R x C grid into rectangles (r, c, h, w)."""
    grid = [[False] * C for _ in range(R)]

    def rec(done):
        for r in range(R):
            for c in range(C):
                if not grid[r][c]:
                    for h in range(1, R - r + 1):
                        for w in range(1, C - c + 1):
                            cells = [(i, j) for i in range(r, r + h) for j in range(c, c + w)]
                            if any(grid[i][j] for i, j in cells):
                                break
                            for i, j in cells:
                                grid[i][j] = True
                            yield from rec(done + [(r, c, h, w)])
                            for i, j in cells:
                                grid[i][j] = False
                    return
        yield tuple(done)

    yield from rec([])


class S07(Check):
    ID = "S07"
    TECHNIQUE = (
        "bounded exhaustive exploration of all merge patterns on the real code, each compared"
        " with the same table written out (and with the reference model)"
    )
    NOTE = (
        "Every merge pattern within the stated table sizes is processed in merged and in"
        " written-out form by the real code; entities and lint must be equal. Larger tables"
        " with several simultaneous spans are not covered beyond the stated families."
    )
    ASSUMPTIONS = ("header rows do not span rows", "spans tile the table without holes")

    HDRS = {
        ("Bytes", 2): ["Bytes", "Description"],
        ("Bits", 2): ["Bits", "Description"],
        ("Value", 2): ["Value", "Description"],
        ("Bytes", 3): ["Bytes", "Attribute", "Description"],
        ("Bits", 3): ["Type", "Bits", "Description"],
        ("Value", 3): ["Value", "Reference", "Definition"],
        ("Bytes", 4): ["Type", "Bytes", "Reset", "Description"],
        ("Bits", 4): ["Bits", "Attribute", "Reset", "Description"],
        ("Value", 4): ["I/O", "Value", "Description", "Notes"],
    }

    def content(self, hdr, r, c, variant):
        h = hdr.lower()
        if h in ("bytes", "bits"):
            return [f"{r * 4 + 3}:{r * 4}" if variant != "text" else f"N+{r}"]
        if h == "value":
            return [f"{r:02X}h"]
        if h == "attribute":
            return [f"A{alpha(r)}{alpha(c)}: attribute"]
        if h in ("description", "definition"):
            out = [f"Some Text {alpha(r)} (T{alpha(r)}): brief {r}."]
            if variant == "nest":
                out.append(nested(["Bits", "Description"], [std_row("1:0", r)]))
            elif variant == "reserved" and r % 2:
                out = ["Reserved"]
            return out
        return [f"x {r} {c}"]

    def tables(self, kind, C, tiles, R, variant, heads=()):
        """the same table merged and written out; heads: row numbers preceded by a heading."""
        hdrs = self.HDRS[(kind, C)]
        heading = lambda k: [tr(th(f"Section {k}", colspan=str(C)))] if k in heads else []
        merged, plain = [], []
        for r in range(R):
            merged += heading(r)
            plain += heading(r)
            mrow, prow = [], []
            for r0, c0, h, w in sorted((t for t in tiles if t[0] <= r < t[0] + t[2]), key=lambda t: t[1]):
                content = self.content(hdrs[c0], r0, c0, variant)
                a = {"colspan": str(w)} if w > 1 else {}
                prow.append(td(*content, **a))
                if r0 == r:
                    # a span also covers the headings within it
                    n = h + sum(1 for k in heads if r0 < k < r0 + h)
                    if n > 1:
                        a = {**a, "rowspan": str(n)}
                    mrow.append(td(*content, **a))
            merged.append(tr(*mrow))
            plain.append(tr(*prow))
        return figure(1, hdrs, merged), figure(1, hdrs, plain)

    def judge(self, merged, plain, ctx, model=True):
        # a figure before and one after show state carried across figures
        before = figure(7, ["Bits", "Description"], [tr(td("3", rowspan="2"), td("A B (AB): c")), tr(td("D (DD): d"))])
        after = figure(8, ["Bytes", "Description"], [std_row("0"), std_row("1", 1)])
        dm, dp = document([before, merged, after]), document([before, plain, after])
        sm, sp = html(dm), html(dp)
        gm, gp = impl.run(sm), impl.run(sp)
        ctx.replays += 2
        ctx.step(len(kids(merged, "tr")))
        ctx.state((repr(gp.entities), repr(gp.lint)))
        msg = full_compare(gp, gm, sm, "merged and written-out table differ in")
        if msg or not model:
            return msg
        want = ref2.reference(dm)
        w = [(e["fig_id"], e["type"], [f.get("range", f.get("val")) for f in e["fields"]]) for e in want.entities]
        g = [(e["fig_id"], e["type"], [f.get("range", f.get("val")) for f in e["fields"]]) for e in gm.entities]
        return diff("rows", w, g, sm)

    def gen_columns(self):
        for R in range(1, 5):
            for parts in itertools.product(list(compositions(R)), repeat=3):
                for kind in ("Bytes", "Bits", "Value"):
                    for variant in ("plain", "nest"):
                        yield (kind, 3, R, parts, variant)
        for R in range(1, Q(8, 10)):
            for parts in itertools.product(list(compositions(R)), repeat=2):
                for kind in ("Bytes", "Bits", "Value") if R < 7 else ("Bytes",):
                    yield (kind, 2, R, parts, "plain")
        for R in range(2, Q(4, 5)):
            for parts in itertools.product(list(compositions(R)), repeat=4):
                for kind in ("Bytes", "Bits", "Value"):
                    yield (kind, 4, R, parts, "reserved" if R % 2 else "text")

    def ev_columns(self, case, ctx):
        kind, C, R, parts, variant = case
        tiles = []
        for c, comp in enumerate(parts):
            r = 0
            for h in comp:
                tiles.append((r, c, h, 1))
                r += h
        return self.judge(*self.tables(kind, C, tiles, R, variant), ctx)

    def gen_tilings(self):
        sizes = [(1, 2), (2, 2), (3, 2), (4, 2), (1, 3), (2, 3), (3, 3), (2, 4)] + Q([(4, 3)], [(4, 3), (3, 4), (5, 2), (5, 3)])
        for R, C in sizes:
            for t in tilings(R, C):
                for kind in ("Bytes", "Bits", "Value") if (R, C) != (5, 3) else ("Bytes",):
                    yield (kind, C, R, t)

    def ev_tilings(self, case, ctx):
        kind, C, R, t = case
        return self.judge(*self.tables(kind, C, t, R, "plain"), ctx)

    def gen_heads(self):
        for R in range(2, Q(5, 6)):
            for parts in itertools.product(list(compositions(R)), repeat=2):
                for n in (1, 2):
                    for heads in itertools.combinations(range(R), n):
                        for kind in ("Bytes", "Value"):
                            yield (kind, R, parts, heads)

    def ev_heads(self, case, ctx):
        kind, R, parts, heads = case
        tiles = []
        for c, comp in enumerate(parts):
            r = 0
            for h in comp:
                tiles.append((r, c, h, 1))
                r += h
        return self.judge(*self.tables(kind, 2, tiles, R, "plain", heads), ctx)

    def gen_long(self):
        for C in (2, 3, 4):
            for kind in ("Bytes", "Bits", "Value"):
                for R in Q((9, 12, 40), (9, 12, 40, 110, 260)):
                    for c in range(C):
                        for r0 in range(0, R - 1, 1 if R < 20 else 3):
                            for h in {2, 3, 9, 10, 11, R - r0}:
                                if 2 <= h <= R - r0:
                                    for c2 in range(C):
                                        yield (kind, C, R, c, r0, h, c2)

    def ev_long(self, case, ctx):
        kind, C, R, c, r0, h, c2 = case
        covered = {(r, c) for r in range(r0, r0 + h)}
        tiles = [(r0, c, h, 1)]
        if c2 != c:  # a second span that ends one row later, where possible
            s = r0 + 1
            e = min(R, r0 + h + 1)
            if e - s > 1:
                tiles.append((s, c2, e - s, 1))
                covered |= {(r, c2) for r in range(s, e)}
        tiles += [(r, k, 1, 1) for r in range(R) for k in range(C) if (r, k) not in covered]
        return self.judge(*self.tables(kind, C, tiles, R, "plain"), ctx, model=False)

    def gen_tall(self):
        for kind in ("Bytes", "Bits", "Value"):
            for C in (2, 3):
                for R in Q((70, 140, 270), (70, 140, 270, 530, 1030)):
                    for c in range(C):
                        for h in sorted({31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, R - 1, R}):
                            for r0 in {0, 1, R - h} if 0 < h <= R else ():
                                if r0 + h <= R:
                                    yield (kind, C, R, c, r0, h, c)

    WIDTHS = (2, 3, 8, 9, 10, 11, 12, 19, 20, 21, 32, 63, 64, 65, 99, 100, 101, 128, 256, 1000)

    # a column of cells that are some columns wide, before, between or behind the others
    def gen_broad(self):
        for w in self.WIDTHS:
            for at in (0, 1, 2):
                for R in (2, 3):
                    for parts in itertools.product(list(compositions(R)), repeat=3):
                        for kind in ("Bytes", "Bits", "Value") if R < 3 else ("Bytes", "Value"):
                            yield (kind, w, at, R, parts)

    def ev_broad(self, case, ctx):
        kind, w, at, R, parts = case
        hdrs = [kind, "Description"]
        hdrs.insert(at, "Note")
        merged, plain = [], []
        begins = []
        for comp in parts:
            r, b = 0, {}
            for h in comp:
                b.update({k: (r, h) for k in range(r, r + h)})
                r += h
            begins.append(b)
        for r in range(R):
            mrow, prow = [], []
            for c, h in enumerate(hdrs):
                r0, n = begins[c][r]
                a = {"colspan": str(w)} if c == at else {}
                content = self.content(h, r0, c, "plain")
                prow.append(td(*content, **a))
                if r0 == r:
                    mrow.append(td(*content, **a, **({"rowspan": str(n)} if n > 1 else {})))
            merged.append(tr(*mrow))
            plain.append(tr(*prow))
        return self.judge(figure(1, hdrs, merged), figure(1, hdrs, plain), ctx, model=False)

    def gen_nested(self):
        for R in (2, 3, 4):
            for parts in itertools.product(list(compositions(R)), repeat=2):
                for outer_span in (1, 2):
                    for kind in ("Bytes", "Bits", "Value"):
                        for sib in (0, 1):
                            yield (kind, R, parts, outer_span, sib)

    def ev_nested(self, case, ctx):
        kind, R, parts, outer_span, sib = case
        tiles = []
        for c, comp in enumerate(parts):
            r = 0
            for h in comp:
                tiles.append((r, c, h, 1))
                r += h
        docs = []
        for inner in self.tables(kind, 2, tiles, R, "plain"):
            sub = table(inner[2][1:])  # no title row
            rows = []
            # the brief is cut to its first sentence, the nested text does not show in it
            cell = lambda **a: td("Outer Thing (OT): brief. " + "x" * 61, sub, **a)
            if outer_span == 1:
                rows = [tr(td("0"), cell()), std_row("1", 1)]
            elif inner is not None and not docs:
                rows = [tr(td("0"), cell(rowspan="2")), tr(td("1"))]
            else:
                rows = [tr(td("0"), cell()), tr(td("1"), cell())]
            if sib:
                rows.append(std_row("2", 2))
            docs.append(figure(1, ["Bytes", "Description"], rows))
        return self.judge(docs[0], docs[1], ctx)

    def spaces(self):
        return [
            Space("columns", self.gen_columns, self.ev_columns, f"every way to cut each column of 3-column tables of up to 4 rows, of 2-column tables of up to {Q(7,9)} rows and of 4-column tables of up to {Q(3,4)} rows into spans; bytes, bits, values; with and without nested tables, Reserved and textual rows"),
            Space("tilings", self.gen_tilings, self.ev_tilings, f"every tiling into rectangles of grids up to 4x2, 3x3, 2x4, 4x3" + Q("", ", 3x4, 5x3")),
            Space("headings", self.gen_heads, self.ev_heads, f"every cut of two columns of up to {Q(4,5)} rows with one or two heading rows at every place"),
            Space("long", self.gen_long, self.ev_long, f"a span of 2, 3, 9, 10, 11 or all rows in every column at every row of tables of up to {Q(40,260)} rows, alone or with an overlapping one"),
            Space("tall", self.gen_tall, self.ev_long, f"a span of 31..33, 49..51, 63..65, 99..101, 127..129, 255..257 or all rows in every column of tables of up to {Q(270,1030)} rows"),
            Space("broad", self.gen_broad, self.ev_broad, f"every cut of three columns of 2..3 rows, one of which is 2..1000 columns wide ({len(self.WIDTHS)} widths, 3 places)"),
            Space("nested", self.gen_nested, self.ev_nested, "every cut of two columns of up to 4 rows in a nested figure whose own cell spans or not"),
        ]


# -- nesting -----------------------------------------------------------------------


class S08(Check):
    ID = "S08"
    TECHNIQUE = MODEL + " (all trees of figures up to a depth and width)"
    NOTE = NOTE + " Two figures inside one cell get the same identifier (recorded finding)."
    ASSUMPTIONS = ("figure numbers contain no underscore",)
    KINDS = ("Bits", "Bytes", "Value")

    def judge(self, root, ctx, crowded=False):
        want, got, src = both(root, ctx)
        w, g = [norm_entity(e) for e in want.entities], [norm_entity(e) for e in got.entities]
        ctx.state([(e["fig_id"], e.get("parent_fig_id"), e["type"]) for e in w])
        msg = (
            diff("figures", ids(want), ids(got), src)
            or diff("entities", w, g, src)
            or diff("skipped", lint_multiset(want.lint, "T1007", "T1000"), lint_multiset(got.lint, "T1007", "T1000"), src)
        )
        if msg:
            return msg
        seen = [e["fig_id"] for e in got.entities]
        if len(seen) != len(set(seen)):
            dup = next(x for x in seen if seen.count(x) > 1)
            if crowded:
                raise Finding("two-tables-in-one-cell", f"identifier {dup} is given to two entities of {src}")
            return f"identifier {dup} is not unique in {src}"
        return None

    def build(self, node, i=0):
        """node: (kind, (child or None, ...)) -> rows, header."""
        kind, children = node
        if kind == "Skip":
            return nested(["Name", "Meaning"], [tr(td("a"), td("b"))])
        return nested([kind, "Description"], self.rows(node))

    def rows(self, node):
        kind, children = node
        out = []
        for i, ch in enumerate(children):
            d = [f"Item Of {alpha(i)} (I{alpha(i)}): it is {i}."]
            if ch is not None:
                d.append(self.build(ch))
            out.append(tr(td(f"{i}h" if kind == "Value" else str(i)), td(*d)))
        if kind == "Bits":
            out.reverse()
        return out

    def trees(self, depth, widths, kinds):
        for k in kinds:
            sub = [None]
            if depth > 1:
                sub += [("Skip", ())] + list(self.trees(depth - 1, widths, kinds))
            for w in widths:
                for ch in itertools.product(sub, repeat=w):
                    yield (k, ch)

    def gen_trees(self):
        for t in self.trees(2, (1, 2, 3), self.KINDS):
            yield t
        # depth 3 with all kinds, rows 1..2 at the outer level, one below
        for k in self.KINDS:
            sub = [None, ("Skip", ())] + list(self.trees(2, (1, 2), self.KINDS))
            for w in (1, 2):
                for ch in itertools.product(sub, repeat=w):
                    yield (k, ch)
        # depth 4..D chains in every kind, with a sibling before or after
        for n in range(3, Q(6, 8)):
            for ks in itertools.product(self.KINDS, repeat=n):
                for sib in (0, 1, 2):
                    t = None
                    for k in ks:
                        t = (k, (t, None) if sib == 1 else (None, t) if sib == 2 else (t,))
                    yield t

    def ev_tree(self, t, ctx):
        kind, _ = t
        figs = [
            figure(3, ["Bytes", "Description"], [std_row("0")]),
            figure(7, [kind, "Description"], self.rows(t)),
            figure(9, ["Bits", "Description"], [std_row("0")]),
        ]
        return self.judge(document(figs), ctx)

    def gen_pairs(self):
        small = list(self.trees(2, (1, 2), ("Bits", "Value")))
        for a in small:
            for b in small:
                yield (a, b)

    def ev_pairs(self, case, ctx):
        a, b = case
        return self.judge(document([figure(1, [a[0], "Description"], self.rows(a)), figure(11, [b[0], "Description"], self.rows(b))]), ctx)

    def gen_crowded(self):
        # several tables in one cell, at any level
        kinds = self.KINDS + ("Skip",)
        for depth in (1, 2, 3):
            for n in (1, 2, 3):
                for inner in itertools.product(kinds, repeat=n):
                    for outer in self.KINDS:
                        for where in ("all", "outermost", "innermost") if depth > 1 else ("all",):
                            if n < 3 or depth < 3 or Q(0, 1):
                                for text in (False, True):
                                    yield (outer, inner, depth, where, text)

    def gen_many(self):
        for outer in self.KINDS:
            for text in (False, True):
                for n in range(4, Q(33, 120)):
                    for k in self.KINDS + ("Skip",):
                        yield (outer, (k,) * n, 1, "all", text)
                    for i in range(n) if n < Q(12, 33) else (0, n // 2, n - 1):
                        yield (outer, tuple("Skip" if j == i else "Bits" for j in range(n)), 1, "all", text)
                        yield (outer, tuple("Value" if j == i else "Skip" for j in range(n)), 1, "all", text)

    def ev_crowded(self, case, ctx):
        outer, inner, depth, where, text = case
        serial = itertools.count()

        def cell(level):
            here = inner if where == "all" or (where == "outermost") == (level == depth) and (level in (1, depth)) else inner[:1]
            subs = []
            for k in here:
                if k == "Skip":
                    sub = self.build(("Skip", ()))
                else:
                    i = next(serial)
                    more = cell(level - 1) if level > 1 else []
                    sub = nested([k, "Description"], [tr(td(f"{i}h" if k == "Value" else str(i)), td(f"In {alpha(i)} (I{alpha(i)}): is {i}", *more))])
                subs += [f"Text {alpha(next(serial))}.", sub] if text else [sub]
            return subs

        row = tr(td("0h" if outer == "Value" else "0"), td("Out Er (OUT): b", *cell(depth)))
        figs = [figure(7, [outer, "Description"], [row]), figure(9, ["Bits", "Description"], [std_row("0")])]
        return self.judge(document(figs), ctx, sum(k != "Skip" for k in inner) > 1)

    PLACES = ("range", "attribute", "description", "extra", "p", "wrapped", "two", "reserved", "lone", "heading", "range…", "note", "two skip")

    def gen_places(self):
        for kind in self.KINDS:
            for inner in self.KINDS + ("Skip",):
                for pl in self.PLACES:
                    for pl2 in ("none",) + self.PLACES:
                        for order in (0, 1):
                            yield (kind, inner, pl, pl2, order)

    def ev_places(self, case, ctx):
        kind, inner, pl, pl2, order = case
        hdrs = [kind, "Attribute", "Description", "Extra"]
        crowded = False

        def row(place, i):
            nonlocal crowded
            sub = self.build((inner, (None,)))
            key = f"{i}h" if kind == "Value" else str(i)
            cells = {"range": [key], "attribute": [f"N{alpha(i)}: a"], "description": [f"D{alpha(i)}: d"], "extra": ["x"]}
            if place in cells:
                cells[place] = cells[place] + [sub]
            elif place == "p":  # below a paragraph, not directly in the cell
                cells["description"].append(E("p", E("span", "in "), sub))
            elif place == "wrapped":  # below another element
                cells["description"].append(E("div", sub))
            elif place == "two":
                crowded = crowded or inner != "Skip"
                cells["description"] += [sub, "between", self.build((inner, (None, None)))]
            elif place == "two skip":
                cells["description"] += [self.build(("Skip", ())), sub]
            elif place == "reserved":
                cells["description"] = ["Reserved", sub]
                cells["attribute"] = ["Reserved"]
            elif place == "lone":
                return tr(td("A remark", sub, colspan="4"))
            elif place == "heading":
                return tr(th("Heading", sub, colspan="4"))
            elif place == "range…":
                cells["range"] = ["…"]
                cells["description"].append(sub)
            elif place == "note":
                cells["range"] = [f"Note {i}: x"]
                cells["description"].append(sub)
            return tr(*[td(*cells[k]) for k in ("range", "attribute", "description", "extra")])

        pls = [pl, pl2] if order == 0 else [pl2, pl]
        rows = [row(x, i) for i, x in enumerate(pls)]
        if kind == "Bits":
            rows.reverse()
        return self.judge(document([figure(4, hdrs, rows), figure(5, ["Bits", "Description"], [std_row("0")])]), ctx, crowded)

    def gen_keys(self):
        for kind in self.KINDS:
            for key in ["0", "7:4", "15:08", "N+3:N", "N", "00h", "0Fh to 1Fh", "A B", "1:0", "12", "x.y", "0000", "3:5", "0:10"]:
                for num in ["1", "12", "3.1", "A-1", "100"]:
                    for deep in (0, 1, 2):
                        for dyn in (False, True):
                            yield (kind, key, num, deep, dyn)

    def ev_keys(self, case, ctx):
        kind, key, num, deep, dyn = case
        sub = nested([kind, "Description"], [tr(td(key), td("In Ner (INN): b"))])
        for _ in range(deep):
            sub = nested([kind, "Description"], [tr(td(key), td("Mid Dle (MID): b", sub)), std_row("99", 5)])
        rows = [tr(td(key), td("Out Er (OUT): b", sub))]
        if dyn:
            rows = [tr(th("Thing List", colspan="2"))] + rows
        return self.judge(document([figure(num, [kind, "Description"], rows)]), ctx)

    def gen_deep(self):
        for n in range(1, Q(13, 25)):
            for kind in self.KINDS:
                for pos in (0, 1):
                    yield (n, kind, pos)

    def ev_deep(self, case, ctx):
        n, kind, pos = case
        t = (kind, (None,))
        for _ in range(n):
            t = (kind, (t, None) if pos == 0 else (None, t))
        return self.ev_tree(t, ctx)

    def gen_wide(self):
        for n in (12, 70, 130, Q(260, 520)):
            for step in (1, 2, 7, n - 1):
                for kind in self.KINDS:
                    for sub in self.KINDS + ("Skip",):
                        yield (n, step, kind, sub, 1)
        for m in (5, 30, Q(130, 300)):
            for kind in self.KINDS:
                for sub in self.KINDS + ("Skip",):
                    yield (3, 1, kind, sub, m)

    def ev_wide(self, case, ctx):
        n, step, kind, sub, m = case
        leaf = (sub, (None, None))
        node = (kind, tuple(leaf if i % step == 0 else None for i in range(n)))
        figs = [figure(10 + k, [kind, "Description"], self.rows(node)) for k in range(m)]
        return self.judge(document(figs), ctx)

    def spaces(self):
        return [
            Space("trees", self.gen_trees, self.ev_tree, f"all trees of depth 2 and width 1..3 over three kinds and skipped tables, of depth 3 and outer width 1..2, all chains of {Q('3..5','3..7')} kinds with a sibling"),
            Space("pairs", self.gen_pairs, self.ev_pairs, "all pairs of consecutive figures with trees of depth 2"),
            Space("places", self.gen_places, self.ev_places, f"nested tables at every pair of places out of {self.PLACES}, 3 x 4 kinds"),
            Space("many in a cell", self.gen_many, self.ev_crowded, f"4..{Q(32, 119)} tables of one kind in one cell, or one of another kind at any place of them"),
            Space("crowded", self.gen_crowded, self.ev_crowded, "1..3 tables of every kind in one cell, at the outermost, innermost or every one of 1..3 levels"),
            Space("keys", self.gen_keys, self.ev_keys, "14 row keys x 5 figure numbers x 3 kinds x depth 1..3, with and without list heading"),
            Space("deep", self.gen_deep, self.ev_deep, f"chains of up to {Q(13,25)} levels"),
            Space("wide", self.gen_wide, self.ev_wide, "figures of up to 260 rows with a table in every row, every 2nd, 7th, or at both ends; 3 x 4 kinds; rows below, and series of such figures"),
        ]


# -- headers ---------------------------------------------------------------------


class S09(Check):
    ID = "S09"
    TECHNIQUE = MODEL + " (all header rows up to a width)"
    NOTE = NOTE
    ASSUMPTIONS = ("no header text the decision depends on occurs twice",)
    HDRS = ["Bytes", "Byte", "Bits", "Bit", "Value", "Values", "Code", "Attribute", "Description", "Definition", "Power Scope", "Name", ""]

    def judge(self, hdr_cells, texts, ctx, num=1):
        rows = [tr(*[td(f"c{i}: row {r} (x{i}{alpha(r)})") if not t else td(t.format(r=r)) for i, t in enumerate(texts)]) for r in range(2)]
        root = document([table([title_row("Figure 1: T", len(texts)), tr(*hdr_cells)] + rows), figure(2, ["Bits", "Description"], [std_row("0")])])
        want, got, src = both(root, ctx)
        # the columns are identified by what they say
        proj = lambda o: [(e["fig_id"], e["type"], [(f.get("range", f.get("val")), f["label"], f.get("brief") or None) for f in e["fields"]]) for e in o.entities]
        ctx.state((proj(want), lint_multiset(want.lint, "T1006", "T1007")))
        return (
            diff("figures", proj(want), proj(got), src)
            or diff("header reports", lint_multiset(want.lint, "T1006", "T1007"), lint_multiset(got.lint, "T1006", "T1007"), src)
            or diff("failure", want.failed, got.failed, src)
        )

    def ambiguous(self, s):
        n = [ref2.HDR_ALIASES.get(x.lower(), x.lower()) for x in s]
        n = [x for x in n if x not in ("name", "")]
        return len(n) != len(set(n))

    def gen_all(self):
        for s in sequences(self.HDRS, 1, Q(4, 5)):
            if not self.ambiguous(s):
                yield s

    def ev_all(self, s, ctx):
        return self.judge([th(h) for h in s], [None] * len(s), ctx)

    SPELL = [
        lambda s: s.upper(), lambda s: s.lower(), lambda s: s.title(), lambda s: " " + s + "  ", lambda s: "\n" + s + "\n", lambda s: s.replace(" ", "  ") + " ",
        lambda s: s.replace(" ", "\n"), lambda s: s.replace(" ", " \n  "), lambda s: s + ".", lambda s: s + "s", lambda s: s[:-1], lambda s: s + " (x)", lambda s: s.replace("i", "l"), lambda s: "The " + s,
        lambda s: s + "\r", lambda s: s[0] + s[1:].swapcase(),
    ]

    def gen_spell(self):
        base = [("Bytes", "Description"), ("Bits", "Attribute", "Description"), ("Value", "Definition"), ("Value", "Power Scope"), ("Code", "Name"), ("Byte", "Description"), ("Bit", "Description"), ("Values", "Attribute", "Description"), ("Value", "Some Other")]
        for b in base:
            for fs in itertools.product(range(len(self.SPELL)), repeat=2):
                for k in itertools.combinations(range(len(b)), 2):
                    yield (b, k, fs)

    def ev_spell(self, case, ctx):
        b, k, fs = case
        h = list(b)
        for i, f in zip(k, fs):
            h[i] = self.SPELL[f](h[i])
        if self.ambiguous([ref2.norm_hdr(x) for x in h]):
            return None
        return self.judge([th(x) for x in h], [None] * len(h), ctx)

    def gen_affixes(self):
        for b in (("Bytes", "Description"), ("Attribute", "Bits", "Description"), ("Value", "Something")):
            for k in range(len(b)):
                for c in chunks(AFFIXES, 8):
                    yield (b, k, c)

    def ev_affixes(self, case, ctx):
        b, k, affixes = case
        figs = []
        for a in affixes:
            for x in (b[k] + a, a + b[k], b[k][:3] + a + b[k][3:], b[k] + " " + a):
                h = list(b)
                h[k] = x
                if not self.ambiguous([ref2.norm_hdr(y) for y in h]):
                    figs.append(figure(len(figs) + 1, h, [tr(*[td(f"c{i}: x") for i in range(len(h))])]))
        want, got, src = both(document(figs), ctx)
        proj = lambda o: [(e["fig_id"], e["type"], [(f.get("range", f.get("val")), f["label"]) for f in e["fields"]]) for e in o.entities]
        ctx.state((proj(want), lint_multiset(want.lint, "T1006", "T1007")))
        return diff("figures", proj(want), proj(got), src) or diff(
            "header reports", lint_multiset(want.lint, "T1006", "T1007"), lint_multiset(got.lint, "T1006", "T1007"), src
        )

    def gen_columns(self):
        for n in range(13, Q(80, 300)):
            for a, b in (("Bytes", "Description"), ("Description", "Bits"), ("Code", "Definition"), ("Bit", "Description")):
                for at in ((0, n - 1), (n - 2, n - 1), (n // 2, n - 1)):
                    s = [f"Column {i}" for i in range(n)]
                    s[at[0]], s[at[1]] = a, b
                    yield tuple(s)
        for n in range(1, Q(60, 150)):
            for b in (" " * n, "\n" * n, " \n" * n):
                yield ("Bytes" + b, b + "Description")
                yield ("Code" + b, "Power" + b + " Scope")

    FORMS = ["th", "td", "spans", "paras", "markup", "no p", "colspan"]

    def gen_forms(self):
        for b in [("Bytes", "Description"), ("Bits", "Attribute", "Description"), ("Code", "Power Scope"), ("Name", "Meaning"), ("Value", "Other")]:
            for f in itertools.product(self.FORMS, repeat=len(b)):
                yield (b, f)

    def ev_forms(self, case, ctx):
        b, f = case
        cells = []
        for h, form in zip(b, f):
            mid = len(h) // 2
            cells.append({
                "th": lambda: th(h),
                "td": lambda: td(h),
                "spans": lambda: E("th", E("p", E("span", h[:mid]), E("span", h[mid:]))),
                "paras": lambda: th(h, ""),
                "markup": lambda: E("th", E("p", E("span", E("em", h)))),
                "no p": lambda: E("th", h),
                "colspan": lambda: th(h, colspan="1"),
            }[form]())
        return self.judge(cells, [None] * len(b), ctx)

    def gen_nested(self):
        for s in sequences(self.HDRS, 1, 3):
            if not self.ambiguous(s):
                yield s

    def gen_wide(self):
        named = [h for h in self.HDRS if h not in ("", "Name")]
        for n in range(5, Q(10, 13)):
            for a in named:
                for b in named:
                    if not self.ambiguous([a, b]):
                        for i, j in itertools.combinations(range(n), 2):
                            s = ["Name", "", "Other", "Reset"] * 4
                            s = s[:n]
                            s[i], s[j] = a, b
                            yield tuple(s)
        for three in itertools.permutations([h for h in named if h not in ("Values", "Bit", "Byte")], 3):
            if self.ambiguous(three):
                continue
            for at in itertools.combinations(range(5), 3):
                s = ["Notes"] * 5
                for h, i in zip(three, at):
                    s[i] = h
                yield tuple(s)

    def ev_nested(self, s, ctx):
        sub = table([tr(*[th(h) for h in s]), tr(*[td(f"c{i}: t") for i in range(len(s))])])
        root = document([figure(1, ["Bytes", "Description"], [tr(td("5"), td("Outer (OUT): d", sub)), std_row("6")])])
        want, got, src = both(root, ctx)
        ctx.state((ids(want), lint_multiset(want.lint, "T1006", "T1007")))
        return diff("figures", ids(want), ids(got), src) or diff(
            "header reports", lint_multiset(want.lint, "T1006", "T1007"), lint_multiset(got.lint, "T1006", "T1007"), src
        )

    FOREST = {
        "standard": (["Bits", "Description"], [["31", "Field Nr A (FNA): is a"]]),
        "Bit": (["Bit", "Description"], [["31", "Field Nr A (FNA): is a"]]),
        "Byte": (["Byte", "Description"], [["0", "Field Nr A (FNA): is a"]]),
        "Values": (["Values", "Description"], [["0h", "Aa"]]),
        "Code": (["Code", "Meaning"], [["0h", "Aa"]]),
        "Bit Name": (["Bit", "Name"], [["31", "Field Nr A (FNA): is a"]]),
        "skipped": (["Name", "Meaning"], [["x", "y"]]),
    }

    def judge_forest(self, root, ctx):
        want, got, src = both(root, ctx)
        ctx.state((ids(want), lint_multiset(want.lint, "T1006", "T1007")))
        return diff("figures", ids(want), ids(got), src) or diff(
            "header reports", lint_multiset(want.lint, "T1006", "T1007"), lint_multiset(got.lint, "T1006", "T1007"), src
        )

    def words(self, w):
        rows = lambda n: [tr(*[td(f"c{i}: row (x{i})") for i in range(n)])]
        hs = [[w, "Description"], ["Bits", w], ["Value", w], [w, "Bytes", "Description"], ["Bits", w, "Description"], ["Bytes", "Description", w], [w, "Meaning"], ["Values", w, "Description"], [w]]
        return [figure(1 + i, h, rows(len(h))) for i, h in enumerate(hs) if not self.ambiguous([ref2.norm_hdr(x) for x in h])]

    def spaces(self):
        return [
            Space("headers", self.gen_all, self.ev_all, f"all header rows of 1..{Q(4,5)} columns over {self.HDRS} without ambiguous repetitions"),
            Space("spelling", self.gen_spell, self.ev_spell, f"{len(self.SPELL)}^2 spellings of pairs of columns of 9 header rows"),
            Space("forms", self.gen_forms, self.ev_forms, f"all assignments of {self.FORMS} to the cells of 5 header rows"),
            Space("nested", self.gen_nested, self.ev_nested, "all header rows of 1..3 columns in a nested figure"),
            Space("affixes", self.gen_affixes, self.ev_affixes, f"{AFFIXED} at 4 places of each column of 3 header rows"),
            Space("columns", self.gen_columns, self.ev_all, f"header rows of up to {Q(79,299)} columns, two deciding ones at 3 places; up to {Q(59,149)} blanks and line breaks around and within names"),
            Space("wide", self.gen_wide, self.ev_all, f"header rows of 5..{Q(9,12)} columns with two deciding columns at every two places among others; every three out of 8 at every three places of 5"),
            forest_space(self.FOREST, self.judge_forest, ["Bit", "Byte", "skipped"]),
            word_space(self.judge_forest, self.words, 1, "as header beside others"),
        ]


# -- whole documents --------------------------------------------------------------


def doc_tables():
    """name -> builder(number): tables of a document."""
    bits = lambda n, *rows: figure(n, ["Bits", "Description"], rows)
    failing = lambda: tr(td("5"), E("td", E("div", "x")))
    return {
        "good": lambda n: bits(n, std_row("0")),
        "bytes": lambda n: figure(n, ["Bytes", "Description"], [std_row("0"), std_row("3:2", 1)]),
        "value": lambda n: figure(n, ["Value", "Description"], [tr(td("0h"), td("Alpha: a")), tr(td("1h"), td("Alpha"))]),
        "nest": lambda n: bits(n, tr(td("1"), td("Outer (OUT): o", nested(["Value", "Description"], [tr(td("0h"), td("Aa"))]))), std_row("0", 1)),
        "skip": lambda n: figure(n, ["Name", "Meaning"], [tr(td("a"), td("b"))]),
        "fail": lambda n: bits(n, std_row("6"), failing(), std_row("0", 1)),
        "nest fail": lambda n: bits(n, tr(td("7"), td("Outer (OUT): o", nested(["Bytes", "Description"], [failing()])))),
        "untitled": lambda n: table([title_row("Table of things"), tr(th("Bits"), th("Description")), std_row("0")]),
        "unnumbered": lambda n: table([title_row("Figure: no number"), tr(th("Bits"), th("Description")), std_row("0")]),
        "mention": lambda n: table([title_row("See Figure 3: that"), tr(th("Bits"), th("Description")), std_row("0")]),
        "wrapped": lambda n: table([tr(E("td", bits(n, std_row("1"))))]),
        "wrapped2": lambda n: table([tr(E("td", bits(n, std_row("1")), E("p", "more"))), tr(td("x"))]),
        "empty": lambda n: table([]),
        "title only": lambda n: table([title_row(f"Figure {n}: T")]),
        "header only": lambda n: bits(n),
        "lone row": lambda n: table([tr(td("just text"))]),
    }


class S10(Check):
    ID = "S10"
    TECHNIQUE = MODEL + " (all sequences of table kinds)"
    NOTE = NOTE
    ASSUMPTIONS = ("figures are processed with skip-on-error, S11 covers the other mode",)
    ORDER = list(doc_tables())

    def judge(self, root, ctx):
        want, got, src = both(root, ctx)
        proj = lambda o: [(e["fig_id"], e.get("title"), e["type"], len(e["fields"])) for e in o.entities]
        codes = ("T1007", "T1000", "T1008")
        ctx.state((proj(want), lint_multiset(want.lint, *codes)))
        # order of entries matters, within one code
        order = lambda o, c: [(x[1], x[2]) for x in o.lint if x[0] == c]
        msg = (
            diff("entities", proj(want), proj(got), src)
            or diff("reports", lint_multiset(want.lint, *codes), lint_multiset(got.lint, *codes), src)
            or diff("failure", want.failed, got.failed, src)
        )
        if msg:
            return msg
        # the accounting itself, straight from the document
        n = 0
        for t in kids(kids(root, "body")[0], "table"):
            first = [x for x in kids(t, "tr")[:1]]
            inner = kids(kids(first[0], "td")[0])[:1] if first and kids(first[0], "td") else []
            if inner and inner[0][0] == "table":
                first = kids(inner[0], "tr")[:1]
            if first and "Figure" in text(first[0]):
                n += 1
        top = [e["fig_id"] for e in got.entities if "parent_fig_id" not in e]
        failed_tops = len([x for x in got.lint if x[0] == "T1000"])
        skipped = [x for x in got.lint if x[0] == "T1007" and "_" not in x[1]]
        missing = [x for x in got.lint if x[0] == "T1008"]
        if len(top) + failed_tops + len(skipped) + len(missing) != n:
            return f"{n} figures, but {len(top)} entities, {failed_tops} failed, {len(skipped)} skipped, {len(missing)} without number, for {src}"
        return None

    def gen_seq(self):
        for s in sequences(self.ORDER, 0, 3):
            yield s
        small = ["good", "nest", "skip", "fail", "unnumbered", "untitled", "wrapped", "empty"]
        for s in sequences(small, 4, Q(5, 6)):
            yield s

    def ev_seq(self, s, ctx):
        T = doc_tables()
        parts = []
        for i, k in enumerate(s):
            parts.append(T[k](i + 1))
            if i % 2:
                parts.append(E("p", "Figure 99: in between"))
        return self.judge(document(parts), ctx)

    NUMS = ["1", "12", "123", "3.1", "A", "A-1", "1:", "7^2", "x y", "007", "1.", "2: T: U", "", ":", "^", "9)", "٣", "12:34", "5,6"]
    PRE = ["Figure {}", "Figure {}: Title", "Figure  {}: T", "Figure\u00a0{}: T", "Figure\n{}: T", " Figure {}: T", "figure {}: T", "FIGURE {}: T", "Figure{}: T", "Fig. {}: T", "The Figure {}: T", "Figures {}: T", "Figure {} : T", "Figure {} – T", "Figure: {} T", "{} Figure", "Table {}: Figure", "Figure {}: T (Figure 3)", "Figure\t{} T"]

    def gen_titles(self):
        for a in self.PRE:
            for n in self.NUMS:
                for m in (1, 2, 3):
                    yield (a.format(n), m)

    def ev_titles(self, case, ctx):
        t, m = case
        first = {
            1: tr(td(t, colspan="2")),
            2: tr(td(t[: len(t) // 2]), td(t[len(t) // 2 :])),
            3: tr(E("th", E("p", *[E("span", ch) for ch in t]))),
        }[m]
        fig = table([first, tr(th("Bytes"), th("Description")), std_row("0")])
        return self.judge(document([fig, figure(77, ["Bits", "Description"], [std_row("0")]), fig]), ctx)

    TSPOTS = ["{}Figure 1: T", "Figure{} 1: T", "Figure {}1: T", "Figure 1{}: T", "Figure 1:{} T", "Figure 1: T{}", "Fig{}ure 1: T", "Figure 1{}2: T"]

    def gen_affixes(self):
        def titles():
            for a in AFFIXES:
                yield from (f.format(a) for f in self.TSPOTS)
            for n in range(1, Q(60, 150)):
                yield from ("Figure " + "1" * n + ": T", "Figure " + "0" * n + "1: T", "Figure" + " " * n + "1: T", "Figure 1" + " " * n + ": T", "Figure 1" + ":" * n + "T", "Figure 1.1" + ".1" * n, "Figure 1: " + "T " * n, "T " * n + "Figure 1", "Figure 1: " + "Figure 2 " * n, "Figure " + "A" * n)

        yield from chunks(titles(), 16)

    def ev_affixes(self, ts, ctx):
        return self.judge(document([figure(1, ["Bytes", "Description"], [std_row("0")], title=t) for t in ts]), ctx)

    CONTAIN = ["body", "div", "td", "after text", "list"]

    def gen_where(self):
        for c in self.CONTAIN:
            for k in self.ORDER:
                for k2 in ("good", "skip"):
                    yield (c, k, k2)

    def ev_where(self, case, ctx):
        c, k, k2 = case
        T = doc_tables()
        a = T[k](5)
        other = T[k2](6)
        if c == "div":
            parts = [E("div", a), other]
        elif c == "td":
            parts = [table([tr(E("td", E("p", "x"), a))]), other]
        elif c == "after text":
            parts = ["text", a, "text", other, "text"]
        elif c == "list":
            parts = [E("ul", E("li", "a")), a, E("ol", E("li", "b")), other]
        else:
            parts = [a, other]
        return self.judge(document(parts), ctx)

    def gen_many(self):
        for n in Q((10, 11, 40), (10, 11, 40, 120)):
            for k in self.ORDER:
                for pos in range(0, n, 1 if n < 20 else 4):
                    yield (n, k, pos)

    def ev_many(self, case, ctx):
        n, k, pos = case
        T = doc_tables()
        return self.judge(document([T[k if i == pos or i == n - 1 - pos else "good"](i + 1) for i in range(n)]), ctx)

    def gen_series(self):
        for n in (70, 130, Q(300, 1100)):
            for a in self.ORDER:
                for b in self.ORDER:
                    yield (n, a, b)

    def ev_series(self, case, ctx):
        n, a, b = case
        T = doc_tables()
        return self.judge(document([T[a if i % 2 else b](i + 1) for i in range(n)]), ctx)

    def gen_examples(self):
        ex = REPO / "tests" / "stage1"
        files = sorted(set(REPO.rglob("*.html")))
        for f in files:
            if "templates" in f.parts or ".git" in f.parts:
                continue
            yield str(f.relative_to(REPO))

    def ev_examples(self, rel, ctx):
        from lxml import etree

        src = (REPO / rel).read_text()
        try:
            root = etree.fromstring(src.encode())
        except etree.XMLSyntaxError:
            return None
        if root.tag != "html" or not root.xpath("./head/meta/@data-spec"):
            return None
        tree = from_lxml(root)
        want, got = ref2.reference(tree), impl.run(src)
        ctx.replays += 1
        ctx.count("conformance documents")
        ctx.step(sum(len(e["fields"]) for e in want.entities))
        ctx.state(rel)
        return full_compare(want, got, rel, "example")

    def words(self, w):
        rows = [tr(th("Bits"), th("Description")), std_row("0")]
        return [table([title_row(t)] + rows) for t in (f"{w} Figure 1: T", f"Figure 2: {w}", f"Figure 3 {w}: T", f"Figure {w}: T", w, f"{w}Figure 4: T", f"Figure 5: T {w}", f"Figure {w} 6: T", f"Figure 7{w}: T")]

    def spaces(self):
        return [
            Space("sequences", self.gen_seq, self.ev_seq, f"all sequences of 0..3 tables over {self.ORDER}, of 4..{Q(5,6)} over 8 of them"),
            Space("titles", self.gen_titles, self.ev_titles, f"{len(self.PRE)} title forms x {len(self.NUMS)} numbers x 3 splits into cells and spans"),
            Space("affixes", self.gen_affixes, self.ev_affixes, f"{AFFIXED} at {len(self.TSPOTS)} places of a title; numbers, blanks, words and colons of 1..{Q(59,149)}"),
            Space("containers", self.gen_where, self.ev_where, "every kind of table in body, div, cell, between text and lists"),
            Space("many", self.gen_many, self.ev_many, f"every kind of table at every place of documents of up to {Q(40,120)} figures"),
            Space("series", self.gen_series, self.ev_series, f"documents of 70, 130, {Q(300, 1100)} tables of every two kinds in turn"),
            Space("examples", self.gen_examples, self.ev_examples, "conformance of the model: every stage-1 document in the repository, entities and lint in full"),
            word_space(self.judge, self.words, 1, "in 9 places of titles"),
        ]


class S11(Check):
    ID = "S11"
    TECHNIQUE = (
        "bounded exhaustive fault placement on the real code: every sequence of good and failing"
        " figures in both modes, compared with the same document without the failing ones and with the reference model"
    )
    NOTE = NOTE
    ASSUMPTIONS = ()

    def bad(self, kind):
        if kind == "Value":
            return tr(td("5h"), E("td"))
        return tr(td("5"), E("td", "no paragraph"))

    def bad3(self):
        return tr(td("5"), td("only two"))

    GOOD = ["good", "value", "nest", "skip", "empty", "unnumbered"]
    BAD = [
        "first", "middle", "last", "value", "short row", "deep1", "deep2", "deep3", "nest before", "nest after", "outer after nest",
        "two deep", "nest in value", "sibling nest", "sibling nest2", "after list", "bytes",
        "rowspan", "colspan", "rowspan later", "colspan value", "rowspan deep", "colspan deep",
    ]

    def fig(self, k, n):
        T = doc_tables()
        if k in self.GOOD and k not in ("value",):
            return T[k](n), None
        if k == "value good":
            return T["value"](n), None
        b, v = self.bad("Bits"), self.bad("Value")
        bits = lambda *rows: figure(n, ["Bits", "Description"], rows)
        sub = lambda *rows: nested(["Bits", "Description"], rows)
        outer = lambda key, *t: tr(td(key), td("Outer One (OUT): o", *t))
        ok = sub(std_row("0"))
        f = {
            "first": lambda: (bits(b, std_row("4")), f"{n}"),
            "middle": lambda: (bits(std_row("6"), b, std_row("4", 1)), f"{n}"),
            "last": lambda: (bits(std_row("6"), std_row("5", 1), b), f"{n}"),
            "value": lambda: (figure(n, ["Value", "Description"], [tr(td("0h"), td("Aa")), v]), f"{n}"),
            "short row": lambda: (figure(n, ["Bytes", "Attribute", "Description"], [self.bad3()]), f"{n}"),
            "deep1": lambda: (bits(outer("9", sub(b))), f"{n}_9"),
            "deep2": lambda: (bits(outer("9", sub(outer("8", sub(b))))), f"{n}_9_8"),
            "deep3": lambda: (bits(outer("9", sub(outer("8", sub(outer("7", nested(["Value", "Description"], [v]))))))), f"{n}_9_8_7"),
            "nest before": lambda: (bits(outer("9", ok), b), f"{n}"),
            "nest after": lambda: (bits(b, outer("4", ok)), f"{n}"),
            "outer after nest": lambda: (bits(outer("9", sub(outer("8", ok), b))), f"{n}_9"),
            "two deep": lambda: (bits(outer("9", sub(b)), outer("8", sub(b))), f"{n}_9"),
            "nest in value": lambda: (figure(n, ["Value", "Description"], [tr(td("0h"), td("Aa", sub(b)))]), f"{n}_0h"),
            "sibling nest": lambda: (bits(outer("9", ok), outer("8", sub(b)), outer("7", ok)), f"{n}_8"),
            "sibling nest2": lambda: (bits(outer("9", ok, sub(b))), f"{n}_9"),
            "after list": lambda: (bits(tr(th("Thing List", colspan="2")), std_row("b:a"), b), f"{n}"),
            "bytes": lambda: (figure(n, ["Bytes", "Description"], [std_row("0"), b]), f"{n}"),
            "rowspan": lambda: (bits(tr(td("5", rowspan="two"), td("Aa"))), f"{n}"),
            "colspan": lambda: (bits(tr(td("5"), td("Aa", colspan=""))), f"{n}"),
            "rowspan later": lambda: (bits(std_row("6"), tr(td("5"), td("Aa", rowspan="1.5")), std_row("4", 1)), f"{n}"),
            "colspan value": lambda: (figure(n, ["Value", "Description"], [tr(td("0h"), td("Aa")), tr(td("1h", colspan="x"), td("Bb"))]), f"{n}"),
            "rowspan deep": lambda: (bits(outer("9", sub(tr(td("0"), td("Aa", rowspan="2h"))))), f"{n}_9"),
            "colspan deep": lambda: (bits(outer("9", sub(outer("8", sub(tr(td("0", colspan="x"), td("Aa"))))))), f"{n}_9_8"),
        }
        return f[k]()

    def judge(self, seq, ctx, spec="Spec", rev="1.0", build=None):
        build = build or self.fig
        figs = [build(k, i + 1) for i, k in enumerate(seq)]
        root = document([f for f, _ in figs], spec, rev)
        src = html(root)
        got = impl.run(src, True)
        only = impl.run(html(document([f for f, bad in figs if bad is None], spec, rev)), True)
        ctx.replays += 2
        failing = {str(i + 1): bad for i, (f, bad) in enumerate(figs) if bad is not None}
        mine = lambda fid: fid.split("_")[0] in failing and not fid.startswith("FIG_ID")
        if got.failed:
            return f"skip-on-error run failed ({got.error}) for {src}"
        ents = [e for e in got.entities if not mine(e["fig_id"])]
        lint = [x for x in got.lint if not mine(x[1])]
        ctx.state((ids(got), lint_multiset(got.lint)))
        ctx.step(len(seq))
        # numberless figures are numbered consecutively, both runs alike
        msg = diff("entities of the other figures", only.entities, ents, src) or diff("lint of the other figures", only.lint, lint, src)
        if msg:
            return msg
        t1000 = [x[1] for x in got.lint if x[0] == "T1000"]
        msg = diff("figures reported as failing", [failing[k] for k in sorted(failing, key=int)], t1000, src)
        if msg:
            return msg
        tops = [e["fig_id"] for e in got.entities if e["fig_id"] in failing]
        if tops:
            return f"failing figures {tops} have an entity for {src}"
        want = ref2.reference(root, True)
        msg = diff("figures", ids(want), ids(got), src)
        if msg:
            return msg
        # without skip-on-error
        stop = impl.run(src, False)
        ctx.replays += 1
        if stop.failed != bool(failing):
            return f"without skip-on-error the run {'failed' if stop.failed else 'did not fail'} ({stop.error}) for {src}"
        want = ref2.reference(root, False)
        return diff("entities before the first failure", [norm_entity(e) for e in want.entities], [norm_entity(e) for e in stop.entities], src)

    def gen_seq(self):
        alphabet = self.GOOD + ["value good"] + self.BAD
        alphabet.remove("value")
        for s in sequences(alphabet, 1, 2):
            yield s
        small = ["good", "nest", "skip", "unnumbered", "middle", "deep1", "deep3", "sibling nest"]
        for s in sequences(small, 3, Q(4, 5)):
            yield s
        for s in sequences(["good", "deep2", "first"], 4, Q(5, 7)):
            yield s

    def ev_seq(self, s, ctx):
        return self.judge(s, ctx)

    # many figures, failures at every place and every pair of places
    def gen_many(self):
        for n in Q((30, 150), (30, 150, 600)):
            for k in ("middle", "deep1", "deep3"):
                for i in range(0, n, 1 if n == 30 else 7):
                    yield (n, {i: k})
            for period in (2, 3, 10):
                yield (n, {i: "first" for i in range(0, n, period)})
            yield (n, {i: "deep2" for i in range(n)})
        n = Q(12, 20)
        for i, j in itertools.combinations(range(n), 2):
            for a, b in (("first", "first"), ("deep2", "first"), ("first", "deep1"), ("after list", "last")):
                yield (n, {i: a, j: b})

    def ev_many(self, case, ctx):
        n, bad = case
        return self.judge([bad.get(i, "good") for i in range(n)], ctx)

    def gen_position(self):
        """one failing row at every place of every figure of a nesting tree."""
        for depth in range(1, Q(5, 7)):
            for width in (1, 2, 3):
                for level in range(depth):
                    for pos in range(width + 1):
                        for kinds in itertools.product(("Bits", "Value"), repeat=depth):
                            for around in (0, 1):
                                yield (depth, width, level, pos, kinds, around)

    def ev_position(self, case, ctx):
        depth, width, level, pos, kinds, around = case
        fid = []

        def rows(d):
            kind = kinds[d]
            out = []
            for w in range(width):
                key = f"{w}h" if kind == "Value" else str(width - w)
                cell = [f"Item Of {alpha(w)} (I{alpha(w)}): x"]
                if w == width - 1 and d + 1 < depth:
                    cell.append(nested([kinds[d + 1], "Description"], rows(d + 1)))
                out.append(tr(td(key), td(*cell)))
            if d == level:
                out.insert(pos, self.bad(kind))
            return out

        key = lambda d: f"{width - 1}h" if kinds[d] == "Value" else "1"

        def build(k, n):
            if k == "ok":
                return doc_tables()["nest"](n), None
            return figure(n, [kinds[0], "Description"], rows(0)), "_".join([str(n)] + [key(d) for d in range(level)])

        # a failing row after the nested figure: what is nested was found before
        seq = ("ok", "bad", "ok", "bad") if around else ("bad", "ok")
        return self.judge(seq, ctx, build=build)

    def gen_special(self):
        specs = [
            ("NVM Express® NVM Command Set Specification", "1.0c", "23", "Figure 24: glued", "24"),
            ("NVM Express® Management Interface Specification", "1.2c", "64", "Figure 65: glued", "65"),
            ("NVM Express® Key Value Command Set Specification", "1.0c", "41", None, None),
        ]
        for s in specs:
            for k in ("columns", "row", "deep", "glued", "glued columns", "none"):
                if s[3] is None and k.startswith("glued"):
                    continue
                for before in ("good", "middle", "deep1", "skip"):
                    for after in ("good", "first", "deep2"):
                        yield (s, k, before, after)

    def ev_special(self, case, ctx):
        (spec, rev, num, title, num2), k, before, after = case
        kind = "Bytes" if num == "41" else "Bits"
        h = [kind, "Description"]
        b = self.bad("Bits")
        glued = [tr(td(title, colspan="2")), tr(th("Bits"), th("Description")), std_row("1")] if title else []
        if k == "columns":
            f, fails = figure(num, ["Name", "Description"], [std_row("1")] + glued), [num]
        elif k == "row":
            f, fails = figure(num, h, [b] + glued), [num]
        elif k == "deep":
            f, fails = figure(num, h, [tr(td("3"), td("Out Er (OO): o", nested(h, [b])))] + glued), [num + "_3"]
        elif k == "glued":
            f, fails = figure(num, h, [std_row("1")] + glued[:2] + [b]), [num2]
        elif k == "glued columns":
            f, fails = figure(num, h, [std_row("1"), glued[0], tr(th("Name"), th("Of")), std_row("0")]), []
        else:
            f, fails = figure(num, h, [std_row("1")] + glued), []
        fb, bb = self.fig(before, 1)
        fa, ba = self.fig(after, 99)
        fails = ([bb] if bb else []) + fails + ([ba] if ba else [])
        root = document([fb, f, fa], spec, rev)
        src = html(root)
        ctx.step(3)
        for skip in (True, False):
            want, got = ref2.reference(root, skip), impl.run(src, skip)
            ctx.replays += 1
            ctx.state((skip, ids(want), lint_multiset(want.lint)))
            msg = (
                diff(f"figures (skip {skip})", ids(want), ids(got), src)
                or diff("failure", want.failed, got.failed, src)
                or diff("reported figures", [x[1] for x in want.lint if x[0] in ("T1000", "T1007")], [x[1] for x in got.lint if x[0] in ("T1000", "T1007")], src)
            )
            if msg:
                return msg
            if skip and [x[1] for x in got.lint if x[0] == "T1000"] != fails:
                return f"expected T1000 for {fails}, got {got.lint} for {src}"
            if not skip and got.failed != bool(fails):
                return f"run without skip-on-error: failed={got.failed} for {src}"
        return None

    def spaces(self):
        return [
            Space("sequences", self.gen_seq, self.ev_seq, f"all sequences of 1..2 figures over {len(self.GOOD)} good and {len(self.BAD)} failing kinds, of 3..{Q(4,5)} over 8, of 4..{Q(5,7)} over 3; both modes"),
            Space("many", self.gen_many, self.ev_many, f"failures at every place of {Q('30 and every 7th of 150', '30 and every 7th of 150 and 600')} figures, at every pair of places of {Q(12, 20)}, everywhere"),
            Space("positions", self.gen_position, self.ev_position, f"a failing row at every place of every level of nested figures of depth 1..{Q(4,6)}, width 1..3, all kinds"),
            Space("special", self.gen_special, self.ev_special, "failures in and around figures with special handling"),
        ]


class S12(Check):
    ID = "S12"
    TECHNIQUE = MODEL + " (all formulas up to a length, all sequences of rows and headings)"
    NOTE = NOTE
    ASSUMPTIONS = ("range cells contain text only",)
    TOKENS = ["0", "12", "N", "x", "+", "-", "*", "(", ")", ":", " ", "\n", "/", ",", "to", "_"]

    def judge(self, root, ctx):
        want, got, src = both(root, ctx)
        proj = lambda o: [(e["fig_id"], e["type"], [(f["range"], f["label"]) for f in e["fields"]]) for e in struct_entities(o)]
        ctx.state((proj(want), lint_multiset(want.lint, "R1001", "R1002")))
        return diff("ranges", proj(want), proj(got), src) or diff(
            "range reports", lint_multiset(want.lint, "R1001", "R1002"), lint_multiset(got.lint, "R1001", "R1002"), src
        )

    def head(self, k):
        return {
            "List": tr(th("Descriptor List", colspan="2")),
            "list": tr(th("Descriptor list", colspan="2")),
            "Listing": tr(th("Listing of things", colspan="2")),
            "narrow": tr(th("List"), th("of")),
            "narrow1": tr(th("A List")),
            "section": tr(th("Header", colspan="2")),
            "split": tr(th("Name"), th("x List", colspan="1")),
            "td List": tr(td("Descriptor List", colspan="2")),
            "paras": tr(th("Some", "List", colspan="2")),
            "bare": tr(E("th", "Bare List", colspan="2")),
            "pieces": tr(E("th", E("p", E("span", "Li"), E("span", "st")), colspan="2")),
        }[k]

    def row(self, t, i):
        return tr(td(t), td(f"Field Nr {alpha(i)} (F{alpha(i)}): is"))

    def gen_tokens(self):
        def texts():
            for s in sequences(self.TOKENS, 0, Q(4, 5)):
                yield "".join(s)
            ops = ["0", "7", "N", "(8*N)+7", "4+4*(n-1)", "NUMD", "a b", "3 + 4", "8\n+ N", "", "N/2", "2^N", "n..m", "N!", "é", "x_y", "3.5"]
            for a in ops:
                for b in ops:
                    for g in (":", " : ", "\n:\n", "\u00a0:", "::", "-", ""):
                        yield a + g + b
                        yield f"({a}{g}{b})"

        for kind in ("Bytes", "Bits"):
            for c in chunks(texts(), 24):
                yield (kind, c)

    def ev_tokens(self, case, ctx):
        kind, texts = case
        rows = [self.head("List")] + [self.row(t, i) for i, t in enumerate(texts)]
        return self.judge(document([figure(1, [kind, "Description"], rows)]), ctx)

    def gen_affixes(self):
        def texts():
            for a in AFFIXES:
                for h, l in (("7", "4"), ("N+7", "N")) if len(a) < 3 else (("7", "4"), ("N+7", "N"), ("(N*8)+7", "(N*8)")):
                    yield from (f"{h}:{l}{a}", f"{a}{h}:{l}", f"{h}{a}:{l}", f"{h}:{a}{l}", f"{h}{a}{l}")

        for kind in ("Bytes", "Bits"):
            for c in chunks(texts(), 24):
                yield (kind, c)

    ROWS = ["5", "9:8", "N+7:N", "bad", "R4:3", "N*2", "List", "list", "narrow", "section", "td List", "…"]

    def gen_counts(self):
        def texts():
            for n in range(1, Q(60, 150)):
                for x in (" + ".join(["N"] * n), "+".join(str(i) for i in range(n)), "(" * n + "N" + ")" * n, "N * " * n + "8", "7" * n, "0" * n + "7", "NUMD" * n, "N" + " " * n + "+ 4", "N" + "\n" * n + "+ 4"):
                    yield from (f"{x}:N", f"N:{x}", f"{x} + 3 : {x}")
                yield from ("N" + " " * n + ":N", "N:" + " " * n + "N", "N" + ":" * n + "N", " " * n + "N:N" + " " * n)

        for kind in ("Bytes", "Bits"):
            for c in chunks(texts(), 24):
                yield (kind, c)

    def mk(self, k, i):
        if k in ("List", "list", "Listing", "narrow", "narrow1", "section", "split", "td List", "paras", "bare", "pieces"):
            return self.head(k)
        if k == "…":
            return tr(td("…", colspan="2"))
        if k[0] == "R":
            return tr(td(k[1:]), td("Reserved"))
        return self.row(k, i)

    def gen_seq(self):
        for kind in ("Bytes", "Bits"):
            for s in sequences(self.ROWS, 1, Q(4, 5)):
                yield (kind, s)
        for s in sequences(["9:8", "N+7:N", "List", "section", "R4:3"], 5, Q(6, 7)):
            yield ("Bytes", s)

    def ev_seq(self, case, ctx):
        kind, s = case
        rows = [self.mk(k, i) for i, k in enumerate(s)]
        after = figure(2, [kind, "Description"], [self.row("7:0", 0), self.row("N+1:N", 1)])
        return self.judge(document([figure(1, [kind, "Description"], rows), after]), ctx)

    HEADS = ["List", "list", "Listing", "narrow", "narrow1", "section", "split", "td List", "paras", "bare", "pieces"]

    def gen_heads(self):
        for kind in ("Bytes", "Bits"):
            for a in self.HEADS:
                for b in [None] + self.HEADS:
                    for t in ("9:8", "N+7:N", "12", "R3:2"):
                        yield (kind, a, b, t)

    def ev_heads(self, case, ctx):
        kind, a, b, t = case
        rows = [self.mk(t, 0), self.head(a), self.mk(t, 1)] + ([self.head(b), self.mk(t, 2)] if b else [])
        return self.judge(document([figure(1, [kind, "Description"], rows)]), ctx)

    def gen_long(self):
        for kind in ("Bytes", "Bits"):
            for a in ("List", "td List", "section"):
                for n in (Q(30, 60), 130, 260):
                    at = range(n + 1) if n < 100 else (0, 1, n // 2, n - 1, n)
                    for i in at:
                        yield (kind, n, ((i, a),))
                    for i, j in itertools.combinations(at if n > 100 else range(0, n + 1, 3), 2):
                        yield (kind, n, ((i, a), (j, "List")))
                        yield (kind, n, ((i, "List"), (j, a)))

    def ev_long(self, case, ctx):
        kind, n, heads = case
        rows = []
        for i in range(n + 1):
            rows += [self.mk(h, 0) for k, h in heads if k == i]
            if i < n:
                rows.append(self.mk(("N+7:N", "9:8", "R4:3")[i % 3], i))
        after = figure(2, [kind, "Description"], [self.row("7:0", 0), self.row("N+1:N", 1)])
        return self.judge(document([figure(1, [kind, "Description"], rows), after]), ctx)

    def gen_leak(self):
        kinds = ("Bytes", "Bits", "Value")
        for a in kinds:
            for b in kinds:
                for where in ("next", "nested before", "nested after", "outer", "both"):
                    for t in ("9:8", "N+7:N", "5"):
                        yield (a, b, where, t)

    def ev_leak(self, case, ctx):
        a, b, where, t = case
        L = self.head("List")
        ra, rb = [self.row(t, 0)], [self.row(t, 1)]
        if where == "next":
            figs = [figure(1, [a, "Description"], [L] + ra), figure(2, [b, "Description"], rb), figure(3, [a, "Description"], ra)]
        else:
            inner = ([L] if where in ("nested before", "nested after", "both") else []) + rb
            o = tr(td(t), td("Outer Thing (OT): o", nested([b, "Description"], inner)))
            rows = ([L] if where in ("outer", "both") else []) + ([self.row(t, 3), o, self.row(t, 4)])
            if where == "nested after":
                rows = [o] + ra
            figs = [figure(1, [a, "Description"], rows), figure(2, [b, "Description"], rb)]
        return self.judge(document(figs), ctx)

    FOREST = {
        "list": (["Bytes", "Description"], [["1:0", "Field Nr A (FNA): is a"], [th("Entry List", colspan="2")], ["(N*8)+7:N*8", "Field Nr B (FNB): is b"]]),
        "formula": (["Bytes", "Description"], [["1:0", "Field Nr A (FNA): is a"], ["N+1:2", "Field Nr B (FNB): is b"]]),
        "formula bits": (["Bits", "Description"], [["31:20", "Field Nr A (FNA): is a"], ["N-1", "Field Nr B (FNB): is b"]]),
        "head": (["Bytes", "Description"], [[th("Entry List", colspan="2")], ["3:0", "Field Nr A (FNA): is a"], ["N+3:N", "Field Nr B (FNB): is b"]]),
        "plain": (["Bytes", "Description"], [["1:0", "Field Nr A (FNA): is a"], ["2", "Field Nr B (FNB): is b"]]),
        "code": (["Value", "Description"], [["N+1:2", "Aa"]]),
    }

    def words(self, w):
        head, f = tr(th("Entry List", colspan="2")), lambda r, i: std_row(r, i)
        mk = lambda n, *rows: figure(n, ["Bytes", "Description"], list(rows))
        return [
            mk(1, f("1:0", 0), tr(th(f"{w} List", colspan="2")), f("7:4", 1)), mk(2, f("1:0", 0), tr(th(f"List {w}", colspan="2")), f("7:4", 1)), mk(3, f("1:0", 0), tr(th(w, colspan="2")), f("7:4", 1)),
            mk(4, head, f("3:0", 0), tr(td(w, colspan="2")), f("7:4", 1)), mk(5, head, f("3:0", 0), tr(th(w, colspan="2")), f("7:4", 1)), mk(6, head, tr(td("3:0"), td(w)), f("7:4", 1)),
            mk(7, head, f(w, 0), f("7:4", 1)), mk(8, f(f"{w}+3:{w}", 0), f("7:4", 1)), mk(9, f(f"({w}*8)+7:{w}*8", 0), f("7:4", 1)), mk(10, f("1:0", 0), tr(th(f"Entry {w} List", colspan="2")), f("7:4", 1)), mk(11, f("1:0", 0), tr(td(f"{w} List", colspan="2")), f("7:4", 1)),
        ]

    def spaces(self):
        return [
            Space("formulas", self.gen_tokens, self.ev_tokens, f"all range texts of 0..{Q(4,5)} tokens over {self.TOKENS}, and 17x17 formulas x 7 separators, after a list heading"),
            Space("counts", self.gen_counts, self.ev_tokens, f"formulas of 1..{Q(59,149)} operands, digits, parentheses and blanks"),
            Space("affixes", self.gen_affixes, self.ev_tokens, f"{AFFIXED} before, after, within and instead of the colon of 2..3 ranges"),
            Space("sequences", self.gen_seq, self.ev_seq, f"all sequences of 1..{Q(4,5)} rows over {self.ROWS}, of up to {Q(6,7)} over 5, followed by another figure"),
            Space("headings", self.gen_heads, self.ev_heads, f"all pairs of {self.HEADS} with 4 kinds of rows before, between and after"),
            Space("long", self.gen_long, self.ev_long, f"a list heading at every place, or at every two, of tables of {Q(30,60)}, 130 and 260 rows of three kinds"),
            Space("leaks", self.gen_leak, self.ev_leak, "list headings in one of two consecutive or nested figures"),
            forest_space(self.FOREST, self.judge, ["list", "formula", "plain"]),
            word_space(self.judge, self.words, 1, "in list headings, in rows below them and in formulas"),
        ]


class S13(Check):
    ID = "S13"
    TECHNIQUE = MODEL + " (all known and near-miss identities x special figures and rows)"
    NOTE = NOTE
    ASSUMPTIONS = ("the special rules are those documented in mc/ref2.py QUIRKS, transcribed from the sources",)
    SPECS = [
        "NVM Express® NVM Command Set Specification",
        "NVM Express® Zoned Namespace Command Set Specification",
        "NVM Express® Management Interface Specification",
        "NVM Express® Key Value Command Set Specification",
    ]
    REVS = ["1.0", "1.0c", "1.1c", "1.2c"]
    NEAR = [lambda s: s, str.lower, str.upper, lambda s: s + " ", lambda s: " " + s, lambda s: s[:-1], lambda s: s + "s", lambda s: s.replace("®", ""), lambda s: s.replace(" ", "  ", 1), lambda s: s.replace("®", "™"), str.swapcase]
    NEARR = [lambda s: s, str.upper, lambda s: s + "a", lambda s: s[:-1], lambda s: s + " ", lambda s: "v" + s, lambda s: "0" + s]

    def judge(self, root, ctx, codes=None):
        for skip in (True, False):
            src = html(root)
            want, got = ref2.reference(root, skip), impl.run(src, skip)
            ctx.replays += 1
            ctx.step(len(want.entities) + 1)
            ctx.state(([norm_entity(e) for e in want.entities], lint_multiset(want.lint)))
            msg = full_compare(want, got, src, f"(skip {skip})")
            if msg:
                return msg
        return None

    def figs(self):
        """a document that touches every special rule."""
        glue = lambda n: [tr(td(f"Figure {n}: Glued", colspan="2")), tr(th("Bits"), th("Description")), std_row("4", 4), std_row("3", 3)]
        val = lambda codes: [tr(td(c), td(f"Orig {alpha(i)}: brief")) for i, c in enumerate(codes)]
        codes = ["00b", "01b", "10b", "11b", "100b"]
        v = lambda: nested(["Value", "Description"], val(codes))
        row = lambda k, d, *t: tr(td(k), td(f"{d} Name (N{alpha(int(k))}): b", *t))
        return [
            figure(19, ["Bytes", "Description"], [row("0", "A"), row("1", "B"), row("2", "C"), row("3", "D")]),
            figure(23, ["Bits", "Description"], [row("7", "A")] + glue(24)),
            figure(37, ["Bytes", "Description"], [row("0", "Zone"), row("1", "Zone"), row("2", "Zone"), row("3", "Zone")]),
            figure(41, ["Bytes", "Description"], [row("0", "K"), tr(td("Something (refer to Figure 39).", colspan="2")), row("1", "L")]),
            figure(42, ["Bytes", "Description"], [row("0", "P", nested(["Bits", "Description"], [tr(td("4"), td("Pp Qq (PQ): x", v()))])), row("4", "Q", v())]),
            figure(49, ["Bytes", "Description"], [row("0", "P", nested(["Bits", "Description"], [tr(td("4"), td("Pp Qq (PQ): x", v()))]))]),
            figure(64, ["Bits", "Description"], [tr(td("9"), td("A Name (NA): b", nested(["Bits", "Description"], [tr(td("4"), td("Pp Qq (PQ): x", v()))]))), row("0", "P", nested(["Bits", "Description"], [tr(td("4"), td("Pp Qq (PQ): x", v()))]))] + glue(65)),
        ]

    def gen_identity(self):
        names = self.SPECS + ["NVM Express® Base Specification", ""]
        for s in names:
            for r in self.REVS + ["2.0c", ""]:
                yield (s, r, 0, 0)
        for s in self.SPECS:
            for r in self.REVS:
                for i in range(len(self.NEAR)):
                    for j in range(len(self.NEARR)):
                        yield (s, r, i, j)

    def ev_identity(self, case, ctx):
        s, r, i, j = case
        s, r = self.NEAR[i](s), self.NEARR[j](r)
        # one document per figure, so that a failing one does not hide the others
        for f in self.figs():
            msg = self.judge(document([f], s, r), ctx)
            if msg:
                return msg
        return self.judge(document(self.figs(), s, r), ctx)

    def gen_rows(self):
        idents = [(s, r) for s in self.SPECS for r in self.REVS]
        for n in (18, 19, 20, 36, 37, 38, 41, 42, 49, 64):
            for kind in ("Bits", "Bytes", "Value"):
                for case in idents:
                    yield (n, kind) + case

    def ev_rows(self, case, ctx):
        n, kind, s, r = case
        keys = ["0", "1", "2", "3", "0:0", "2:2", "9:2", "02", "00b", "01B", "N", "0_4"]
        rows = [tr(td(k), td(f"Some Name {alpha(i)} (S{alpha(i)}): b")) for i, k in enumerate(keys)]
        f1 = figure(n, [kind, "Description"], rows)
        rows = [tr(td(k), td(f"M{alpha(i)}: attr"), td(f"Some Name {alpha(i)} (S{alpha(i)}): b")) for i, k in enumerate(keys)]
        f2 = figure(n, [kind, "Attribute", "Description"], rows)
        return self.judge(document([f1], s, r), ctx) or self.judge(document([f2], s, r), ctx)

    def gen_glue(self):
        cfg = [(self.SPECS[0], "1.0c", 23, 24), (self.SPECS[2], "1.2c", 64, 65), (self.SPECS[0], "1.0c", 64, 65), (self.SPECS[2], "1.2c", 23, 24), ("Spec", "1.0", 23, 24), ("Spec", "1.0", 64, 65)]
        titles = ["Figure {}: Glued", "figure {}: x", "Figure {}", "Figure {}0: not", "Figure 3: other", "The figure {}", "{}", " Figure {}: y"]
        for c in cfg:
            for t in titles:
                for before in range(0, 4):
                    for after in range(0, 4):
                        for hdr in (("Bits", "Description"), ("Value", "Description"), ("Name", "X"), None):
                            yield (c, t, before, after, hdr)

    def ev_glue(self, case, ctx):
        (s, r, n, m), t, before, after, hdr = case
        rows = [std_row(str(30 - i), i) for i in range(before)]
        rows.append(tr(td(t.format(m), colspan="2")))
        if hdr:
            rows.append(tr(*[th(h) for h in hdr]))
        rows += [std_row(str(20 - i), 5 + i) for i in range(after)]
        figs = [figure(n, ["Bits", "Description"], rows), figure(99, ["Bytes", "Description"], [std_row("0")])]
        return self.judge(document(figs, s, r), ctx)

    @staticmethod
    def near(t, number):
        """texts that differ from `t` in one place."""
        yield from (t[:i] for i in range(len(t) + 1))
        yield from (t[i:] for i in range(1, len(t)))
        for i in range(len(t)):
            yield t[:i] + t[i + 1 :]
            yield t[: i + 1] + t[i:]
            yield t[:i] + t[i].swapcase() + t[i + 1 :]
            if i:
                yield t[:i] + t[i] + t[i - 1] + t[i + 1 :]
        for a in AFFIXES:
            for i in range(0, len(t) + 1, Q(3, 1)):
                yield t[:i] + a + t[i:]
        yield from (t.replace(number, str(n)) for n in range(Q(150, 700)))
        yield from (t.replace(number, number + str(n)) for n in range(Q(40, 100)))
        yield from (t.replace(number, str(n) + number) for n in range(Q(40, 100)))

    def gen_near(self):
        for cfg in [(self.SPECS[0], "1.0c", 23, "24"), (self.SPECS[2], "1.2c", 64, "65")]:
            for t in self.near(f"Figure {cfg[3]}: Glued", cfg[3]):
                yield ("glue", cfg, t)
        for t in self.near("x (refer to Figure 39).", "39"):
            yield ("comment", (self.SPECS[3], "1.0c", 41), t)

    def ev_near(self, case, ctx):
        kind, cfg, t = case
        if kind == "glue":
            return self.ev_glue((cfg, t.replace("{", "{{").replace("}", "}}"), 1, 2, ("Bits", "Description")), ctx)
        rows = [tr(td("0"), td("Ka (KA): b")), tr(td(t, colspan="2")), tr(td("1"), td("La (LA): b"))]
        return self.judge(document([figure(cfg[2], ["Bytes", "Description"], rows)], cfg[0], cfg[1]), ctx)

    def gen_comment(self):
        for s, r in [(self.SPECS[3], "1.0"), (self.SPECS[3], "1.0c"), (self.SPECS[3], "1.2c"), (self.SPECS[0], "1.0c"), ("Spec", "1.0")]:
            for n in (40, 41, 42):
                for hdr in ("Bytes", "Bits", "Value"):
                    for txt in ["x (refer to Figure 39).", "(refer to Figure 39).", "x (refer to Figure 39)", "x (refer to Figure 38).", "(refer to Figure 39). y", "Comment"]:
                        for width in (2, 3):
                            for pos in range(0, 4):
                                for num in (1, 2):
                                    yield (s, r, n, hdr, txt, width, pos, num)

    def ev_comment(self, case, ctx):
        s, r, n, hdr, txt, width, pos, num = case
        hdrs = [hdr, "Description"] if width == 2 else [hdr, "Attribute", "Description"]
        rows = [tr(td(str(i)), *([td(f"A{alpha(i)}: x")] if width == 3 else []), td(f"Name Nr {alpha(i)} (N{alpha(i)}): b")) for i in range(3)]
        for _ in range(num):
            rows.insert(pos, tr(td(txt, colspan=str(width))))
        figs = [figure(n, hdrs, rows), figure(99, ["Bytes", "Description"], [std_row("0")])]
        return self.judge(document(figs, s, r), ctx)

    def gen_history(self):
        idents = [(self.SPECS[0], "1.0c"), (self.SPECS[1], "1.1c"), (self.SPECS[2], "1.2c"), (self.SPECS[3], "1.0c"), ("Spec", "1.0")]
        for h in itertools.product(idents, repeat=2):
            yield h

    def ev_history(self, h, ctx):
        for s, r in h:
            msg = self.judge(document(self.figs(), s, r), ctx)
            if msg:
                return f"after {h}: {msg}"
        return None

    def spaces(self):
        return [
            Space("identities", self.gen_identity, self.ev_identity, "6 x 6 titles and revisions, and 11 x 7 spellings of 4 x 4 known ones, each with 7 figures that special rules are about"),
            Space("rows", self.gen_rows, self.ev_rows, "12 row keys in 10 figures x 3 kinds x 2 layouts under all 16 combinations of title and revision"),
            Space("glued", self.gen_glue, self.ev_glue, "8 glued titles at every position, 0..3 rows before and after, 4 headers, 6 documents"),
            Space("near", self.gen_near, self.ev_near, "the texts of the glued titles and of the comment row with every character removed, doubled, exchanged or in the other case, every beginning and end, " + AFFIXED + f" within, and figure numbers up to {Q(149, 699)}"),
            Space("comments", self.gen_comment, self.ev_comment, "6 comment rows at every position of 3 figures, 3 kinds, 2 widths, 5 documents"),
            Space("histories", self.gen_history, self.ev_history, "all pairs of documents in one process"),
        ]


# -- schema ------------------------------------------------------------------------

INT = lambda x: isinstance(x, int) and not isinstance(x, bool)


def well_formed_model(doc):
    """None or what is wrong with a stage-2 document (written from the schema's text)."""
    if not isinstance(doc, dict) or set(doc) != {"meta", "entities"}:
        return "top level"
    meta = doc["meta"]
    for k in ("specification", "revision"):
        if not isinstance(meta.get(k), str):
            return f"meta.{k}"
    v = meta.get("format version")
    if isinstance(v, bool) or not isinstance(v, (int, float)) or v < 1:
        return "format version"
    if not isinstance(meta.get("lint"), list):
        return "no lint list"
    for e in meta["lint"]:
        if e.get("code") not in ref2.MSG:
            return f"lint code {e}"
        if e.get("msg") != ref2.MSG[e["code"]]:
            return f"lint message {e}"
        if not isinstance(e.get("fig"), str) or not e["fig"]:
            return f"lint figure {e}"
        if not isinstance(e.get("context"), dict):
            return f"lint context {e}"
        if e["code"][0] in "RLV" and not isinstance(e.get("row"), str):
            return f"lint row {e}"
        if set(e) - {"code", "msg", "fig", "row", "context"}:
            return f"lint keys {e}"
    for e in doc["entities"]:
        if not isinstance(e.get("fig_id"), str) or not e["fig_id"]:
            return f"fig_id {e}"
        if e.get("type") not in ("bits", "bytes", "values"):
            return f"type {e}"
        for k in ("title", "parent_fig_id"):
            if k in e and not isinstance(e[k], str):
                return f"{k} {e}"
        if not isinstance(e.get("fields"), list):
            return f"fields {e}"
        for f in e["fields"]:
            if not isinstance(f.get("label"), str) or ("brief" in f and not isinstance(f["brief"], str)):
                return f"field {f}"
            if e["type"] == "values":
                if not isinstance(f.get("val"), str):
                    return f"val {f}"
            else:
                r = f.get("range")
                ok = isinstance(r, str) or (
                    isinstance(r, dict)
                    and set(r) == {"low", "high"}
                    and (
                        (INT(r["low"]) and INT(r["high"]) and (r["low"] >= 0 or (r["low"], r["high"]) == (-1, -1)))
                        or (isinstance(r["low"], str) and isinstance(r["high"], str))
                    )
                )
                if not ok:
                    return f"range {f}"
    return None


class S14(Check):
    ID = "S14"
    TECHNIQUE = (
        "bounded exhaustive exploration of documents through the real pipeline to the written"
        " file; schema validation, an independent structural check and per-entry lint rules on each"
    )
    NOTE = (
        "Every document of the stated families is processed to a file by the real code; the file must"
        " be valid JSON, satisfy the repository's schema (the validator itself is checked to reject"
        " documents broken in one place) and an independent reading of it. A value figure"
        " without rows violates the schema (recorded finding)."
    )
    ASSUMPTIONS = ()

    _schema = None

    def run_doc(self, root, ctx, name="doc"):
        from spex.jsonspec.parserargs import ParserArgs
        from spex.parse import parse_spec
        from jsonschema import Draft202012Validator

        if self._schema is None:
            self._schema = Draft202012Validator(json.loads((REPO / "src/spex/resources/stage2.schema.json").read_text()))
        import os

        d = scratch() / f"s14-{os.getpid()}"
        d.mkdir(exist_ok=True)
        src = html(root) if not isinstance(root, str) else root
        (d / f"{name}.html").write_text(src)
        out = d / f"{name}.json"
        gen = parse_spec(d / f"{name}.html", ParserArgs(output_dir=d, skip_fig_on_error=True))
        try:
            while True:
                next(gen)
        except StopIteration as e:
            path = e.value
        ctx.replays += 1
        if path is None or Path(path) != out:
            return None, f"reported path {path}", src
        return json.loads(out.read_text()), None, src

    def judge(self, root, ctx, name="doc", model=False):
        from spex.validate import validate_json
        import os

        doc, msg, src = self.run_doc(root, ctx, name)
        if msg:
            return f"{msg} for {src}"
        ctx.state(repr(doc["entities"]) + repr(doc["meta"]["lint"]))
        ctx.step(len(doc["entities"]) + len(doc["meta"]["lint"]))
        msg = well_formed_model(doc)
        if msg:
            return f"{msg} in the result for {src}"
        meta = kids(kids(root, "head")[0], "meta")[0][1] if not isinstance(root, str) else None
        if meta is not None:
            want = (meta["data-spec"].lower(), meta["data-revision"].lower())
            if (doc["meta"]["specification"], doc["meta"]["revision"]) != want:
                return f"title and revision {doc['meta']} for {src}"
        if model:
            want = ref2.reference(root, True)
            got = [(e["code"], e["fig"], e.get("row"), e["context"]) for e in doc["meta"]["lint"]]
            msg = diff("reports", lint_multiset(want.lint), lint_multiset(got), src) or diff("entities", [norm_entity(e) for e in want.entities], [norm_entity(e) for e in doc["entities"]], src)
            if msg:
                return msg
        # figures named by lint entries
        have = {e["fig_id"] for e in doc["entities"]}
        fails = [e["fig"] for e in doc["meta"]["lint"] if e["code"] in ("T1000", "T1007", "T1008")]
        for e in doc["meta"]["lint"]:
            f = e["fig"]
            # of a failing figure, and of figures inside it, some entries remain
            excused = f in fails or any(x == f or x.startswith(f + "_") for x in fails)
            if f not in have and not excused:
                return f"lint entry {e} names an unknown figure for {src}"
        errors = list(self._schema.iter_errors(doc))
        if errors:
            empties = [e for e in doc["entities"] if e["type"] == "values" and not e["fields"]]
            rest = dict(doc, entities=[e for e in doc["entities"] if e not in empties])
            if empties and not list(self._schema.iter_errors(rest)):
                raise Finding("value-figure-without-rows", f"the schema requires at least one field of a value figure, for {src}")
            return f"schema: {errors[0].message[:500]} for {src}"
        try:
            validate_json(scratch() / f"s14-{os.getpid()}" / f"{name}.json")
        except Exception as e:
            return f"the tool's own validation refuses: {e!r} for {src}"
        return None

    PLACES = ["range", "formula", "code", "name", "acronym", "attribute", "title", "header", "nested range", "nested code", "number"]

    def gen_long(self):
        ns = list(range(1, Q(140, 300))) + [x + d for x in (255, 256, 511, 512, 1000, 1023, 1024, 2048, 4095, 4096, 8192, 65535) for d in (0, 1)]
        for place in self.PLACES:
            for n in ns:
                for fill in ("x", "a b ", "N * 4 + "):
                    yield (place, n, fill)

    def ev_long(self, case, ctx):
        place, n, fill = case
        t = (fill * (n // len(fill) + 1))[:n].strip()
        bits, byts, val = ["Bits", "Description"], ["Bytes", "Description"], ["Value", "Description"]
        std = "Field Nr A (FNA): is a"
        figs = {
            "range": lambda: [figure(1, bits, [tr(td(t), td(std)), std_row("0", 1)])],
            "formula": lambda: [figure(1, byts, [std_row("0"), tr(td(f"{t}):({t}"), td("?"))])],
            "code": lambda: [figure(1, val, [tr(td(t), td("?")), tr(td("0h"), td("Aa")), tr(td(t), td("Aa"))])],
            "name": lambda: [figure(1, bits, [tr(td("1"), td(t)), tr(td("0"), td(t))])],
            "acronym": lambda: [figure(1, bits, [tr(td("1"), td(f"Some ({t}): x")), tr(td("0"), td(f"Some ({t}): x"))])],
            "attribute": lambda: [figure(1, ["Bits", "Attribute", "Description"], [tr(td("1"), td(t), td("x")), tr(td("0"), td(t), td("x"))])],
            "title": lambda: [figure(1, bits, [tr(td(t), td("?"))], title=t)],
            "header": lambda: [figure(1, [t, "Meaning"], [tr(td("a"), td("b"))]), figure(2, ["Bit", t], [std_row("0")])],
            "nested range": lambda: [figure(1, byts, [tr(td("0"), td("Out Er (OE): x", nested(bits, [tr(td(t), td(std)), tr(td(t), td(std))])))])],
            "nested code": lambda: [figure(1, byts, [tr(td(t), td("Out Er (OE): x", nested(val, [tr(td(t), td("?")), tr(td(t), td("Aa"))])))])],
            "number": lambda: [figure("1" * n if n < 40 else "12", bits, [tr(td(t), td("?")), std_row("0", 1)])],
        }[place]()
        return self.judge(document(figs), ctx, model=True)

    TEXT = ["5", "7:4", "4:7", "N+7:N", "", "…", "note", "82h", "x"]
    DESC = ["Foo Bar (FB): text.", "Reserved", "Obsolete", "…", "", "No colon", "(): x", "12 Bytes", "a<b & \"c\" 'd'", "Ünïcödé ☃ \U0001f600", "Foo Bar (FB): " + "x" * 61, "Note: that"]

    def gen_rows(self):
        for kind in ("Bits", "Bytes", "Value"):
            for t in self.TEXT:
                for d in self.DESC:
                    for extra in self.TEXT[:6]:
                        for attr in (None, "Abc: x", "A b", ""):
                            yield (kind, t, d, extra, attr)

    def ev_rows(self, case, ctx):
        kind, t, d, extra, attr = case
        hdrs = [kind, "Description"] if attr is None else [kind, "Attribute", "Description"]
        mk = lambda r, x: tr(td(r), *([] if attr is None else [td(attr)]), td(x))
        rows = [mk(t, d), mk(extra, "Last One (LO): b")]
        return self.judge(document([figure(1, hdrs, rows)]), ctx, model=True)

    def gen_seq(self):
        T = list(doc_tables()) + ["value empty", "bits empty", "bytes list", "value nested empty", "alias", "title only", "no cells", "empty headers"]
        for s in sequences(T, 0, Q(2, 3)):
            yield s

    def ev_seq(self, s, ctx):
        T = doc_tables()
        T["value empty"] = lambda n: figure(n, ["Value", "Description"], [])
        T["bits empty"] = lambda n: figure(n, ["Bits", "Description"], [tr(td("note: x"), td("y"))])
        T["bytes list"] = lambda n: figure(n, ["Bytes", "Description"], [tr(th("The List", colspan="2")), std_row("N+3:N"), std_row("15:8", 1), std_row("?", 2)])
        T["value nested empty"] = lambda n: figure(n, ["Bits", "Description"], [tr(td("0"), td("Aa (AA): x", nested(["Value", "Description"], [])))])
        T["alias"] = lambda n: figure(n, ["Code", "Definition"], [tr(td("0"), td("1 a")), tr(td("0"), td("Same: b")), tr(td("1"), td("Same: c"))])
        T["title only"] = lambda n: E("table", E("tr", td(f"Figure {n}: T")))
        T["no cells"] = lambda n: E("table", E("tr", td(f"Figure {n}: T")), E("tr"), E("tr", td("x")))
        T["empty headers"] = lambda n: figure(n, ["", " "], [tr(td("x"), td("y"))])
        return self.judge(document([T[k](i + 1) for i, k in enumerate(s)]), ctx, model=True)

    def gen_names(self):
        for spec in ["Spec", "NVM Express® NVM Command Set Specification", "A & B", "<x>", "", "Ünï"]:
            for rev in ["1.0", "1.0c", "", "2.0C"]:
                for name in ["doc", "a b", "a.b.c", "Ünï", "x&y", "-x"]:
                    yield (spec, rev, name)

    def ev_names(self, case, ctx):
        spec, rev, name = case
        figs = [f for f in S13().figs()]
        return self.judge(document(figs, spec, rev), ctx, name)

    def good(self):
        return {
            "meta": {"specification": "s", "revision": "r", "format version": 1, "spex version": "1", "lint": [{"code": "T1001", "msg": "m", "fig": "1", "row": "0", "context": {}}]},
            "entities": [
                {"title": "t", "fig_id": "1", "type": "bits", "fields": [{"range": {"low": 0, "high": 1}, "label": "a", "brief": "b"}, {"range": "x", "label": "a"}, {"range": {"low": "a", "high": "b"}, "label": "c"}, {"range": {"low": -1, "high": -1}, "label": "…"}]},
                {"title": "t", "fig_id": "1", "type": "values", "fields": [{"val": "0", "label": "a", "brief": "b"}]},
            ],
        }

    def gen_mutants(self):
        """documents broken in one place, that the validator must refuse."""
        yield None
        for path in [
            ("meta",), ("entities",), ("meta", "specification"), ("meta", "revision"), ("meta", "format version"),
            ("meta", "lint", 0, "code"), ("meta", "lint", 0, "msg"), ("meta", "lint", 0, "fig"), ("meta", "lint", 0, "context"),
            ("entities", 0, "fig_id"), ("entities", 0, "type"), ("entities", 1, "fig_id"), ("entities", 1, "type"),
            ("entities", 0, "fields", 0, "range"), ("entities", 0, "fields", 0, "label"), ("entities", 1, "fields", 0, "val"), ("entities", 1, "fields", 0, "label"),
        ]:
            yield ("del", path, None)
            yield ("set", path, None)
            yield ("set", path, True)
            if path[-1] not in ("format version",):
                yield ("set", path, 5)
            if path[-1] in ("type",):
                yield ("set", path, "other")
        yield ("set", ("meta", "format version"), 0)
        yield ("set", ("entities", 0, "fields", 0, "range"), {"low": -2, "high": 1})
        yield ("set", ("entities", 0, "fields", 0, "range"), {"low": 1.5, "high": 1})
        yield ("set", ("entities", 0, "fields", 0, "brief"), 5)
        yield ("set", ("entities", 1, "fields", 0, "brief"), 5)
        yield ("set", ("entities", 1, "fields"), {})
        yield ("set", ("entities", 0, "fields"), "x")

    def ev_mutant(self, case, ctx):
        from spex.validate import validate_json
        import os

        doc = self.good()
        if case:
            op, path, val = case
            at = doc
            for k in path[:-1]:
                at = at[k]
            if op == "del":
                del at[path[-1]]
            else:
                at[path[-1]] = val
        f = scratch() / f"mut-{os.getpid()}.json"
        f.write_text(json.dumps(doc))
        ctx.replays += 1
        ctx.state(case)
        ctx.step()
        try:
            validate_json(f)
            ok = True
        except Exception:
            ok = False
        if ok != (case is None):
            return f"validation {'accepts' if ok else 'refuses'} {doc}"
        return None

    def spaces(self):
        return [
            Space("rows", self.gen_rows, self.ev_rows, f"all figures of a row over {len(self.TEXT)} range texts x {len(self.DESC)} descriptions x 4 attributes and a second row over 6, three kinds"),
            Space("documents", self.gen_seq, self.ev_seq, f"all sequences of 0..{Q(2,3)} tables over 24 kinds, reports and entities compared with the model"),
            Space("identities", self.gen_names, self.ev_names, "6 titles x 4 revisions x 6 file names, with all specially handled figures"),
            Space("mutants", self.gen_mutants, self.ev_mutant, "documents with one value removed or replaced, against the validation the tool offers"),
            Space("long", self.gen_long, self.ev_long, f"texts of 1..{Q(139, 299)} characters and around powers of 2 up to 65536, of 3 patterns, in each of {self.PLACES}, reports and entities compared with the model"),
        ]


class S15(Check):
    ID = "S15"
    TECHNIQUE = (
        "bounded exhaustive exploration of all ways of writing a document within the bounds, each"
        " processed by the real code and compared with the result for the plain writing"
    )
    NOTE = (
        "Every document of the stated set is written in every stated way, at every place of it and"
        " in all combinations of the ways that concern the whole file; entities, reports and"
        " meta data must be those of the plain writing. Namespaces are outside the property."
    )
    ASSUMPTIONS = ("the document is well-formed XML, its elements are in no namespace",)

    # -- documents, as trees ------------------------------------------------

    def documents(self):
        from . import docs

        M = lambda *t, spec="Spec™ é", rev="1.0c": document(list(t), spec, rev)
        sub = lambda *rows: nested(["Bits", "Description"], list(rows))
        li = lambda *t: E("ul", *[E("li", p(x)) for x in t])
        return {
            "bits": M(docs.good("1"), docs.gap("2")),
            "text": M(docs.bits("1", tr(td("7:4"), td("Größe 1 & 2 (G<1>): a ≤ b, see “x”", "more ☃ text")), tr(td("3:0"), td("Reserved")), title="é \"q\" 'r' < & > ü")),
            "value": M(docs.value("3"), figure("4", ["Value", "Definition", "Reference"], [tr(td("0h"), td("Aé: x"), td("Section 5.1")), tr(td("1h to 3h"), td("Reserved"), td(""))])),
            # a brief ends before the table which follows
            "nested": M(docs.bits("5", tr(td("9"), td("Outer One (OUT): o. The bits of it are those which the table below lists, from the highest", sub(std_row("1"), std_row("0", 1))))), docs.bits("6", tr(td("9"), td("Outer One (OUT): o. The bits of it are those which the table below lists, from the highest", sub(tr(td("8"), td("In Two (INT): o. The codes of it are those which the table below lists, from the lowest", nested(["Value", "Description"], [tr(td("0h"), td("Aa"))])))))))),
            "span": M(table([title_row("Figure 7: T", 3), tr(th("Bytes"), th("Type"), th("Description")), tr(td("7:4", rowspan="2"), td("M"), td("Field One (FO): x")), tr(td("O"), td("more")), tr(td("3:0"), td("Two Cols (TC): y", colspan="2"))], id="fig7")),
            "reports": M(docs.numberless(), docs.hdr("8"), docs.dup("9"), docs.skipped("10"), docs.bad("11"), docs.fields("12")),
            "list": M(docs.bits("1", tr(td("7:4"), E("td", p("Field One (FO): the following:"), li("one", "two & three"), p("end"))), tr(td("3:0"), E("td", E("p", E("span", "Field "), E("b", "Two"), E("span", " (FT)"), ": y"))))),
            "rule": M(docs.value("33"), docs.good("100"), spec=docs.NVM[0], rev=docs.NVM[1]),
            # texts which are in no elements of their own
            "bare": M(table([tr(E("td", E("p", "Figure 1: T"))), tr(E("th", "Value"), E("th", "Description")), tr(E("td", E("p", "00b")), E("td", E("p", "Aa Bb: some text"))), tr(E("td", "01b"), E("td", E("p", "Reserved")))]), table([tr(E("td", "Figure 2: T")), tr(E("th", E("p", "Bits")), E("th", "Description")), tr(E("td", E("p", "7:4")), E("td", E("p", "Cc Dd (CD): text"))), tr(E("td", "3:0"), E("td", E("p", "Reserved")))])),
            # the rules of single specifications which look at a row's neighbours
            "glued": M(figure(23, ["Bits", "Description"], [std_row("7", 0), tr(td("Figure 24: Glued", colspan="2")), tr(th("Bits"), th("Description")), std_row("4", 1), std_row("3", 2)]), docs.good("100"), spec=docs.NVM[0], rev=docs.NVM[1]),
            "glued in": M(figure(64, ["Bits", "Description"], [tr(td("9"), td("A Name (NA): b. The bits of it are those which the table below lists, from the highest", sub(std_row("1", 3)))), std_row("0", 4), tr(td("Figure 65: Glued", colspan="2")), tr(th("Bits"), th("Description")), std_row("5", 5)]), spec="NVM Express® Management Interface Specification", rev="1.2c"),
            "skipped row": M(figure(41, ["Bytes", "Description"], [std_row("0", 0), tr(td("Something (refer to Figure 39).", colspan="2")), std_row("1", 1)]), figure(37, ["Bytes", "Description"], [std_row("0", 2), std_row("1", 2)]), spec="NVM Express® Key Value Command Set Specification", rev="1.0c"),
        }

    # -- writing: a list of tokens, each a tag or a text --------------------

    def tokens(self, node, out=None):
        """('open', name, attrs) ('close', name) ('text', s), in order."""
        out = [] if out is None else out
        out.append(("open", node[0], tuple(node[1].items())))
        for c in node[2]:
            if isinstance(c, str):
                out.append(("text", c))
            else:
                self.tokens(c, out)
        out.append(("close", node[0]))
        return out

    ESC = {"&": "&amp;", "<": "&lt;", ">": "&gt;"}
    BLOCK = {"html", "head", "body", "table", "tr", "meta"}  # blanks inside mean nothing

    def plain(self, t):
        if t[0] == "open":
            return f"<{t[1]}" + "".join(f' {k}="{self.esc(str(v))}"' for k, v in t[2]) + ">"
        if t[0] == "close":
            return f"</{t[1]}>"
        return self.esc(t[1])

    def esc(self, s):
        return "".join({**self.ESC, '"': "&quot;"}.get(c, c) for c in s)

    # ways that concern one place: name -> function(tokens, i) -> text or None

    def before(ins):
        return lambda self, ts, i: ins + self.plain(ts[i])

    def inside(ins):
        """all the places within a text."""

        def f(self, ts, i):
            if ts[i][0] != "text":
                return None
            s = ts[i][1]
            return [self.esc(s[:k]) + ins + self.esc(s[k:]) for k in range(1, len(s))]

        return f

    def text(fn):
        return lambda self, ts, i: fn(self, ts[i][1]) if ts[i][0] == "text" else None

    def tag(fn):
        return lambda self, ts, i: fn(self, ts[i]) if ts[i][0] == "open" else None

    def cdata(self, s):
        return "<![CDATA[" + s.replace("]]>", "]]]]><![CDATA[>") + "]]>"

    def quoted(self, t):
        return f"<{t[1]}" + "".join(" " + k + "='" + self.esc(str(v)).replace("'", "&#39;").replace("&quot;", '"') + "'" for k, v in t[2]) + ">"

    def blanks(self, t):
        return f"<{t[1]}" + "".join(f'\n\t{k} = "{self.esc(str(v))}"\r\n' for k, v in t[2]) + "  >"

    def reversed_(self, t):
        return self.plain((t[0], t[1], t[2][::-1]))

    def between(ins):
        """blanks between tags, where they mean nothing."""

        def f(self, ts, i):
            if i == 0 or ts[i][0] == "text" or ts[i - 1][0] == "text":
                return None
            a = ts[i - 1][1] if ts[i - 1][0] == "open" else None
            b = ts[i][1] if ts[i][0] == "close" else None
            outer = self.parent(ts, i)
            return ins + self.plain(ts[i]) if outer in self.BLOCK else None

        return f

    def parent(self, ts, i):
        """the element which the place before token i is in."""
        depth = 0
        for t in reversed(ts[:i]):
            if t[0] == "close":
                depth += 1
            elif t[0] == "open":
                if depth == 0:
                    return t[1]
                depth -= 1
        return None

    def empty(self, ts, i):
        if ts[i][0] == "open" and i + 1 < len(ts) and ts[i + 1][0] == "close":
            return self.plain(ts[i])[:-1] + "/>", 2

    def whole(self, ts, i):
        """the element as an entity."""
        if ts[i][0] != "open" or ts[i][1] == "html":
            return None
        depth, j = 0, i
        while True:
            depth += {"open": 1, "close": -1}.get(ts[j][0], 0)
            j += 1
            if depth == 0:
                break
        markup = "".join(self.plain(t) for t in ts[i:j])
        # % & and quotes are literal markup of the declaration
        lit = markup.replace("%", "&#37;").replace("'", "&#39;")
        return "&whole;", j - i, f"<!ENTITY whole '{lit}'>"

    def words(self, ts, i):
        """a text as entities of entities."""
        if ts[i][0] != "text" or len(ts[i][1]) < 2:
            return None
        s = ts[i][1]
        lit = lambda x: "".join(f"&#38;#{ord(c)};" if c in "<&%'\"" else c for c in x)
        k = len(s) // 2
        return "&two;", 1, f"<!ENTITY one '{lit(s[:k])}'><!ENTITY two '&one;{lit(s[k:])}'>"

    def attr_entity(self, ts, i):
        if ts[i][0] != "open" or not ts[i][2]:
            return None
        (k, v), rest = ts[i][2][0], ts[i][2][1:]
        lit = "".join(f"&#38;#{ord(c)};" if c in "<&%'\"" else c for c in str(v))
        return f'<{ts[i][1]} {k}="&at;"' + self.plain(("open", ts[i][1], rest))[1 + len(ts[i][1]):], 1, f"<!ENTITY at '{lit}'>"

    WAYS = {
        "comment": before("<!-- Bits 7:4 <td> -->"),
        "empty comment": before("<!---->"),
        "instruction": before("<?spex 3:0?>"),
        "comment in text": inside("<!--x-->"),
        "instruction in text": inside("<?x y?>"),
        "empty cdata in text": inside("<![CDATA[]]>"),
        "cdata": text(cdata),
        "cdata in part": text(lambda self, s: [self.esc(s[:k]) + self.cdata(s[k:]) for k in range(1, len(s))]),
        "cdata twice": text(lambda self, s: [self.cdata(s[:k]) + self.cdata(s[k:]) for k in range(1, len(s))]),
        "decimal": text(lambda self, s: "".join(f"&#{ord(c)};" for c in s)),
        "hex": text(lambda self, s: "".join(f"&#x{ord(c):X};" for c in s)),
        "one reference": text(lambda self, s: [self.esc(s[:k]) + f"&#{ord(s[k])};" + self.esc(s[k + 1 :]) for k in range(len(s))]),
        "literal >": text(lambda self, s: self.esc(s).replace("&gt;", ">").replace("&quot;", '"')),
        "apostrophes": tag(quoted),
        "blanks in tag": tag(blanks),
        "order of attributes": tag(reversed_),
        "attribute references": tag(lambda self, t: f"<{t[1]}" + "".join(f' {k}="' + "".join(f"&#{ord(c)};" for c in str(v)) + '"' for k, v in t[2]) + ">"),
        "blank in end tag": lambda self, ts, i: f"</{ts[i][1]} \n>" if ts[i][0] == "close" else None,
        "empty element": empty,
        "line between": between("\n  "),
        "crlf between": between("\r\n\t"),
        "comment between": between(" <!-- x --> "),
        "reference between": between("&#32;&#9;"),
        "entity of an element": whole,
        "entity of a text": words,
        "entity in attribute": attr_entity,
    }
    del before, inside, text, tag, between

    # ways that concern the whole file: every combination
    PROLOG = ["", '<?xml version="1.0"?>', "decl", "decl sq", "decl standalone"]
    DOCTYPE = ["", "<!DOCTYPE html>", "<!DOCTYPE html []>", "<!-- c --><!DOCTYPE html ><?x y?>", '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" "http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">']
    CODES = ["utf-8", "utf-8 bom", "UTF8 name", "utf-16", "utf-16-le bom", "utf-16-be bom", "iso-8859-1", "us-ascii", "windows-1252"]
    LINES = ["none", "\n", "\r\n", "\r"]
    STYLE = ["plain", "cdata", "references", "comments"]
    END = ["", "\n", "\n<!-- end -->\n", "<?x?>"]

    def whole_file(self, ts, prolog, doctype, code, line, style, end):
        name = {"utf-8 bom": "UTF-8", "UTF8 name": "utf8", "utf-16-le bom": "UTF-16", "utf-16-be bom": "UTF-16"}.get(code, code)
        head = {
            "decl": f'<?xml version="1.0" encoding="{name}"?>',
            "decl sq": f"<?xml version = '1.0' encoding = '{name.upper()}' ?>",
            "decl standalone": f'<?xml version="1.0" encoding="{name}" standalone="yes"?>\n',
        }.get(prolog, prolog)
        utf = code.lower().startswith("utf")
        if not utf and not prolog.startswith("decl"):
            return None  # cannot be told
        out = []
        for i, t in enumerate(ts):
            s = self.plain(t)
            if t[0] == "text":
                s = {"cdata": lambda: self.cdata(t[1]), "references": lambda: "".join(f"&#{ord(c)};" for c in t[1])}.get(style, lambda: s)()
            if style == "comments":
                out.append("<!--é-->" if utf or code == "iso-8859-1" else "<!--e-->")
            if line != "none" and i and t[0] != "text" and ts[i - 1][0] != "text" and self.parent(ts, i) in self.BLOCK:
                out.append(line + " ")
            out.append(s)
        src = head + ("" if line == "none" else line) + doctype + "".join(out) + end
        enc = {"utf-8 bom": "utf-8-sig", "UTF8 name": "utf-8", "utf-16-le bom": "utf-16-le", "utf-16-be bom": "utf-16-be"}.get(code, code)
        if enc.startswith("utf-16-"):
            src = "\ufeff" + src
        if utf:
            return src.encode(enc)
        # what the encoding has not, is a reference; in CDATA it cannot be
        if style == "cdata":
            try:
                return src.encode(enc)
            except UnicodeEncodeError:
                return None
        return src.encode(enc, "xmlcharrefreplace")

    # -- judging ------------------------------------------------------------

    def process(self, data):
        import os
        from spex.jsonspec.parserargs import ParserArgs
        from spex.parse import parse_spec

        d = scratch() / f"s15-{os.getpid()}"
        d.mkdir(exist_ok=True)
        (d / "doc.html").write_bytes(data)
        try:
            for _ in parse_spec(d / "doc.html", ParserArgs(output_dir=d, skip_fig_on_error=True)):
                pass
        except Exception as e:
            return f"{type(e).__name__}: {e}"
        return json.loads((d / "doc.json").read_text())

    def init(self):
        self.docs = {k: self.tokens(v) for k, v in self.documents().items()}
        self.base = {}
        for k, v in self.documents().items():
            r = self.process(html(v).encode("utf-8"))
            assert isinstance(r, dict), (k, r)
            self.base[k] = r

    def compare(self, name, data, how, ctx):
        got = self.process(data)
        ctx.replays += 1
        ctx.state((name, how))
        ctx.step()
        want = self.base[name]
        if got == want:
            return None
        if isinstance(got, str):
            return f"refused when {how}: {got} for {data!r}"
        for part in ("meta", "entities"):
            msg = diff(part, want[part], got[part], data)
            if msg:
                return f"differs when {how}: {msg}"
        return f"differs when {how}: {got} instead of {want}"

    def gen_one(self):
        for name, root in self.documents().items():
            n = len(self.tokens(root))
            for way in self.WAYS:
                for i in range(n):
                    yield name, way, i

    def variants(self, ts, way, i):
        """(text, number of tokens replaced, declarations) of each variant."""
        got = self.WAYS[way](self, ts, i)
        if got is None:
            return []
        if isinstance(got, str):
            got = [got]
        if isinstance(got, tuple):
            return [(got + ("",))[:3]]
        return [(s, 1, "") for s in got]

    def ev_one(self, case, ctx):
        name, way, i = case
        ts = self.docs[name]
        for s, n, decl in self.variants(ts, way, i):
            src = "<!DOCTYPE html" + (f" [{decl}]" if decl else "") + ">\n" + "".join(self.plain(t) for t in ts[:i]) + s + "".join(self.plain(t) for t in ts[i + n :])
            msg = self.compare(name, src.encode("utf-8"), (way, i), ctx)
            if msg:
                return msg
        return None

    def gen_all(self):
        """the ways of one place, at all places of the document at once; pairs of them."""
        for name in self.documents():
            for a in self.WAYS:
                for b in [None, *self.WAYS]:
                    yield name, a, b

    def ev_all(self, case, ctx):
        name, a, b = case
        ts = self.docs[name]
        out, i = [], 0
        while i < len(ts):
            n = 1
            s = self.plain(ts[i])
            for way in (b, a) if i % 2 else (a, b):
                if way is None or way.startswith("entity"):
                    continue
                v = self.variants(ts, way, i)
                if v:
                    s, n, _ = v[len(v) // 2]
                    break
            out.append(s)
            i += n
        return self.compare(name, ("<!DOCTYPE html>" + "".join(out)).encode("utf-8"), (a, b), ctx)

    def gen_file(self):
        names = list(self.documents())
        for name in Q(names[:2] + ["rule"], names):
            yield from ((name,) + c for c in itertools.product(self.PROLOG, self.DOCTYPE, self.CODES, self.LINES, self.STYLE, self.END))

    def ev_file(self, case, ctx):
        name = case[0]
        data = self.whole_file(self.docs[name], *case[1:])
        if data is None:
            ctx.skipped += 1
            return None
        return self.compare(name, data, case[1:], ctx)

    # -- the same, through the page of a report

    def gen_page(self):
        for a in self.WAYS:
            for name in ("reports", "bits", "text", "span", "list") if core.THOROUGH else ("reports",):
                yield name, a

    def with_ids(self, root):
        figs = [(t[0], {**t[1], "id": str(8 + i)}, t[2]) for i, t in enumerate(kids(kids(root, "body")[0]))]
        meta = kids(kids(root, "head")[0])[0][1]
        return document(figs, meta["data-spec"], meta["data-revision"])

    def ev_page(self, case, ctx):
        name, way = case
        root = self.with_ids(self.documents()[name])
        ts = self.tokens(root)
        figs = {t[1]["id"]: t for t in kids(kids(root, "body")[0])}
        consts = lambda out: next(web.report_consts(v) for k, v in out.items() if k.startswith("/report") and "?" not in k)
        err, out = web.all_pages("a.html", html(root).encode("utf-8"))
        assert err is None, err
        want = consts(out)
        places = [i for i in range(len(ts)) if self.variants(ts, way, i)]
        if way.startswith("entity"):
            sets = [(i,) for i in places[:: Q(9, 1)]]
        else:
            sets = [places[::2], places[1::2], places]
        for at in sets:
            buf, i, decls = [], 0, ""
            while i < len(ts):
                s, n = self.plain(ts[i]), 1
                if i in at:
                    v = self.variants(ts, way, i)
                    s, n, decls = v[len(v) // 2]
                buf.append(s)
                i += n
            data = ("<!DOCTYPE html" + (f" [{decls}]" if decls else "") + ">\n" + "".join(buf)).encode("utf-8")
            ctx.replays += 1
            ctx.step()
            ctx.state((case, at))
            err, out = web.all_pages("a.html", data)
            if err:
                return f"{way} at {at}: {err} for {data!r}"
            got = consts(out)
            for k in ("report", "erroneous_figure_ids"):
                if sorted(want[k]) != sorted(got[k]) or k == "report" and want[k] != got[k]:
                    return f"{way} at {at}: the page has {k} {got[k]} instead of {want[k]} for {data!r}"
            if set(got["report_html"]) != set(want["report_html"]) or not want["report_html"]:
                return f"{way} at {at}: figures {sorted(got['report_html'])} are shown instead of {sorted(want['report_html'])} for {data!r}"
            for k, v in got["report_html"].items():
                if not web.same_figure(v, figs[k]):
                    return f"{way} at {at}: figure {k} is shown as {v[:800]!r} for {data!r}"
        return None

    # -- the text of a paragraph, cut into runs -----------------------------

    PARAS = ["7:4", "Figure 1: Té x", "Description", "Bits", "Field One (FO): some text", "Reserved", "0h to 3h", "Length of it", "n + 1 : n"]

    def runs(self, words, cut):
        """cut: for each gap between characters, nothing or a new run."""
        out, cur = [], words[0]
        for c, x in zip(words[1:], cut):
            if x:
                out.append(cur)
                cur = ""
            cur += c
        return out + [cur]

    WRAP = ["span", "b", "a", "nested", "bare"]

    def gen_runs(self):
        for place in ("title", "header", "range", "label", "value"):
            text = {"title": "Figure 1: Té x", "header": "Description", "range": "17:4", "label": "Ab Cd (AC): x", "value": "0Fh"}[place]
            n = len(text) - 1
            for k in range(0, Q(3, 4)):
                for at in itertools.combinations(range(n), k):
                    for wrap in self.WRAP:
                        yield place, at, wrap

    def ev_runs(self, case, ctx):
        place, at, wrap = case
        text = {"title": "Figure 1: Té x", "header": "Description", "range": "17:4", "label": "Ab Cd (AC): x", "value": "0Fh"}
        parts = self.runs(text[place], [i in at for i in range(len(text[place]) - 1)])
        W = {
            "span": lambda xs: [E("span", x) for x in xs],
            "b": lambda xs: [E(("b", "i", "span", "sup")[i % 4], x) for i, x in enumerate(xs)],
            "a": lambda xs: [E("span", E("a", x, href="#x")) if i % 2 else E("span", x, style="color:#FF0000") for i, x in enumerate(xs)],
            "nested": lambda xs: [E("span", *[y for i, x in enumerate(xs) for y in (x, E("b", ""))])],
            "bare": lambda xs: [x if i % 2 else E("span", x) for i, x in enumerate(xs)],
        }[wrap]
        P = lambda k: E("p", *(W(parts) if k == place else [E("span", text[k])]))
        build = lambda P: document([
            table([tr(E("td", P("title"), colspan="2")), tr(E("th", p("Bits")), E("th", P("header"))), tr(E("td", P("range")), E("td", P("label"))), tr(td("3:0"), td("Reserved"))]),
            figure("2", ["Value", "Description"], [tr(E("td", P("value")), td("Alpha"))]),
        ])
        want = self.process(html(build(lambda k: E("p", E("span", text[k])))).encode("utf-8"))
        got = self.process(html(build(P)).encode("utf-8"))
        ctx.replays += 1
        ctx.state(case)
        ctx.step()
        if not isinstance(want, dict) or len(want["entities"]) != 2 or want["meta"]["lint"] and place != "range":
            return f"unexpected result {want}"
        return None if got == want else f"the {place} cut at {at} ({wrap}): {got} instead of {want}"

    def spaces(self):
        web.warm()
        n = len(self.documents())
        return [
            Space("places", self.gen_one, self.ev_one, f"{n} documents, each of {len(self.WAYS)} ways at each place of the document and of its texts", init=self.init),
            Space("throughout", self.gen_all, self.ev_all, f"{n} documents, each way and each pair of ways at all places", init=self.init),
            Space("files", self.gen_file, self.ev_file, f"{Q(3, n)} documents, all combinations of {len(self.PROLOG)} prologs, {len(self.DOCTYPE)} document types, {len(self.CODES)} encodings, {len(self.LINES)} line ends, {len(self.STYLE)} styles and {len(self.END)} ends", init=self.init),
            Space("page", self.gen_page, self.ev_page, f"{Q(1, 5)} documents, each way at all places, at every other and in entities of every {Q('9th ', '')}element, through upload and report page"),
            Space("runs", self.gen_runs, self.ev_runs, f"5 kinds of text cut at all sets of up to {Q(2, 3)} places, in {len(self.WRAP)} kinds of inline markup"),
        ]
