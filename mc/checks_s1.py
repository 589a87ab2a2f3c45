"""S01-S06: rows, ranges, names and the lint of one figure."""
import itertools

from . import impl, ref2
from .core import Check, Space
from .impl import lint_multiset
from .tree import document, figure, html, nested, p, table, td, th, title_row, tr
from .util import AFFIXED, AFFIXES, Q, alpha, both, chunks, diff, find_figures, forest_space, growth, noblank, sequences, std_row, word_space

MODEL = (
    "bounded exhaustive exploration of the real stage-2 code against an independent"
    " reference model"
)
NOTE = (
    "Every input within the stated bounds is run through the real code and compared with"
    " the reference model, which itself agrees with the real code on all eight example"
    " specifications. Inputs beyond the bounds are not covered. Trusted: Python, lxml, the"
    " reference model (mc/ref2.py)."
)


def struct_entities(o):
    return [e for e in o.entities if e["type"] in ("bits", "bytes")]


class S01(Check):
    ID = "S01"
    TECHNIQUE = MODEL + " (all range texts up to a length over a token alphabet)"
    NOTE = NOTE
    ASSUMPTIONS = ("range cells contain text only", "numbers are decimal digits")

    TOKENS = ["0", "1", "7", "12", "03", "255", ":", " ", "\n", "+", "n", "h", "-", "(", "to", "\u00a0", ".", "x"]

    def proj(self, o):
        return [(e["fig_id"], e["type"], [f["range"] for f in e["fields"]]) for e in struct_entities(o)]

    def judge(self, root, ctx):
        want, got, src = both(root, ctx)
        w = self.proj(want)
        ctx.state((w, lint_multiset(want.lint, "R1001", "R1002")))
        return diff("ranges", w, self.proj(got), src) or diff(
            "range reports",
            lint_multiset(want.lint, "R1001", "R1002"),
            lint_multiset(got.lint, "R1001", "R1002"),
            src,
        )

    def fig(self, kind, texts, num=1, sep=False, swap=False):
        hdrs = [kind, "Attribute", "Description"] if sep else [kind, "Description"]
        rows = []
        for i, t in enumerate(texts):
            d = f"Field Nr {alpha(i)} (F{alpha(i)}): is field {i}"
            cells = [td(t), td(f"N{alpha(i)}: x"), td(d)] if sep else [td(t), td(d)]
            rows.append(tr(*(reversed(cells) if swap else cells)))
        if swap:
            hdrs.reverse()
        return figure(num, hdrs, rows)

    def ev_tokens(self, case, ctx):
        kind, texts = case
        return self.judge(document([self.fig(kind, texts)]), ctx)

    def gen_tokens(self):
        n = Q(4, 5)
        texts = ("".join(s) for s in sequences(self.TOKENS, 0, n))
        for c in chunks(texts, 24):
            yield ("Bytes", c)
        texts = ("".join(s) for s in sequences(self.TOKENS, 0, 3))
        for c in chunks(texts, 24):
            yield ("Bits", c)

    NUMS = [0, 1, 2, 3, 7, 8, 9, 10, 11, 15, 16, 31, 32, 63, 64, 99, 100, 101, 127, 128, 255, 256, 511, 999, 1000, 1023, 1024, 4095, 4096, 65535, 2**31, 2**32 - 1, 2**63, 2**64 - 1, 10**20]
    GLUE = [":", " :", ": ", " : ", "  :  ", "\t:\n", "\u00a0:\u00a0"]
    ZERO = ["{}", "0{}", "000{}"]

    def gen_pairs(self):
        def texts():
            for z in self.ZERO:
                for a in self.NUMS:
                    yield z.format(a)
            for g in self.GLUE:
                for z in self.ZERO if g == ":" else self.ZERO[:2]:
                    for a in self.NUMS:
                        for b in self.NUMS:
                            yield z.format(a) + g + z.format(b)
            m = Q(70, 200)
            for a in range(m):
                for b in range(m):
                    yield f"{a}:{b}"

        for kind in ("Bits", "Bytes"):
            for c in chunks(texts(), 24):
                yield (kind, c)

    def gen_affixes(self):
        def texts():
            for a in AFFIXES:
                for x in ("7:4", "7"):
                    yield from (x + a, a + x)
                yield from (f"7{a}:4", f"7:{a}4", f"7{a}4")

        for kind in ("Bytes", "Bits"):
            for c in chunks(texts(), 24):
                yield (kind, c)

    PLACE = ["5", "7:4", "4:7", "3:0 ", "n", "7:", ":7", "1:2:3", "2*n+7:2*n+6", "03 to 13", "82h", "", "31 + x :32"]

    def gen_place(self):
        for kind in ("Bits", "Bytes", "Bit", "BYTE"):
            for sep in (False, True):
                for swap in (False, True):
                    for n in range(1, Q(4, 6)):
                        for i in range(n):
                            for t in self.PLACE:
                                for u in self.PLACE if n <= 3 else self.PLACE[:3]:
                                    yield (kind, sep, swap, n, i, t, u)

    def ev_place(self, case, ctx):
        kind, sep, swap, n, i, t, u = case
        texts = [str(k * 8) for k in range(n)]
        texts[-1] = u
        texts[i] = t
        f1 = self.fig(kind, texts, 1, sep, swap)
        f2 = self.fig(kind, ["0", "1"], 2, sep, swap)
        return self.judge(document([f1, f2]), ctx)

    def gen_nested(self):
        for kinds in itertools.product(("Bits", "Bytes", "Value"), ("Bits", "Bytes")):
            for key in self.PLACE[:5]:
                for t in self.PLACE:
                    yield (kinds, key, t)

    def ev_nested(self, case, ctx):
        (outer, inner), key, t = case
        sub = nested([inner, "Description"], [std_row("9:8"), std_row(t, 1)])
        row = tr(td(key), td("Outer Field (OF): it is", sub))
        return self.judge(
            document([figure(1, [outer, "Description"], [row, std_row("77", 3)])]), ctx
        )

    FOREST = {
        "reversed": (["Bits", "Description"], [["20:27", "Field Nr A (FNA): is a"], ["19", "Field Nr B (FNB): is b"]]),
        "text": (["Bits", "Description"], [["N+1", "Field Nr A (FNA): is a"], ["19", "Field Nr B (FNB): is b"]]),
        "bytes": (["Bytes", "Description"], [["3:0", "Field Nr A (FNA): is a"], ["4", "Field Nr B (FNB): is b"]]),
        "reversed bytes": (["Bytes", "Attribute", "Description"], [["20:27", "A", "Field Nr A (FNA): is a"], ["28", "B", "Field Nr B (FNB): is b"]]),
        "text bytes": (["Bytes", "Description"], [["N+1", "Field Nr A (FNA): is a"], ["20 : 27", "Field Nr B (FNB): is b"]]),
        "code": (["Value", "Description"], [["20:27", "Aa"], ["N+1", "Bb"]]),
    }

    def words(self, w):
        return [self.fig(kind, [w, f"{w} 3", f"3 {w}", f"7:4 {w}", f"{w}:0", f"9:{w}", "3:0"], 1 + i) for i, kind in enumerate(("Bytes", "Bits"))]

    def spaces(self):
        n = Q(4, 5)
        return [
            Space("tokens", self.gen_tokens, self.ev_tokens, f"all texts of 0..{n} tokens of {self.TOKENS} in bytes figures, 0..3 in bits figures"),
            Space("pairs", self.gen_pairs, self.ev_tokens, f"all h, h:l over {len(self.NUMS)} magnitudes x blanks x leading zeros, and all 0..{Q(70,200)-1}"),
            Space("affixes", self.gen_affixes, self.ev_tokens, f"{AFFIXED} before, after, within and instead of the colon of a range"),
            Space("place", self.gen_place, self.ev_place, "13 range texts at every row of figures of up to 3 (5) rows, 4 header spellings, with and without attribute column, both column orders"),
            Space("nested", self.gen_nested, self.ev_nested, "13 range texts in a nested figure of each kind"),
            forest_space(self.FOREST, self.judge, ["reversed", "text", "text bytes"]),
            word_space(self.judge, self.words, 1, "as range text and around numbers"),
        ]


class S02(Check):
    ID = "S02"
    TECHNIQUE = (
        "bounded exhaustive exploration of all row sequences of the real code; the reports"
        " are judged against the fields the code itself emitted"
    )
    NOTE = (
        "All sequences of rows over an alphabet of ranges up to the stated length, and all"
        " single defects in long tables. The oracle is a direct transcription of the property"
        " over emitted fields. Longer irregular tables and ranges outside the alphabet are not"
        " covered."
    )
    ASSUMPTIONS = ("list mode is covered by S12",)

    CODES = ("T1001", "T1002", "T1004")
    ROWS = ["0", "1", "2", "3", "1:0", "2:1", "3:2", "2:0", "3:1", "3:0", "0:2", "…", "x", "R0", "R2:1", "O1"]

    def row(self, t, i):
        if t == "…":
            return tr(td("…", colspan="2"))
        if t[0] == "R":
            return tr(td(t[1:]), td("Reserved"))
        if t[0] == "O":
            return tr(td(t[1:]), td("Obsolete"))
        return std_row(t, i)

    def judge(self, root, ctx, n_entities):
        src = html(root)
        got = impl.run(src)
        ctx.replays += 1
        want = []
        ents = struct_entities(got)
        if got.failed or len(ents) != n_entities:
            return f"expected {n_entities} figures, got {len(ents)} (failed: {got.failed} {got.error}) for {src}"
        for e in ents:
            ctx.step(len(e["fields"]))
            want += [x for x in ref2.struct_lint(e["fig_id"], e["fields"]) if x[0] in self.CODES]
        ctx.state([(x[0], x[2]) for x in want] + [[f["range"] for f in e["fields"]] for e in ents])
        return diff("order, overlap and gap reports", lint_multiset(want), lint_multiset(got.lint, *self.CODES), src)

    def gen_seq(self):
        for kind in ("Bytes", "Bits"):
            for s in sequences(self.ROWS, 0, 3):
                yield (kind, s)
        for kind in ("Bytes", "Bits"):
            for s in sequences(self.ROWS if Q(0, 1) else [r for r in self.ROWS if r not in ("3:0", "R2:1", "2:0", "0")], 4, 4):
                yield (kind, s)

    def ev_seq(self, case, ctx):
        kind, s = case
        return self.judge(
            document([figure(1, [kind, "Description"], [self.row(t, i) for i, t in enumerate(s)])]), ctx, 1
        )

    DEFECTS = ["gap", "gap9", "overlap", "overlap1", "inside", "swap", "text", "ellipsis", "reserved", "obsolete", "obsolete gap", "same", "rev"]

    def gen_long(self):
        for kind in ("Bytes", "Bits"):
            for width in (1, 3, 8):
                for n in Q((3, 8, 12, 33, 70), (3, 8, 12, 33, 70, 150, 300)):
                    for d in self.DEFECTS:
                        for pos in range(1, n):
                            yield (kind, width, n, d, pos)

    def ev_long(self, case, ctx):
        kind, width, n, d, pos = case
        rows, at = [], 0
        defects = dict(zip(pos, d)) if isinstance(pos, tuple) else {pos: d}
        for i in range(n):
            lo, hi = at, at + width - 1
            d = defects.get(i)
            if d:
                if d in ("gap", "obsolete gap"):
                    lo, hi = lo + 1, hi + 1
                elif d == "gap9":
                    lo, hi = lo + 9, hi + 9
                elif d == "overlap":
                    lo, hi = lo - 1, max(hi - 1, lo - 1)
                elif d == "overlap1":
                    lo = lo - 1
                elif d == "inside":
                    lo, hi = lo - width, lo - 1
                elif d == "same":
                    hi = hi + 4
            at = hi + 1
            rows.append(f"{hi}:{lo}" if hi != lo else str(lo))
            if d:
                if d == "swap":
                    rows[-1], rows[-2] = rows[-2], rows[-1]
                elif d == "text":
                    rows[-1] = "N+1:N"
                elif d == "ellipsis":
                    rows[-1] = "…"
                elif d == "reserved":
                    rows[-1] = "R" + rows[-1]
                elif d.startswith("obsolete"):
                    rows[-1] = "O" + rows[-1]
                elif d == "rev":
                    rows[-1] = f"{lo}:{hi}"
        if kind == "Bits":
            rows.reverse()
        return self.judge(
            document([figure(1, [kind, "Description"], [self.row(t, i) for i, t in enumerate(rows)])]), ctx, 1
        )

    def gen_longer(self):
        for n in Q((130, 260, 520), (130, 260, 520, 1030, 2050)):
            for kind in ("Bytes", "Bits"):
                for d in self.DEFECTS:
                    for pos in sorted({1, 64, 100, 127, 128, 129, 200, 250, 255, 256, 257, 300, 400, 500, 511, 512, 513, 1000, 1024, n // 2, n - 2, n - 1}):
                        if pos < n:
                            yield (kind, 1 if pos % 2 else 3, n, d, pos)

    def gen_pairs(self):
        for kind in ("Bytes", "Bits"):
            for d, e in itertools.product(self.DEFECTS, repeat=2):
                for i, j in itertools.combinations(range(1, Q(9, 14)), 2):
                    yield (kind, 2, Q(9, 14), (d, e), (i, j))

    BIG = [0, 1, 7, 8, 9, 10, 31, 63, 64, 99, 100, 127, 255, 256, 1000, 4095, 4096, 4097, 65535, 65536, 2**31 - 1, 2**31, 2**32, 2**63 - 1, 2**64, 10**20]

    def gen_big(self):
        for i in range(len(self.BIG)):
            for w in (0, 1, 7, 4096):
                for j in range(len(self.BIG)):
                    for b in (self.BIG[i], self.BIG[i] + 1, self.BIG[i] + w, self.BIG[i] + w + 1, self.BIG[i] + w + 2, self.BIG[j]):
                        for v in (0, 9):
                            yield ((self.BIG[i], w), (b, v))

    def ev_big(self, case, ctx):
        texts = [f"{a + w}:{a}" if w else f"{a}" for a, w in case]
        figs = []
        for n, kind in enumerate(("Bytes", "Bits")):
            rows = [self.row(t, i) for i, t in enumerate(texts)]
            figs.append(figure(n + 1, [kind, "Description"], rows if kind == "Bytes" else rows[::-1]))
        return self.judge(document(figs), ctx, 2)

    LAYOUTS = [("{}", "Description"), ("Description", "{}"), ("{}", "Attribute", "Description"), ("{}", "Type", "Default", "Description"), ("Attribute", "{}", "Description", "Note"), ("Description", "Attribute", "{}")]

    def gen_layouts(self):
        for kind in ("Bytes", "Bits", "Byte", "bit"):
            for lay in range(1, len(self.LAYOUTS)):
                for s in sequences(self.ROWS, 0, Q(2, 3)):
                    yield (kind, lay, s)

    def ev_layouts(self, case, ctx):
        kind, lay, s = case
        lay = self.LAYOUTS[lay]
        rows = []
        for i, t in enumerate(s):
            if t == "…":
                rows.append(tr(td("…", colspan=str(len(lay)))))
                continue
            what = {"{}": t.lstrip("R"), "Description": "Reserved" if t[0] == "R" else f"Some Text (F{alpha(i)}): that", "Attribute": "Reserved" if t[0] == "R" else f"A{alpha(i)}: x"}
            rows.append(tr(*[td(what.get(c, f"{40 - i}:{50 - i}")) for c in lay]))
        return self.judge(document([figure(1, [c.format(kind) for c in lay], rows)]), ctx, 1)

    def gen_two(self):
        small = ["0", "1", "2:1", "…", "x"]
        for ka, kb in itertools.product(("Bytes", "Bits"), repeat=2):
            for a in sequences(small, 1, 2):
                for b in sequences(small, 1, 2):
                    for shape in ("two", "nest"):
                        yield (ka, kb, a, b, shape)

    def ev_two(self, case, ctx):
        ka, kb, a, b, shape = case
        ra = [self.row(t, i) for i, t in enumerate(a)]
        rb = [self.row(t, i) for i, t in enumerate(b)]
        if shape == "two":
            figs = [figure(1, [ka, "Description"], ra), figure(2, [kb, "Description"], rb)]
        else:
            ra.append(tr(td("3"), td("Outer (OUT): has", nested([kb, "Description"], rb))))
            figs = [figure(1, [ka, "Description"], ra)]
        return self.judge(document(figs), ctx, 2)

    FOREST = {
        "gap": (["Bytes", "Description"], [["1:0", "Field Nr A (FNA): is a"], ["4", "Field Nr B (FNB): is b"]]),
        "overlap": (["Bytes", "Description"], [["4:0", "Field Nr A (FNA): is a"], ["5:4", "Field Nr B (FNB): is b"]]),
        "disorder": (["Bytes", "Description"], [["4:2", "Field Nr A (FNA): is a"], ["1:0", "Field Nr B (FNB): is b"]]),
        "gap bits": (["Bits", "Description"], [["31:20", "Field Nr A (FNA): is a"], ["15:11", "Field Nr B (FNB): is b"]]),
        "overlap bits": (["Bits", "Description"], [["31:20", "Field Nr A (FNA): is a"], ["20:11", "Field Nr B (FNB): is b"]]),
        "disorder bits": (["Bits", "Description"], [["21:20", "Field Nr A (FNA): is a"], ["31:22", "Field Nr B (FNB): is b"]]),
        "text": (["Bytes", "Description"], [["1:0", "Field Nr A (FNA): is a"], ["x", "Field Nr B (FNB): is b"]]),
    }

    def spaces(self):
        return [
            Space("sequences", self.gen_seq, self.ev_seq, f"all sequences of 0..3 rows over {self.ROWS}, of 4 rows over {Q(11, 15)} of them; bytes and bits"),
            Space("long", self.gen_long, self.ev_long, f"tables of up to {Q(70,300)} adjacent fields of width 1, 3, 8 with one of {self.DEFECTS} at every row"),
            Space("longer", self.gen_longer, self.ev_long, f"tables of 130, 260 and 520{Q('', ', 1030, 2050')} fields with one of these defects at up to 22 rows"),
            Space("two defects", self.gen_pairs, self.ev_long, f"tables of {Q(9,14)} fields with every two of these defects at every two rows"),
            Space("magnitudes", self.gen_big, self.ev_big, f"every two fields starting at {len(self.BIG)} magnitudes up to 10^20, of width 1, 2, 8, 4097, in all positions to each other"),
            Space("layouts", self.gen_layouts, self.ev_layouts, f"all sequences of 0..{Q(2,3)} rows in {len(self.LAYOUTS)-1} other column layouts, four header spellings"),
            Space("two figures", self.gen_two, self.ev_two, "all pairs of row sequences of length 1..2 in consecutive and in nested figures"),
            forest_space(self.FOREST, lambda root, ctx: self.judge(root, ctx, len(find_figures(root))), ["gap", "overlap bits", "disorder"]),
        ]


class S03(Check):
    ID = "S03"
    TECHNIQUE = MODEL + " (all sequences of row kinds)"
    NOTE = NOTE
    ASSUMPTIONS = ("rows have the cells their header announces or a single cell",)

    KINDS = [
        "std", "reserved", "RESERVED", "obsolete", "reserved+", "lone…", "all…", "range…", "desc…",
        "lone note", "range note", "heading", "heading span", "single", "text",
    ]

    def row(self, k, i, sep):
        name = f"Field Nr {alpha(i)} (F{alpha(i)}): is field {i}."
        attr = f"N{alpha(i)}: attribute"
        r = str(i)
        n = 3 if sep else 2

        def full(rng, desc, a=attr):
            d = desc if isinstance(desc, list) else [desc]
            a = a if isinstance(a, list) else [a]
            return tr(td(rng), td(*a), td(*d)) if sep else tr(td(rng), td(*d))

        if k == "std":
            return full(r, name)
        if k in ("reserved", "RESERVED", "obsolete"):
            return full(r, {"reserved": "Reserved", "RESERVED": "RESERVED", "obsolete": "Obsolete"}[k])
        if k == "attr reserved":
            return full(r, "Reserved for later use", "Reserved")
        if k == "attr obsolete":
            return full(r, "as of now", "OBSOLETE")
        if k == "reserved+":
            return full(r, ["Reserved", "for further use."], ["Reserved", "more"])
        if k == "lone…":
            return tr(td("…", colspan=str(n)))
        if k == "all…":
            return full("…", "…", "…")
        if k == "range…":
            return full("…", name)
        if k == "desc…":
            return full(r, "…", "…")
        if k == "lone note":
            return tr(td("Notes: 1. this", colspan=str(n)))
        if k == "range note":
            return full("Note: that", name)
        if k == "heading":
            return tr(*[th("Head") for _ in range(n)])
        if k == "heading span":
            return tr(th("Section", colspan=str(n)))
        if k == "single":
            return tr(td("A remark in between", colspan=str(n)))
        if k == "text":
            return full(f"N+{i}", name)
        raise KeyError(k)

    def proj(self, o):
        return [
            (e["fig_id"], e["type"], [(f["label"], f["range"]) for f in e["fields"]])
            for e in struct_entities(o)
        ]

    def judge(self, root, ctx):
        want, got, src = both(root, ctx)
        ctx.state(self.proj(want))
        return diff("fields", self.proj(want), self.proj(got), src)

    def gen_seq(self):
        for sep in (False, True):
            kinds = self.KINDS + (["attr reserved", "attr obsolete"] if sep else [])
            for kind in ("Bytes", "Bits"):
                for s in sequences(kinds, 0, 3):
                    yield (kind, sep, s)
        for kind in ("Bytes", "Bits"):
            for s in sequences(self.KINDS if Q(0, 1) else self.KINDS[:1] + self.KINDS[3:13], 4, 4):
                yield (kind, False, s)
        if Q(0, 1):
            short = ["std", "reserved", "lone…", "range…", "lone note", "heading", "single"]
            for kind in ("Bytes", "Bits"):
                for s in sequences(short, 5, 6):
                    yield (kind, False, s)

    def ev_seq(self, case, ctx):
        kind, sep, s = case
        hdrs = [kind, "Attribute", "Description"] if sep else [kind, "Description"]
        return self.judge(
            document([figure(1, hdrs, [self.row(k, i, sep) for i, k in enumerate(s)])]), ctx
        )

    def gen_long(self):
        for kind in ("Bytes", "Bits"):
            for n in range(0, Q(150, 400)):
                yield (kind, n, None, 0)
            for n in Q((9, 17, 40, 70), (9, 17, 40, 70, 130, 260)):
                for k in self.KINDS[1:]:
                    for pos in range(n):
                        yield (kind, n, k, pos)

    def ev_long(self, case, ctx):
        kind, n, k, pos = case
        return self.judge(
            document([figure(1, [kind, "Description"], [self.row(k if i == pos and k else "std", i, False) for i in range(n)])]),
            ctx,
        )

    def gen_pairs(self):
        n = Q(8, 12)
        for kind in ("Bytes", "Bits"):
            for a, b in itertools.product(self.KINDS[1:], repeat=2):
                for i, j in itertools.combinations(range(n), 2):
                    yield (kind, n, (a, b), (i, j))
            for n2 in Q((260, 520, 1030), (260, 520, 1030, 4100)):
                yield (kind, n2, (), ())
                for a in self.KINDS[1:]:
                    yield (kind, n2, (a, a), (1, n2 - 1))

    def ev_pairs(self, case, ctx):
        kind, n, kinds, pos = case
        at = dict(zip(pos, kinds))
        return self.judge(document([figure(1, [kind, "Description"], [self.row(at.get(i, "std"), i, False) for i in range(n)])]), ctx)

    def gen_repeats(self):
        kinds = ["std", "reserved", "obsolete", "lone…", "desc…", "text", "single"]
        for kind in ("Bytes", "Bits"):
            for sep in (False, True):
                for n, ks in ((2, kinds), (3, kinds), (4, kinds[:Q(4, 6)]), (5, kinds[:Q(2, 3)])):
                    for g in growth(n):
                        if len(set(g)) < n:
                            for s in sequences(ks, n, n):
                                yield (kind, sep, s, g)

    def ev_repeats(self, case, ctx):
        kind, sep, s, g = case
        hdrs = [kind, "Attribute", "Description"] if sep else [kind, "Description"]
        return self.judge(document([figure(1, hdrs, [self.row(k, i, sep) for i, k in zip(g, s)])]), ctx)

    LAYOUTS = [("{}", "Type", "Description"), ("{}", "Type", "Description", "Default"), ("Description", "{}"), ("Type", "{}", "Default", "Description"), ("{}", "Attribute", "Type", "Description"), ("Description", "Attribute", "{}")]

    def gen_layouts(self):
        kinds = [k for k in self.KINDS if k not in ("heading",)]
        for kind in ("Bytes", "Bits", "byte", "Bit"):
            for lay in range(len(self.LAYOUTS)):
                for s in sequences(kinds, 0, Q(2, 3)):
                    yield (kind, lay, s)

    def ev_layouts(self, case, ctx):
        kind, lay, s = case
        lay = self.LAYOUTS[lay]
        n = len(lay)
        rows = []
        for i, k in enumerate(s):
            what = {"{}": str(i), "Description": f"Field Nr {alpha(i)} (F{alpha(i)}): is {i}.", "Attribute": f"N{alpha(i)}: attribute"}
            if k in ("reserved", "RESERVED", "obsolete"):
                what["Description"] = {"reserved": "Reserved", "RESERVED": "RESERVED", "obsolete": "Obsolete"}[k]
            elif k == "reserved+":
                what["Attribute"] = what["Description"] = "Reserved"
            elif k == "all…":
                what = dict.fromkeys(lay, "…")
            elif k == "range…":
                what["{}"] = "…"
            elif k == "desc…":
                what["Description"] = what["Attribute"] = "…"
            elif k == "range note":
                what["{}"] = "Note: that"
            elif k == "text":
                what["{}"] = f"N+{i}"
            elif k != "std":
                rows.append({"lone…": tr(td("…", colspan=str(n))), "lone note": tr(td("Notes: 1. this", colspan=str(n))), "heading span": tr(th("Section", colspan=str(n))), "single": tr(td("A remark in between", colspan=str(n)))}[k])
                continue
            rows.append(tr(*[td(what.get(c, f"{c} {i}")) for c in lay]))
        return self.judge(document([figure(1, [c.format(kind) for c in lay], rows)]), ctx)

    FOREST = {
        "plain": (["Bytes", "Description"], [["0", "Field Nr A (FNA): is a"], ["1", "Field Nr B (FNB): is b"]]),
        "reserved": (["Bytes", "Description"], [["0", "Reserved"], ["1", "Field Nr B (FNB): is b"]]),
        "…": (["Bits", "Description"], [["31", "Field Nr A (FNA): is a"], [td("…", colspan="2")], ["20", "Field Nr B (FNB): is b"]]),
        "heading": (["Bits", "Description"], [["31", "Field Nr A (FNA): is a"], [th("Head"), th("Head")], ["20", "Field Nr B (FNB): is b"]]),
        "note": (["Bytes", "Attribute", "Description"], [["0", "A", "Field Nr A (FNA): is a"], ["Note: x", "B", "Field Nr B (FNB): is b"]]),
        "remark": (["Bits", "Description"], [[td("A remark in between", colspan="2")], ["20", "Field Nr B (FNB): is b"]]),
        "code": (["Value", "Description"], [["2h", "Aa"], ["0h", "Reserved"]]),
    }

    def words(self, w):
        a, b, c = std_row("1"), std_row("2", 1), std_row("3", 2)
        rows = [
            tr(td(w, colspan="2")), tr(th(w, colspan="2")), tr(td(w), td("Field Nr Z (FZ): x")), tr(td("5"), td(w)), tr(th(w), th("Head")), tr(td("5"), td(f"Field Nr Z (FZ): {w}")),
            tr(td("5"), td(f"{w} (FZ): x")), tr(td("", colspan="2")), tr(td(w, "more", colspan="2")),
        ]
        figs = [figure(1 + i, ["Bits" if i % 2 else "Bytes", "Description"], [c, r, b, a] if i % 2 else [a, r, b, c]) for i, r in enumerate(rows)]
        three = lambda r, x, d: tr(td(r), td(x), td(d))
        figs.append(figure(20, ["Bytes", "Attribute", "Description"], [three("0", "Aa", "x"), three("1", w, "y"), three("2", "Bb", w), tr(td(w, colspan="3")), three("3", "Cc", "z")]))
        return figs

    def spaces(self):
        return [
            Space("sequences", self.gen_seq, self.ev_seq, f"all sequences of 0..3 rows over {len(self.KINDS)}(+2) row kinds with and without attribute column, of 4 rows over {Q(11, 15)} kinds" + Q("", ", of 5..6 rows over 7 kinds")),
            Space("long", self.gen_long, self.ev_long, f"0..{Q(149, 399)} standard rows; every row kind at every row of tables of up to {Q(70, 260)} rows"),
            Space("two kinds", self.gen_pairs, self.ev_pairs, f"every two row kinds at every two rows of {Q(8,12)}; tables of 260, 520, 1030 rows, also with each kind at both ends"),
            Space("repeats", self.gen_repeats, self.ev_repeats, "all sequences of 2..3 rows over 7 row kinds, 4 over 4 (6), 5 over 2 (3), in all ways in which rows can repeat range and texts of others"),
            Space("layouts", self.gen_layouts, self.ev_layouts, f"all sequences of 0..{Q(2,3)} rows in {len(self.LAYOUTS)} other column layouts, four header spellings"),
            forest_space(self.FOREST, self.judge, ["plain", "…", "heading"]),
            word_space(self.judge, self.words, 1, "as single-cell row, heading, range, name and attribute"),
        ]


class S04(Check):
    ID = "S04"
    TECHNIQUE = MODEL + " (all description texts up to a length, and a grammar of realistic ones)"
    NOTE = NOTE
    ASSUMPTIONS = ("the description starts with a paragraph",)
    LINT = ("L1000", "L1001", "L1003", "L1004")

    def proj(self, o):
        return [
            (e["fig_id"], [(f["label"], f.get("brief") or None) for f in e["fields"]])
            for e in struct_entities(o)
        ]

    def judge(self, root, ctx):
        want, got, src = both(root, ctx)
        w = self.proj(want)
        ctx.state((w, lint_multiset(want.lint, *self.LINT)))
        return diff("names and briefs", w, self.proj(got), src) or diff(
            "name reports", lint_multiset(want.lint, *self.LINT), lint_multiset(got.lint, *self.LINT), src
        )

    def ev_texts(self, case, ctx):
        kind, texts = case
        rows = [tr(td(str(i)), td(t)) for i, t in enumerate(texts)]
        return self.judge(document([figure(1, [kind, "Description"], rows)]), ctx)

    CHARS = ["a", "B", "1", " ", "-", "/", "(", ")", ":", ".", "_"]

    def gen_chars(self):
        for c in chunks(("".join(s) for s in sequences(self.CHARS, 1, Q(5, 6))), 24):
            yield ("Bytes", c)
        odd = ["é", "*", ",", "&", "\n", "\u00a0", "a", "(", ":", "’"]
        for c in chunks(("".join(s) for s in sequences(odd, 1, Q(4, 5))), 24):
            yield ("Bits", c)

    WORDS = ["Foo", "bar", "I/O", "Sub-Queue", "A2", "3rd", "List,", "Énergie", "Data & Co"]
    ACR = ["", " (FB)", " (FOO BAR)", "(fb)", " (F2_X)", " (9A)", " ()", " (A)"]
    BRIEF = [None, "", " text", " Text.", " Text...", " One. Two", " with: colon", " with (parens)", " see [1] & <b>", ". x", " …"]

    def gen_grammar(self):
        def texts():
            for n in (1, 2, 3):
                for w in itertools.product(self.WORDS, repeat=n):
                    for a in self.ACR:
                        if n < 3:
                            briefs = self.BRIEF
                        else:
                            briefs = self.BRIEF[:3]
                        for b in briefs:
                            yield " ".join(w) + a + ("" if b is None else ":" + b)

        for c in chunks(texts(), 16):
            yield ("Bits", c)

    def gen_lengths(self):
        def texts():
            for total in range(54, 68):
                for dots in range(0, 4):
                    yield "Name (NM): " + "x" * total + "." * dots
                for first in range(0, total):
                    s = "y" * first + "." + "z" * (total - first - 1)
                    yield "Name (NM): " + s
                for first in (58, 59, 60, 61):
                    for second in (0, 5, 40):
                        yield "Name (NM): " + "y" * first + ". " + "w" * second + ". end"
            for total in (0, 1, 2, 10, 59, 60, 61, 62, 119, 120, 121, 300, 2000):
                yield "Name (NM):" + " " * 3 + "w" * total
                yield "Name (NM): " + "w " * total

        for kind in ("Bits", "Bytes"):
            for c in chunks(texts(), 8):
                yield (kind, c)

    ATTR = ["a", "B", "1", " ", "-", "/", ":", "_", "("]
    DESC = ["Foo Bar (FB): text.", "No colon at all", "Long: " + "x" * 70, "X (Y)"]

    def gen_attr(self):
        for c in chunks(("".join(s) for s in sequences(self.ATTR, 1, Q(4, 5))), 16):
            yield (c, self.DESC[0])
        named = [" ".join(w) + c for n in (1, 2) for w in itertools.product(self.WORDS[:8], repeat=n) for c in ("", ":", ": more", ":more: x")]
        for d in self.DESC:
            for c in chunks(named, 16):
                yield (c, d)

    def ev_attr(self, case, ctx):
        attrs, d = case
        rows = [tr(td(str(i)), td(a), td(d)) for i, a in enumerate(attrs)]
        f1 = figure(1, ["Bytes", "Attribute", "Description"], rows)
        rows = [tr(td(d), td(str(len(attrs) - i)), td(a)) for i, a in enumerate(attrs)]
        f2 = figure(2, ["Description", "Bits", "Attribute"], rows)
        return self.judge(document([f1, f2]), ctx)

    def gen_paras(self):
        first = ["Foo Bar (FB): one.", "Foo (FO)", "Foo Bar", "X: a"]
        for a in first:
            for b in ("two: b", "(ZZ): c", "Reserved", "", "w" * 70):
                for c in ("", "third", ":"):
                    for spans in (1, 2, 3):
                        for tbl in (False, True):
                            yield (a, b, c, spans, tbl)

    def ev_paras(self, case, ctx):
        a, b, c, spans, tbl = case
        k = max(1, len(a) // spans)
        parts = [a[i : i + k] for i in range(0, len(a), k)]
        content = [p(*parts), b] + ([c] if c else [])
        if tbl:
            content.append(nested(["Bits", "Description"], [std_row("0")]))
        rows = [tr(td("7"), td(*content)), std_row("6", 5)]
        return self.judge(document([figure(1, ["Bits", "Description"], rows)]), ctx)

    def gen_counts(self):
        def texts():
            for n in range(1, Q(60, 150)):
                names = [" ".join(f"{chr(65 + i % 26)}w{i}" for i in range(n)), " ".join("xY1z"[i % 4] * (1 + i % 3) for i in range(n)), "W" * n, "-".join("ab"[i % 2] + "c" for i in range(n))]
                for w in names:
                    for a in ("", " (FB)", " (" + "ABCDEFGHIJ1_"[: n % 12 + 1] * 1 + ")"):
                        for b in ("", ": Text. More.", ": " + w):
                            yield w + a + b
                for a in ("A" * n, "A_" * n, "F" + "1" * n, "9" * n, "A B " * n, "a" * n):
                    yield f"Foo Bar ({a}): Text."
                    yield f"Foo Bar ({a})"
                yield "Foo Bar " + "(FB) " * n + ": Text."
                yield "Foo Bar (FB)" + ":" * n + " Text."
                yield "Foo Bar (FB): " + "Te. " * n
                yield "Foo" + " " * n + "Bar (FB): Text."

        for kind in ("Bits", "Bytes"):
            for c in chunks(texts(), 12):
                yield (kind, c)

    def gen_attr_counts(self):
        def texts():
            for n in range(1, Q(60, 150)):
                for w in (" ".join(f"{chr(65 + i % 26)}w{i}" for i in range(n)), " ".join("xY1z"[i % 4] * (1 + i % 3) for i in range(n)), "W" * n, "-".join("ab"[i % 2] + "c" for i in range(n))):
                    yield from (w, w + ":", w + ": More", "AB:" + w)
                yield from ("Foo" + " " * n + "Bar", "Foo" + ":" * n, "Foo" + ":x" * n)
            for a in AFFIXES:
                for f in ("{}Foo Bar", "Foo{} Bar", "Foo {}Bar", "Foo Bar{}", "{}AB: Foo", "A{}B: Foo", "AB{}: Foo", "AB:{} Foo", "Foo{}Bar"):
                    yield f.format(a)

        for c in chunks(texts(), 16):
            yield (c, self.DESC[0])

    SPOTS = ["{}Foo Bar (FB): Text. More", "Foo{} Bar (FB): Text. More", "Foo {}Bar (FB): Text. More", "Foo Bar{} (FB): Text. More", "Foo Bar ({}FB): Text. More", "Foo Bar (F{}B): Text. More", "Foo Bar (FB{}): Text. More", "Foo Bar (FB){}: Text. More", "Foo Bar (FB): {}Text. More", "Foo Bar (FB): Text{}. More", "Foo Bar (FB): Text.{} More", "Foo Bar (FB): Text. More{}", "Foo Bar{}: Text. More", "Foo Bar{}", "Foo Bar (FB){}", "Foo Bar{}FB: Text"]

    def gen_affixes(self):
        for kind in ("Bytes", "Bits"):
            for c in chunks((f.format(a) for a in AFFIXES for f in self.SPOTS), 16):
                yield (kind, c)

    FOREST = {
        "named": (["Bytes", "Description"], [["0", "Field Nr A (FNA): is a"], ["1", "Field Nr B (FNB): is b"]]),
        "imputed": (["Bytes", "Description"], [["0", "Field Nr A: is a"], ["1", "Field Nr B: is b"]]),
        "none": (["Bytes", "Description"], [["0", "?"], ["1", "Field Nr B (FNB): is b"]]),
        "signs": (["Bits", "Description"], [["31", "Field Nr A (F*A): is a"], ["30", "Field Nr B (é): is b"]]),
        "attribute": (["Bits", "Attribute", "Description"], [["31", "(*)", "Is a. More."], ["30", "Nr B", "Is b. More."]]),
        "code": (["Value", "Description"], [["2h", "A*"], ["0h", "?"]]),
    }

    def words(self, ws):
        forms = ["{}", "{} (AB): x", "Abc Def ({}): x", "Abc Def: {}", "Abc Def (AD): {} more. Rest", "{}: This is it.", "Abc {}: x", "{} Abc Def: x", "Abc Def (AD) {}: x", "Abc Def (AD): x {}"]
        figs = [figure(1 + i, ["Bytes", "Description"], [tr(td(str(j)), td(f.format(w))) for j, w in enumerate(ws)]) for i, f in enumerate(forms)]
        figs.append(figure(20, ["Bits", "Attribute", "Description"], [tr(td(str(30 - j)), td(w), td("About it. More.")) for j, w in enumerate(ws)]))
        return figs

    def spaces(self):
        return [
            Space("characters", self.gen_chars, self.ev_texts, f"all texts of 1..{Q(5,6)} characters over {self.CHARS}, of 1..{Q(4,5)} over 10 unusual ones"),
            Space("grammar", self.gen_grammar, self.ev_texts, "all descriptions of 1..3 words out of 9, 8 acronym forms, 11 brief forms"),
            Space("lengths", self.gen_lengths, self.ev_texts, "briefs of 54..67 characters with a full stop at every position, 0..3 trailing ones, and up to 4000 characters"),
            Space("counts", self.gen_counts, self.ev_texts, f"names of 1..{Q(59,149)} words, letters or parts, acronyms and runs of the separators of as many"),
            Space("affixes", self.gen_affixes, self.ev_texts, f"{AFFIXED} at {len(self.SPOTS)} places of a description"),
            Space("attribute counts", self.gen_attr_counts, self.ev_attr, f"attribute texts of 1..{Q(59,149)} words, letters or parts; the same affixes at 9 places of one"),
            Space("attribute", self.gen_attr, self.ev_attr, f"all attribute texts of 1..{Q(4,5)} characters over {self.ATTR}; realistic ones x 4 descriptions; two column orders"),
            Space("paragraphs", self.gen_paras, self.ev_paras, "descriptions of 2..3 paragraphs, 1..3 spans, with and without nested figure"),
            forest_space(self.FOREST, self.judge, ["imputed", "none", "signs"]),
            word_space(self.judge, self.words, 12, "in 11 places of names, acronyms, briefs and attributes"),
        ]


class S05(Check):
    ID = "S05"
    TECHNIQUE = MODEL + " (all names and codes up to a length, all sequences of row kinds)"
    NOTE = NOTE
    ASSUMPTIONS = ("rows have the cells their header announces or a single cell",)
    LINT = ("L1000", "L1003", "L1004", "L1007", "T1000")

    def proj(self, o):
        return [
            (e["fig_id"], [(f["val"], f["label"], f.get("brief") or None) for f in e["fields"]])
            for e in o.entities
            if e["type"] == "values"
        ]

    def judge(self, root, ctx):
        want, got, src = both(root, ctx)
        w = self.proj(want)
        ctx.state((w, lint_multiset(want.lint, *self.LINT)))
        return diff("values", w, self.proj(got), src) or diff(
            "name reports", lint_multiset(want.lint, *self.LINT), lint_multiset(got.lint, *self.LINT), src
        )

    HDRS = [["Value", "Description"], ["Code", "Definition"], ["Values", "Power Scope"], ["Value", "Something"], ["Value", "Attribute", "Description"], ["Definition", "Value"]]

    CHARS = ["a", "B", "1", " ", "-", "/", "(", ":", ".", "_"]

    def gen_names(self):
        for c in chunks(("".join(s) for s in sequences(self.CHARS, 1, Q(5, 6))), 24):
            yield (0, c)
        for h in (3, 4, 5):
            for c in chunks(("".join(s) for s in sequences(self.CHARS, 1, 4)), 24):
                yield (h, c)
        odd = ["é", "*", ",", "&", "\n", "2", "A", "[", ":", "’"]
        for c in chunks(("".join(s) for s in sequences(odd, 1, Q(4, 5))), 24):
            yield (1, c)

    def make(self, h, pairs, num=1):
        hdrs = self.HDRS[h]
        rows = []
        for v, t in pairs:
            t = t if isinstance(t, list) else [t]
            if len(hdrs) == 3:
                rows.append(tr(td(v), td(*t), td("Some: description here.")))
            elif hdrs[1] == "Value":
                rows.append(tr(td(*t), td(v)))
            else:
                rows.append(tr(td(v), td(*t)))
        return figure(num, hdrs, rows)

    def ev_names(self, case, ctx):
        h, texts = case
        return self.judge(document([self.make(h, [(f"{i:02X}h", t) for i, t in enumerate(texts)])]), ctx)

    SPOTS = ["{}Foo Bar: text", "Foo{} Bar: text", "Foo {}Bar: text", "Foo Bar{}: text", "Foo Bar:{} text", "Foo Bar: text{}", "Foo Bar{}", "{}16 Foo: x", "16{} Foo: x", "16{}Foo: x", "16 Foo{}: x"]

    def gen_counts(self):
        def names():
            for n in range(1, Q(60, 150)):
                yield from (f"{'1234567890' * n}"[:n] + t for t in ("", " Foo: x", "Foo", "_Foo", "-Foo", " "))
                yield from ("Foo " * n + ": x", "Foo" * n, "F" + " " * n + "B: x", "F" + "-" * n + "B", "F" + "/" * n + "B", "F" + "_" * n + "B", "F" + " -" * n + " B", "F" + ":" * n + " B", "F: " + "Be. " * n, "F" + "(" * n)

        for h in range(len(self.HDRS)):
            for c in chunks(names(), 24):
                yield (h, c)

    def gen_affixes(self):
        for h in (0, 4):
            for c in chunks((f.format(a) for a in AFFIXES for f in self.SPOTS), 24):
                yield (h, c)

    def gen_code_counts(self):
        def codes():
            for n in range(1, Q(60, 150)):
                yield from ("1" * n, "0" * n + "1h", "F" * n + "h", "1 " * n, "01b" * n, "x" + " " * n + "y", "A to " * n + "B", "é" * n)
            for a in AFFIXES:
                yield from (f"1Fh{a}", f"{a}1Fh", f"1{a}Fh", f"A to{a} B")

        for h in (0, 5):
            for c in chunks(codes(), 24):
                yield (h, c)

    CODES = ["00h", "01H", "0Fh to 1Fh", "AbC", "1", "07", "All others", "1_2", "É", "00B", "a:b", "C0h–FFh", "…", " … ", "Reserved", "x\ny", ""]
    NAMES = ["Success", "Two Words: brief.", "Reserved", "RESERVED", "4096 bytes", "32_Bit", "1", "I/O - Error", "A  B", "Read (opt): text", "No: " + "y" * 61, "No: short. " + "y" * 61, "x…", "12 - 13: to"]

    def gen_codes(self):
        for h in range(len(self.HDRS)):
            for c in self.CODES:
                for n in self.NAMES:
                    for extra in (0, 1, 2):
                        yield (h, c, n, extra)

    def ev_codes(self, case, ctx):
        h, c, n, extra = case
        pairs = [("F0h", "Before"), (c, n), ("F1h", "After: it.")][(1 if extra == 0 else 0) : 2 if extra < 2 else 3]
        return self.judge(document([self.make(h, pairs)]), ctx)

    PIECES = ["0", "0000", "11110000", "FFFFFFFF", "1", " ", "b", "h", "d", "to", "-", ":", "_", "x", "\u00a0", "."]

    def gen_pieces(self):
        for c in chunks(("".join(s) for s in sequences(self.PIECES, 1, Q(4, 5))), 24):
            yield (0, c)
        for c in chunks(("".join(s) for s in sequences(["0000", "0001", " ", "b", "h"], 5, Q(6, 8))), 24):
            yield (1, c)

    def ev_pieces(self, case, ctx):
        h, codes = case
        return self.judge(document([self.make(h, [(c, f"Name {alpha(i)}: brief {i}.") for i, c in enumerate(codes)])]), ctx)

    KINDS = ["std", "reserved", "lone…", "val…", "notes", "note", "single", "heading", "nameless", "two paragraphs", "same", "note that", "noted", "notes that"]

    def row(self, k, i, n):
        v, t = f"{i:02x}h", f"Name Nr {alpha(i)}: brief {i}."
        full = lambda v, d: tr(td(v), *([td("Attr " + alpha(i) + ": x")] if n == 3 else []), d)
        if k == "std":
            return full(v, td(t))
        if k == "same":
            return full("0Ah", td("Same"))
        if k == "reserved":
            if n == 3:
                return tr(td(v), td("Reserved"), td("Reserved"))
            return full(v, td("Reserved"))
        if k == "lone…":
            return tr(td("…", colspan=str(n)))
        if k == "val…":
            return full("…", td(t))
        if k == "notes":
            return tr(td("Notes: 1. that is", colspan=str(n)))
        if k == "note":
            return full(v, td("Note: this"))
        if k in ("single", "note that", "noted", "notes that"):
            t = {"single": "A remark", "note that": "Note that this is", "noted": "NOTE: as noted", "notes that": "Notes that are"}[k]
            return tr(td(t, colspan=str(n)))
        if k == "heading":
            return tr(*[th("H") for _ in range(n)])
        if k == "nameless":
            return tr(td(v), *[("td", {}, []) for _ in range(n - 1)])
        if k == "two paragraphs":
            return full(v, td(f"Para {alpha(i)}", "second: one."))
        raise KeyError(k)

    def gen_seq(self):
        for n in (2, 3):
            for s in sequences(self.KINDS, 0, 3):
                yield (n, s)
        for s in sequences(self.KINDS if Q(0, 1) else self.KINDS[:8] + self.KINDS[9:12], 4, 4):
            yield (2, s)
        if Q(0, 1):
            for s in sequences(["std", "reserved", "lone…", "notes", "nameless", "same"], 5, 6):
                yield (2, s)

    def ev_seq(self, case, ctx):
        n, s = case
        hdrs = ["Value", "Description"] if n == 2 else ["Value", "Attribute", "Description"]
        f1 = figure(1, hdrs, [self.row(k, i, n) for i, k in enumerate(s)])
        return self.judge(document([f1]), ctx)

    def gen_repeats(self):
        kinds = ["std", "reserved", "lone…", "val…", "note", "two paragraphs", "single"]
        for n in (2, 3):
            for m, ks in ((2, kinds), (3, kinds), (4, kinds[:Q(4, 6)]), (5, kinds[:Q(2, 3)])):
                for g in growth(m):
                    if len(set(g)) < m:
                        for s in sequences(ks, m, m):
                            yield (n, s, g)

    def ev_repeats(self, case, ctx):
        n, s, g = case
        hdrs = ["Value", "Description"] if n == 2 else ["Value", "Attribute", "Description"]
        return self.judge(document([figure(1, hdrs, [self.row(k, i, n) for i, k in zip(g, s)])]), ctx)

    def gen_long(self):
        for n in range(0, Q(150, 400)):
            yield (n, None, 0)
        for n in Q((9, 17, 40, 70), (9, 17, 40, 70, 130, 260)):
            for k in self.KINDS[1:]:
                for pos in range(n):
                    yield (n, k, pos)

    def ev_long(self, case, ctx):
        n, k, pos = case
        rows = [self.row(k if i == pos and k else "std", i, 2) for i in range(n)]
        return self.judge(document([figure(1, ["Value", "Definition"], rows)]), ctx)

    def gen_pairs(self):
        n = Q(8, 12)
        for a, b in itertools.product(self.KINDS[1:], repeat=2):
            for i, j in itertools.combinations(range(n), 2):
                yield (n, (a, b), (i, j))
        for n2 in Q((260, 520, 1030), (260, 520, 1030, 4100)):
            yield (n2, (), ())
            for a in self.KINDS[1:]:
                yield (n2, (a, a), (1, n2 - 1))

    def ev_pairs(self, case, ctx):
        n, kinds, pos = case
        at = dict(zip(pos, kinds))
        return self.judge(document([figure(1, ["Value", "Definition"], [self.row(at.get(i, "std"), i, 2) for i in range(n)])]), ctx)

    LAYOUTS = [["Type", "Value", "Description"], ["Description", "Type", "Value"], ["Value", "Type", "Definition", "Default"], ["Code", "Attribute", "Type", "Description"], ["Attribute", "Description", "Codes", "Type"], ["Values", "Type", "Power Scope"]]

    def gen_layouts(self):
        kinds = ["std", "reserved", "lone…", "val…", "notes", "single", "same", "reserved elsewhere", "… elsewhere", "two paragraphs"]
        for lay in range(len(self.LAYOUTS)):
            for s in sequences(kinds, 0, 3):
                yield (lay, s)

    def ev_layouts(self, case, ctx):
        lay, s = case
        lay = self.LAYOUTS[lay]
        n = len(lay)
        rows = []
        for i, k in enumerate(s):
            v, d, a = f"{i:02x}h", [f"Name Nr {alpha(i)}: brief {i}."], f"Attr {alpha(i)}: x"
            other = f"Other {i}"
            if k in ("lone…", "notes", "single"):
                rows.append(tr(td({"lone…": "…", "notes": "Notes: 1. that is", "single": "A remark"}[k], colspan=str(n))))
                continue
            if k == "reserved":
                d, a = ["Reserved"], "Reserved"
            elif k == "val…":
                v = "…"
            elif k == "same":
                v, d, a = "0Ah", ["Same"], "Same"
            elif k == "reserved elsewhere":
                other = "Reserved"
            elif k == "… elsewhere":
                other = "…"
            elif k == "two paragraphs":
                d = [f"Para {alpha(i)}", "second: one."]
            cells = []
            for c in lay:
                if c in ("Value", "Code", "Codes", "Values"):
                    cells.append(td(v))
                elif c == "Attribute":
                    cells.append(td(a))
                elif c in ("Description", "Definition", "Power Scope"):
                    cells.append(td(*d))
                else:
                    cells.append(td(other))
            rows.append(tr(*cells))
        return self.judge(document([figure(1, lay, rows)]), ctx)

    FOREST = {
        "plain": (["Value", "Description"], [["0h", "Aa"], ["1h", "Bb"]]),
        "signs": (["Value", "Description"], [["0h", "A*"], ["1h", "?"]]),
        "nameless": (["Code", "Definition"], [["0h", ""], ["1h", "Reserved"]]),
        "attribute": (["Values", "Attribute", "Description"], [["0", "Aa", "about a"], ["1", "B*", "about b"]]),
        "same": (["Value", "Description"], [["0h", "Aa"], ["0h", "Aa"]]),
        "note": (["Value", "Description"], [["0h", "Aa"], [td("Notes: x", colspan="2")], ["5h", "Bb"]]),
        "bits": (["Bits", "Description"], [["31", "?"], ["30", "Field Nr B (é): is b"]]),
    }

    def words(self, w):
        a, b, c = tr(td("1h"), td("Aa")), tr(td("2h"), td("Bb")), tr(td("3h"), td("Cc"))
        rows = [
            tr(td(w, colspan="2")), tr(th(w, colspan="2")), tr(td(w), td("Zz")), tr(td("5h"), td(w)), tr(td("5h"), td(f"{w}: about")), tr(td("5h"), td(f"Zz: {w}")), tr(th(w), th("Head")), tr(td("5h"), td(f"Zz {w}")),
            tr(td(f"5{w}"), td("Zz")), tr(td("5h"), td(f"{w} (ZZ): about")),
        ]
        figs = [figure(1 + i, ["Value", "Description"], [a, r, b, c]) for i, r in enumerate(rows)]
        figs.append(figure(20, ["Code", "Attribute", "Description"], [tr(td("0h"), td(w), td("x")), tr(td(w), td("Aa"), td(w)), tr(td("1h"), td("Bb"), td("y"))]))
        return figs

    def spaces(self):
        return [
            Space("two kinds", self.gen_pairs, self.ev_pairs, f"every two row kinds at every two rows of {Q(8,12)}; tables of 260, 520, 1030 rows, also with each kind at both ends"),
            Space("layouts", self.gen_layouts, self.ev_layouts, f"all sequences of 0..3 rows over 10 kinds in {len(self.LAYOUTS)} other column layouts"),
            Space("names", self.gen_names, self.ev_names, f"all names of 1..{Q(5,6)} characters over {self.CHARS} (1..4 with other columns), of 1..{Q(4,5)} over 10 unusual characters"),
            Space("code texts", self.gen_pieces, self.ev_pieces, f"all codes of 1..{Q(4,5)} pieces over {self.PIECES}, of up to {Q(6,8)} over digits, blanks and suffixes"),
            Space("counts", self.gen_counts, self.ev_names, f"names of 1..{Q(59,149)} digits, words, letters and separators, {len(self.HDRS)} column layouts"),
            Space("affixes", self.gen_affixes, self.ev_names, f"{AFFIXED} at {len(self.SPOTS)} places of a name"),
            Space("code counts", self.gen_code_counts, self.ev_pieces, f"codes of 1..{Q(59,149)} digits, words and blanks; the same affixes at 4 places of a code"),
            Space("codes", self.gen_codes, self.ev_codes, f"{len(self.CODES)} codes x {len(self.NAMES)} names x {len(self.HDRS)} column layouts x 3 surroundings"),
            Space("sequences", self.gen_seq, self.ev_seq, f"all sequences of 0..3 rows over {len(self.KINDS)} row kinds in two layouts, of 4 rows over {Q(11, 14)} kinds"),
            Space("repeats", self.gen_repeats, self.ev_repeats, "all sequences of 2..3 rows over 7 row kinds, 4 over 4 (6), 5 over 2 (3), in all ways in which rows can repeat code and texts of others"),
            Space("long", self.gen_long, self.ev_long, f"0..{Q(149,399)} rows; every row kind at every row of tables of up to {Q(70,260)} rows"),
            forest_space(self.FOREST, self.judge, ["plain", "signs", "nameless"]),
            word_space(self.judge, self.words, 1, "as single-cell row, heading, code and in names"),
        ]


class S06(Check):
    ID = "S06"
    TECHNIQUE = (
        "bounded exhaustive exploration of all sequences of names and codes; the reports are"
        " judged against the fields the code itself emitted"
    )
    NOTE = S02.NOTE
    ASSUMPTIONS = ()
    CODES = ("L1002", "V1002")

    def judge(self, root, ctx, n_entities):
        src = html(root)
        got = impl.run(src)
        ctx.replays += 1
        if got.failed or len(got.entities) != n_entities:
            return f"expected {n_entities} figures, got {len(got.entities)} (failed: {got.failed} {got.error}) for {src}"
        want = []
        for e in got.entities:
            ctx.step(len(e["fields"]))
            f = ref2.value_lint if e["type"] == "values" else ref2.struct_lint
            want += [x for x in f(e["fig_id"], e["fields"]) if x[0] in self.CODES]
        ctx.state([[f["label"], f.get("val"), f.get("range")] for e in got.entities for f in e["fields"]])
        return diff("duplicate reports", lint_multiset(want), lint_multiset(got.lint, *self.CODES), src)

    NAMES = ["Aa", "Bb", "AA", "Reserved", "Obsolete", "…", "Aa (CC)", "Cc Cc (Aa): x"]

    def srow(self, name, i):
        if name == "…":
            return tr(td("…", colspan="2"))
        return tr(td(str(i)), td(name if " " in name or name in ("Reserved", "Obsolete") else f"Long Text ({name}): brief"))

    def gen_struct(self):
        for kind in ("Bytes", "Bits"):
            for s in sequences(self.NAMES, 0, Q(4, 5)):
                yield (kind, s)

    def ev_struct(self, case, ctx):
        kind, s = case
        rows = [self.srow(n, i) for i, n in enumerate(s)]
        if kind == "Bits":
            rows.reverse()
        return self.judge(document([figure(1, [kind, "Description"], rows)]), ctx, 1)

    def gen_disorder(self):
        for kind in ("Bytes", "Bits"):
            for order in itertools.permutations(range(4)):
                for s in itertools.product(["Aa", "Bb", "Reserved"], repeat=4):
                    yield (kind, order, s)

    def ev_disorder(self, case, ctx):
        kind, order, s = case
        rows = [self.srow(n, i) for i, n in zip(order, s)]
        return self.judge(document([figure(1, [kind, "Description"], rows)]), ctx, 1)

    VROWS = [("0h", "A"), ("0H", "B"), ("1h", "A"), ("1h", "B"), ("2h", "a: x"), ("2h", "Reserved"), ("0h", "Reserved"), ("…", "A"), ("3h", "C D"), ("3h", "C-D"), ("03h", "Obsolete")]

    def gen_values(self):
        for s in sequences(range(len(self.VROWS)), 0, 4):
            yield s
        if Q(0, 1):
            for s in sequences(range(7), 5, 5):
                yield s

    def ev_values(self, case, ctx):
        rows = [tr(td(self.VROWS[i][0]), td(self.VROWS[i][1])) for i in case]
        return self.judge(document([figure(1, ["Value", "Description"], rows)]), ctx, 1)

    def gen_far(self):
        for kind in ("Bytes", "Bits", "Value"):
            for n in Q((12, 24, 75), (12, 24, 75, 150)):
                for i in range(0, n, 1 if n < 30 else 7):
                    for j in range(i + 1, n):
                        for what in ("name", "code") if kind == "Value" else ("name",):
                            yield (kind, n, i, j, what)
            for n in Q((150, 300, 520), (300, 520, 1030, 2050)):
                marks = sorted({0, 1, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, n // 2, n - 2, n - 1} & set(range(n)))
                for i, j in itertools.combinations(marks, 2):
                    if i == 0 or j == n - 1 or Q(0, 1):
                        for what in ("name", "code") if kind == "Value" else ("name",):
                            yield (kind, n, i, j, what)

    def ev_far(self, case, ctx):
        kind, n, i, j, what = case
        rows = []
        for k in range(n):
            name = alpha((i if k == j else k) if what == "name" else k)
            code = str((i if k == j else k) if what == "code" else k)
            rows.append(tr(td(code), td(f"X{name}" if kind == "Value" else f"Some (X{name}): t")))
        if kind == "Bits":
            rows.reverse()
        return self.judge(document([figure(1, [kind, "Description"], rows)]), ctx, 1)

    def gen_two(self):
        small = ["Aa", "Bb", "Reserved"]
        for ka, kb in itertools.product(("Bytes", "Bits", "Value"), repeat=2):
            for a in sequences(small, 1, 2):
                for b in sequences(small, 1, 3):
                    for shape in ("two", "nest", "nest first"):
                        yield (ka, kb, a, b, shape)

    def ev_two(self, case, ctx):
        ka, kb, a, b, shape = case

        def mk(kind, names):
            rows = []
            for i, n in enumerate(names):
                if kind == "Value":
                    rows.append(tr(td(str(i)), td(n)))
                else:
                    rows.append(self.srow(n, i))
            return list(reversed(rows)) if kind == "Bits" else rows

        ra, rb = mk(ka, a), mk(kb, b)
        if shape == "two":
            return self.judge(document([figure(1, [ka, "Description"], ra), figure(2, [kb, "Description"], rb)]), ctx, 2)
        o = tr(td("9" if (ka != "Bits") == (shape == "nest") else "0"), td("Outer Aa (Zz): has", nested([kb, "Description"], rb)))
        ra = ra + [o] if shape == "nest" else [o] + ra
        return self.judge(document([figure(1, [ka, "Description"], ra)]), ctx, 2)

    LAYOUTS = [("{}", "Attribute", "Description"), ("Description", "{}"), ("{}", "Type", "Description"), ("Attribute", "Type", "{}", "Description")]

    def gen_layouts(self):
        names = ["Aa", "Bb", "AA", "Reserved", "…"]
        for kind in ("Bytes", "Bits", "Value"):
            for lay in range(len(self.LAYOUTS)):
                for s in sequences(names, 0, Q(4, 5)):
                    yield (kind, lay, s)

    def ev_layouts(self, case, ctx):
        kind, lay, s = case
        lay = self.LAYOUTS[lay]
        rows = []
        for i, n in enumerate(s):
            if n == "…":
                rows.append(tr(td("…", colspan=str(len(lay)))))
                continue
            d = n if n == "Reserved" or kind == "Value" else f"Long Text ({n}): brief"
            attr = n if n == "Reserved" or kind == "Value" else f"{n}: x"
            # the names another column would give are equal where these are not, and the other way round
            if "Attribute" in lay and n != "Reserved":
                d = f"Text ({'Cc' if i % 2 else alpha(i)}): x"
            what = {"{}": str(i if kind != "Value" else i // 2), "Description": d, "Attribute": attr, "Type": f"T{i % 2}"}
            rows.append(tr(*[td(what[c]) for c in lay]))
        if kind == "Bits":
            rows.reverse()
        return self.judge(document([figure(1, [c.format(kind) for c in lay], rows)]), ctx, 1)

    FOREST = {
        "a": (["Bytes", "Description"], [["0", "Field Nr A (FNA): is a"]]),
        "ab": (["Bytes", "Description"], [["0", "Field Nr A (FNA): is a"], ["1", "Field Nr B (FNB): is b"]]),
        "aa": (["Bytes", "Description"], [["0", "Field Nr A (FNA): is a"], ["1", "Field Nr A (FNA): is a"]]),
        "aa bits": (["Bits", "Description"], [["31", "Field Nr A (FNA): is a"], ["30", "Field Nr A (FNA): is a"]]),
        "code": (["Value", "Description"], [["0h", "FNA"], ["1h", "FNB"]]),
        "codes": (["Value", "Description"], [["0h", "FNA"], ["0h", "FNA"]]),
    }

    def words(self, ws):
        both_ = [w for w in ws for _ in (0, 1)]
        return [
            figure(1, ["Bytes", "Description"], [tr(td(str(j)), td(f"Long Text ({w}): x")) for j, w in enumerate(both_)]),
            figure(2, ["Bits", "Description"], [tr(td(str(40 - j)), td(f"{w} text: x")) for j, w in enumerate(both_)]),
            figure(3, ["Value", "Description"], [tr(td(f"{j}h"), td(w)) for j, w in enumerate(both_)]),
            figure(4, ["Value", "Description"], [tr(td(w), td(f"N{alpha(j)}")) for j, w in enumerate(both_)]),
        ]

    def spaces(self):
        return [
            Space("layouts", self.gen_layouts, self.ev_layouts, f"all sequences of 0..{Q(4,5)} rows over 5 names in {len(self.LAYOUTS)} other column layouts, repeated codes in value figures"),
            Space("struct", self.gen_struct, self.ev_struct, f"all sequences of 0..{Q(4,5)} rows over {self.NAMES}, bytes and bits"),
            Space("disorder", self.gen_disorder, self.ev_disorder, "all 24 row orders x all names of 4 rows over 3"),
            Space("values", self.gen_values, self.ev_values, f"all sequences of 0..4 value rows over {len(self.VROWS)} rows" + Q("", ", of 5 over 7")),
            Space("far apart", self.gen_far, self.ev_far, f"one repeated name or code at pairs of rows of tables of up to {Q(75,150)} rows, at pairs of 16 rows of tables of up to {Q(520,2050)}"),
            Space("two figures", self.gen_two, self.ev_two, "pairs of figures, consecutive or nested, sharing names"),
            forest_space(self.FOREST, lambda root, ctx: self.judge(root, ctx, len(find_figures(root))), ["a", "aa bits", "codes"]),
            word_space(lambda root, ctx: self.judge(root, ctx, 4), self.words, 8, "each twice as acronym, name and code"),
        ]
