"""Shared pieces of the checks."""
import itertools
from pathlib import Path

from . import impl, ref2
from .core import Space, THOROUGH
from .tree import document, figure, html, nested, table, td, th, title_row, tr, kids

Q = lambda quick, thorough: thorough if THOROUGH else quick


def sequences(alphabet, lo, hi):
    """all sequences of length lo..hi, shortest first."""
    for n in range(lo, hi + 1):
        yield from itertools.product(alphabet, repeat=n)


def growth(n):
    """all ways in which n things can be equal to each other: (0, 0), (0, 1) for 2."""
    def go(pre, top):
        if len(pre) == n:
            yield pre
            return
        for k in range(top + 1):
            yield from go(pre + (k,), max(top, k + 1))

    return go((), 0)


PUNCT = list("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~") + ["…", "–", "’", "·", "÷", "×", "\u00a0", "\u2009"]
AFFIXES = PUNCT + [a + b for a in PUNCT for b in PUNCT] + [p * 3 for p in PUNCT] + ["h", "b", "é", "0x", " to", " bits", " (if any)", " [1]", "\n1", " or so", "²"]
AFFIXED = f"every one and two of {len(PUNCT)} punctuation characters, three of the same, and 11 words,"


def chunks(it, n):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) == n:
            yield tuple(buf)
            buf = []
    if buf:
        yield tuple(buf)


def count_rows(node):
    n = 0
    for k in kids(node):
        if k[0] == "tr":
            n += 1
        n += count_rows(k)
    return n


def both(root, ctx, skip=True):
    """run model and implementation on the same document."""
    src = html(root)
    want = ref2.reference(root, skip)
    got = impl.run(src, skip)
    ctx.replays += 1
    ctx.step(count_rows(root))
    return want, got, src


def noblank(fields):
    return [
        {k: v for k, v in f.items() if not (k == "brief" and v == "")} for f in fields
    ]


def ids(o):
    return [(e["fig_id"], e.get("parent_fig_id"), e["type"]) for e in o.entities]


def diff(what, want, got, src):
    if want == got:
        return None
    extra = ""
    if isinstance(want, list) and isinstance(got, list):
        for i, (a, b) in enumerate(itertools.zip_longest(want, got, fillvalue="(nothing)")):
            if a != b:
                extra = f" first difference at {i}: expected {a!r} got {b!r};"
                break
    return f"{what}:{extra} expected {want!r} got {got!r} for {src}"


def full(o):
    return [
        tuple(
            sorted(
                (k, repr(noblank(v)) if k == "fields" else repr(v)) for k, v in e.items()
            )
        )
        for e in o.entities
    ]


def full_compare(want, got, src, what="result"):
    return (
        diff(what + " entities", [norm_entity(e) for e in want.entities], [norm_entity(e) for e in got.entities], src)
        or diff(what + " lint", impl.lint_multiset(want.lint), impl.lint_multiset(got.lint), src)
        or diff(what + " failure", want.failed, got.failed, src)
    )


def norm_entity(e):
    return {**e, "fields": noblank(e["fields"])}


def std_row(rng, i=0, kind="bits"):
    return tr(td(rng), td(f"Field Nr {alpha(i)} (FN{alpha(i)}): This is field {i}."))


def alpha(i):
    s = ""
    i += 1
    while i:
        i, r = divmod(i - 1, 26)
        s = chr(65 + r) + s
    return s


def shapes(n):
    """all ordered forests of n nodes, a node being the tuple of its children."""
    if n == 0:
        yield ()
        return
    for k in range(n):
        for below in shapes(k):
            for rest in shapes(n - 1 - k):
                yield (below,) + rest


def forests(names, lo, hi):
    """all forests of lo..hi figures, each of one of the named kinds: (shape, names in preorder)."""
    for n in range(lo, hi + 1):
        for s in shapes(n):
            for ks in itertools.product(names, repeat=n):
                yield (s, ks)


def forest_doc(case, kinds):
    """the document of a forest: kinds maps a name to (headers, rows as lists of cell contents).

    A child stands in the last cell of a row of its own, which comes last in the parent.
    """
    shape, names = case
    it = iter(names)

    def rows(node, kind):
        hdrs, body = kinds[kind]
        out = [tr(*[x if isinstance(x, tuple) else td(x) for x in r]) for r in body]
        value = hdrs[0] in ("Value", "Values", "Code")
        for i, c in enumerate(node):
            sub = nested(*build(c))
            first = f"{30 + i}h" if value else str(40 + i) if hdrs[0].startswith("Byte") else str(10 - i)
            out.append(tr(td(first), *[td("")] * (len(hdrs) - 2), td(f"Carrier Nr {alpha(i)} (CN{alpha(i)}): holds", sub)))
        return out

    def build(node):
        kind = next(it)
        return kinds[kind][0], rows(node, kind)

    figs = []
    for i, node in enumerate(shape):
        hdrs, body = build(node)
        figs.append(figure(i + 1, hdrs, body))
    return document(figs)


def forest_space(kinds, judge, small=()):
    """a space of all forests of up to 3 figures of these kinds, of 4 over the small ones."""

    def gen():
        yield from forests(list(kinds), 1, 3)
        if small:
            yield from forests(list(small), 4, Q(4, 5))

    return Space("forests", gen, lambda case, ctx: judge(forest_doc(case, kinds), ctx),
                 f"all forests of 1..3 figures, consecutive and nested, of {len(kinds)} kinds that differ in what is reported of them" + (f", of 4{Q('', '..5')} figures of {len(small)} kinds" if small else ""))


def find_figures(root):
    """all tables of a document made of figures only."""
    return [k for k in kids(root, "table")] + [t for k in kids(root) if k[0] != "table" for t in find_figures(k)] + [t for k in kids(root, "table") for t in find_figures(k)]


def words():
    """the words of the example specifications, further words of tables, signs."""
    return (Path(__file__).parent / "words.txt").read_text(encoding="utf-8").split()


def casings(w):
    return list(dict.fromkeys([w, w.capitalize(), w.upper()]))


def word_space(judge, figs, per=1, what=""):
    """figs(texts) is the figures' list of a document; each document has `per` texts: words in 3 casings, alone and continued."""

    def gen():
        for tail in ("", " x", ": x", ". X") if Q(0, 1) else ("", " of it"):
            yield from chunks((c + tail for w in words() for c in casings(w)), per)

    return Space("words", gen, lambda case, ctx: judge(document(figs(*case) if per == 1 else figs(case)), ctx), f"each of {len(words())} words of specifications and signs in 3 casings, alone and continued, {what}")
