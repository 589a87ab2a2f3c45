From f8f8cbd41308ca68f9cb7dd8bda7f730565f04e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 01/43] fix: compare each field with the one before it when
 checking row order

---
 src/spex/jsonspec/extractors/structtable.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spex/jsonspec/extractors/structtable.py b/src/spex/jsonspec/extractors/structtable.py
index 926ebee..ad1a9cc 100644
--- a/src/spex/jsonspec/extractors/structtable.py
+++ b/src/spex/jsonspec/extractors/structtable.py
@@ -242,8 +242,7 @@ class StructTableExtractor(FigureExtractor, ABC):
                 ):
                     self.add_issue(LintErr.TBL_ROW_ORDER_REVERSED)
                     return
-            else:
-                prev_range = field_range
+            prev_range = field_range
 
         labels = {fields[0]["label"]}
         prev_range = field_get_range(fields[0])
-- 
2.43.0


From 9526503402d8b0f0b3bb76b5c8cfd8d62698471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:34 +0000
Subject: [PATCH 02/43] fix: do not take a prefix of a range cell for its range

---
 src/spex/jsonspec/extractors/structtable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spex/jsonspec/extractors/structtable.py b/src/spex/jsonspec/extractors/structtable.py
index ad1a9cc..db9ec98 100644
--- a/src/spex/jsonspec/extractors/structtable.py
+++ b/src/spex/jsonspec/extractors/structtable.py
@@ -410,7 +410,7 @@ class StructTableExtractor(FigureExtractor, ABC):
         Returns:
             MaybeRange:
         """
-        m = RANGE_REGEX.match(value)
+        m = RANGE_REGEX.fullmatch(value)
         if not m:  # cannot parse into a range, sadly
             # elided rows are simply skipped.
             self.add_issue(LintErr.RANGE_INVALID, row_key=row_key)
@@ -427,7 +427,7 @@ class StructTableExtractor(FigureExtractor, ABC):
         return content_extract_brief(content, self.BRIEF_MAXLEN)
 
     def _parse_dynamic_range(self, field_range: str) -> MaybeRange:
-        range_match = DYNAMIC_RANGE_REGEX.match(
+        range_match = DYNAMIC_RANGE_REGEX.fullmatch(
             field_range.replace("\n", "").replace(" ", "")
         )
         if range_match is None:
-- 
2.43.0


From e3a68b5c2da08a47c25e1ef4b77c84396687e650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:08 +0000
Subject: [PATCH 03/43] fix: keep Reserved and Obsolete rows that have further
 text

---
 src/spex/jsonspec/extractors/structtable.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spex/jsonspec/extractors/structtable.py b/src/spex/jsonspec/extractors/structtable.py
index db9ec98..6d82576 100644
--- a/src/spex/jsonspec/extractors/structtable.py
+++ b/src/spex/jsonspec/extractors/structtable.py
@@ -175,7 +175,11 @@ class StructTableExtractor(FigureExtractor, ABC):
                 if self.is_special_case(range_field):
                     continue
                 elif field := self.handle_special_case(
-                    content=content_field,
+                    content=(
+                        content_field
+                        if self.is_special_case(content_field)
+                        else label_field
+                    ),
                     range=self._parse_range(range_field, range_field),
                 ):
                     fields.append(field)
-- 
2.43.0


From e06f9355fe4f3ec657b0d2697fa669324ae261b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:09 +0000
Subject: [PATCH 04/43] fix: skip tables without rows instead of aborting

---
 src/spex/jsonspec/document.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spex/jsonspec/document.py b/src/spex/jsonspec/document.py
index 4e31b50..094ad82 100644
--- a/src/spex/jsonspec/document.py
+++ b/src/spex/jsonspec/document.py
@@ -193,7 +193,10 @@ class DocumentParser:
             if inner_tbl is not None and inner_tbl.tag == "table":
                 tbl = inner_tbl
 
-            fig_tr = Xpath.elem_first_req(tbl, "./tr[1]")
+            fig_tr = Xpath.elem_first(tbl, "./tr[1]")
+            if fig_tr is None:
+                # empty table, not a figure
+                continue
             # remove entire tr to simplify downstream processing between top-level and
             # nested figures.
             parent = fig_tr.getparent()
-- 
2.43.0


From 6d74aa1ef85cd5a83e50f53ba4c0c2abb1581a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:11 +0000
Subject: [PATCH 05/43] fix: report and skip a specially handled figure without
 the expected columns

---
 src/spex/jsonspec/document.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/spex/jsonspec/document.py b/src/spex/jsonspec/document.py
index 094ad82..8ad5d40 100644
--- a/src/spex/jsonspec/document.py
+++ b/src/spex/jsonspec/document.py
@@ -296,6 +296,13 @@ class DocumentParser:
             # extractor_cls not None, class gotten from override
             mapping = extractor_cls.can_apply(tbl_hdrs)
             if mapping is None:
+                self.linter.add_issue(
+                    LintErr.TBL_PARSE_ERR,
+                    fig_id,
+                    ctx={"title": entity["title"]} if "title" in entity else {},
+                )
+                if self.args.skip_fig_on_error:
+                    return
                 raise RuntimeError(
                     "override class failed to detect columns to extract from"
                 )
-- 
2.43.0


From 53bea47efe09211450a8d84d8a13825aed091356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 06/43] fix: count rows that consist of spanned cells and
 heading rows against row spans

---
 src/spex/jsonspec/rowiter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spex/jsonspec/rowiter.py b/src/spex/jsonspec/rowiter.py
index f20fc82..2b9ae1d 100644
--- a/src/spex/jsonspec/rowiter.py
+++ b/src/spex/jsonspec/rowiter.py
@@ -82,14 +82,17 @@ def alst_repr(alst: List[ALST]) -> str:
 
 
 def row_iter(tbl: Element) -> Iterator[Element]:
-    it = Xpath.elems(tbl, "./tr/td[1]/parent::tr | ./tr/th[1]/parent::tr")
-    # it = Xpath.elems(tbl, "./tr/td[1]/parent::tr")
+    it = Xpath.elems(tbl, "./tr")
     alst: List[ALST] = []
 
     row_cnt = 1
     for row in it:
         if contains_th(row):
             yield row
+            alst = alst_count_decr(alst)
+            continue
+        if not alst and Xpath.elem_first(row, "./td") is None:
+            # neither cells of its own nor cells spanning into it
             continue
         if alst:
             row_ = row
-- 
2.43.0


From c9c64fae65617046269eefe22e2e331930713cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 07/43] fix: accept vertically merged cells with an explicit
 'continue'

---
 src/spex/htmlspec/docx/tablewrap.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spex/htmlspec/docx/tablewrap.py b/src/spex/htmlspec/docx/tablewrap.py
index e6bc9ca..3ace1f0 100644
--- a/src/spex/htmlspec/docx/tablewrap.py
+++ b/src/spex/htmlspec/docx/tablewrap.py
@@ -52,8 +52,7 @@ class TableWrap:
                 return VerticalMergeState.NONE
             assert isinstance(merge_elem, _Element)
             row_val = Xpath.attr_first(merge_elem, "@w:val")
-            if row_val:
-                assert row_val == "restart"
+            if row_val == "restart":
                 return VerticalMergeState.RESTART
             else:
                 return VerticalMergeState.MERGED
-- 
2.43.0


From a90ccb6d8fca08514afa5dba799785a9e05e73e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 08/43] fix: keep the text of all runs of a hyperlink or field
 and all texts of a run

---
 src/spex/htmlspec/parser.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/spex/htmlspec/parser.py b/src/spex/htmlspec/parser.py
index 5755a2a..c93cb22 100644
--- a/src/spex/htmlspec/parser.py
+++ b/src/spex/htmlspec/parser.py
@@ -206,23 +206,21 @@ class SpexParser:
     def _select_runs(self, p: _Element) -> Iterator[_Element]:
         # we also want to extract text from hyperlinks, so loop over top-level
         # children, extracting runs (w:r) and hyperlinks (w:hyperlink)
-        # if a hyperlink, strip and yield the run.
+        # if a hyperlink, strip and yield its runs.
         # TODO: works, but need to satisfy mypy somehow...
         for child in p.iterchildren():
             if child.tag == Tag.r.value:
                 yield child
-            elif child.tag == Tag.hyperlink.value:
-                yield Xpath.elem_first_req(child, "./w:r")
-            elif child.tag == Tag.fldSimple.value:
-                yield Xpath.elem_first_req(child, "./w:r")
+            elif child.tag in (Tag.hyperlink.value, Tag.fldSimple.value):
+                yield from self._select_runs(child)
 
     def _parse_spans(self, p: _Element) -> Iterator[Span]:
         for r in self._select_runs(p):
-            txt = Xpath.elem_first(r, "./w:t")
-            if txt is None or txt.text is None:
+            txt = "".join(t.text or "" for t in Xpath.elems(r, "./w:t"))
+            if txt == "":
                 continue
             r_rpr = self._document.extract_r_rpr(r)
-            yield Span(style=r_rpr, text=txt.text)
+            yield Span(style=r_rpr, text=txt)
 
     def _parse_table(self, stream: Stream[_Element]) -> Optional[Table]:
         tbl = stream.consume()
-- 
2.43.0


From a9ffb283807c559ea37701cb138ead4f4d669e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 09/43] fix: escape title, revision and file name in the HTML
 head

---
 src/spex/htmlspec/htmlrenderer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/spex/htmlspec/htmlrenderer.py b/src/spex/htmlspec/htmlrenderer.py
index 81e6e16..4079eb9 100644
--- a/src/spex/htmlspec/htmlrenderer.py
+++ b/src/spex/htmlspec/htmlrenderer.py
@@ -132,16 +132,17 @@ class SpexHtmlRenderer:
         s.emitln("<!DOCTYPE html>")
         s.emitln('<html lang="en">')
         s.emitln("<head>").indent()
-        title = self._document.header.title
+        title = html_escape(self._document.header.title)
         revision = self._document.header.revision
+        fname = html_escape(self._fname)
         s.emit(f'<meta charset="utf-8" data-spec="{title}"')
         if revision is not None:
-            s.emit(f' data-revision="{revision}"')
+            s.emit(f' data-revision="{html_escape(revision)}"')
         s.emitln("/>")
         s.emitln(f'<meta name="spexVersion" content="{__version__}" />')
-        s.emitln(f"<title>{self._fname}</title>")
+        s.emitln(f"<title>{fname}</title>")
         s.add_section(self._html_head)
-        s.emitln(f'<link rel="stylesheet" href="{self._fname}.css"/>')
+        s.emitln(f'<link rel="stylesheet" href="{fname}.css"/>')
         s.dedent().emitln("</head>")
         s.emitln("<body>").indent()
         s.add_section(self._html_body)
-- 
2.43.0


From 7ea763a11c2db084b89e9bf66198f4871d5ea186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 10/43] fix: respect explicitly disabled underline,
 strike-through and other toggles

---
 src/spex/htmlspec/docx/runproperties.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/spex/htmlspec/docx/runproperties.py b/src/spex/htmlspec/docx/runproperties.py
index d01644d..c3e0b4e 100644
--- a/src/spex/htmlspec/docx/runproperties.py
+++ b/src/spex/htmlspec/docx/runproperties.py
@@ -173,12 +173,12 @@ class RunProperties:
         # underline and strikethrough (line-through) are governed by the same
         # css property.
         txt_dec_line = []
-        if self.__underline is not None:
+        if self.__underline:
             txt_dec_line.append("underline")
-        if self.__strikethrough is not None:
+        if self.__strikethrough:
             txt_dec_line.append("line-through")
-        if txt_dec_line:
-            attrs["text-decoration-line"] = " ".join(txt_dec_line)
+        if self.__underline is not None or self.__strikethrough is not None:
+            attrs["text-decoration-line"] = " ".join(txt_dec_line) or "none"
         # TODO: what to do to support vertAlign?
         #  Super- & Subscript are not directly supported and require fiddling
         #  with additional CSS properties.
@@ -209,12 +209,13 @@ class RunProperties:
             #   ...because we use this value to signal that the rPr did
             #   not explicitly disable the prop either.
             # if present w/o w:val attr -> True
-            # if present with w:val attr -> "1" is True, "0" is false
+            # if present with w:val attr -> "0", "false" and "off" are False,
+            #   everything else is True
             r1 = Xpath.elem_first(e, selector)
             if r1 is None:
                 return None
             r2 = Xpath.attr_first(r1, "./@w:val")
-            return r2 is None or r2.strip() != "0"
+            return r2 is None or r2.strip() not in ("0", "false", "off")
 
         def u_val(e: _Element) -> Optional[bool]:
             r1 = Xpath.elem_first(e, "./w:u")
-- 
2.43.0


From a2088a97d8d6552c5e5465dbf633c831429b63df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 11/43] fix: report failures to write HTML or CSS and never
 keep partial files

---
 src/spex/htmlspec/htmlrenderer.py | 26 ++++++++++++++++++++++----
 src/spex/parse.py                 |  7 ++-----
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/spex/htmlspec/htmlrenderer.py b/src/spex/htmlspec/htmlrenderer.py
index 4079eb9..77e3113 100644
--- a/src/spex/htmlspec/htmlrenderer.py
+++ b/src/spex/htmlspec/htmlrenderer.py
@@ -4,7 +4,8 @@
 
 from html import escape as html_escape
 from pathlib import Path
-from typing import Any, Generator, Optional, Set, Tuple, TypeAlias
+from types import TracebackType
+from typing import Any, Generator, Optional, Set, Tuple, Type, TypeAlias
 
 from gcgen.api import Section, write_file
 from lxml.etree import _Element
@@ -262,10 +263,27 @@ class SpexHtmlRenderer:
               process."""
         return len(self._document.tables)
 
-    def __del__(self) -> None:
+    def __enter__(self) -> "SpexHtmlRenderer":
+        return self
+
+    def __exit__(
+        self,
+        exc_type: Optional[Type[BaseException]],
+        exc_val: Optional[BaseException],
+        exc_tb: Optional[TracebackType],
+    ) -> None:
+        """write out the documents, or discard them if leaving with an exception."""
         if self._destroyed:
             return
-        self._css_writer.__exit__(None, None, None)
+        self._destroyed = True
         self._css_doc = None
-        self._html_writer.__exit__(None, None, None)
         self._html_doc = None
+        try:
+            self._css_writer.__exit__(exc_type, exc_val, exc_tb)
+        except BaseException as e:
+            self._html_writer.__exit__(type(e), e, e.__traceback__)
+            raise
+        self._html_writer.__exit__(exc_type, exc_val, exc_tb)
+
+    def __del__(self) -> None:
+        self.__exit__(None, None, None)
diff --git a/src/spex/parse.py b/src/spex/parse.py
index a1bddf2..7f8f9e4 100644
--- a/src/spex/parse.py
+++ b/src/spex/parse.py
@@ -27,9 +27,8 @@ def parse_spec(
     ignore_lint_codes: Set[str] = set(c.name for c in args.lint_codes_ignore)
 
     if spec.suffix == ".docx":
-        sp = SpexHtmlRenderer(docx_path=spec, out_dir=args.output_dir)
-        spec = sp.html_path
-        try:
+        with SpexHtmlRenderer(docx_path=spec, out_dir=args.output_dir) as sp:
+            spec = sp.html_path
             gen = sp.generate(yield_progress=yield_progress)
             if yield_progress:
                 num_figures = sp.num_figures
@@ -38,8 +37,6 @@ def parse_spec(
             else:
                 for _ in gen:
                     pass
-        finally:
-            del sp
 
     with get_writer(spec, args.output_dir) as w:
         sdoc = parse.open_doc(spec)
-- 
2.43.0


From 1513f08eb50bfd628bb3b3f356b0b54d73f561ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 12/43] fix: never load external entities of an input document

---
 src/spex/htmlspec/docx/docxutils.py    |  4 +++-
 src/spex/jsonspec/parse.py             |  4 ++--
 src/spex/xml.py                        | 15 ++++++++++++++-
 src/spexsrv/application/report_view.py |  4 ++--
 4 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/spex/htmlspec/docx/docxutils.py b/src/spex/htmlspec/docx/docxutils.py
index 32c7b94..158f9fe 100644
--- a/src/spex/htmlspec/docx/docxutils.py
+++ b/src/spex/htmlspec/docx/docxutils.py
@@ -8,6 +8,8 @@ from typing import IO
 
 from lxml import etree
 
+from spex.xml import xml_parser
+
 
 def docx_extract_contents(
     docx_path: Path, file: str = "word/document.xml"
@@ -15,4 +17,4 @@ def docx_extract_contents(
     with zipfile.ZipFile(docx_path, "r") as zfile:
         fh: IO[bytes]
         with zfile.open(file) as fh:
-            return etree.fromstring(fh.read())
+            return etree.fromstring(fh.read(), xml_parser())
diff --git a/src/spex/jsonspec/parse.py b/src/spex/jsonspec/parse.py
index 0a03ced..ca6f28b 100644
--- a/src/spex/jsonspec/parse.py
+++ b/src/spex/jsonspec/parse.py
@@ -10,7 +10,7 @@ from typing import Optional
 from spex.jsonspec.document import DocumentParser
 from spex.jsonspec.parserargs import ParserArgs
 from spex.jsonspec.quirks import QUIRKS_MAP, QuirksMap
-from spex.xml import ElementTree, Xpath, etree
+from spex.xml import ElementTree, Xpath, etree, xml_parser
 
 
 @dataclass(frozen=True)
@@ -50,7 +50,7 @@ def html_to_spec_doc(html_doc: str) -> SpecDocument:
         SpecDocument: A wrapper that returns a parser and holds meta data on the
         specification
     """
-    doc = etree.parse(io.StringIO(html_doc))
+    doc = etree.parse(io.StringIO(html_doc), xml_parser())
 
     doc_spec = Xpath.attr_first_req(doc, "./head/meta/@data-spec").lower()
     doc_rev = Xpath.attr_first_req(doc, "./head/meta/@data-revision").lower()
diff --git a/src/spex/xml.py b/src/spex/xml.py
index c1afbcb..90a027f 100644
--- a/src/spex/xml.py
+++ b/src/spex/xml.py
@@ -17,6 +17,11 @@ ElementTree = _ElementTree
 XmlElem = Union[_Element, _ElementTree]
 
 
+def xml_parser() -> etree.XMLParser:
+    """parser for input documents, never reads anything but the document."""
+    return etree.XMLParser(resolve_entities=False, no_network=True)
+
+
 class XmlUtils:
     @staticmethod
     def fmt(elem: XmlElem) -> str:
@@ -126,4 +131,12 @@ class Xpath:
         return res[0]
 
 
-__all__ = ["etree", "Element", "ElementTree", "XmlElem", "Xpath", "XmlUtils"]
+__all__ = [
+    "etree",
+    "Element",
+    "ElementTree",
+    "XmlElem",
+    "Xpath",
+    "XmlUtils",
+    "xml_parser",
+]
diff --git a/src/spexsrv/application/report_view.py b/src/spexsrv/application/report_view.py
index 26b377d..503cce7 100644
--- a/src/spexsrv/application/report_view.py
+++ b/src/spexsrv/application/report_view.py
@@ -8,11 +8,11 @@ from typing import Dict, List
 import lxml
 import lxml.etree
 
-from spex.xml import XmlUtils, Xpath, etree
+from spex.xml import XmlUtils, Xpath, etree, xml_parser
 
 
 def get_erroneous_figures(figures: List[str], html_doc: Path) -> Dict[str, str]:
-    doc = etree.parse(html_doc)
+    doc = etree.parse(html_doc, xml_parser())
     _err_figures: Dict[str, str] = {}
     for figure in figures:
         figure_id = figure.split("_")[0]
-- 
2.43.0


From 4bba4d9141ff2b3eea63dd8848f660281c712fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 13/43] fix: admit the bounds of variable-length lists in the
 schema

---
 src/spex/resources/stage2.schema.json | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/spex/resources/stage2.schema.json b/src/spex/resources/stage2.schema.json
index c7eaea1..acc8de3 100644
--- a/src/spex/resources/stage2.schema.json
+++ b/src/spex/resources/stage2.schema.json
@@ -150,6 +150,18 @@
                             }
                           }
                         },
+                        {
+                          "description": "a range of a variable-length list, whose bounds are formulas",
+                          "type": "object",
+                          "properties": {
+                            "low": {
+                              "type": "string"
+                            },
+                            "high": {
+                              "type": "string"
+                            }
+                          }
+                        },
                         {
                           "description": "special range signifying a gap in the data-structure's definition",
                           "type": "object",
-- 
2.43.0


From 627e24178fdcde9d4c4dc2f2e60ff1dd1820ebd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 14/43] fix: confine uploads to their working directory and
 refuse unusable file names

---
 src/spexsrv/application/app.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spexsrv/application/app.py b/src/spexsrv/application/app.py
index 542d847..f12ceef 100644
--- a/src/spexsrv/application/app.py
+++ b/src/spexsrv/application/app.py
@@ -169,9 +169,14 @@ async def spec_parse() -> Response | Tuple[str, int, Dict[Any, Any]]:
 
     spec = files["document"]
 
+    suffix = Path(spec.filename or "").suffix
+    if suffix not in (".docx", ".html"):
+        return "document must be a .docx or .html file", 422, {}
+
     temp_dir = tempfile.TemporaryDirectory()
     temp_dir_path = Path(temp_dir.name)
-    destination = temp_dir_path / spec.filename
+    # never let the client's file name decide where the document is stored
+    destination = temp_dir_path / f"document{suffix}"
 
     await spec.save(destination)
     hash = md5sum(destination)
-- 
2.43.0


From 0cf1d1ba811841513da8db4fc868cda250788d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 15/43] fix: key cached reports by content so that uploads of
 the same name do not collide

---
 src/spexsrv/application/app.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/spexsrv/application/app.py b/src/spexsrv/application/app.py
index f12ceef..1bb2fbe 100644
--- a/src/spexsrv/application/app.py
+++ b/src/spexsrv/application/app.py
@@ -205,11 +205,9 @@ async def spec_parse() -> Response | Tuple[str, int, Dict[Any, Any]]:
                 json_fpath = e.value
                 html_path = Path(json_fpath.with_suffix(".html"))
 
-                cache_entry = Path(app.config[SPEX_CACHE_TMPDIR].name) / json_fpath.name
+                cache_entry = Path(app.config[SPEX_CACHE_TMPDIR].name) / f"{hash}.json"
                 shutil.copy(json_fpath, cache_entry)
-                shutil.copy(
-                    html_path, Path(app.config[SPEX_CACHE_TMPDIR].name) / html_path.name
-                )
+                shutil.copy(html_path, cache_entry.with_suffix(".html"))
                 app.config[SPEX_CACHE_LOOKUP][hash] = cache_entry
                 yield json_to_sse({"type": "report-completed", "url": report_url})
         finally:
-- 
2.43.0


From 68e54c146283d51d3ca2e5253c4465a3e4909163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 16/43] fix: answer 404 for unknown reports

---
 src/spexsrv/application/app.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/spexsrv/application/app.py b/src/spexsrv/application/app.py
index 1bb2fbe..8d7aa0e 100644
--- a/src/spexsrv/application/app.py
+++ b/src/spexsrv/application/app.py
@@ -102,6 +102,14 @@ async def _app_shutdown() -> None:
     del app.config[SPEX_CACHE_LOOKUP]
 
 
+def cached_json(hash: str) -> Path:
+    """path of the cached JSON document, responds with 404 if there is none."""
+    json_fpath = app.config[SPEX_CACHE_LOOKUP].get(hash)
+    if json_fpath is None or not json_fpath.is_file():
+        abort(404)
+    return Path(json_fpath)
+
+
 @app.route("/")
 async def index() -> str:
     return await render_template("upload-form.html", title="Upload Specification")
@@ -110,11 +118,8 @@ async def index() -> str:
 @app.route("/report/<hash>")
 async def report(hash: str) -> str:
     # TODO: enable this part again this actually looks for the document requested
-    json_fpath = app.config[SPEX_CACHE_LOOKUP].get(hash)
-    html_fpath = Path(app.config[SPEX_CACHE_LOOKUP].get(hash)).with_suffix(".html")
-
-    if json_fpath is None or not json_fpath.is_file():
-        abort(404)
+    json_fpath = cached_json(hash)
+    html_fpath = json_fpath.with_suffix(".html")
 
     with open(json_fpath) as fh:
         report_json = json.load(fh)
@@ -147,13 +152,13 @@ async def report(hash: str) -> str:
 
 @app.route("/json/<hash>")
 async def json_report(hash: str) -> Response:
-    json_fpath = Path(app.config[SPEX_CACHE_LOOKUP].get(hash))
+    json_fpath = cached_json(hash)
     return await quart.helpers.send_file(json_fpath)
 
 
 @app.route("/html/<hash>")
 async def html_report(hash: str) -> Response:
-    html_fpath = Path(app.config[SPEX_CACHE_LOOKUP].get(hash)).with_suffix(".html")
+    html_fpath = cached_json(hash).with_suffix(".html")
     return await quart.helpers.send_file(html_fpath)
 
 
-- 
2.43.0


From d45105a86148ec923d99162ae94aedcbe1a6e2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 17/43] fix: match figures of the report by their exact id

---
 src/spexsrv/application/report_view.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/spexsrv/application/report_view.py b/src/spexsrv/application/report_view.py
index 503cce7..1bc7413 100644
--- a/src/spexsrv/application/report_view.py
+++ b/src/spexsrv/application/report_view.py
@@ -5,9 +5,6 @@
 from pathlib import Path
 from typing import Dict, List
 
-import lxml
-import lxml.etree
-
 from spex.xml import XmlUtils, Xpath, etree, xml_parser
 
 
@@ -16,11 +13,9 @@ def get_erroneous_figures(figures: List[str], html_doc: Path) -> Dict[str, str]:
     _err_figures: Dict[str, str] = {}
     for figure in figures:
         figure_id = figure.split("_")[0]
-        try:
-            p = Xpath.elem_first(doc, f"./body/table[@id={figure_id}]")
-            if p is not None:
-                _err_figures[figure] = XmlUtils.fmt(p)
-        except lxml.etree.XPathEvalError:
-            ...
+        for table in Xpath.elems(doc, "./body/table[@id]"):
+            if table.get("id") == figure_id:
+                _err_figures[figure] = XmlUtils.fmt(table)
+                break
 
     return _err_figures
-- 
2.43.0


From 205921a8c0ece8a46405f81d26700eb7a76eb20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 18/43] fix: keep line breaks within the text of a document

---
 src/spex/htmlspec/htmlrenderer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/htmlrenderer.py b/src/spex/htmlspec/htmlrenderer.py
index 77e3113..a8593c6 100644
--- a/src/spex/htmlspec/htmlrenderer.py
+++ b/src/spex/htmlspec/htmlrenderer.py
@@ -2,7 +2,7 @@
 #
 # SPDX-License-Identifier: BSD-3-Clause
 
-from html import escape as html_escape
+from html import escape
 from pathlib import Path
 from types import TracebackType
 from typing import Any, Generator, Optional, Set, Tuple, Type, TypeAlias
@@ -26,6 +26,14 @@ from spex.htmlspec.parser import (
 ProgressStatus: TypeAlias = Tuple[int, int]  # processing figure X of Y figures
 
 
+def html_escape(txt: str) -> str:
+    """escape text for HTML, in attributes and elements.
+
+    Line breaks become character references: literal ones would not survive the
+    line-based emission of the document, nor the parsing of it."""
+    return escape(txt).replace("\n", "&#10;").replace("\r", "&#13;")
+
+
 # TODO: nicer way of using `write_file` ?
 class SpexHtmlRenderer:
     def __init__(self, docx_path: Path, out_dir: Optional[Path] = None):
-- 
2.43.0


From 8845f46f04fb50fd4cf5ee8871a91f5d4708dcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 19/43] fix: place list paragraphs without a level at level 0

---
 src/spex/htmlspec/parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/spex/htmlspec/parser.py b/src/spex/htmlspec/parser.py
index c93cb22..dd388cc 100644
--- a/src/spex/htmlspec/parser.py
+++ b/src/spex/htmlspec/parser.py
@@ -137,6 +137,10 @@ class SpexParser:
             return False
         return self._document.numbering_xml.has_num_id(num_id)
 
+    def __p_list_level(self, e: _Element) -> int:
+        """level of list paragraph, a paragraph naming no level is at level 0."""
+        return int(Xpath.attr_first(e, "./w:pPr/w:numPr/w:ilvl/@w:val") or 0)
+
     def _parse_list(self, stream: Stream[_Element]) -> List:
         current = stream.peek()
         assert current.tag == Tag.p.value, f"assumed w:p tag, got {current.tag!r}"
@@ -148,7 +152,7 @@ class SpexParser:
         ), "cannot have numbering styles w/o a numbering document"
         style = self._document.numbering_xml.get_style(num_id)
 
-        ilvl = int(Xpath.attr_first_req(current, "./w:pPr/w:numPr/w:ilvl/@w:val"))
+        ilvl = self.__p_list_level(current)
         slvl = style.get_ilvl(ilvl)
 
         return List(
@@ -181,9 +185,7 @@ class SpexParser:
                 # different list
                 break
 
-            child_ilvl = int(
-                Xpath.attr_first_req(child, "./w:pPr/w:numPr/w:ilvl/@w:val")
-            )
+            child_ilvl = self.__p_list_level(child)
             if child_ilvl > ilvl:
                 # nested list
                 yield self._parse_list(stream)
-- 
2.43.0


From e6e22141db6609b4c19a43d624faeea4e65e3f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 20/43] fix: continue lists across bookmarks between their
 paragraphs

---
 src/spex/htmlspec/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/parser.py b/src/spex/htmlspec/parser.py
index dd388cc..434f983 100644
--- a/src/spex/htmlspec/parser.py
+++ b/src/spex/htmlspec/parser.py
@@ -173,8 +173,12 @@ class SpexParser:
             if child is None:
                 break
 
+            if child.tag == Tag.tbl.value:
+                break  # a table ends the list
+
             if child.tag != Tag.p.value:
-                break  # not a paragraph tag, assume end of list
+                stream.consume()  # no content, e.g. a bookmark
+                continue
 
             if not self.__p_is_list_paragraph(child):
                 # not a list paragraph
-- 
2.43.0


From 87fec4890c0f4fd96bf51d1da392632c1f168219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 21/43] fix: look up levels of list definitions by number, not
 by position

---
 src/spex/htmlspec/docx/numbering.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/docx/numbering.py b/src/spex/htmlspec/docx/numbering.py
index 678da38..771ce3a 100644
--- a/src/spex/htmlspec/docx/numbering.py
+++ b/src/spex/htmlspec/docx/numbering.py
@@ -94,7 +94,10 @@ class AbstractNum:
     ilvls: List[AbstractNumLvl]
 
     def get_ilvl(self, ilvl: Union[str, int]) -> AbstractNumLvl:
-        return self.ilvls[int(ilvl)]
+        for lvl in self.ilvls:
+            if lvl.ilvl == int(ilvl):
+                return lvl
+        raise KeyError(f"level {ilvl} not defined by list {self.abstract_num_id}")
 
 
 class NumberingDocument:
-- 
2.43.0


From 68e323dde591d14dcc97d7ec193b31f65b482ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:12 +0000
Subject: [PATCH 22/43] fix: revision is found in page headers with line breaks

---
 src/spex/htmlspec/docx/header.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/docx/header.py b/src/spex/htmlspec/docx/header.py
index 8b145eb..61ef715 100644
--- a/src/spex/htmlspec/docx/header.py
+++ b/src/spex/htmlspec/docx/header.py
@@ -3,13 +3,14 @@
 # SPDX-License-Identifier: BSD-3-Clause
 
 from pathlib import Path
+from re import DOTALL
 from re import compile as re_compile
 from typing import Optional
 
 from spex.htmlspec.docx.docxutils import docx_extract_contents
 from spex.xml import Xpath
 
-_rgx_revision = re_compile(r".*[Rr]evision\s+(?P<rev>\S+).*")
+_rgx_revision = re_compile(r".*[Rr]evision\s+(?P<rev>\S+).*", DOTALL)
 
 
 class Header:
-- 
2.43.0


From 8321300adcc761dae860f83cfe205d3b2a61d8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:12 +0000
Subject: [PATCH 23/43] fix: keep tabs of the title and revision in the HTML

---
 src/spex/htmlspec/htmlrenderer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/htmlrenderer.py b/src/spex/htmlspec/htmlrenderer.py
index a8593c6..c9586e0 100644
--- a/src/spex/htmlspec/htmlrenderer.py
+++ b/src/spex/htmlspec/htmlrenderer.py
@@ -31,7 +31,8 @@ def html_escape(txt: str) -> str:
 
     Line breaks become character references: literal ones would not survive the
     line-based emission of the document, nor the parsing of it."""
-    return escape(txt).replace("\n", "&#10;").replace("\r", "&#13;")
+    txt = escape(txt).replace("\t", "&#9;")
+    return txt.replace("\n", "&#10;").replace("\r", "&#13;")
 
 
 # TODO: nicer way of using `write_file` ?
-- 
2.43.0


From bbc12b21b107bc839aaaf7e929ac72170a7da312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:12 +0000
Subject: [PATCH 24/43] fix: lists whose number is preceded by text are ordered

---
 src/spex/htmlspec/docx/numbering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/docx/numbering.py b/src/spex/htmlspec/docx/numbering.py
index 771ce3a..cda6440 100644
--- a/src/spex/htmlspec/docx/numbering.py
+++ b/src/spex/htmlspec/docx/numbering.py
@@ -32,7 +32,7 @@ class AbstractNumLvl:
 
     @property
     def is_ordered(self) -> bool:
-        return self.lvl_text.startswith("%")
+        return "%" in self.lvl_text
 
     @property
     def tag(self) -> str:
-- 
2.43.0


From 13c2b42ed9147e15a9c72e25101487a602ff4f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:12 +0000
Subject: [PATCH 25/43] fix: each list level has the marker of its own
 definition

---
 src/spex/htmlspec/docx/numbering.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/spex/htmlspec/docx/numbering.py b/src/spex/htmlspec/docx/numbering.py
index cda6440..14c204c 100644
--- a/src/spex/htmlspec/docx/numbering.py
+++ b/src/spex/htmlspec/docx/numbering.py
@@ -40,14 +40,13 @@ class AbstractNumLvl:
 
     @property
     def css_clsname(self) -> str:
-        return f"{self.tag}{self.abstract_num_id}"
+        return f"{self.tag}{self.abstract_num_id}-{self.ilvl}"
 
     def to_css(self) -> str:
         is_ordered = self.is_ordered
         ilvl = self.ilvl
         tag = self.tag
         clsname = self.css_clsname
-        tags = " ".join(tag for _ in range(ilvl))
         # TODO: determine CSS list style.
         if is_ordered:
             style = self.__ol_styles.get(self.num_fmt, "decimal")
@@ -55,10 +54,7 @@ class AbstractNumLvl:
             # word defaults to alternating between two styles for unordered lists.
             ul_styles = ["disc", "circle"]
             style = ul_styles[ilvl % len(ul_styles)]
-        if tags:
-            return f"{tag}.{clsname} {tags} {{ list-style-type: {style}; }}"
-        else:
-            return f"{tag}.{clsname} {{ list-style-type: {style}; }}"
+        return f"{tag}.{clsname} {{ list-style-type: {style}; }}"
 
 
 T = TypeVar("T")
-- 
2.43.0


From 9aaf7e7eb29c14d6417347f8b56dc21d1764d791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:35 +0000
Subject: [PATCH 26/43] fix: read and write text as UTF-8 whatever the locale

---
 src/spex/htmlspec/htmlrenderer.py | 13 +++++++++++--
 src/spex/jsonspec/parse.py        |  2 +-
 src/spex/validate.py              |  6 ++++--
 src/spex/writer.py                |  4 +++-
 src/spexsrv/application/app.py    |  6 +++---
 5 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/spex/htmlspec/htmlrenderer.py b/src/spex/htmlspec/htmlrenderer.py
index c9586e0..3c731d3 100644
--- a/src/spex/htmlspec/htmlrenderer.py
+++ b/src/spex/htmlspec/htmlrenderer.py
@@ -35,6 +35,15 @@ def html_escape(txt: str) -> str:
     return txt.replace("\n", "&#10;").replace("\r", "&#13;")
 
 
+class write_utf8_file(write_file):
+    """`write_file` which writes UTF-8, whatever the encoding of the locale is."""
+
+    def __enter__(self) -> Section:
+        section = super().__enter__()
+        self._fh.reconfigure(encoding="utf-8")
+        return section
+
+
 # TODO: nicer way of using `write_file` ?
 class SpexHtmlRenderer:
     def __init__(self, docx_path: Path, out_dir: Optional[Path] = None):
@@ -47,13 +56,13 @@ class SpexHtmlRenderer:
             out_dir = docx_path.parent
 
         self._html_path = out_dir / f"{self._fname}.html"
-        self._html_writer = write_file(self._html_path)
+        self._html_writer = write_utf8_file(self._html_path)
         self._html_head = Section()
         self._html_body = Section()
         self._html_doc: Optional[Section] = self._html_writer.__enter__()
 
         self._css_path = out_dir / f"{self._fname}.css"
-        self._css_writer = write_file(self._css_path)
+        self._css_writer = write_utf8_file(self._css_path)
         self._css_doc: Optional[Section] = self._css_writer.__enter__()
         # from props -> name
         self._css_txtfmt_cache = css.CssCache("txtfmt")
diff --git a/src/spex/jsonspec/parse.py b/src/spex/jsonspec/parse.py
index ca6f28b..beb5259 100644
--- a/src/spex/jsonspec/parse.py
+++ b/src/spex/jsonspec/parse.py
@@ -34,7 +34,7 @@ class SpecDocument:
 
 # TODO determine what to return
 def open_doc(spec: Path) -> SpecDocument:
-    return html_to_spec_doc(spec.absolute().read_text())
+    return html_to_spec_doc(spec.absolute().read_text(encoding="utf-8"))
 
 
 def html_to_spec_doc(html_doc: str) -> SpecDocument:
diff --git a/src/spex/validate.py b/src/spex/validate.py
index 8cc77fb..9b7fc7f 100644
--- a/src/spex/validate.py
+++ b/src/spex/validate.py
@@ -11,7 +11,9 @@ from jsonschema import validate
 
 def validate_json(document_path: Path) -> None:
     schema = (
-        resources.files("spex.resources").joinpath("stage2.schema.json").read_text()
+        resources.files("spex.resources")
+        .joinpath("stage2.schema.json")
+        .read_text(encoding="utf-8")
     )
-    document = document_path.read_text()
+    document = document_path.read_text(encoding="utf-8")
     validate(json.loads(document), json.loads(schema))
diff --git a/src/spex/writer.py b/src/spex/writer.py
index 1c26530..ca3499d 100644
--- a/src/spex/writer.py
+++ b/src/spex/writer.py
@@ -73,7 +73,9 @@ class FileWriter:
         fname = src.name[: -len(src.suffix)]
         self._output = output / f"{fname}.json"
         self._src = src
-        self._dst: Optional[TextIOWrapper] = open(self._output, "w")
+        self._dst: Optional[TextIOWrapper] = open(
+            self._output, "w", encoding="utf-8"
+        )
         self._doc: S2Model = {
             "meta": {},
             "entities": [],
diff --git a/src/spexsrv/application/app.py b/src/spexsrv/application/app.py
index 8d7aa0e..cde2ead 100644
--- a/src/spexsrv/application/app.py
+++ b/src/spexsrv/application/app.py
@@ -33,9 +33,9 @@ async def render_template(tpl: str, **ctx: str) -> str:
     static = Path(app.static_folder)
 
     if bundle:
-        with open(static / Path("alpinejs.3.13.5.js")) as fh:
+        with open(static / Path("alpinejs.3.13.5.js"), encoding="utf-8") as fh:
             ctx["alpinejs_src"] = fh.read()
-        with open(static / Path("bulma-0.9.4.min.css")) as fh:
+        with open(static / Path("bulma-0.9.4.min.css"), encoding="utf-8") as fh:
             ctx["bulma_src"] = fh.read()
     else:
         ctx["bulma_url"] = url_for("static", filename="bulma-0.9.4.min.css")
@@ -121,7 +121,7 @@ async def report(hash: str) -> str:
     json_fpath = cached_json(hash)
     html_fpath = json_fpath.with_suffix(".html")
 
-    with open(json_fpath) as fh:
+    with open(json_fpath, encoding="utf-8") as fh:
         report_json = json.load(fh)
 
     erroneous_figure_ids: Set[str] = {
-- 
2.43.0


From 914b25a1b155725e235360f858e28baf918c7f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:13 +0000
Subject: [PATCH 27/43] fix: link the style sheet by its URL and allow any file
 name

---
 src/spex/htmlspec/htmlrenderer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/spex/htmlspec/htmlrenderer.py b/src/spex/htmlspec/htmlrenderer.py
index 3c731d3..4488021 100644
--- a/src/spex/htmlspec/htmlrenderer.py
+++ b/src/spex/htmlspec/htmlrenderer.py
@@ -2,10 +2,13 @@
 #
 # SPDX-License-Identifier: BSD-3-Clause
 
+import os
 from html import escape
 from pathlib import Path
+from re import compile as re_compile
 from types import TracebackType
 from typing import Any, Generator, Optional, Set, Tuple, Type, TypeAlias
+from urllib.parse import quote
 
 from gcgen.api import Section, write_file
 from lxml.etree import _Element
@@ -25,6 +28,8 @@ from spex.htmlspec.parser import (
 
 ProgressStatus: TypeAlias = Tuple[int, int]  # processing figure X of Y figures
 
+_rgx_not_xml = re_compile("[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff]")
+
 
 def html_escape(txt: str) -> str:
     """escape text for HTML, in attributes and elements.
@@ -153,7 +158,10 @@ class SpexHtmlRenderer:
         s.emitln("<head>").indent()
         title = html_escape(self._document.header.title)
         revision = self._document.header.revision
-        fname = html_escape(self._fname)
+        fname_bytes = os.fsencode(self._fname)
+        # file names may have characters which no HTML document can have
+        fname = _rgx_not_xml.sub("\ufffd", fname_bytes.decode("utf-8", "replace"))
+        fname = html_escape(fname)
         s.emit(f'<meta charset="utf-8" data-spec="{title}"')
         if revision is not None:
             s.emit(f' data-revision="{html_escape(revision)}"')
@@ -161,7 +169,7 @@ class SpexHtmlRenderer:
         s.emitln(f'<meta name="spexVersion" content="{__version__}" />')
         s.emitln(f"<title>{fname}</title>")
         s.add_section(self._html_head)
-        s.emitln(f'<link rel="stylesheet" href="{fname}.css"/>')
+        s.emitln(f'<link rel="stylesheet" href="{quote(fname_bytes)}.css"/>')
         s.dedent().emitln("</head>")
         s.emitln("<body>").indent()
         s.add_section(self._html_body)
-- 
2.43.0


From 6b215154cbcf71cd920e07e62534140f87ca23cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:59 +0000
Subject: [PATCH 28/43] fix: references to styles that do not exist have no
 effect

---
 src/spex/htmlspec/docx/runproperties.py |  4 ++--
 src/spex/htmlspec/docx/styles.py        | 14 +++++++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/spex/htmlspec/docx/runproperties.py b/src/spex/htmlspec/docx/runproperties.py
index c3e0b4e..3b2e2d5 100644
--- a/src/spex/htmlspec/docx/runproperties.py
+++ b/src/spex/htmlspec/docx/runproperties.py
@@ -221,8 +221,8 @@ class RunProperties:
             r1 = Xpath.elem_first(e, "./w:u")
             if r1 is None:
                 return None
-            r2 = Xpath.attr_first_req(r1, "./@w:val")
-            return r2 != "none"
+            r2 = Xpath.attr_first(r1, "./@w:val")
+            return r2 != "none" if r2 is not None else None
 
         rpr = RunProperties(
             bold=bprop_val(rpr_xml, "./w:b", "w:val"),
diff --git a/src/spex/htmlspec/docx/styles.py b/src/spex/htmlspec/docx/styles.py
index 1a5e56f..094f076 100644
--- a/src/spex/htmlspec/docx/styles.py
+++ b/src/spex/htmlspec/docx/styles.py
@@ -22,6 +22,10 @@ class StyleResolver:
         assert style_type in ("paragraph", "character")
         self._style_type = style_type
         self._style_aliases = self.__init_alias_dct(style_doc, style_type)
+        self._style_elems: Dict[str, _Element] = {}
+        for style in Xpath.elems(style_doc, f"./w:style[@w:type = '{style_type}']"):
+            style_id = Xpath.attr_first_req(style, "@w:styleId")
+            self._style_elems.setdefault(style_id, style)
 
     @staticmethod
     def __init_alias_dct(style_doc: _Element, style_type: str) -> Dict[str, str]:
@@ -41,10 +45,10 @@ class StyleResolver:
         # get entry
         # if w:basedOn exists, resolv (using same fn, causing caching),
         # return merge(<basedOn>, <this>)
-        style = Xpath.elem_first_req(
-            self._style_doc,
-            f"./w:style[@w:type = '{self._style_type}'][@w:styleId = '{style_id}']",
-        )
+        style = self._style_elems.get(style_id, None)
+        if style is None:
+            # references to styles which do not exist have no effect
+            return None
         based_on = Xpath.attr_first(style, "./w:basedOn/@w:val")
         rpr = RunProperties.from_rpr_elem(Xpath.elem_first(style, "./w:rPr"))
         if based_on is None:
@@ -55,7 +59,7 @@ class StyleResolver:
         return based_on_rpr.merge(rpr) if based_on_rpr is not None else rpr
 
     def get_style(self, style_id: str) -> Optional[RunProperties]:
-        canonical_style_name = self._style_aliases[style_id]
+        canonical_style_name = self._style_aliases.get(style_id, style_id)
         return self.__get_style(canonical_style_name)
 
 
-- 
2.43.0


From d33201b236839d2113522b152425a0a880cb35e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:59 +0000
Subject: [PATCH 29/43] fix: lists with incomplete definitions and with list
 styles

---
 src/spex/htmlspec/docx/numbering.py | 29 +++++++++++++++++++++++++----
 src/spex/htmlspec/parser.py         |  4 +++-
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/spex/htmlspec/docx/numbering.py b/src/spex/htmlspec/docx/numbering.py
index 14c204c..3f78082 100644
--- a/src/spex/htmlspec/docx/numbering.py
+++ b/src/spex/htmlspec/docx/numbering.py
@@ -2,7 +2,7 @@
 #
 # SPDX-License-Identifier: BSD-3-Clause
 
-from dataclasses import dataclass, field
+from dataclasses import dataclass, field, replace
 from pathlib import Path
 from typing import Any, Callable, Dict, Iterator, List, Type, TypeVar, Union
 
@@ -109,6 +109,15 @@ class NumberingDocument:
         """true if num_id points to a defined numbering style."""
         return int(num_id) in self._num_to_abs_num
 
+    def has_level(self, num_id: Union[str, int], ilvl: Union[str, int]) -> bool:
+        """true if num_id points to a list whose definition has the level."""
+        if not self.has_num_id(num_id):
+            return False
+        abs_num = self._abstract_nums.get(self._num_to_abs_num[int(num_id)])
+        return abs_num is not None and any(
+            lvl.ilvl == int(ilvl) for lvl in abs_num.ilvls
+        )
+
     def get_style(self, num_id: Union[str, int]) -> AbstractNum:
         if int(num_id) == 0:
             breakpoint()
@@ -119,15 +128,17 @@ class NumberingDocument:
         yield from self._abstract_nums.values()
 
     def __parse_absnum(self) -> None:
-        abs_nums = {}
+        abs_nums: Dict[int, AbstractNum] = {}
+        list_styles: Dict[str, int] = {}  # name of list style -> its definition
+        links: Dict[int, str] = {}  # definition -> name of the list style it uses
         abs_num_elems = Xpath.elems(self._elem, "./w:abstractNum")
         for abs_num in abs_num_elems:
             ilvls = []
             num_id = int(Xpath.attr_first_req(abs_num, "./@w:abstractNumId"))
             for ilvl in Xpath.elems(abs_num, "./w:lvl"):
                 s_ilvl = int(Xpath.attr_first_req(ilvl, "./@w:ilvl"))
-                s_fmt = Xpath.attr_first_req(ilvl, "./w:numFmt/@w:val")
-                s_txt = Xpath.attr_first_req(ilvl, "./w:lvlText/@w:val")
+                s_fmt = Xpath.attr_first(ilvl, "./w:numFmt/@w:val") or "decimal"
+                s_txt = Xpath.attr_first(ilvl, "./w:lvlText/@w:val") or ""
                 ilvls.append(
                     AbstractNumLvl(
                         abstract_num_id=num_id,
@@ -137,6 +148,16 @@ class NumberingDocument:
                     )
                 )
             abs_nums[num_id] = AbstractNum(abstract_num_id=num_id, ilvls=ilvls)
+            if style := Xpath.attr_first(abs_num, "./w:styleLink/@w:val"):
+                list_styles[style] = num_id
+            elif link := Xpath.attr_first(abs_num, "./w:numStyleLink/@w:val"):
+                links[num_id] = link
+        for num_id, link in links.items():
+            if link in list_styles:
+                abs_nums[num_id].ilvls.extend(
+                    replace(lvl, abstract_num_id=num_id)
+                    for lvl in abs_nums[list_styles[link]].ilvls
+                )
         self._abstract_nums = abs_nums
 
         num_elems = Xpath.elems(self._elem, "./w:num")
diff --git a/src/spex/htmlspec/parser.py b/src/spex/htmlspec/parser.py
index 434f983..c726757 100644
--- a/src/spex/htmlspec/parser.py
+++ b/src/spex/htmlspec/parser.py
@@ -135,7 +135,9 @@ class SpexParser:
         num_id = Xpath.attr_first(e, "./w:pPr/w:numPr/w:numId/@w:val")
         if num_id is None or self._document.numbering_xml is None:
             return False
-        return self._document.numbering_xml.has_num_id(num_id)
+        return self._document.numbering_xml.has_level(
+            num_id, self.__p_list_level(e)
+        )
 
     def __p_list_level(self, e: _Element) -> int:
         """level of list paragraph, a paragraph naming no level is at level 0."""
-- 
2.43.0


From c4ed8113f0ae876e3d0eb04b8890ba106bcf2ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 30/43] fix: keep content in content controls, smart tags and
 insertions

---
 src/spex/htmlspec/docx/docxutils.py | 22 +++++++++++++++++++++-
 src/spex/htmlspec/docx/tablewrap.py |  7 +++++--
 src/spex/htmlspec/docx/tags.py      |  6 ++++++
 src/spex/htmlspec/parser.py         |  5 +++--
 4 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/spex/htmlspec/docx/docxutils.py b/src/spex/htmlspec/docx/docxutils.py
index 158f9fe..a693de3 100644
--- a/src/spex/htmlspec/docx/docxutils.py
+++ b/src/spex/htmlspec/docx/docxutils.py
@@ -4,12 +4,32 @@
 
 import zipfile
 from pathlib import Path
-from typing import IO
+from typing import IO, Iterator
 
 from lxml import etree
 
+from spex.htmlspec.docx.tags import Tag
 from spex.xml import xml_parser
 
+# elements around content which is part of what surrounds them
+_transparent = {
+    Tag.customXml.value,
+    Tag.ins.value,
+    Tag.moveTo.value,
+    Tag.sdt.value,
+    Tag.sdtContent.value,
+    Tag.smartTag.value,
+}
+
+
+def iter_content(elem: etree._Element) -> Iterator[etree._Element]:
+    """children of element, also those in content controls, insertions etc."""
+    for child in elem.iterchildren():
+        if child.tag in _transparent:
+            yield from iter_content(child)
+        else:
+            yield child
+
 
 def docx_extract_contents(
     docx_path: Path, file: str = "word/document.xml"
diff --git a/src/spex/htmlspec/docx/tablewrap.py b/src/spex/htmlspec/docx/tablewrap.py
index 3ace1f0..7597310 100644
--- a/src/spex/htmlspec/docx/tablewrap.py
+++ b/src/spex/htmlspec/docx/tablewrap.py
@@ -8,6 +8,8 @@ from typing import List
 
 from lxml.etree import _Element
 
+from spex.htmlspec.docx.docxutils import iter_content
+from spex.htmlspec.docx.tags import Tag
 from spex.xml import Xpath
 
 
@@ -58,10 +60,11 @@ class TableWrap:
                 return VerticalMergeState.MERGED
 
         matrix: Matrix = []
-        for row_index, row in enumerate(Xpath.elems(self._elem, "./w:tr")):
+        rows = [e for e in iter_content(self._elem) if e.tag == Tag.tr.value]
+        for row_index, row in enumerate(rows):
             cell_index = 0
             merge_row = []
-            for cell in row.findall("./w:tc", row.nsmap):  # type: ignore
+            for cell in (e for e in iter_content(row) if e.tag == Tag.tc.value):
                 grid_span = tc_grid_span(cell)
                 vertical_merge = cell_vertical_merge(cell)
                 if vertical_merge is VerticalMergeState.MERGED:
diff --git a/src/spex/htmlspec/docx/tags.py b/src/spex/htmlspec/docx/tags.py
index f429c0a..ac05ec7 100644
--- a/src/spex/htmlspec/docx/tags.py
+++ b/src/spex/htmlspec/docx/tags.py
@@ -51,6 +51,12 @@ class Tag(Enum):
     t = _expand("w:t")  # text
     hyperlink = _expand("w:hyperlink")
     fldSimple = _expand("w:fldSimple")
+    customXml = _expand("w:customXml")
+    ins = _expand("w:ins")  # inserted, while tracking changes
+    moveTo = _expand("w:moveTo")  # moved here, while tracking changes
+    sdt = _expand("w:sdt")  # content control
+    sdtContent = _expand("w:sdtContent")
+    smartTag = _expand("w:smartTag")
 
 
 __all__ = ["Tag"]
diff --git a/src/spex/htmlspec/parser.py b/src/spex/htmlspec/parser.py
index c726757..2d568a6 100644
--- a/src/spex/htmlspec/parser.py
+++ b/src/spex/htmlspec/parser.py
@@ -10,6 +10,7 @@ from typing import Optional, Set, Union
 from lxml.etree import _Element
 
 from spex.htmlspec.docx import AbstractNumLvl, Document, RunProperties, TableWrap, Tag
+from spex.htmlspec.docx.docxutils import iter_content
 from spex.htmlspec.stream import Stream
 from spex.jsonspec.extractors.regular_expressions import TABLE_ID_REGEX
 from spex.xml import Xpath
@@ -216,7 +217,7 @@ class SpexParser:
         # children, extracting runs (w:r) and hyperlinks (w:hyperlink)
         # if a hyperlink, strip and yield its runs.
         # TODO: works, but need to satisfy mypy somehow...
-        for child in p.iterchildren():
+        for child in iter_content(p):
             if child.tag == Tag.r.value:
                 yield child
             elif child.tag in (Tag.hyperlink.value, Tag.fldSimple.value):
@@ -276,7 +277,7 @@ class SpexParser:
 
                 tcell = TableCell(
                     elems=list(
-                        self._parse_any(Stream(e for e in gridcell.cell.iterchildren()))
+                        self._parse_any(Stream(iter_content(gridcell.cell)))
                     ),
                     span=Point(gridcell.colspan, gridcell.rowspan),
                     origin=Point(gridcell.left, gridcell.top),
-- 
2.43.0


From 081f2b2715a94756b8aee74bfdafefedf9132a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 31/43] fix: keep line breaks, tabs and non-breaking hyphens
 between the texts of a run

---
 src/spex/htmlspec/docx/docxutils.py | 21 ++++++++++++++++++++-
 src/spex/htmlspec/docx/header.py    |  6 ++----
 src/spex/htmlspec/docx/tags.py      |  4 ++++
 src/spex/htmlspec/parser.py         | 10 +++++-----
 4 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/spex/htmlspec/docx/docxutils.py b/src/spex/htmlspec/docx/docxutils.py
index a693de3..dbe412a 100644
--- a/src/spex/htmlspec/docx/docxutils.py
+++ b/src/spex/htmlspec/docx/docxutils.py
@@ -9,7 +9,7 @@ from typing import IO, Iterator
 from lxml import etree
 
 from spex.htmlspec.docx.tags import Tag
-from spex.xml import xml_parser
+from spex.xml import Xpath, xml_parser
 
 # elements around content which is part of what surrounds them
 _transparent = {
@@ -31,6 +31,25 @@ def iter_content(elem: etree._Element) -> Iterator[etree._Element]:
             yield child
 
 
+def run_text(run: etree._Element) -> str:
+    """text of run, including tabs, line breaks and non-breaking hyphens."""
+    txt = ""
+    for child in run.iterchildren():
+        if child.tag == Tag.t.value:
+            txt += child.text or ""
+        elif child.tag == Tag.tab.value:
+            txt += "\t"
+        elif child.tag == Tag.noBreakHyphen.value:
+            txt += "-"
+        elif child.tag == Tag.cr.value:
+            txt += "\n"
+        elif child.tag == Tag.br.value:
+            # other breaks than these are no part of the text (page, column)
+            if (Xpath.attr_first(child, "@w:type") or "textWrapping") == "textWrapping":
+                txt += "\n"
+    return txt
+
+
 def docx_extract_contents(
     docx_path: Path, file: str = "word/document.xml"
 ) -> etree._Element:
diff --git a/src/spex/htmlspec/docx/header.py b/src/spex/htmlspec/docx/header.py
index 61ef715..f397a69 100644
--- a/src/spex/htmlspec/docx/header.py
+++ b/src/spex/htmlspec/docx/header.py
@@ -7,7 +7,7 @@ from re import DOTALL
 from re import compile as re_compile
 from typing import Optional
 
-from spex.htmlspec.docx.docxutils import docx_extract_contents
+from spex.htmlspec.docx.docxutils import docx_extract_contents, run_text
 from spex.xml import Xpath
 
 _rgx_revision = re_compile(r".*[Rr]evision\s+(?P<rev>\S+).*", DOTALL)
@@ -17,9 +17,7 @@ class Header:
     def __init__(self, doc_path: Path):
         self._elem = docx_extract_contents(doc_path, "word/header1.xml")
         self._path = doc_path
-        self._header = "".join(
-            e.text for e in Xpath.elems(self._elem, ".//w:t") if e.text is not None
-        )
+        self._header = "".join(run_text(e) for e in Xpath.elems(self._elem, ".//w:r"))
         m = _rgx_revision.match(self._header)
         self._revision = m.group("rev") if m is not None else None
         self._title = self._header.split(",")[0].strip()
diff --git a/src/spex/htmlspec/docx/tags.py b/src/spex/htmlspec/docx/tags.py
index ac05ec7..b119424 100644
--- a/src/spex/htmlspec/docx/tags.py
+++ b/src/spex/htmlspec/docx/tags.py
@@ -49,6 +49,10 @@ class Tag(Enum):
     sz = _expand("w:sz")  # sz, size
     color = _expand("w:color")  # color
     t = _expand("w:t")  # text
+    tab = _expand("w:tab")
+    br = _expand("w:br")  # break
+    cr = _expand("w:cr")  # line break
+    noBreakHyphen = _expand("w:noBreakHyphen")
     hyperlink = _expand("w:hyperlink")
     fldSimple = _expand("w:fldSimple")
     customXml = _expand("w:customXml")
diff --git a/src/spex/htmlspec/parser.py b/src/spex/htmlspec/parser.py
index 2d568a6..5af7dad 100644
--- a/src/spex/htmlspec/parser.py
+++ b/src/spex/htmlspec/parser.py
@@ -10,7 +10,7 @@ from typing import Optional, Set, Union
 from lxml.etree import _Element
 
 from spex.htmlspec.docx import AbstractNumLvl, Document, RunProperties, TableWrap, Tag
-from spex.htmlspec.docx.docxutils import iter_content
+from spex.htmlspec.docx.docxutils import iter_content, run_text
 from spex.htmlspec.stream import Stream
 from spex.jsonspec.extractors.regular_expressions import TABLE_ID_REGEX
 from spex.xml import Xpath
@@ -208,9 +208,9 @@ class SpexParser:
         # pStyle == "normal" -> normal text paragraph
         current = stream.consume()
         spans = list(self._parse_spans(current))
-        if len(spans) > 0:
-            return Paragraph(spans=list(self._parse_spans(current)))
-        return None
+        if any(span.text.strip("\t\n") for span in spans):
+            return Paragraph(spans=spans)
+        return None  # an empty line
 
     def _select_runs(self, p: _Element) -> Iterator[_Element]:
         # we also want to extract text from hyperlinks, so loop over top-level
@@ -225,7 +225,7 @@ class SpexParser:
 
     def _parse_spans(self, p: _Element) -> Iterator[Span]:
         for r in self._select_runs(p):
-            txt = "".join(t.text or "" for t in Xpath.elems(r, "./w:t"))
+            txt = run_text(r)
             if txt == "":
                 continue
             r_rpr = self._document.extract_r_rpr(r)
-- 
2.43.0


From f2d31834d9f986c9336868b46857576041dc109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:00 +0000
Subject: [PATCH 32/43] fix: an alias does not hide the style which has it as
 its id

---
 src/spex/htmlspec/docx/styles.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/docx/styles.py b/src/spex/htmlspec/docx/styles.py
index 094f076..689c1fb 100644
--- a/src/spex/htmlspec/docx/styles.py
+++ b/src/spex/htmlspec/docx/styles.py
@@ -36,7 +36,9 @@ class StyleResolver:
 
             aliases = Xpath.attr_first(style, "./w:aliases/@w:val") or ""
             for alias in (a.strip() for a in aliases.split(",")):
-                alias_dct[alias] = canonical_style_name
+                if alias:
+                    # an alias does not hide the style which has it as its id
+                    alias_dct.setdefault(alias, canonical_style_name)
 
         return alias_dct
 
-- 
2.43.0


From 485f2060d86a2820c9e1a60e4276e976223037e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:36 +0000
Subject: [PATCH 33/43] fix: report page: show the ID of a figure without HTML
 as text

A figure's ID is a text of the document; it was used as HTML.
---
 src/spexsrv/templates/report.html | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spexsrv/templates/report.html b/src/spexsrv/templates/report.html
index cba1fcc..34b60c1 100644
--- a/src/spexsrv/templates/report.html
+++ b/src/spexsrv/templates/report.html
@@ -264,7 +264,8 @@
         if (html != undefined) {
             return html;
         } else {
-            return figure;
+            // the result is used as HTML, yet a figure's ID may be any text
+            return figure.replace(/[&<>"']/g, (c) => `&#${c.charCodeAt(0)};`);
         }
 
     };
-- 
2.43.0


From 8e753cb952d906df28d879d53a8dec1fd50f508e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:36 +0000
Subject: [PATCH 34/43] fix: report page: figure IDs which are names of
 properties of objects

A figure with ID 'constructor' or 'toString' broke the page.
---
 src/spexsrv/templates/report.html | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/spexsrv/templates/report.html b/src/spexsrv/templates/report.html
index 34b60c1..b544edd 100644
--- a/src/spexsrv/templates/report.html
+++ b/src/spexsrv/templates/report.html
@@ -260,9 +260,8 @@
 
     const getFigureId = (figure) => {
         const fig_id = figure.split("_")[0];
-        const html = report_html[fig_id];
-        if (html != undefined) {
-            return html;
+        if (Object.hasOwn(report_html, fig_id)) {
+            return report_html[fig_id];
         } else {
             // the result is used as HTML, yet a figure's ID may be any text
             return figure.replace(/[&<>"']/g, (c) => `&#${c.charCodeAt(0)};`);
@@ -323,7 +322,7 @@
                         acc[l.fig] = [l];
                     }
                     return acc;
-                }, {});
+                }, Object.create(null));
 
                 // add lint_errors to entities
                 let ents_w_lints = ents.map(e => {
-- 
2.43.0


From e736f5f0a6156747cee526c0689e21dc6eb1de6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:36 +0000
Subject: [PATCH 35/43] fix: upload page: events which arrive in several chunks

A chunk ends where the network has it end, not with an event. The parts of
an event were lost, with the last one so was the address of the report.
---
 src/spexsrv/templates/upload-form.html | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spexsrv/templates/upload-form.html b/src/spexsrv/templates/upload-form.html
index ebef2dc..d0d803a 100644
--- a/src/spexsrv/templates/upload-form.html
+++ b/src/spexsrv/templates/upload-form.html
@@ -126,14 +126,16 @@ const submitForm = () => {
         if (rsp.ok) {
             const reader = rsp.body.getReader();
             const decoder = new TextDecoder();
+            let rest = ""; // of a line whose end is yet to arrive
             Alpine.store("processing", true);
             return reader.read().then(function processMsg({done, value}) {
                 if (done) {
                     window.location.href = url;
                     return;
                 }
-                const chunk = decoder.decode(value);
-                chunk.split("\n").forEach((line) => {
+                const lines = (rest + decoder.decode(value, {stream: true})).split("\n");
+                rest = lines.pop();
+                lines.forEach((line) => {
                     if (line.startsWith("data: ")) {
                         try {
                             msg = JSON.parse(line.substring(6));
-- 
2.43.0


From 25e57263d77dcd52cfa0b2a906e20b322e24547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:36 +0000
Subject: [PATCH 36/43] fix: upload page: do not leave for 'null' when there is
 no report

---
 src/spexsrv/templates/upload-form.html | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spexsrv/templates/upload-form.html b/src/spexsrv/templates/upload-form.html
index d0d803a..216906d 100644
--- a/src/spexsrv/templates/upload-form.html
+++ b/src/spexsrv/templates/upload-form.html
@@ -130,7 +130,11 @@ const submitForm = () => {
             Alpine.store("processing", true);
             return reader.read().then(function processMsg({done, value}) {
                 if (done) {
-                    window.location.href = url;
+                    if (url !== null) {
+                        window.location.href = url;
+                    } else { // failed, there is no report
+                        Alpine.store("processing", false);
+                    }
                     return;
                 }
                 const lines = (rest + decoder.decode(value, {stream: true})).split("\n");
-- 
2.43.0


From 2a1c25bffa3b8cc687061947d96c2112bdbecb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:36 +0000
Subject: [PATCH 37/43] fix: upload page: show the form again when the
 connection breaks

---
 src/spexsrv/templates/upload-form.html | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spexsrv/templates/upload-form.html b/src/spexsrv/templates/upload-form.html
index 216906d..2363643 100644
--- a/src/spexsrv/templates/upload-form.html
+++ b/src/spexsrv/templates/upload-form.html
@@ -168,6 +168,7 @@ const submitForm = () => {
             });
         }
     }).catch(error => {
+        Alpine.store("processing", false);
         console.error("ERROR:", error);
     });
 }
-- 
2.43.0


From e035d7b99debe1a96179d10c3e4ffeb95737f484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:17 +0000
Subject: [PATCH 38/43] fix: expand the entities which a document declares
 itself

Since external entities are no longer loaded, entities declared in the
document, such as <!ENTITY nbsp "&#160;">, were left unexpanded, too.
---
 src/spex/xml.py                        | 17 ++++++++++++++---
 src/spexsrv/application/report_view.py |  3 ++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/spex/xml.py b/src/spex/xml.py
index 90a027f..0b053a2 100644
--- a/src/spex/xml.py
+++ b/src/spex/xml.py
@@ -2,7 +2,7 @@
 #
 # SPDX-License-Identifier: BSD-3-Clause
 
-from typing import List, Mapping, Optional, Union, cast
+from typing import Any, List, Mapping, Optional, Union, cast
 
 from lxml import etree
 from lxml.etree import _Element, _ElementTree
@@ -17,9 +17,20 @@ ElementTree = _ElementTree
 XmlElem = Union[_Element, _ElementTree]
 
 
+class _NothingExternal(etree.Resolver):
+    def resolve(self, system_url: str, public_id: str, context: Any) -> Any:
+        return self.resolve_string("", context)
+
+
 def xml_parser() -> etree.XMLParser:
-    """parser for input documents, never reads anything but the document."""
-    return etree.XMLParser(resolve_entities=False, no_network=True)
+    """parser for input documents, never reads anything but the document.
+
+    Entities which the document itself declares are expanded, external ones
+    are empty. The parser is for contents (or open files), it would take the
+    path of a document for something external, too."""
+    parser = etree.XMLParser(no_network=True)
+    parser.resolvers.add(_NothingExternal())
+    return parser
 
 
 class XmlUtils:
diff --git a/src/spexsrv/application/report_view.py b/src/spexsrv/application/report_view.py
index 1bc7413..b91833b 100644
--- a/src/spexsrv/application/report_view.py
+++ b/src/spexsrv/application/report_view.py
@@ -9,7 +9,8 @@ from spex.xml import XmlUtils, Xpath, etree, xml_parser
 
 
 def get_erroneous_figures(figures: List[str], html_doc: Path) -> Dict[str, str]:
-    doc = etree.parse(html_doc, xml_parser())
+    with open(html_doc, "rb") as fh:
+        doc = etree.parse(fh, xml_parser())
     _err_figures: Dict[str, str] = {}
     for figure in figures:
         figure_id = figure.split("_")[0]
-- 
2.43.0


From 0d5b1ce425e8aa35a0b5989c53dc504748a43d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:38 +0000
Subject: [PATCH 39/43] fix: accept HTML with an XML declaration

A document which declares its encoding was refused, and so was one in
UTF-16. The bytes are left to the XML parser, which knows the encoding.
---
 src/spex/jsonspec/parse.py | 9 +++++++--
 src/spex/xml.py            | 7 ++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/spex/jsonspec/parse.py b/src/spex/jsonspec/parse.py
index beb5259..3a388ac 100644
--- a/src/spex/jsonspec/parse.py
+++ b/src/spex/jsonspec/parse.py
@@ -34,7 +34,7 @@ class SpecDocument:
 
 # TODO determine what to return
 def open_doc(spec: Path) -> SpecDocument:
-    return html_to_spec_doc(spec.absolute().read_text(encoding="utf-8"))
+    return _to_spec_doc(spec.absolute().read_bytes())
 
 
 def html_to_spec_doc(html_doc: str) -> SpecDocument:
@@ -50,7 +50,12 @@ def html_to_spec_doc(html_doc: str) -> SpecDocument:
         SpecDocument: A wrapper that returns a parser and holds meta data on the
         specification
     """
-    doc = etree.parse(io.StringIO(html_doc), xml_parser())
+    # the text may declare an encoding, which it has no more
+    return _to_spec_doc(html_doc.encode("utf-8"), encoding="utf-8")
+
+
+def _to_spec_doc(html_doc: bytes, encoding: Optional[str] = None) -> SpecDocument:
+    doc = etree.parse(io.BytesIO(html_doc), xml_parser(encoding))
 
     doc_spec = Xpath.attr_first_req(doc, "./head/meta/@data-spec").lower()
     doc_rev = Xpath.attr_first_req(doc, "./head/meta/@data-revision").lower()
diff --git a/src/spex/xml.py b/src/spex/xml.py
index 0b053a2..f482e25 100644
--- a/src/spex/xml.py
+++ b/src/spex/xml.py
@@ -22,13 +22,14 @@ class _NothingExternal(etree.Resolver):
         return self.resolve_string("", context)
 
 
-def xml_parser() -> etree.XMLParser:
+def xml_parser(encoding: Optional[str] = None) -> etree.XMLParser:
     """parser for input documents, never reads anything but the document.
 
     Entities which the document itself declares are expanded, external ones
     are empty. The parser is for contents (or open files), it would take the
-    path of a document for something external, too."""
-    parser = etree.XMLParser(no_network=True)
+    path of a document for something external, too. An encoding given takes
+    precedence over the one that the document declares."""
+    parser = etree.XMLParser(no_network=True, encoding=encoding)
     parser.resolvers.add(_NothingExternal())
     return parser
 
-- 
2.43.0


From e59364e9c0fef0927c9c8070f66ab062b115cb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:20 +0000
Subject: [PATCH 40/43] fix: report: show figures as the document has them

They were written as XML, so that empty elements swallowed in a browser
what follows them, and indented, which split the words of a paragraph.
---
 src/spexsrv/application/report_view.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spexsrv/application/report_view.py b/src/spexsrv/application/report_view.py
index b91833b..6bbcf3c 100644
--- a/src/spexsrv/application/report_view.py
+++ b/src/spexsrv/application/report_view.py
@@ -5,7 +5,7 @@
 from pathlib import Path
 from typing import Dict, List
 
-from spex.xml import XmlUtils, Xpath, etree, xml_parser
+from spex.xml import Xpath, etree, xml_parser
 
 
 def get_erroneous_figures(figures: List[str], html_doc: Path) -> Dict[str, str]:
@@ -16,7 +16,10 @@ def get_erroneous_figures(figures: List[str], html_doc: Path) -> Dict[str, str]:
         figure_id = figure.split("_")[0]
         for table in Xpath.elems(doc, "./body/table[@id]"):
             if table.get("id") == figure_id:
-                _err_figures[figure] = XmlUtils.fmt(table)
+                # pages take it for HTML, where no other tag than <br/> ends itself
+                _err_figures[figure] = etree.tostring(
+                    table, method="html", encoding="unicode", with_tail=False
+                )
                 break
 
     return _err_figures
-- 
2.43.0


From 992285b0aeed4bfcefd58429ecd93de0f1ccab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:51 +0000
Subject: [PATCH 41/43] fix: refuse uploads of clients which accept no event
 stream (q=0)

---
 src/spexsrv/application/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spexsrv/application/app.py b/src/spexsrv/application/app.py
index cde2ead..84f2639 100644
--- a/src/spexsrv/application/app.py
+++ b/src/spexsrv/application/app.py
@@ -169,7 +169,7 @@ async def spec_parse() -> Response | Tuple[str, int, Dict[Any, Any]]:
     if "document" not in files:
         return "document missing", 422, {}
 
-    if "text/event-stream" not in request.accept_mimetypes:
+    if not request.accept_mimetypes["text/event-stream"]:
         abort(400)
 
     spec = files["document"]
-- 
2.43.0


From 8354a039724715c0c1fb48f4d8109d5eae75696e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:51 +0000
Subject: [PATCH 42/43] fix: paragraphs with numbering 0 are in no list,
 whatever it is defined as

---
 src/spex/htmlspec/docx/numbering.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spex/htmlspec/docx/numbering.py b/src/spex/htmlspec/docx/numbering.py
index 3f78082..d53cb99 100644
--- a/src/spex/htmlspec/docx/numbering.py
+++ b/src/spex/htmlspec/docx/numbering.py
@@ -106,8 +106,10 @@ class NumberingDocument:
         self.__parse_absnum()
 
     def has_num_id(self, num_id: Union[str, int]) -> bool:
-        """true if num_id points to a defined numbering style."""
-        return int(num_id) in self._num_to_abs_num
+        """true if num_id points to a defined numbering style.
+
+        0 never does, it stands for a paragraph without numbering."""
+        return int(num_id) != 0 and int(num_id) in self._num_to_abs_num
 
     def has_level(self, num_id: Union[str, int], ilvl: Union[str, int]) -> bool:
         """true if num_id points to a list whose definition has the level."""
@@ -119,8 +121,6 @@ class NumberingDocument:
         )
 
     def get_style(self, num_id: Union[str, int]) -> AbstractNum:
-        if int(num_id) == 0:
-            breakpoint()
         return self._abstract_nums[self._num_to_abs_num[int(num_id)]]
         # return self.__abstract_nums[int(num_id)]
 
-- 
2.43.0


From e66c44973113165ee2bc9371af568a7d507c9863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:46 +0000
Subject: [PATCH 43/43] fix: text moved elsewhere while tracking changes is no
 part of the page header

---
 src/spex/htmlspec/docx/header.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/docx/header.py b/src/spex/htmlspec/docx/header.py
index f397a69..0e2c702 100644
--- a/src/spex/htmlspec/docx/header.py
+++ b/src/spex/htmlspec/docx/header.py
@@ -17,7 +17,9 @@ class Header:
     def __init__(self, doc_path: Path):
         self._elem = docx_extract_contents(doc_path, "word/header1.xml")
         self._path = doc_path
-        self._header = "".join(run_text(e) for e in Xpath.elems(self._elem, ".//w:r"))
+        # text moved elsewhere while tracking changes is no longer part of the header
+        runs = Xpath.elems(self._elem, ".//w:r[not(ancestor::w:moveFrom)]")
+        self._header = "".join(run_text(e) for e in runs)
         m = _rgx_revision.match(self._header)
         self._revision = m.group("rev") if m is not None else None
         self._title = self._header.split(",")[0].strip()
-- 
2.43.0

