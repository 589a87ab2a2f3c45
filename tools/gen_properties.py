#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is easier to keep in this form)."""
import json
import pathlib

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })


J = "src/spex/jsonspec/"
H = "src/spex/htmlspec/"
ST = J + "extractors/structtable.py"
VT = J + "extractors/valuetable.py"
DOC = J + "document.py"
APP = "src/spexsrv/application/app.py"
OBS2 = ["entities yielded by parsing a stage-1 document", "meta.lint of the stage-2 JSON"]

# ------------------------------------------------------------------ stage 1 -> stage 2
prop("S01", "The range printed in a row is the range recorded for its field",
     "In every bit or byte figure, a row whose range cell is a lone number n yields a field with low = high = n, and one whose range cell is 'h:l' (whatever leading zeros and whatever blanks around the colon) yields high = h and low = l, with a reversed-range report (R1002) on that row exactly when h < l. "
     "Any other non-special range text (a formula, an identifier, extra trailing text, nothing at all) is kept verbatim as the range and reported as invalid (R1001) on that row; it is never turned into numbers that the row does not state.",
     ["inputs"], "every range text over digits, colon, blanks, line breaks, letters and operators, in both bit and byte figures",
     "The tests use about twenty well-formed ranges; the guarantee is over every text a specification author can put in the cell.",
     [ST, J + "extractors/regular_expressions.py"], [("range recognition", ST), ("range pattern", J + "extractors/regular_expressions.py")], observe=OBS2)

prop("S02", "Overlap, gap and row-order errors are reported exactly where they occur",
     "Take the fields of a bit or byte figure in the order they are emitted: if some field starts below the start of the field directly before it, exactly one row-order error (T1004) is reported for the figure and no overlap or gap error. "
     "Otherwise an overlap (T1001) is reported on a field exactly when it starts at or below the end of the field directly before it, and a gap (T1002) exactly when it starts more than one above that end. "
     "An ellipsis row or a non-numeric range suspends these comparisons with its neighbours and nothing else.",
     ["inputs", "histories"], "every sequence of up to N rows with ranges from a small set of adjacent, overlapping, gapped, reversed, textual and ellipsis ranges, in bit and byte figures",
     "Soundness and completeness of the linter is a statement about all row sequences; the tests only check that a few clean figures have no lint at all and never that an error is reported.",
     [ST], [("field validation pass", ST)], [("previous range", "the neighbour a field is compared to", ST)], OBS2)

prop("S03", "Each data row of a bit or byte figure yields exactly one field, in order",
     "The fields of a bit or byte figure are its data rows, one field per row with nothing lost, duplicated or invented: in document order for byte figures, in reverse document order for bit figures. "
     "A row whose name or description is Reserved or Obsolete yields a field labelled RESERVED or OBSOLETE with its range; a row that is a lone ellipsis cell yields an ellipsis marker with range -1..-1; a row whose range cell is an ellipsis, a note row, a heading row and a row with a single cell yield nothing. "
     "A lone note cell that ends the table ends the field list.",
     ["inputs", "histories"], "every sequence of up to N rows from an alphabet of all row kinds, for bit and byte figures, with and without a separate name column",
     "Row handling depends on combinations and order of row kinds (state carried along the table); the tests have one ellipsis in one position and no reserved, note, heading or obsolete row mixes.",
     [ST, J + "rowiter.py", J + "queries.py"], [("row loop", ST), ("special cases", ST)], observe=OBS2)

prop("S04", "Field names and briefs of bit and byte figures follow the naming rules",
     "A field is named by the acronym in parentheses of its description, or without one by the initials of the words in front, or, with a separate attribute column, by the text before the colon there (initials, reported as imputed (L1003), when there is no colon), lower-cased with blanks and dashes turned into underscores and slashes removed. "
     "A name that is not an identifier is reported (L1004) on that row and a well-formed one never is. "
     "The brief is the description's text after the colon without trailing full stops, cut to its first sentence if longer than 60 characters, and left out if that is still longer or there is none.",
     ["inputs"], "every description built from up to N tokens of words, digits, punctuation, parentheses, colons, dots and long runs around the 60-character limit",
     "The naming grammar has many optional parts whose combinations decide the result; the tests show three shapes of it.",
     [ST, J + "extractors/helpers.py", J + "extractors/regular_expressions.py"], [("name extraction", ST), ("brief extraction and normalisation", J + "extractors/helpers.py")], observe=OBS2)

prop("S05", "Value figures list each code with its normalised name and brief",
     "Each data row of a value figure that has the cells its header announces yields exactly one field in document order: its code lower-cased, its name (text before the first colon, parenthesis or other punctuation, upper-cased, blanks and dashes as underscores, slashes removed, a leading number moved to the end) and, under the same rules as for bit and byte figures, its brief. "
     "Reserved rows are named RESERVED, ellipsis rows become an ellipsis marker, a lone 'Notes:' cell ends the list. "
     "A row with no name fails the figure with L1000, and names that are not identifiers are reported (L1004).",
     ["inputs", "histories"], "every sequence of up to N rows from an alphabet of codes and descriptions, plus every description up to N tokens",
     "The tests cover a handful of rows; name derivation and row handling must be right for every text and mix of rows.",
     [VT, J + "extractors/helpers.py"], [("value row loop", VT), ("label normalisation", J + "extractors/helpers.py")], observe=OBS2)

prop("S06", "Duplicate names and duplicate codes are reported exactly when they occur",
     "In a bit or byte figure whose rows are in order, and in every value figure, each field whose name already occurred earlier in the figure is reported as a duplicate (L1002) on its own row, and no other field is; in value figures the same holds for repeated codes (V1002). "
     "Reserved and ellipsis rows are never duplicates, and different figures never influence each other.",
     ["inputs", "histories"], "every assignment of up to N names (and codes) to up to N rows, including reserved and ellipsis rows, and pairs of figures",
     "No test contains a duplicate; exactness is over all equality patterns among rows.",
     [ST, VT], [("struct duplicate detection", ST), ("value duplicate detection", VT)], observe=OBS2)

prop("S07", "Merging cells down rows does not change what is extracted",
     "A figure in which data cells span several rows yields the same entities and the same lint as the figure written out with each spanning cell repeated in every row it covers. "
     "This holds for any number of simultaneous spans, spans that end together or overlap, spans in any column, and rows consisting entirely of spanned cells.",
     ["inputs", "histories"], "every way to merge vertically adjacent cells in tables of up to R rows and C columns, with and without horizontally merged cells, for all three figure types",
     "Re-insertion carries state from row to row; the tests only include whatever spans two excerpts of one specification happen to have.",
     [J + "rowiter.py"], [("re-insertion of spanned cells", J + "rowiter.py")], [("open spans", "cells still to be repeated in following rows", J + "rowiter.py")], OBS2)

prop("S08", "Nested figures are extracted, identified and linked to their parent",
     "Every table directly inside the description cell of a data row, at any depth, is extracted as a figure of its own under the same rules as a top-level figure, with identifier '<parent id>_<row key>' and a link to its parent's identifier; tables in other columns are not extracted. "
     "Nested entities come out before the figure that contains them and after anything earlier in the document. "
     "Entity identifiers are unique whenever figure numbers are unique and row keys are unique within each figure.",
     ["inputs"], "every tree of figures up to depth D and width W over the three figure types, with nested tables in the description or another column",
     "The tests have one level of nesting in excerpts whose result is fixed; recursion and identification must hold for every tree.",
     [DOC, J + "extractors/figure.py", ST, VT], [("recursive parse callback", DOC), ("sub-table extraction", J + "extractors/figure.py")], observe=OBS2)

prop("S09", "The header row alone decides how a figure is read, or that it is skipped",
     "A figure is read as bytes, values or bits, in that order of preference, exactly when its header row names the columns that kind needs (after ignoring case, surrounding and repeated blanks and line breaks), in whatever position and whatever other columns there are. "
     "A header 'bit', 'byte' or 'code' is read as 'bits', 'bytes' or 'value' and reported (T1006). "
     "A figure no kind applies to yields no entity and exactly one skipped-table report (T1007) listing its columns.",
     ["inputs"], "every header row of up to 4 columns over the recognised and some unrecognised names and spellings, and every column order",
     "The tests use a few fixed header rows; the decision must be right for every combination and order of headers.",
     [DOC, J + "extractors/figure.py", ST, VT, J + "extractors/helpers.py"], [("header normalisation", DOC), ("column mapping", ST + ", " + VT)], observe=OBS2)

prop("S10", "No figure disappears silently",
     "Every top-level table of a document whose title row mentions a Figure is accounted for exactly once: it yields one entity with its number and title, or one lint entry saying it was skipped (T1007), could not be parsed (T1000) or has no figure number (T1008). "
     "Tables without such a title, and empty tables, yield nothing and do not disturb the others. "
     "Entities appear in document order.",
     ["inputs", "histories"], "every sequence of up to N tables over an alphabet of good, skipped, failing, untitled, unnumbered, wrapped and empty tables",
     "The tests parse single figures, or whole documents without looking at the result.",
     [DOC], [("figure iteration", DOC), ("title and number extraction", DOC)], [("missing-id counter", "numbers unidentifiable figures", DOC)], OBS2)

prop("S11", "A figure that cannot be parsed affects no other figure",
     "With skip-on-error, a document containing unparsable figures yields exactly the entities and lint of the parsable ones, as if the others were absent, plus, for each unparsable top-level figure, exactly one T1000 entry naming the figure (possibly a nested one) where the failure arose, no entity for that top-level figure itself, and otherwise only what was found in it before the failure. "
     "Without skip-on-error, processing stops at the first unparsable figure with an error, after having produced exactly the entities that precede it. "
     "This holds wherever in the figure, at whatever nesting depth, and for whatever number of figures the failure occurs.",
     ["inputs", "histories", "fault_sequences"], "every sequence of up to N figures over an alphabet of good figures and figures failing at each possible place and depth, in both modes, with and without document-specific parsers",
     "No test exercises a failing figure; the error state is carried across figures and recursion levels, so it must be checked over sequences.",
     [DOC, "src/spex/parse.py", "src/spex/__main__.py"], [("error handling around a figure", DOC)], [("unwind flag", "whether the innermost failure has been reported", DOC)], OBS2 + ["exit status"])

prop("S12", "Rows of a variable-length list keep their formula bounds",
     "After a heading row spanning columns that announces a List, every following data row (other than Reserved and Obsolete ones) whose range is 'a:b' over letters, digits, + - * ( ) and blanks yields a field with high = a and low = b as text, blanks removed, whether or not a and b are numbers; rows before the heading are unaffected. "
     "Any other range text is kept verbatim and reported as invalid (R1001). "
     "List mode never carries over into another figure.",
     ["inputs", "histories"], "every sequence of rows and headings up to length N, every formula over the alphabet up to N tokens, and pairs of figures",
     "One fixed example exists; the mode is per-figure state switched by a row and must hold for all sequences.",
     [ST, J + "extractors/regular_expressions.py", J + "queries.py"], [("dynamic range parsing", ST), ("list heading detection", J + "queries.py")], [("list mode", "set once a list heading has been seen", ST)], OBS2)

prop("S13", "Document-specific rules apply to exactly the documents they are for",
     "The special rules for a specification (field-name overrides, special figures) apply exactly when title and revision, ignoring case, are those of that specification; every other document is read by the standard rules. "
     "An overridden name is used verbatim for exactly the figure and row it is defined for and reported (L1007); the figures with special handling yield the figure that is glued to their end as a separate entity after their own, and nothing is lost.",
     ["inputs", "configurations"], "every combination of known and near-miss titles and revisions, with every overridden (figure, row) and its neighbours, and every position of the glued title in special figures",
     "No test uses a known specification title with a checked result.",
     [J + "quirks/__init__.py", J + "quirks/nvm.py", J + "quirks/mi.py", J + "quirks/kv.py", J + "quirks/zoned.py", J + "parse.py"],
     [("parser selection", J + "parse.py"), ("override tables", J + "quirks/")], observe=OBS2)

prop("S14", "The result always satisfies the published schema and its lint is meaningful",
     "Every stage-2 document produced by a run that succeeds is valid JSON that satisfies the published schema and carries title, revision and lint list. "
     "Every lint entry has a published code with that code's published message and names the figure it was found in (an emitted entity unless that figure was skipped or failed); entries about ranges, names and codes also name the row. ",
     ["inputs"], "every document in the bounded families used by all the stage-2 checks, written through the real pipeline",
     "The schema validation option is off in every test.",
     ["src/spex/resources/stage2.schema.json", "src/spex/validate.py", J + "lint.py", "src/spex/writer.py", "src/spex/parse.py"],
     [("schema", "src/spex/resources/stage2.schema.json"), ("lint entry construction", J + "lint.py"), ("document assembly", "src/spex/parse.py")], observe=["stage-2 JSON file", "exit status with --validate-json"])

prop("S15", "How the HTML of a document is written does not change its model",
     "Two HTML documents that say the same give the same result, whatever the spelling: comments, processing instructions and CDATA anywhere, characters written as such, as references or as entities the document declares, an XML declaration or none, any document type, any encoding it declares (UTF-8 if none) with or without byte order mark, any line ends, any quoting, order and spacing of attributes, white space between the tags of tables and rows, empty elements in either form, "
     "and texts of paragraphs cut into any spans with any inline formatting.",
     ["inputs"], "every way of writing at every place of documents that use all rules, every pair of ways throughout, every combination of declaration, document type, encoding, line ends and style",
     "The tests' documents are all written in one way, that of stage 1; those of users come from other tools and editors.",
     [J + "parse.py", "src/spex/xml.py", J + "document.py", J + "rowiter.py", J + "queries.py", J + "extractors/structtable.py", J + "extractors/valuetable.py"], [("reading of HTML", J + "parse.py"), ("text and cells", "src/spex/xml.py")])

# ------------------------------------------------------------------ stage 0 -> stage 1
prop("D01", "All table text of the specification reaches the HTML, and the HTML is readable",
     "For every .docx, the HTML produced is well-formed and the next stage can read it, whatever characters occur in the texts, the page header and the file name. "
     "The text of each table cell in the HTML is exactly the concatenation of the text of its paragraphs' runs, including runs inside hyperlinks, simple fields, content controls, custom XML, smart tags and tracked insertions (not deletions), with nothing lost, duplicated or reordered; "
     "tabs, line breaks and non-breaking hyphens of a run are part of it, other breaks are not (lines with nothing but tabs and breaks may be left out). The page links its style sheet by a URL that denotes it, whatever the file is called.",
     ["inputs"], "every cell content up to N paragraphs, runs, hyperlinks, wrapping elements and text pieces over an alphabet including all characters special to HTML, and every placement of special characters in title, revision and file name",
     "There is no .docx in the repository: nothing of this stage is tested.",
     [H + "parser.py", H + "htmlrenderer.py", H + "docx/header.py"], [("run selection", H + "parser.py"), ("escaping", H + "htmlrenderer.py")], observe=["stage-1 HTML file"])

prop("D02", "Merged cells of the specification become the same merged cells in HTML",
     "For every table grid, with any cells merged horizontally or vertically, the HTML table has a cell for each (merged) cell at its top-left position, with column and row spans such that each grid position is covered by exactly one cell holding the original content. "
     "Cells with a grey background (other than white) become header cells, all others data cells. Content controls, custom XML or insertions around rows and cells change nothing.",
     ["inputs"], "every tiling of grids up to R x C into rectangles, encoded with gridSpan and vMerge in every way these allow, with every background class",
     "Nothing of this stage is tested; correctness is over all merge patterns.",
     [H + "docx/tablewrap.py", H + "parser.py", H + "htmlrenderer.py"], [("grid construction", H + "docx/tablewrap.py"), ("span rendering", H + "htmlrenderer.py")], observe=["stage-1 HTML file"])

prop("D03", "Each table of the specification appears once, in place and in order",
     "Every table of the document body appears exactly once in the HTML: top-level tables in document order, nested tables inside the very cell that contains them, at any depth, also when that cell is merged and when there are content controls around. "
     "A top-level table carries its figure number as id exactly when its first cell is a data cell whose text starts with 'Figure <number>:'.",
     ["inputs"], "every forest of tables up to depth D and width W, with text before, between and after them, and nested tables in merged cells",
     "Nothing of this stage is tested; recursion and the once-only rule depend on state over the whole document.",
     [H + "parser.py", H + "docx/document.py"], [("table traversal", H + "parser.py")], [("tables seen", "tables already emitted as nested", H + "parser.py")], ["stage-1 HTML file"])

prop("D04", "Numbered and bulleted lists keep their nesting, order and kind",
     "For every sequence of list paragraphs and normal paragraphs in a cell, the HTML contains the same items in the same order, nested according to their levels, ordered or unordered according to their numbering definition (the level's text has a number in it or not; the levels of a definition that refers to a list style are those of the style), and always well-formed. "
     "A paragraph that refers to a definition or level that does not exist is no list paragraph, and a level whose format is not given is a decimal one. "
     "A paragraph naming no level is at level 0. A list ends where a table or a paragraph that is not part of it begins, and a list of another definition starts a new one; anything without content between its paragraphs (such as a bookmark) does not end it.",
     ["inputs", "histories"], "every sequence of up to N paragraphs over levels, list definitions and plain paragraphs",
     "Nothing of this stage is tested; list nesting is a stack discipline over arbitrary level sequences.",
     [H + "parser.py", H + "htmlrenderer.py", H + "docx/numbering.py"], [("list parsing", H + "parser.py"), ("list rendering", H + "htmlrenderer.py")], observe=["stage-1 HTML file"])

prop("D05", "Text formatting in HTML and CSS equals the effective formatting of the run",
     "The CSS rule that applies to a text span states, for each of bold, italic, underline and strike-through, vertical position and colour that is set anywhere, the setting that takes precedence: the run's own explicit setting (including explicit off) over that of its character style over those of the styles that one is based on; what is set nowhere is not stated. References to styles that do not exist, or are not character styles, have no effect, and an underline without value states nothing. "
     "Two spans share a class exactly when these agree, every class used is defined exactly once, and a run without settings has no class.",
     ["inputs"], "every on/off/absent combination of the properties on run, style and base style chain, and every pair and order of runs",
     "Nothing of this stage is tested; inheritance and overriding is a product of many three-valued settings.",
     [H + "docx/runproperties.py", H + "docx/styles.py", H + "css.py", H + "htmlrenderer.py"], [("property merging", H + "docx/runproperties.py"), ("style resolution", H + "docx/styles.py"), ("class table", H + "css.py")], [("class cache", "formatting already given a class", H + "css.py")], ["stage-1 HTML and CSS files"])

prop("D06", "Title and revision of the specification are carried through both stages",
     "The title recorded for a document is the page header's text up to the first comma, and the revision is the word that follows the last 'Revision' in it, however the header text is split into runs; its tabs and line breaks count as white space. "
     "Both reach the result unchanged except for letter case; a document without a page header, or whose header has no revision, is rejected with an error instead of being given a wrong identity.",
     ["inputs"], "every header text up to N tokens over words, commas, revision words and special characters, with every split into runs",
     "No test has a page header; identity decides which special rules apply to the whole document.",
     [H + "docx/header.py", H + "htmlrenderer.py", J + "parse.py", "src/spex/parse.py"], [("header parsing", H + "docx/header.py"), ("identity lookup", J + "parse.py")], observe=["stage-1 HTML file", "meta of stage-2 JSON"])

prop("D07", "A figure drawn in .docx yields the same model as its HTML description",
     "For every figure, processing a .docx that contains it gives the entities and lint that the figure's logical table has by the rules for stage 2, irrespective of how merged cells, nested tables, hyperlinks and formatting express it in the file. "
     "Processing the HTML produced on the way gives the identical stage-2 document.",
     ["inputs"], "every figure in the bounded family of logical tables with merges and nesting, rendered to .docx",
     "No test runs both stages together.",
     ["src/spex/parse.py", H + "htmlrenderer.py", DOC], [("pipeline", "src/spex/parse.py")], observe=["stage-2 JSON file"])

prop("D08", "Every list is shown with the markers of its own level",
     "The style sheet gives each list element of the HTML the marker of its own level in its own numbering definition, whatever lists of other levels, kinds and definitions it is nested in or surrounded by: decimal, lower-case letters or lower-case roman numerals for levels so numbered, some ordered marker for other number formats, decimal where none is given, and for bulleted levels disc on even and circle on odd levels (counted from 0).",
     ["inputs"], "every assignment of number formats to levels of one or two numbering definitions, with every sequence of list paragraphs up to a length, and up to 260 definitions",
     "No test converts a document with lists; which rule applies depends on nesting and on all other rules of the sheet.",
     [H + "docx/numbering.py", H + "htmlrenderer.py"], [("marker rules", H + "docx/numbering.py"), ("list rendering", H + "htmlrenderer.py")], observe=["stage-1 HTML and CSS files"])

prop("D09", "Every cell has the background colour it has in the specification",
     "By HTML and style sheet, the background of each table cell is the fill colour of its cell in the specification (letter case apart), and it has none when that is absent, automatic or white. Cells with the same fill share a class, and every class used is defined exactly once.",
     ["inputs"], "every sequence of fills up to a length, every digit at every place, any number of colours, in merged, nested and several tables",
     "No test looks at the style sheet; the class table depends on all cells of the document.",
     [H + "parser.py", H + "css.py", H + "htmlrenderer.py"], [("cell formatting", H + "parser.py"), ("class table", H + "css.py")], [("class cache", "formatting already given a class", H + "css.py")], ["stage-1 HTML and CSS files"])

# ------------------------------------------------------------------ runs
prop("R01", "The result depends on the document alone",
     "Processing a document gives the same files, byte for byte, no matter what was processed before it in the same process, how often, into which directory, with progress reporting or not, with which hash seed, and in which environment (locale, encodings, time zone, umask). "
     "In particular no lint, name, style, figure counter or parser setting leaks from one document into another.",
     ["histories", "configurations"], "every sequence of up to N documents over an alphabet of documents that exercise every kind of state, interleaved at every step when several are processed at once",
     "Tests process each document once in a fresh state; leaks show only in histories.",
     ["src/spex/parse.py", DOC, H + "css.py", H + "docx/styles.py", J + "lint.py"], [("per-document objects", DOC), ("style cache", H + "docx/styles.py")], [("linter, caches, counters", "state that must be per document", DOC)], ["all output files"])

prop("R02", "The command line processes every input and its exit status tells the truth",
     "Given any list of inputs with distinct base names, the command writes for each input up to the first failing one exactly the stage-2 file that processing it alone writes, into the output directory, which is created if missing. "
     "The exit status is 0 exactly when every input was processed completely (and satisfied the schema if validation was asked for), and nothing is processed after a failure.",
     ["inputs", "histories", "configurations"], "every sequence of up to N inputs over good, partly failing, malformed, wrong-type and missing files, with every combination of options",
     "One test runs one fixed list of inputs and looks only at the exit status.",
     ["src/spex/__main__.py", "src/spex/parse.py", "src/spex/writer.py"], [("input loop and error exit", "src/spex/__main__.py")], observe=["exit status", "output directory"])

prop("R03", "Ignoring lint codes removes exactly those entries",
     "For every set of lint codes given to be ignored, in any letter case and with blanks around commas, the result is identical to the one without the option except that exactly the entries with those codes are missing, the others keeping their order. "
     "An unknown code is refused.",
     ["inputs", "configurations"], "every subset of the codes that occur in a document raising as many kinds as possible, and every single code",
     "No test uses the option.",
     ["src/spex/parse.py", "src/spex/__main__.py", J + "lint.py"], [("lint filter", "src/spex/parse.py"), ("option parsing", "src/spex/__main__.py")], observe=["meta.lint of stage-2 JSON", "exit status"])

prop("R04", "A failed write is never reported as success",
     "If any output file (JSON, HTML or CSS) cannot be created or cannot be written to the end, at whatever byte the failure happens, the run ends with a non-zero exit status. "
     "Whenever the exit status is 0 all output files are present and complete, none of them is a leftover from an earlier run, and no temporary file remains in the output directory; a failing conversion of a .docx does not replace an existing HTML or CSS file by a partial one.",
     ["fault_sequences", "crash_points"], "a write failure at every byte offset of every output file, and an unwritable or occupied path for each of them, with and without earlier outputs present",
     "No test injects a fault.",
     ["src/spex/writer.py", H + "htmlrenderer.py", "src/spex/parse.py", "src/spex/__main__.py"], [("file writer", "src/spex/writer.py"), ("HTML and CSS writers", H + "htmlrenderer.py")], observe=["exit status", "output directory"])

prop("R05", "Progress reporting is truthful and changes nothing",
     "With progress reporting, processing yields for each phase (HTML first for .docx, then JSON) positions that start at 0, increase by one and stay below the announced total of that phase as long as figures, not nested ones, are concerned, and then returns the path of the finished JSON file. "
     "Files written are identical to those of a run without progress reporting, and abandoning the run at any point raises no error and leaves no open state behind.",
     ["inputs", "histories", "crash_points"], "every document of a bounded family, every abandonment point",
     "No test uses progress reporting.",
     ["src/spex/parse.py", H + "htmlrenderer.py", "src/spex/progressbar.py"], [("progress generator", "src/spex/parse.py")], observe=["yielded progress", "output files"])

prop("R06", "Processing a document reads nothing but the document",
     "Whatever declarations and references a .docx or HTML input contains, processing it (on the command line or in the web application) never opens another file or a network address because of it, and no text from outside the document appears in any output.",
     ["inputs"], "every combination of entity, DTD and include constructs with local and remote targets, in every XML part the tool reads",
     "No test has a hostile document.",
     [J + "parse.py", H + "docx/docxutils.py", "src/spexsrv/application/report_view.py", "src/spex/xml.py"], [("XML parsing", J + "parse.py")], observe=["output files", "file opens during processing"])

prop("R07", "The console and the log tell what happened in a run",
     "On the console a run announces every input it begins, names every figure that fails by its number and title, and, for each result with lint entries, tells how many are in the result and in which file. "
     "spex.log in the working directory has the messages of this run and of no other, each line being a JSON object, whatever characters occur in names and texts; it has every message shown to the user, and an entry with the exception (type, message, frames) for every figure that failed and for the failure that ended the run.",
     ["inputs", "histories"], "every list of up to N inputs of all kinds with and without skipping, every text that means something to formatters or JSON in every place, every kind of earlier log",
     "No test looks at the console or the log, which bug reports rely on.",
     ["src/spex/log/_log_config.py", "src/spex/__main__.py", "src/spex/parse.py", J + "document.py"], [("log file", "src/spex/log/_log_config.py")], observe=["standard error", "spex.log"])

# ------------------------------------------------------------------ web application
prop("W01", "A report address always shows the document it was created for",
     "The report, JSON and HTML addresses handed out for an uploaded document serve the result of exactly that content for as long as the server runs. "
     "This holds for every sequence and interleaving of uploads, with equal or different file names and contents, repeated uploads, failing uploads, disconnects and reads.",
     ["schedules", "histories"], "every interleaving at event granularity of up to N uploads and reads over colliding names and contents",
     "Nothing tests the web application; the guarantee is over histories and schedules.",
     [APP], [("report cache", APP), ("upload handling", APP)], [("cache lookup and directory", "maps a document's hash to its stored report", APP)], ["HTTP responses"])

prop("W02", "An upload touches nothing outside the server's own temporary space",
     "Whatever file name a client sends with an upload, files are created, overwritten or removed only inside temporary directories that the server made for itself. "
     "Each upload's working directory is gone once its response has ended, whether by success, error or disconnect.",
     ["inputs", "schedules"], "every file name up to N components over '..', '.', empty, absolute prefixes, separators and plain names, with each upload ending in every possible way",
     "Nothing tests the web application.",
     [APP], [("upload destination", APP), ("clean-up", APP)], observe=["file system around the server"])

prop("W03", "The upload event stream is well-formed and ends in the right way",
     "The response to an upload is a sequence of JSON events: progress of the HTML phase only for .docx, then of the JSON phase, and last, exactly once and only if the document was processed completely, a completion event with the report's address, which can be fetched at once. "
     "An upload that cannot be processed ends without a completion event and registers no report.",
     ["inputs", "histories"], "every document kind including malformed ones, for both file types, and every number of figures up to N",
     "Nothing tests the web application.",
     [APP], [("event generator", APP)], observe=["HTTP responses"])

prop("W04", "Requests that cannot be served are refused and change nothing",
     "A report, JSON or HTML request for an unknown or malformed hash answers 404; an upload without document part, without event-stream acceptance, without a usable file name or above the size limit answers a 4xx status. "
     "None of these changes what any other address serves.",
     ["inputs", "histories"], "every request of a bounded alphabet of malformed requests, at every point of a history of uploads",
     "Nothing tests the web application.",
     [APP], [("request validation", APP)], observe=["HTTP responses"])

prop("W05", "The report shows the findings and the figures they are about",
     "The report page embeds exactly the stage-2 document of the upload and, for each figure that has a lint entry (on itself or on a figure nested in it) and appears in the HTML under its number, that figure's table and no other; nothing in the document can break out of the page's data. "
     "The bundled form of the page contains the same report with the style sheet and script that the server supplies inlined.",
     ["inputs"], "every combination of up to N figures with and without findings, nested findings, numberless figures and texts with characters special to HTML and scripts",
     "Nothing tests the web application.",
     [APP, "src/spexsrv/application/report_view.py", "src/spexsrv/templates/report.html"], [("figure selection", "src/spexsrv/application/report_view.py"), ("page rendering", APP)], observe=["HTTP responses"])

prop("W06", "The report page shows every finding, under its figure and by its code",
     "In the browser, the report page shows title and revision and, for each lint code of the result, one row with its message and the number of its entries, and their total. The list of figures shows each figure with entries once, with its table where the HTML has one, and each of its entries with code, message, row and context; after every sequence of selecting, deselecting and clearing codes it shows exactly the entries of the selected codes, or all if none is selected. "
     "Texts and figure numbers of the document are shown as texts whatever they contain, the bundled form shows the same, and the page's links lead to this result, its HTML and the bundled form.",
     ["inputs", "histories"], "every result of up to N figures of different kinds, special texts in every place, and every sequence of clicks up to a depth",
     "Nothing runs the scripts of the pages.",
     ["src/spexsrv/templates/report.html", APP, "src/spexsrv/application/report_view.py"], [("summary, filter and list of figures", "src/spexsrv/templates/report.html")], observe=["visible page"])

prop("W07", "The upload page follows an upload to its end, however it arrives",
     "Submitting the form sends the chosen file, and nothing else, in one request that the server accepts. However the network cuts the event stream into pieces, the page shows the progress that the last complete event tells (the HTML phase as full in the JSON phase) and, once the stream has ended, opens the report if and only if a completion event was received. "
     "If the upload is refused, does not reach the server, breaks, or ends without completion, the page stays, with the form ready for another upload that works like the first.",
     ["schedules", "fault_sequences", "histories"], "every cut of event streams into up to N pieces, every end or break at every byte, every sequence of up to N uploads that complete or fail in different ways",
     "Nothing runs the scripts of the pages; on one computer a stream is hardly ever cut inside of an event.",
     ["src/spexsrv/templates/upload-form.html", APP], [("reading of the stream", "src/spexsrv/templates/upload-form.html"), ("events", APP)], observe=["visible page", "requests", "navigation"])

if __name__ == "__main__":
    out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
    print(len(P), "properties")
