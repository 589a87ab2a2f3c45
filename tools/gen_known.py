#!/usr/bin/env python3
"""Writes /verif/known_findings.json."""
import json
from pathlib import Path

FIXED = """
S02 f8f8cbd a row that starts below its direct predecessor was not reported when an earlier row had a lower start (bytes rows 5, 9, 7)
S01 9526503 a range cell with extra text ('7:4 bits', '12.5') was read as the number at its start
S03 e3a68b5 Reserved and Obsolete rows whose cell has a second paragraph vanished from the result
S10 e06f935 a table without rows aborted the whole document
S11 6d74aa1 a specially handled figure without the expected columns aborted the run even with skip-on-error, unreported
S07 53bea47 rows made up of spanned cells only, and heading rows, were not counted against row spans, so cells were repeated in rows they do not cover
D02 c9c64fa a merge continuation written as vMerge val="continue" was an error
D01 a90ccb6 only the first run of a hyperlink or simple field, and the first text of a run, reached the HTML
D06 a9ffb28 title, revision and file name were not escaped in the HTML head
D05 7ea763a explicit off settings (u val="none", strike val="false") were rendered as on
R04 a2088a9 HTML and CSS write failures went unreported or left partial files in place of earlier ones
R06 1513f08 external entities of the input document were loaded
S14 4bba4d9 the schema refused the textual bounds of variable-length lists
W02 627e241 an upload's file name decided where outside the working directory it was stored
W01 0cf1d1b reports were cached by file name, so an upload replaced another one's report
W04 68e54c1 an unknown report hash was answered with a server error
W05 d45105a a finding on figure 1 also showed figures 10, 11 and so on
D01 205921a a line break within a text became a literal backslash-n, a carriage return a line feed
D04 8845f46 a list paragraph without w:ilvl (level 0) aborted the conversion
D04 e6e2214 a bookmark between two list paragraphs ended the list
D04 87fec48 list levels were looked up by position, so levels defined out of order got the wrong kind
D04 bbc12b2 levels whose number is preceded by text, such as "(%1)" or "Step %1:", were made bulleted
D06 8321300 a tab in the title or revision became a blank
D06 68e323d a line break in the page header hid the revision
D08 13c2b42 lists of mixed kinds, or starting at a deeper level, were shown with another level's marker
R01 9aaf7e7 texts were read and written in the locale's encoding: another document, or a failure, in a Latin-1 or ASCII locale
D01 914b25a the page of a file whose name has # ? % or : did not find its style sheet; names that are not UTF-8 or hold control characters failed
D05 6b21515 a reference to a style that does not exist, a quote in a style's name or w:u without value aborted the conversion
D04 d33201b levels without number format or text aborted the conversion, lists defined by a list style or without such a level or definition too
D01 c4ed811 content in content controls, custom XML, smart tags and tracked insertions was lost, as were rows, cells and tables in them
D01 081f2b2 line breaks, tabs and non-breaking hyphens of a run were lost, so that words ran together
D05 f2d3183 a style having another style's id as an alias was applied in its place
W06 485f206 on the report page a figure's number with markup in it was used as HTML when the figure has no table
W06 8e753cb a figure numbered like a property of objects ('constructor', 'toString') broke the report page
W07 e736f5f events that the network delivers in several pieces were lost, so that the upload page left for 'null' instead of the report
W07 25e5726 an upload that failed, or whose stream ended early, made the upload page leave for 'null'
W07 2a1c25b after a broken connection the upload page showed progress for ever, without the form
S15 e035d7b entities which an HTML document declares itself were dropped from its texts
S15 0d5b1ce HTML documents with an XML declaration of their encoding were refused, as were those in other encodings than UTF-8
W05 e59364e in the report's figures, empty elements swallowed what follows and blanks appeared within words
W04 992285b uploads of clients that refuse event streams (q=0) were served one
D04 8354a03 a paragraph with numbering 0 stopped the conversion in a debugger when the document defines that number
D06 e66c449 text moved away while tracking changes was taken for part of the page header, hence of title and revision
""".strip().splitlines()

KNOWN = [
    {
        "property": "S08",
        "status": "known",
        "key": "two-tables-in-one-cell",
        "what": "two tables directly inside one description cell are both given the identifier '<parent>_<row key>', so identifiers are not unique",
        "where": "src/spex/jsonspec/extractors/figure.py extract_data_sub_table",
        "why not repaired": "the identifier format is what users of the JSON rely on; any suffix is a format decision",
    },
    {
        "property": "S14",
        "status": "known",
        "key": "value-figure-without-rows",
        "what": "a value figure without any data row yields an entity with an empty field list, which the published schema (minItems 1) refuses",
        "where": "src/spex/jsonspec/extractors/valuetable.py __call__, src/spex/resources/stage2.schema.json",
        "why not repaired": "either the schema or the set of entities would change; both are decisions about the format",
    },
]

if __name__ == "__main__":
    out = {
        "findings": KNOWN,
        "fixed": ["fixed: property={} {} {}".format(*l.split(" ", 2)) for l in FIXED],
    }
    Path(__file__).resolve().parent.parent.joinpath("known_findings.json").write_text(
        json.dumps(out, indent=1, ensure_ascii=False) + "\n"
    )
