"""Driving the real code at its stable seams."""
from pathlib import Path

from .core import scratch

_mods = {}


def mods():
    if not _mods:
        from spex.jsonspec.parse import html_to_spec_doc
        from spex.jsonspec.parserargs import ParserArgs

        _mods["doc"] = html_to_spec_doc
        _mods["args"] = ParserArgs
        _mods["out"] = scratch()
        _mods["skip"] = ParserArgs(output_dir=Path(scratch()), skip_fig_on_error=True)
        _mods["fail"] = ParserArgs(output_dir=Path(scratch()), skip_fig_on_error=False)
    return _mods


class Outcome:
    def __init__(self, entities, lint, failed, error=None):
        self.entities = entities
        self.lint = lint
        self.failed = failed
        self.error = error

    def lint_set(self, *codes):
        return sorted(
            (repr(x) for x in self.lint if not codes or x[0] in codes),
        )


def run(html, skip=True):
    """stage 2 in process: entities, lint tuples, whether it raised."""
    m = mods()
    parser = m["doc"](html).get_parser(m["skip"] if skip else m["fail"])
    ents, failed, error = [], False, None
    try:
        for e in parser.parse():
            ents.append(e)
    except Exception as e:
        failed, error = True, repr(e)
    lint = []
    for entry in parser.linter.lint_entries():
        j = entry.to_json()
        lint.append((j["code"], j["fig"], j.get("row"), j["context"]))
    return Outcome(ents, lint, failed, error)


def lint_multiset(lint, *codes, ctx=True):
    out = []
    for code, fig, row, c in lint:
        if not codes or code in codes:
            out.append((code, fig, row, tuple(sorted((k, repr(v)) for k, v in c.items())) if ctx else ()))
    return sorted(out, key=repr)
