#!/opt/venv/bin/python
"""Systematic small changes of the code under test, to find what the checks overlook.

usage: mutate.py list [FILE...]          count the changes
       mutate.py run OUT.jsonl [-j N] [-t SECONDS] [FILE...]
       mutate.py again OUT.jsonl IN.jsonl [-j N] [-t SECONDS] [FILE...]   only what survived in IN
Each change is applied to a scratch copy of the repository.  Those that the test
suite notices are dropped; the others are given to the checks of the file they are
in, each for a limited time, until one reports a violation.  What none reports is to be
looked at by hand: it is either no change of behaviour, or a hole.
"""
import ast
import copy
import json
import os
import shutil
import signal
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
PY = "/opt/venv/bin/python"
SRC = REPO / "src"

CHECKS = {
    "spex/jsonspec/extractors/structtable.py": "S02 S01 S03 S04 S06 S12 S08 S09 S14 S11 S10 S13",
    "spex/jsonspec/extractors/valuetable.py": "S05 S06 S09 S08 S11 S14 S04 S03",
    "spex/jsonspec/extractors/helpers.py": "S04 S05 S01 S03 S12 S10 S08",
    "spex/jsonspec/extractors/regular_expressions.py": "S04 S05 S01 S12 S10 S03 S08",
    "spex/jsonspec/extractors/figure.py": "S09 S10 S08 S03 S11 S14 S07",
    "spex/jsonspec/extractors/skiptable.py": "S10 S09 S14",
    "spex/jsonspec/rowiter.py": "S07 S03",
    "spex/jsonspec/document.py": "S10 S11 S08 S13 S14 R05 S06 S02",
    "spex/jsonspec/queries.py": "S10 S08 S11 S03",
    "spex/jsonspec/defs.py": "S03 S05 S12 S14",
    "spex/jsonspec/exceptions.py": "S11 S14",
    "spex/jsonspec/lint.py": "S14 R03 S10",
    "spex/jsonspec/quirks/nvm.py": "S13",
    "spex/jsonspec/quirks/__init__.py": "S13",
    "spex/jsonspec/quirks/kv.py": "S13",
    "spex/jsonspec/quirks/mi.py": "S13",
    "spex/jsonspec/quirks/zoned.py": "S13",
    "spex/jsonspec/parserargs.py": "R03 S11 R02",
    "spex/jsonspec/parse.py": "S13 D06 R06 R01 R02",
    "spex/parse.py": "R05 R03 R02 S14 R01 D06 R04",
    "spex/writer.py": "R02 S14 R01 R04",
    "spex/__main__.py": "R02 R03 S11 R04 D06",
    "spex/validate.py": "R02 S14",
    "spex/xml.py": "S04 S10 R06 D01 D03 S05 D02 W05",
    "spex/htmlspec/parser.py": "D09 D02 D03 D04 D01 D07 D05",
    "spex/htmlspec/stream.py": "D08 D04 D03 D01",
    "spex/htmlspec/docx/styles.py": "D05 D01 R01",
    "spex/htmlspec/docx/document.py": "D08 D09 D03 D01 D06 D04 D05 R05",
    "spex/htmlspec/docx/runproperties.py": "D05 D01 R01",
    "spex/htmlspec/docx/docxutils.py": "D01 R06",
    "spex/htmlspec/docx/tablewrap.py": "D09 D02 D03 D01 D07",
    "spex/htmlspec/docx/tags.py": "D01 D02 D03 D04 D05",
    "spex/htmlspec/docx/numbering.py": "D08 D04 D01 R01",
    "spex/htmlspec/docx/header.py": "D06",
    "spex/htmlspec/docx/types.py": "D05",
    "spex/htmlspec/css.py": "D08 D09 D05 D02 R01 D04",
    "spex/htmlspec/htmlrenderer.py": "D08 D09 D01 D02 D03 D04 D05 R04 R05 R02 D06",
    "spexsrv/application/report_view.py": "W05 R06 W04",
    "spexsrv/application/app.py": "W03 W04 W05 W02 W01",
}

CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult}
METH = {"lower": "upper", "upper": "lower", "append": None, "update": None}
IDENT = {"strip", "lstrip", "rstrip", "lower", "upper", "replace", "split", "resolve", "absolute", "copy"}


def skip(node):
    """what is no behaviour: log messages, exceptions' texts, annotations."""
    if isinstance(node, ast.Raise):
        return True
    if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
        return True
    if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
        f = ast.unparse(node.value.func)
        if f.startswith(("logger.", "logging.", "print")):
            return True
    if isinstance(node, ast.Assert):
        return True
    return False


def mutants(tree):
    """(line, description, function changing a fresh copy of the tree)."""
    out = []

    def walk(node, path):
        if skip(node):
            return
        here = list(path)

        def add(desc, fn):
            out.append((getattr(node, "lineno", 0), desc, here, fn))

        if isinstance(node, ast.Compare):
            for i, op in enumerate(node.ops):
                for new in CMP.get(type(op), []):
                    add(f"{ast.unparse(node)}: {type(op).__name__} -> {new.__name__}", lambda n, i=i, new=new: n.ops.__setitem__(i, new()))
        if isinstance(node, ast.BoolOp):
            add(f"{ast.unparse(node)}: and <-> or", lambda n: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And()))
            for i in range(len(node.values)):
                add(f"{ast.unparse(node)}: without {ast.unparse(node.values[i])}", lambda n, i=i: n.values.pop(i))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            add(f"{ast.unparse(node)}: without not", ("replace", lambda n: n.operand))
        if isinstance(node, ast.BinOp) and type(node.op) in BIN:
            add(f"{ast.unparse(node)}: other operator", lambda n: setattr(n, "op", BIN[type(n.op)]()))
        if isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                add(f"{v} -> {not v}", lambda n: setattr(n, "value", not n.value))
            elif isinstance(v, int):
                for d in (1, -1):
                    add(f"{v} -> {v + d}", lambda n, d=d: setattr(n, "value", n.value + d))
            elif isinstance(v, str):
                if v:
                    add(f"{v!r} -> ''", lambda n: setattr(n, "value", ""))
                add(f"{v!r} -> + X", lambda n: setattr(n, "value", n.value + "X"))
                if any(c in v for c in "\\[](?+*") and len(v) < 200:
                    for i in range(len(v)):
                        add(f"{v!r}: without [{i}] {v[i]!r}", lambda n, i=i: setattr(n, "value", n.value[:i] + n.value[i + 1 :]))
        if isinstance(node, ast.If) and "TYPE_CHECKING" in ast.unparse(node.test):
            return
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            add(f"if {ast.unparse(node.test)}: always", lambda n: setattr(n, "test", ast.Constant(True)))
            if not isinstance(node, ast.While):
                add(f"if {ast.unparse(node.test)}: never", lambda n: setattr(n, "test", ast.Constant(False)))
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
            if node.func.attr in IDENT:
                add(f"{ast.unparse(node)}: without .{node.func.attr}()", ("replace", lambda n: n.func.value))
            if METH.get(node.func.attr):
                add(f"{ast.unparse(node)}: other case", lambda n: setattr(n.func, "attr", METH[n.func.attr]))
        if isinstance(node, ast.Call):
            for i in range(len(node.keywords)):
                add(f"{ast.unparse(node)[:80]}: without {node.keywords[i].arg}", lambda n, i=i: n.keywords.pop(i))
        if isinstance(node, (ast.List, ast.Tuple, ast.Set)) and len(node.elts) > 1 and isinstance(getattr(node, "ctx", ast.Load()), ast.Load):
            for i in range(len(node.elts)):
                add(f"{ast.unparse(node)[:80]}: without [{i}]", lambda n, i=i: n.elts.pop(i))
        if isinstance(node, ast.Dict):
            for i in range(len(node.keys)):
                add(f"{ast.unparse(node)[:80]}: without [{i}]", lambda n, i=i: (n.keys.pop(i), n.values.pop(i)))
        if isinstance(node, ast.Slice):
            for a in ("lower", "upper"):
                if getattr(node, a) is not None:
                    add(f"slice {ast.unparse(node)}: without {a}", lambda n, a=a: setattr(n, a, None))
        if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Delete)):
            add(f"without: {ast.unparse(node)[:100]}", ("replace", lambda n: ast.Pass()))
        if isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
            add(f"return None instead of {ast.unparse(node.value)[:80]}", lambda n: setattr(n, "value", ast.Constant(None)))
        if isinstance(node, ast.With):
            pass
        if isinstance(node, ast.FunctionDef) and node.decorator_list and ast.unparse(node.decorator_list[0]) not in ("property", "staticmethod", "classmethod", "contextmanager"):
            for i in range(len(node.decorator_list)):
                add(f"{node.name}: without @{ast.unparse(node.decorator_list[i])}", lambda n, i=i: n.decorator_list.pop(i))
        for name, field in ast.iter_fields(node):
            if name in ("annotation", "returns", "ctx", "type_comment", "decorator_list"):
                continue
            if isinstance(field, ast.AST):
                walk(field, path + [(name, None)])
            elif isinstance(field, list):
                for i, x in enumerate(field):
                    if isinstance(x, ast.AST) and not isinstance(x, (ast.Import, ast.ImportFrom)):
                        walk(x, path + [(name, i)])

    walk(tree, [])
    return out


def apply(src, path, fn):
    tree = ast.parse(src)
    node, parent = tree, None
    for name, i in path:
        parent = (node, name, i)
        node = getattr(node, name) if i is None else getattr(node, name)[i]
    if isinstance(fn, tuple):
        new = fn[1](node)
        p, name, i = parent
        if i is None:
            setattr(p, name, new)
        else:
            getattr(p, name)[i] = new
    else:
        fn(node)
    return ast.unparse(ast.fix_missing_locations(tree))


def all_mutants(files):
    for f in files:
        src = (SRC / f).read_text()
        base = ast.unparse(ast.parse(src))
        seen = {base}
        for line, desc, path, fn in mutants(ast.parse(src)):
            try:
                new = apply(src, path, fn)
                compile(new, f, "exec")
            except Exception:
                continue
            if new in seen:
                continue
            seen.add(new)
            yield f, line, desc, new


def tests(copy_):
    p = subprocess.Popen([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], cwd=copy_, env={**os.environ, "PYTHONPATH": str(copy_ / "src"), "PATH": "/opt/venv/bin:" + os.environ["PATH"], "PYTHONDONTWRITEBYTECODE": "1"},
                         stdout=subprocess.DEVNULL, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        return p.wait(timeout=25) == 0
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass


def main():
    args = sys.argv[2:]
    out = None
    again = None
    if sys.argv[1] in ("run", "again"):
        out = Path(args.pop(0))
    if sys.argv[1] == "again":
        again = {(j["file"], j["line"], j["desc"]) for j in map(json.loads, Path(args.pop(0)).read_text().splitlines()) if j["result"] == "survived"}
    jobs, limit = 4, 3.0
    while args and args[0] in ("-j", "-t"):
        k, v = args.pop(0), args.pop(0)
        if k == "-j":
            jobs = int(v)
        else:
            limit = float(v)
    files = args or list(CHECKS)
    todo = list(all_mutants(files))
    if sys.argv[1] == "list":
        for f in files:
            print(sum(1 for t in todo if t[0] == f), f)
        print(len(todo))
        return
    done = set()
    if out.exists():
        for l in out.read_text().splitlines():
            j = json.loads(l)
            done.add((j["file"], j["line"], j["desc"]))
    todo = [t for t in todo if t[:3] not in done and (again is None or t[:3] in again)]
    root = Path("/tmp/mut")
    root.mkdir(exist_ok=True)
    import queue

    pool = queue.Queue()
    for k in range(jobs):
        c = root / f"c{k}"
        if c.exists():
            shutil.rmtree(c)
        shutil.copytree(REPO, c, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        pool.put((k, c))
    fh = open(out, "a")

    def one(t):
        f, line, desc, new = t
        k, c = pool.get()
        rec = {"file": f, "line": line, "desc": desc}
        t0 = time.time()
        try:
            target = c / "src" / f
            target.write_text(new)
            try:
                ok = tests(c)
            except subprocess.TimeoutExpired:
                ok = False
            rec["result"] = "tests" if not ok else "survived"
            if ok:
                for chk in CHECKS[f].split():
                    env = {**os.environ, "MC_REPO": str(c), "MC_SPACE_SECONDS": str(limit), "PYTHONDONTWRITEBYTECODE": "1"}
                    r = subprocess.run(["taskset", "-c", str(k % os.cpu_count()), PY, str(VERIF / "run.py"), chk], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    if r.returncode == 1:
                        rec["result"] = "caught"
                        rec["by"] = chk
                        break
                    if r.returncode not in (0,):
                        rec.setdefault("odd", []).append((chk, r.returncode, r.stdout.decode("utf-8", "replace")[-300:]))
        finally:
            shutil.copy(SRC / f, c / "src" / f)
            rec["s"] = round(time.time() - t0, 1)
            fh.write(json.dumps(rec) + "\n")
            fh.flush()
            pool.put((k, c))

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, todo))
    shutil.rmtree(root)


main()
