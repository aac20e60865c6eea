"""D01: every resource a grammar names exists, ships, decodes and is read whole; grammars stay within their own package and language."""
import ast
import csv
import fnmatch
import io
import os
import re
import tomllib

from ..absint import AnalysisError, Repo
from ..grammar import extract
from ..terms import is_const, show
from .wirecheck import chosen, label, spread, variants


class Every:
    """All option combinations, whatever the tier."""

    def __init__(self, ck):
        self.repo, self.thorough = ck.repo, True


def d01_job(repo, pipeline, options):
    g = extract(repo, pipeline, options, interest=lambda n: n in ("fst:file", "fst:open", "fst:rows"))
    out = {}
    for e in g.events:
        a = e.args[0]
        path = a.args[0] if is_const(a) else None
        fn = next((f for f in reversed(e.stack) if ".rules." in f or "normalizer" in f), e.stack[-1] if e.stack else e.site)
        key = path if isinstance(path, str) else "?" + show(a, 3)
        kind = "far" if key.endswith(".far") else {"fst:file": "graph", "fst:open": "open", "fst:rows": "label"}[e.name]
        enc = e.args[2].args[0] if e.name == "fst:open" and len(e.args) > 2 and is_const(e.args[2]) else None
        out.setdefault(key, set()).add((kind, fn, enc))
    mods = sorted(m for m in g.I.repo.modules) if hasattr(g.I.repo, "modules") else []
    return {"files": out, "modules": mods}


def glob_match(rel, pattern):
    """setuptools package-data globs: '*' stays within one directory, '**' spans directories."""
    rx = ""
    for part in re.split(r"(\*\*/?|\*|\?)", pattern):
        rx += {"**/": "(?:.*/)?", "**": ".*", "*": "[^/]*", "?": "[^/]"}.get(part, re.escape(part))
    return re.fullmatch(rx, rel) is not None


def imports(repo, mod, node_filter=None):
    """Modules a module imports anywhere in its text, as (module, line)."""
    m = repo.find(mod)
    if m is None:
        return []
    out = []
    pkg = mod.split(".")[:-1] if not m.path.endswith("__init__.py") else mod.split(".")
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
            out += [(a.name, n.lineno) for a in n.names]
        elif isinstance(n, ast.ImportFrom):
            base = pkg[:len(pkg) - n.level + 1] if n.level else []
            name = ".".join(base + ([n.module] if n.module else []))
            out.append((name, n.lineno))
            out += [(name + "." + a.name, n.lineno) for a in n.names]
        elif isinstance(n, ast.Call) and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr == "import_module" or isinstance(f, ast.Name) and f.id in ("import_module", "__import__"):
                out.append((n.args[0].value, n.lineno))
    return out


def file_obligations(ck, rel, path, kinds, ship):
    ck.ob("exists", rel, os.path.isfile(path), "the file does not exist")
    if not os.path.isfile(path):
        return
    pkg = rel.split("/")[0]
    inner = rel[len(pkg) + 1:]
    ck.ob("ships", rel, any(glob_match(inner, g) for g in ship.get(pkg, [])), "no package-data pattern covers it")
    if kinds == {"far"}:
        return
    raw = open(path, "rb").read()
    try:
        text = raw.decode("utf-8")
    except UnicodeDecodeError as e:
        ck.ob("decodes", rel, False, "not UTF-8 at byte %d" % e.start)
        return
    ck.ob("decodes", rel, not text.startswith("\ufeff"), "starts with a byte order mark, which becomes part of the first key")
    bad = [n for n, l in enumerate(text.split("\n"), 1) if any(ord(c) < 32 and c != "\t" or c == "\x7f" for c in l.removesuffix("\r"))]
    ck.ob("clean", rel, not bad, "control characters on line %s" % bad[:3])
    if "graph" in kinds:
        from ..fstlang import file_rows
        ck.ob("clean", rel + ":ends", "\r" not in text, "carriage returns, which the graph reader keeps as part of the value")
        rs = file_rows(path)
        cut = [n for c, n, t in rs if t and not (text.split("\n")[n - 1].lstrip().startswith("# ") and "\t" not in text.split("\n")[n - 1])]
        ck.ob("whole", rel, not cut, "the graph reader takes '#' on line %s for a comment and drops the rest of the row" % cut[:3])
        wide = [n for c, n, t in rs if len(c) > 3]
        ck.ob("columns", rel, not wide, "more than three columns on line %s" % wide[:3])
        heavy = [n for c, n, t in rs if len(c) == 3 and not number(c[2])]
        ck.ob("columns", rel + ":weight", not heavy, "the third column of line %s is not a number" % heavy[:3])
        blank = [n for c, n, t in rs if not any(c[:2])]
        ck.ob("columns", rel + ":rows", not blank, "empty row on line %s" % blank[:3])
    if "label" in kinds and "\t" in text:
        got = [r for r in csv.reader(io.StringIO(text, newline=None), delimiter="\t")]
        want = [l.removesuffix("\r").split("\t") if l.removesuffix("\r") else [] for l in text.removesuffix("\n").split("\n")]
        ck.ob("whole", rel + ":labels", got == want, "a quote at the start of a cell makes the label reader join or alter rows")
        short = sorted({len(r) for r in got})
        ck.ob("columns", rel + ":labels", 0 not in short and (1 not in short or short == [1]), "rows without a key or without a value")


def number(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


def d01(ck):
    ck.rule("exists", "every file a grammar builder names, under every option combination, is a file of the repository")
    ck.rule("ships", "every such file matches a package-data pattern, and every module the builders import lies in packages the build finds")
    ck.rule("decodes", "every label file is UTF-8 without a byte order mark, and is opened as UTF-8")
    ck.rule("clean", "label files hold no control characters besides tabs and line ends")
    ck.rule("whole", "the reader that opens a label file reads every row whole: no cell is lost to the comment sign or to quoting")
    ck.rule("columns", "rows have the columns their reader takes, the weight column holds numbers, no row is empty")
    ck.rule("own", "a pipeline reads resources of its own package and language only")
    ck.rule("direction", "no module the text-normalization grammars import, directly or through others, belongs to the inverse package")
    root = os.path.realpath(ck.repo)
    with open(os.path.join(ck.repo, "pyproject.toml"), "rb") as f:
        conf = tomllib.load(f)
    st = conf.get("tool", {}).get("setuptools", {})
    ship = st.get("package-data", {})
    find = st.get("packages", {}).get("find", {}) if isinstance(st.get("packages"), dict) else {}
    files, opened = {}, {}
    n = 0
    for (_, p, opts), r in spread(d01_job, [(ck.repo, p, o) for p, o in variants(Every(ck))]):
        n += 1
        at = label(p)
        for key, uses in r["files"].items():
            for kind, fn, enc in uses:
                opened.setdefault((at, key), set()).add(fn)
                files.setdefault(key, set()).add(kind)
                if kind == "open":
                    rel = os.path.relpath(os.path.realpath(key), root)
                    ck.ob("decodes", "%s:%s" % (fn, rel), isinstance(enc, str) and enc.lower().replace("_", "-") in ("utf-8", "utf8"),
                          "opened without naming UTF-8: the encoding depends on the machine")
    ck.note("pipelines_and_options", n)
    for key, kinds in sorted(files.items()):
        if key.startswith("?"):
            raise AnalysisError("a resource path is not a constant: %s" % key)
        rel = os.path.relpath(os.path.realpath(key), root)
        file_obligations(ck, rel, os.path.realpath(key), kinds, ship)
    for (at, key), fns in sorted(opened.items()):
        rel = os.path.relpath(os.path.realpath(key), root)
        ck.ob("own", "%s:%s" % (at, rel), rel.startswith(at + "/"), "read while building %s (%s)" % (at, sorted(fns)[0]))
    modules(ck, find)
    ck.note("resources", len(files))
    ck.floor("exists", 120)
    ck.floor("own", 120)
    ck.floor("direction", 40)


def modules(ck, find):
    from .cachebuild import PIPELINES
    repo = Repo(ck.repo)
    include = find.get("include", ["*"])
    exclude = find.get("exclude", [])
    for p in PIPELINES:
        start = p.split(":")[0]
        seen, todo = {start: None}, [start]
        while todo:
            m = todo.pop()
            for d, line in imports(repo, m):
                if d.split(".")[0] in ("tn", "itn") and d not in seen and repo.find(d) is not None:
                    seen[d] = m
                    todo.append(d)
        for m in sorted(seen):
            if start.startswith("tn."):
                ck.ob("direction", m, not m.split(".")[0] == "itn", "imported (through %s) by %s" % (seen[m], start))
            lang = m.split(".")
            if len(lang) > 2 and lang[1] in ("chinese", "english", "japanese"):
                ck.ob("own", "%s:%s" % (label(p), m), lang[:2] == start.split(".")[:2] or cross_ok(lang, start),
                      "a module of another language or direction is imported (through %s)" % seen[m])
            path = repo.find(m).path
            parts = os.path.relpath(path, ck.repo).split("/")[:-1]
            ok = True
            for i in range(1, len(parts) + 1):
                if not os.path.isfile(os.path.join(ck.repo, *parts[:i], "__init__.py")) and find.get("namespaces", True) is False:
                    ok = False
            pk = ".".join(parts)
            ok = ok and any(fnmatch.fnmatchcase(pk, g) for g in include) and not any(fnmatch.fnmatchcase(pk, g) for g in exclude)
            ck.ob("ships", m, ok, "the package %s is not part of the built distribution" % pk)


def cross_ok(lang, start):
    return False
