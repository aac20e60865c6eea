"""C02: cache identity completeness (dependence analysis through injective operations only)."""
import ast
import fnmatch
import os

from ..absint import AnalysisError, HDict, HInst, HSeq, Out, State
from ..query import strip
from ..terms import C, FALSE, NONE, TRUE, Sym, is_const, show, subterms
from .cache import CLS, FAKE, P, interp
from .cachebuild import FP, PIPELINES, fp_hook

INJECTIVE = {".encode", ".decode", "str", "repr", "json.dumps", "bytes", ".as_posix", "os.fspath", ".items"}
HASHES = {"sha256", "sha384", "sha512", "blake2b", "sha3_256", "sha3_512"}


def carried(st, t, seen=None):
    """Leaves whose value is determined by t: t is traversed through injective operations only."""
    seen = set() if seen is None else seen
    if not isinstance(t, Sym) or t in seen:
        return seen
    rec = st.heap.get(t)
    if isinstance(rec, HDict):
        seen.add(t)
        if rec.exact:
            for k, v in rec.items.items():
                carried(st, k, seen)
                carried(st, v, seen)
        return seen
    if isinstance(rec, HSeq):
        seen.add(t)
        if rec.exact and not rec.kind.startswith("hash:"):
            for v in rec.items:
                carried(st, v, seen)
        return seen
    u = strip(t)
    if u is not t:
        return carried(st, u, seen)
    if t.op in ("div", "tuple", "dict", "frozendict", "list"):
        seen.add(t)
        for a in t.args:
            for x in a if isinstance(a, tuple) else (a, ):
                carried(st, x, seen)
        return seen
    if t.op == "concat":
        seen.add(t)
        parts, free = list(t.args), False
        # two neighbouring variable parts of unknown length make a concatenation ambiguous
        for a, b in zip(parts, parts[1:]):
            if not is_const(a) and not is_const(b) and not fixed(a) and not fixed(b):
                free = True
        if not free:
            for a in parts:
                carried(st, a, seen)
        return seen
    if t.op == "call":
        n = t.args[0]
        if n in (".hexdigest", ".digest") and len(t.args) >= 2 and is_const(t.args[1]) and t.args[1].args[0] in HASHES:
            seen.add(t)
            for a in t.args[2:]:
                carried(st, a, seen)
            return seen
        if n in ("sorted", "tuple", "list") and len(t.args) > 1 and isinstance(t.args[1], Sym) and t.args[1].op == "call" and t.args[1].args[0] == ".items":
            seen.add(t)
            return carried(st, t.args[1], seen)
        if n in ("str", "repr", "format") and len(t.args) == 2 or n in INJECTIVE:
            seen.add(t)
            if n == "json.dumps" and any(a.op == "kw" and a.args[0] == "skipkeys" and a.args[1] is not FALSE for a in t.args[1:] if isinstance(a, Sym)):
                return seen
            for a in t.args[1:]:
                if isinstance(a, Sym) and a.op != "kw":
                    carried(st, a, seen)
            return seen
    seen.add(t)
    return seen


def fixed(t):
    return t.op == "call" and t.args[0] in (".hexdigest", ".digest", ".to_bytes")


# ------------------------------------------------------------------ the key

def key_rules(ck):
    I = interp(ck, exceptions=False)
    mod = I.repo.find("tn.cache")
    abi = []
    for n in ("BUILDER_ABI_VERSION", "CACHE_FORMAT_VERSION"):
        if n in mod.bind:
            I.static[("tn.cache", n)] = (P(n), {})
            abi.append(P(n))
    args = ["cache_root", "prefix", "ordertype", "cache_config", "source_fingerprint"]
    outs = [o for o in I.run(CLS, [P(a) for a in args]) if o.k == "v"]
    if not outs:
        raise AnalysisError("CacheBundle cannot be constructed")
    pyver = Sym("ext", "sys.version_info")
    for o in outs:
        st, at = o.st, o.st.heap[o.v].attrs
        for attr in ("path", "lock_path"):
            if attr not in at:
                raise AnalysisError("anchor lost: CacheBundle.%s" % attr)
            got = carried(st, at[attr])
            for a in args:
                ck.ob("key-input", "%s<-%s" % (attr, a), any(a_reaches(x, a) for x in got),
                      "CacheBundle.%s does not determine %s: two different values can share an entry" % (attr, a))
            for b in abi:
                ck.ob("key-builder", "%s<-%s" % (attr, b.args[0]), b in got, "CacheBundle.%s does not depend on %s" % (attr, b.args[0]))
            for what, test in (("Pynini version", lambda x: "pynini" in show(x, 6) and "__version__" in show(x, 6)),
                               ("Python major version", lambda x: python_version(x, 0)), ("Python minor version", lambda x: python_version(x, 1))):
                ck.ob("key-builder", "%s<-%s" % (attr, what), any(test(x) for x in got), "CacheBundle.%s does not depend on the %s" % (attr, what))
    ck.interp(I)
    # build_fst hands its own arguments to the bundle
    I = interp(ck, exceptions=False)
    I.cfg.models = {FP: fp_hook}
    grabbed = []

    def ctor(I, args, kw, st, node):
        fi = I.funcs[I.find_member(I.cls(CLS), "__init__")]
        names = [a.arg for a in fi.node.args.args[1:]]
        got = dict(zip(names, args[1:]))
        got.update(kw)
        grabbed.append((got, st.clone()))
        return None
    I.cfg.models["fn:tn.cache:CacheBundle.__init__"] = ctor
    for m in ("load", "lock", "recover_residuals", "remove_invalid", "publish"):
        I.cfg.models["fn:tn.cache:CacheBundle." + m] = lambda I, a, k, st, node: [Out("v", st, Sym("call", "bundle", a[0]))]
    c = I.cls(PIPELINES[0])
    for m in ("build_tagger_and_verbalizer", "build_tagger", "build_verbalizer"):
        f = I.find_member(c, m)
        if f is not None:
            I.cfg.models["fn:" + I.funcs[f].qual] = lambda I, a, k, st, node: [Out("v", st, NONE)]
    st = State()
    ref = Sym("ref", "driver:processor", 0)
    st.heap[ref] = HInst(c, {"name": P("name"), "ordertype": P("ordertype"), "tagger": P("tagger"), "verbalizer": P("verbalizer")})
    I.call_func(I.find_member(c, "build_fst"), [ref, P("prefix"), P("cache_dir"), P("overwrite_cache"), P("cache_config")], {}, st, FAKE)
    if not grabbed:
        raise AnalysisError("anchor lost: build_fst constructs no CacheBundle")
    for got, st in grabbed:
        for a in ("prefix", "ordertype"):
            ck.ob("key-passed", "build_fst:%s" % a, P(a) in carried(st, got.get(a, NONE)), "build_fst passes %s as the bundle's %s" % (show(got.get(a, NONE), 3), a))
        cc = got.get("cache_config", NONE)
        unset = st.facts.get(Sym("cmp", "is", *sorted((P("cache_config"), NONE), key=repr))) is True or st.facts.get(P("cache_config")) is False
        ck.ob("key-passed", "build_fst:cache_config", unset or P("cache_config") in carried(st, cc), "build_fst passes %s as the bundle's cache_config" % show(cc, 3))
        fp = got.get("source_fingerprint", NONE)
        ck.ob("key-passed", "build_fst:source_fingerprint", any(x.op == "res" and x.args[0] == "FINGERPRINT" for x in carried(st, fp)),
              "build_fst passes %s as the source fingerprint" % show(fp, 3))
    ck.interp(I)


def a_reaches(x, a):
    if x is P(a):
        return True
    # the root directory may be normalised on its way into the path
    return a == "cache_root" and P(a) in set(subterms(x))


def python_version(x, i):
    s = show(x, 6)
    if "version_info" in s:
        return x.op in ("sub", "attr") and (x.args[1] is C(i) or x.args[1] == ("major", "minor")[i]) or x.op == "ext" or x.op == "slice"
    return any(n in s for n in ("platform.python_version", "sys.hexversion", "sys.version", "python_version_tuple"))


# ------------------------------------------------------------------ the pipelines

def leaves(I, st, t):
    """Everything run-time dependent a value is computed from."""
    out = set()
    for x in I.reach(st, [t]):
        if x.op in ("param", "res", "gvar") or x.op == "ext" and not x.args[0].startswith(("builtins.", "pynini", ".")):
            out.add(x)
        elif x.op == "call" and x.args and isinstance(x.args[0], str) and x.args[0].split(".")[0] in ("os", "platform", "sys", "time", "random", "socket", "locale"):
            out.add(x)
    return out


def pipelines(ck):
    prefixes = {}
    for cls in PIPELINES:
        I = interp(ck, exceptions=False)
        grabbed = []

        def hook(I, args, kw, st, node, grabbed=grabbed):
            fi = I.funcs[I.find_member(I.cls("tn.processor:Processor"), "build_fst")]
            names = [a.arg for a in fi.node.args.args]
            got = dict(zip(names, args))
            got.update(kw)
            grabbed.append((got, st.clone()))
            return [Out("v", st, NONE)]
        I.cfg.models = {"fn:tn.processor:Processor.build_fst": hook}
        # the generic graphs every processor carries do not depend on options
        c = I.cls(cls)
        init = I.find_member(c, "__init__")
        fi = I.funcs[init]
        a = fi.node.args
        params = [x.arg for x in a.args[1:]] + [x.arg for x in a.kwonlyargs]
        base = base_attrs(ck, cls)
        outs = I.run(cls, [], {p: P(p) for p in params})
        short = cls.split(":")[0]
        if not grabbed:
            raise AnalysisError("anchor lost: %s does not call build_fst" % cls)
        for got, st in grabbed:
            pre = got.get("prefix")
            ck.ob("prefix", short, pre is not None and is_const(pre), "the cache name of %s is not a constant" % short)
            if pre is not None and is_const(pre):
                for other, sh in prefixes.items():
                    if other == pre.args[0] and sh != short:
                        ck.ob("prefix", short + ":distinct", False, "%s and %s share the cache name %r" % (short, sh, other))
                prefixes[pre.args[0]] = short
                ck.ob("prefix", short + ":distinct", True)
            for p in ("cache_dir", "overwrite_cache"):
                ck.ob("forwarded", "%s:%s" % (short, p), strip(got.get(p, NONE)) is P(p), "%s is not handed to build_fst" % p)
            cfg = got.get("cache_config", NONE)
            rec = st.heap.get(cfg)
            items = {}
            if isinstance(rec, HDict) and rec.exact:
                items = {k.args[0]: v for k, v in rec.items.items() if is_const(k)}
            elif cfg is not NONE:
                ck.ob("option", short + ":config", False, "the cache configuration of %s is not a mapping with known keys" % short)
            self_ref = got.get("self")
            attrs = st.heap[self_ref].attrs
            used = set()
            for name, v in attrs.items():
                if name in base and name not in ("ordertype", ) and not (set(leaves(I, st, v)) & {P(p) for p in params}):
                    continue
                for x in leaves(I, st, v):
                    used.add((name, x))
            det = set()
            for v in items.values():
                det |= carried(st, v)
            ot = set(leaves(I, st, attrs.get("ordertype", NONE)))
            for name, x in sorted(used, key=repr):
                if x in (P("cache_dir"), P("overwrite_cache")) or x in ot:
                    continue
                if x.op == "param":
                    own = items.get(x.args[0])
                    ck.ob("option", "%s:%s" % (short, x.args[0]), own is not None and same_value(own, x),
                          "constructor option %s is stored in self.%s but %s" % (x.args[0], name, "is not in the cache configuration" if own is None else
                                                                                "the cache configuration records %s under that name" % show(own, 3)))
                else:
                    ck.ob("option", "%s:self.%s" % (short, name), x in det, "self.%s depends on %s, which is not part of the cache key" % (name, show(x, 3)))
            for k, v in items.items():
                if k in params:
                    ck.ob("option", "%s:key-%s" % (short, k), same_value(v, P(k)), "the cache configuration records %s under the name %s" % (show(v, 3), k))
        ck.interp(I)
    ck.note("pipelines", len(PIPELINES))


_BASE = {}


def base_attrs(ck, cls):
    if not _BASE:
        I = interp(ck, exceptions=False)
        outs = [o for o in I.run("tn.processor:Processor", [P("name"), P("ordertype"), P("token_orders")]) if o.k == "v"]
        _BASE["a"] = set(outs[0].st.heap[outs[0].v].attrs)
    return _BASE["a"]


def same_value(t, p):
    """The value of option p itself, possibly coerced to bool."""
    t = strip(t)
    return t is p or t.op == "call" and t.args[0] == "bool" and t.args[1] is p or t.op == "not" and t.args[0].op == "not" and t.args[0].args[0] is p


# ------------------------------------------------------------------ the builder

IMPURE = ("os.environ", "os.getenv", "os.getcwd", "os.name", "os.uname", "sys.platform", "sys.argv", "time.", "datetime.", "random.", "uuid.", "secrets.", "socket.",
          "locale.", "platform.", "getpass.", "tempfile.", "urllib.", "requests.", "subprocess.")


def closure(repo, roots):
    """Modules imported (transitively, anywhere in their code) by the pipeline modules."""
    seen, todo = {}, list(roots)
    while todo:
        n = todo.pop()
        m = repo.find(n)
        if m is None or n in seen:
            continue
        seen[n] = m
        parts = n.split(".")
        for i in range(1, len(parts)):
            todo.append(".".join(parts[:i]))
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Import):
                todo.extend(a.name for a in x.names)
            elif isinstance(x, ast.ImportFrom):
                base = x.module or ""
                if x.level:
                    pp = parts if m.is_pkg else parts[:-1]
                    pp = pp[:len(pp) - (x.level - 1)]
                    base = ".".join(pp + ([base] if base else []))
                todo.append(base)
                todo.extend(base + "." + a.name for a in x.names)
    return seen


def grammar_modules(ck, repo):
    mods = closure(repo, [p.split(":")[0] for p in PIPELINES])
    used = set()
    for n, m in mods.items():
        if not m.is_pkg:
            used |= {n}
            for x in ast.walk(m.tree):
                if isinstance(x, ast.ImportFrom) and not x.level and x.module:
                    used.add(x.module)
                    used |= {x.module + "." + a.name for a in x.names}
    return {n: m for n, m in mods.items() if os.path.isfile(m.path)}, used


def dotted(node, mod):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if not isinstance(node, ast.Name):
        return None
    b = mod.bind.get(node.id)
    if b is None:
        return None
    if b[0] == "mod":
        return ".".join([b[1]] + parts[::-1])
    if b[0] == "from":
        return ".".join([b[1], b[2]] + parts[::-1])
    return None


def purity(ck, mods):
    n = 0
    for name, m in sorted(mods.items()):
        if name in ("tn.cache", "tn.processor", "tn._version"):
            continue
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.Attribute, ast.Name)):
                d = dotted(x, m)
                if d is None:
                    continue
                n += 1
                ck.ob("pure-builder", "%s:%s" % (name, d), not any(d == i or d.startswith(i if i.endswith(".") else i + ".") for i in IMPURE),
                      "grammar module %s reads %s, which is not part of the cache key" % (name, d))
    ck.note("external_references_in_grammar_modules", n)


# ------------------------------------------------------------------ the fingerprint

def resources(ck, mods):
    """Data files named by a string constant of a grammar module."""
    consts = set()
    for m in mods.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Constant) and isinstance(x.value, str) and "." in x.value and len(x.value) < 200:
                consts.add(x.value.lstrip("./"))
    out = []
    for pkg in ("tn", "itn"):
        for d, ds, fs in os.walk(os.path.join(ck.repo, pkg)):
            ds[:] = sorted(x for x in ds if x != "__pycache__" and x != "test")
            for f in sorted(fs):
                if f.endswith((".py", ".pyc", ".md")):
                    continue
                rel = os.path.relpath(os.path.join(d, f), ck.repo).replace(os.sep, "/")
                if any(rel == c or rel.endswith("/" + c) for c in consts):
                    out.append(rel)
    return out


class FileModel:
    """A source tree with exactly one file (and the directories above it)."""

    def __init__(self, root, rel):
        self.root, self.rel, self.file = root, rel, os.path.join(root, rel)

    def path(self, t):
        t = strip(t)
        if t.op == "path":
            return os.path.normpath(t.args[0])
        if is_const(t) and isinstance(t.args[0], str):
            return os.path.normpath(t.args[0])
        return None

    def seq(self, I, st, node, items):
        return [Out("v", st, I.alloc(st, node, HSeq("list", tuple(items), True)))]

    def below(self, p):
        return self.file.startswith(p + os.sep)

    def child(self, p):
        return os.path.join(p, self.file[len(p) + 1:].split(os.sep)[0])

    def hook(self, I, name, args, kw, st, node):
        n = name[9:] if name.startswith("builtins.") else name
        p = self.path(args[0]) if args else None
        if p is None:
            if n == "sorted" or n == ".sort":
                return None
            return None
        inside = self.below(p)
        if n in (".rglob", ".glob", "glob.glob", "glob.iglob", ".walk", "os.walk", ".iterdir", "os.listdir", "os.scandir"):
            chain = []
            q = p
            while inside and q != self.file:
                q = self.child(q)
                chain.append(q)
            if n in (".rglob", ".glob"):
                pat = args[1].args[0] if len(args) > 1 and is_const(args[1]) else None
                if pat is None:
                    return None
                got = []
                for c in chain:
                    rel = c[len(p) + 1:]
                    if n == ".rglob":
                        ok = fnmatch.fnmatchcase(os.path.basename(c), pat) if "/" not in pat else fnmatch.fnmatchcase(rel, "*" + pat)
                    elif pat.startswith("**/"):
                        ok = fnmatch.fnmatchcase(os.path.basename(c), pat[3:])
                    else:
                        ok = fnmatch.fnmatchcase(rel, pat) and rel.count("/") == pat.count("/")
                    if ok:
                        got.append(Sym("path", c))
                return self.seq(I, st, node, got)
            if n in ("glob.glob", "glob.iglob"):
                return None
            if n in (".walk", "os.walk"):
                dirs = [p] + chain[:-1] if inside else []
                out = []
                for d in dirs:
                    c = self.child(d)
                    isf = c == self.file
                    lists = []
                    for names in ([] if isf else [os.path.basename(c)], [os.path.basename(c)] if isf else []):
                        lists.append(I.alloc(st, node, HSeq("list", tuple(C(x) for x in names), True)))
                    out.append(Sym("tuple", Sym("path", d) if n == ".walk" else C(d), *lists))
                return self.seq(I, st, node, out)
            if n == ".iterdir":
                return self.seq(I, st, node, [Sym("path", chain[0])] if chain else [])
            if n == "os.listdir":
                return self.seq(I, st, node, [C(os.path.basename(chain[0]))] if chain else [])
            return None
        if n in (".is_file", "os.path.isfile"):
            return [Out("v", st, C(p == self.file))]
        if n in (".is_dir", "os.path.isdir"):
            return [Out("v", st, C(inside))]
        if n in (".exists", "os.path.exists"):
            return [Out("v", st, C(p == self.file or inside))]
        if n in (".is_symlink", "os.path.islink"):
            return [Out("v", st, FALSE)]
        if n == ".relative_to" and len(args) == 2:
            q = self.path(args[1])
            if q is not None and (p + os.sep).startswith(q + os.sep):
                return [Out("v", st, Sym("path", os.path.relpath(p, q)))]
        if n in (".as_posix", "os.fspath", "str") and strip(args[0]).op == "path":
            return [Out("v", st, C(p))]
        if n == ".with_suffix" and is_const(args[1]):
            return [Out("v", st, Sym("path", os.path.splitext(p)[0] + args[1].args[0]))]
        if n == ".match" and is_const(args[1]):
            return [Out("v", st, C(fnmatch.fnmatchcase(os.path.basename(p), args[1].args[0])))]
        if n == "os.path.relpath" and len(args) == 2 and self.path(args[1]):
            return [Out("v", st, C(os.path.relpath(p, self.path(args[1]))))]
        if n == "os.path.splitext":
            return [Out("v", st, Sym("tuple", *[C(x) for x in os.path.splitext(p)]))]
        if n == "os.path.basename":
            return [Out("v", st, C(os.path.basename(p)))]
        return None


READ = {".read", ".read_bytes", ".readall", ".readline", ".readinto", "os.read", ".read1"}


def empty(st, r):
    for f, b in st.facts.items():
        if f is r and b is False:
            return True
        if f.op == "cmp" and f.args[0] == "==" and b and r in f.args[1:] and any(is_const(x) and x.args[0] in (b"", "") for x in f.args[1:]):
            return True
        if f.op == "cmp" and f.args[0] == "==" and b and any(x.op == "call" and x.args[0] == "len" and x.args[1] is r for x in f.args[1:]) and C(0) in f.args[1:]:
            return True
    return False


def fingerprint_one(ck, rel, names):
    fm = FileModel(ck.repo, rel)
    I = interp(ck, lambda n: n in READ or n in ("open", "io.open", ".open", "os.open", "hashlib.file_digest", ".readinto"), exceptions=False)
    I.cfg.models = {"*": lambda I, name, args, kw, st, node: fm.hook(I, name, args, kw, st, node)}
    outs = [o for o in I.run("tn.cache:production_source_fingerprint", []) if o.k == "v"]
    n = 0
    bad = None
    for o in outs:
        st = o.st
        opened = {}
        for e in st.events:
            if e.name in ("open", "io.open", ".open", "os.open") and e.args and fm.path(e.args[0]) == fm.file:
                opened[e.res] = e
        reads = [e for e in st.events if e.name in READ and e.args and (strip(e.args[0]) in opened or fm.path(e.args[0]) == fm.file)]
        got = carried(st, o.v)
        if any(x.op in ("res", "call") and x.args[0] in ("hashlib.file_digest", ".hexdigest", ".digest") and any(y in opened for y in subterms(x)) for x in got):
            n += 1
            continue
        if not reads:
            bad = "is never read into the fingerprint"
            break
        whole = False
        for e in reads:
            sized = len(e.args) > 1 and not (is_const(e.args[1]) and e.args[1].args[0] in (-1, None)) and e.name in (".read", "os.read", ".read1")
            if e.res not in got and not empty(st, e.res):
                bad = "has content that does not reach the digest"
            if not sized and e.name in (".read", ".read_bytes", ".readall"):
                whole = True
            if sized and empty(st, e.res):
                whole = True
        if bad is None and not whole:
            bad = "is not read up to its end"
        text = "".join(x.args[0] if isinstance(x.args[0], str) else x.args[0].decode("utf-8", "replace") for x in got if is_const(x) and isinstance(x.args[0], (str, bytes)))
        if bad is None and rel not in text.replace(os.sep, "/"):
            bad = "does not contribute its relative path"
        if bad:
            break
        n += 1
    ck.ob("fingerprint", rel, bad is None and n > 0, "%s %s" % (rel, bad or "is never fingerprinted"))
    return I, outs


def c02(ck):
    ck.rule("key-input", "the entry's path (and lock path) determines each of root, prefix, order type, configuration and source fingerprint through injective operations "
            "only (path join, separated concatenation, canonical JSON, full-length SHA-2 digests)")
    ck.rule("key-builder", "it also determines the builder and format versions and the Python and Pynini versions")
    ck.rule("key-passed", "build_fst passes its prefix, order type, configuration and a fresh fingerprint to the bundle")
    ck.rule("prefix", "each pipeline passes a constant cache name of its own")
    ck.rule("forwarded", "each pipeline forwards cache_dir and overwrite_cache")
    ck.rule("option", "every run-time value a pipeline stores on itself before building is, unmodified and under its own name, in the cache configuration")
    ck.rule("pure-builder", "grammar modules read no environment, clock, platform or random source")
    ck.rule("fingerprint", "each grammar source and each data file a grammar names is read to its end into the fingerprint together with its relative path (file by file, in a "
            "symbolic tree that holds just that file)")
    ck.rule("refreshed", "taking the fingerprint a second time in one process reads the sources again (no memoisation)")
    ck.rule("framed", "the bytes digested for one file are delimited: their length or their own digest is part of the fingerprint")
    key_rules(ck)
    pipelines(ck)
    from ..absint import Repo
    repo = interp(ck).repo
    mods, used = grammar_modules(ck, repo)
    purity(ck, mods)
    files = [os.path.relpath(m.path, ck.repo) for n, m in sorted(mods.items()) if not (n.endswith("_version") and constant_only(m))]
    data = resources(ck, mods)
    if len(files) < 40 or len(data) < 40:
        raise AnalysisError("anchor lost: only %d grammar modules and %d data files found" % (len(files), len(data)))
    ck.note("grammar_modules", len(files))
    ck.note("data_files", len(data))
    for rel in files + data:
        I, outs = fingerprint_one(ck, rel, None)
    ck.interp(I)
    refreshed(ck, files[0])
    framing(ck, outs)
    for r in ck.rules:
        ck.floor(r, 1)


def constant_only(m):
    """A module that only binds version strings."""
    return all(isinstance(s, (ast.Expr, ast.Import, ast.ImportFrom, ast.If, ast.Assign, ast.AnnAssign, ast.Try)) for s in m.tree.body)


def refreshed(ck, rel):
    """A second fingerprint in the same process reads the sources again."""
    fm = FileModel(ck.repo, rel)
    I = interp(ck, lambda n: n in READ or n in ("open", "io.open", ".open", "os.open", "hashlib.file_digest"), exceptions=False)
    I.cfg.models = {"*": lambda I, name, args, kw, st, node: fm.hook(I, name, args, kw, st, node)}
    c = I.cls(PIPELINES[0])
    m = I.find_member(c, "_source_fingerprint")
    if m is None:
        raise AnalysisError("anchor lost: Processor._source_fingerprint")
    args = [P("prefix")]
    if "staticmethod" not in I.decorators(I.funcs[m]):
        st0 = State()
        ref = Sym("ref", "driver:processor", 0)
        st0.heap[ref] = HInst(c, {"name": P("name")})
        args = [ref] + args
    else:
        st0 = State()
    n = 0
    for o in I.call_func(m, args, {}, st0, FAKE):
        if o.k != "v":
            continue
        before = len(o.st.events)
        for o2 in I.call_func(m, args, {}, o.st, FAKE):
            if o2.k == "v":
                n += 1
                ck.ob("refreshed", "Processor._source_fingerprint", any(e.name in READ or e.name in ("open", "os.open", "io.open", ".open") for e in o2.st.events[before:]),
                      "a second fingerprint in the same process does not read the sources again")
    if not n:
        raise AnalysisError("anchor lost: _source_fingerprint has no normal outcome")


def framing(ck, outs):
    for o in outs:
        got = carried(o.st, o.v)
        reads = [x for x in got if x.op == "res" and x.args[0] in READ]
        for r in reads:
            inner = any(x.op == "call" and x.args[0] in (".digest", ".hexdigest") and x is not o.v and r in carried(o.st, x) for x in got)
            length = any(x.op == "call" and x.args[0] in (".to_bytes", "str", "len", "format") and any(
                y.op == "call" and y.args[0] == "len" or y.op == "attr" and y.args[1] == "st_size" or y.op == "sum" for y in subterms(x)) for x in got)
            ck.ob("framed", "production_source_fingerprint", inner or length,
                  "file contents are digested back to back: two different source trees can produce the same byte stream")
