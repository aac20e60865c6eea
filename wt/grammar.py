"""Extraction: a pipeline's graphs as closed algebraic expressions, read off the source by abstract interpretation.

The grammar-building code is interpreted (never run): constants fold, data tables are read as the constants they are,
every graph operation becomes an expression node, every in-place operation an event. Options are given as constants.
"""
import ast
import csv
import io
import operator
import os
import sys
import unicodedata

from .absint import AnalysisError, Config, HDict, HFrame, HInst, HSeq, Out, State
from .fstmodel import F, FstInterp, HFst
from .terms import C, FALSE, NONE, TRUE, Sym, is_const, show

# pure functions of constants that may be folded over a constant range
PURE = {"builtins.chr": chr, "builtins.ord": ord, "builtins.len": len, "builtins.str": str, "builtins.int": int, "builtins.hex": hex,
        "builtins.any": any, "builtins.all": all, "builtins.bool": bool, "builtins.abs": abs, "builtins.min": min, "builtins.max": max,
        "unicodedata.category": unicodedata.category, "unicodedata.name": unicodedata.name, "unicodedata.normalize": unicodedata.normalize,
        "unicodedata.east_asian_width": unicodedata.east_asian_width, "unicodedata.combining": unicodedata.combining}
PURE_METHODS = {"startswith", "endswith", "lower", "upper", "isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower", "isnumeric",
                "isdecimal", "isprintable", "strip", "encode", "title", "swapcase", "isidentifier", "isascii"}
FOLDABLE = (ast.Name, ast.Constant, ast.Call, ast.Attribute, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.BinOp, ast.Load, ast.Store, ast.And, ast.Or,
            ast.Not, ast.operator, ast.cmpop, ast.unaryop, ast.Subscript, ast.Slice, ast.IfExp, ast.Tuple, ast.List, ast.JoinedStr,
            ast.FormattedValue, ast.Set)
LIST_READERS = (".read", ".readlines", ".splitlines")


class Unfoldable(Exception):
    pass


COMPARE = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
           ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b, ast.Is: operator.is_, ast.IsNot: operator.is_not}
BINARY = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mod: operator.mod, ast.FloorDiv: operator.floordiv, ast.Mult: operator.mul,
          ast.BitAnd: operator.and_, ast.BitOr: operator.or_}


def fold_fn(n, var, env):
    """A closed pure expression of one variable, as a function of that variable over constants."""
    F = lambda x: fold_fn(x, var, env)
    if isinstance(n, ast.Constant):
        v = n.value
        return lambda x: v
    if isinstance(n, ast.Name):
        if n.id == var:
            return lambda x: x
        v = env[n.id]
        return lambda x: v
    if isinstance(n, ast.Call) and not n.keywords:
        args = [F(a) for a in n.args]
        if isinstance(n.func, ast.Attribute):
            base, name = F(n.func.value), n.func.attr
            if name in PURE_METHODS:
                return lambda x: getattr(str(base(x)), name)(*[a(x) for a in args])
            return lambda x: getattr(base(x), name)(*[a(x) for a in args]) if base(x) is unicodedata else no_fold()
        fn = env.get(n.func.id) if isinstance(n.func, ast.Name) else None
        if fn not in PURE.values():
            raise Unfoldable
        if len(args) == 1:
            a0 = args[0]
            return lambda x: fn(a0(x))
        return lambda x: fn(*[a(x) for a in args])
    if isinstance(n, ast.Compare):
        first, rest = F(n.left), [(COMPARE[type(o)], F(c)) for o, c in zip(n.ops, n.comparators)]

        def compare(x):
            a = first(x)
            for op, c in rest:
                b = c(x)
                if not op(a, b):
                    return False
                a = b
            return True
        return compare
    if isinstance(n, ast.BoolOp):
        parts = [F(v) for v in n.values]
        if isinstance(n.op, ast.And):
            return lambda x: all(p(x) for p in parts)
        return lambda x: any(p(x) for p in parts)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        a = F(n.operand)
        return lambda x: not a(x)
    if isinstance(n, ast.BinOp) and type(n.op) in BINARY:
        a, b, op = F(n.left), F(n.right), BINARY[type(n.op)]
        return lambda x: op(a(x), b(x))
    if isinstance(n, ast.IfExp):
        t, a, b = F(n.test), F(n.body), F(n.orelse)
        return lambda x: a(x) if t(x) else b(x)
    if isinstance(n, ast.Subscript) and not isinstance(n.slice, ast.Slice):
        a, b = F(n.value), F(n.slice)
        return lambda x: a(x)[b(x)]
    if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
        parts = [F(v) for v in n.elts]
        return lambda x: tuple(p(x) for p in parts)
    raise Unfoldable


def no_fold():
    raise Unfoldable


class GrammarInterp(FstInterp):
    """Graph-building code with module bodies executed in order and package data files read as constants."""

    def __init__(self, root, config=None):
        super().__init__(root, config)
        self.readings = {}     # path -> list of (how, site)

    # -------------------------------------------------------------- module level, in order
    def module_global(self, mod, name, stmt, st):
        g = Sym("gvar", mod.name, name)
        if g not in st.aux:
            self.run_module(mod, st)
        if g not in st.aux:
            return super().module_global(mod, name, stmt, st)
        return st.aux[g]

    def run_module(self, mod, st):
        key = ("module-run", mod.name)
        if key in st.aux:
            return
        st.aux[key] = True
        saved = self.stack, self.frames
        self.stack, self.frames = [], []
        try:
            todo = []
            for s in mod.tree.body:
                if isinstance(s, ast.If) and self.is_main_guard(s.test):
                    continue
                if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass)):
                    continue
                todo.append(s)
            outs = self.block(todo, st, None, mod)
        finally:
            self.stack, self.frames = saved
        ok = [o for o in outs if o.k == "n"]
        if not ok:
            raise AnalysisError("module %s cannot be executed: %s" % (mod.name, [show(o.v) for o in outs if o.v is not None][:2]))
        s = ok[0].st
        if s is not st:
            st.heap, st.facts, st.events, st.occ, st.aux = s.heap, s.facts, s.events, s.occ, s.aux

    @staticmethod
    def is_main_guard(t):
        return any(isinstance(n, ast.Constant) and n.value == "__main__" for n in ast.walk(t))

    def set_var(self, name, v, st, frame, mod):
        if frame is None:
            st.aux[Sym("gvar", mod.name, name)] = v
            return
        super().set_var(name, v, st, frame, mod)

    # -------------------------------------------------------------- constants
    def comp(self, node, elts, kind, st, frame, mod):
        if kind in ("list", "gen") and len(node.generators) == 1:
            g = node.generators[0]
            outs = self.ev(g.iter, st.clone(), frame, mod)
            if len(outs) == 1 and outs[0].k == "v" and is_const(outs[0].v) and isinstance(outs[0].v.args[0], range):
                vals = self.fold(outs[0].v.args[0], g, elts[0], st, frame, mod)
                if vals is not None:
                    return [Out("v", st, self.alloc(st, node, HSeq("list", [C(v) for v in vals], True)))]
        return super().comp(node, elts, kind, st, frame, mod)

    def fold(self, rng, gen, elt, st, frame, mod):
        """A comprehension over a constant range, of a closed pure expression: its list of constants."""
        if not isinstance(gen.target, ast.Name) or gen.is_async:
            return None
        env = {}
        for root in [elt] + gen.ifs:
            for n in ast.walk(root):
                if not isinstance(n, FOLDABLE):
                    return None
                if isinstance(n, ast.Attribute) and n.attr not in PURE_METHODS and n.attr != "category":
                    return None
                if isinstance(n, ast.Name) and n.id != gen.target.id and n.id not in env:
                    v = self.lookup(n.id, st, frame, mod)
                    if v is None:
                        return None
                    if is_const(v):
                        env[n.id] = v.args[0]
                    elif v.op == "ext" and v.args[0] in PURE:
                        env[n.id] = PURE[v.args[0]]
                    elif v.op in ("ext", "mod") and v.args[0] == "unicodedata":
                        env[n.id] = unicodedata
                    else:
                        its = self.items_of(v, st)
                        if its is None or not all(is_const(i) for i in its):
                            return None
                        env[n.id] = frozenset(i.args[0] for i in its) if all(i.args[0].__hash__ for i in its) else [i.args[0] for i in its]
        try:
            f = fold_fn(elt, gen.target.id, env)
            conds = [fold_fn(c, gen.target.id, env) for c in gen.ifs]
            return [f(x) for x in rng if all(c(x) for c in conds)]
        except (Unfoldable, ArithmeticError, LookupError, TypeError, ValueError):
            return None

    # -------------------------------------------------------------- library
    def resource(self, v, st):
        """Absolute path of a data file inside the packages, or None."""
        p = v
        if p.op == "call" and p.args[0] in ("str", "builtins.str", "os.fspath") and len(p.args) == 2:
            p = p.args[1]
        if p.op == "call" and p.args[0] in ("Path", "pathlib.Path") and len(p.args) == 2:
            p = p.args[1]
        if (is_const(p) or p.op == "path" and len(p.args) == 1) and isinstance(p.args[0], str):
            q = os.path.normpath(p.args[0])
            root = os.path.realpath(self.repo.root)
            if os.path.isabs(q) and (q.startswith(root + "/") or q.startswith(self.repo.root.rstrip("/") + "/")) and os.path.isfile(q):
                return q
        return None

    def libcall(self, name, args, kw, st, node):
        if name in ("open", "builtins.open", "io.open") and args:
            p = self.resource(args[0], st)
            if p is not None:
                mode = args[1] if len(args) > 1 else kw.get("mode", C("r"))
                enc = kw.get("encoding", args[3] if len(args) > 3 else NONE)
                self.emit(st, "fst:open", [C(p), mode, enc], {}, None, node)
                return [Out("v", st, Sym("datafile", p, enc.args[0] if is_const(enc) else "?"))]
        if name in (".open", ".read_text") and args and args[0].op in ("path", "call"):
            p = self.resource(args[0], st)
            if p is not None:
                at = 2 if name == ".open" else 0
                enc = kw.get("encoding", args[1 + at] if len(args) > 1 + at else NONE)
                mode = C("r") if name == ".read_text" else args[1] if len(args) > 1 else kw.get("mode", C("r"))
                self.emit(st, "fst:open", [C(p), mode, enc], {}, None, node)
                f = Sym("datafile", p, enc.args[0] if is_const(enc) else "?")
                return [Out("v", st, C(self.text(f)) if name == ".read_text" else f)]
        if name.startswith(".") and args and args[0].op == "datafile":
            text = self.text(args[0])
            if name == ".read":
                return [Out("v", st, C(text))]
            if name in (".readlines", "iter"):
                return [Out("v", st, self.alloc(st, node, HSeq("list", [C(x) for x in io.StringIO(text)], True)))]
            if name in (".close", ".__enter__", ".__exit__"):
                return [Out("v", st, NONE)]
        if name == "io.StringIO" and args and is_const(args[0]) and isinstance(args[0].args[0], str):
            nl = kw.get("newline", args[1] if len(args) > 1 else C("\n"))
            if is_const(nl):
                return [Out("v", st, self.alloc(st, node, HSeq("list", [C(x) for x in io.StringIO(args[0].args[0], newline=nl.args[0])], True)))]
        if name in ("csv.reader", ) and args:
            text = None
            if args[0].op == "datafile":
                text = io.StringIO(self.text(args[0]))
                self.emit(st, "fst:rows", [C(args[0].args[0])], {}, None, node)
            else:
                lines = self.items_of(args[0], st)
                if lines is not None and all(is_const(x) and isinstance(x.args[0], str) for x in lines):
                    text = [x.args[0] for x in lines]
            opts = {}
            for k, v in list(kw.items()) + ([("dialect", args[1])] if len(args) > 1 else []):
                if not is_const(v):
                    text = None
                else:
                    opts[k] = v.args[0]
            if text is None:
                return super().libcall(name, args, kw, st, node)
            out = [self.alloc(st, node, HSeq("list", [C(x) for x in r], True)) for r in csv.reader(text, **opts)]
            return [Out("v", st, self.alloc(st, node, HSeq("list", out, True)))]
        if name == "unicodedata.category" and args and is_const(args[0]):
            return [Out("v", st, C(unicodedata.category(args[0].args[0])))]
        if name.startswith("pynini.examples.plurals."):
            fn = name.split(".")[-1]
            if fn == "_priority_union" and len(args) + len(kw) == 3:
                names = ["q", "r", "sigma"]
                b = dict(zip(names, args))
                b.update(kw)
                q, r, s = (self.expr_of(b[n], st, node) for n in names)
                return self.one(st, node, F("alt", q, F("comp", F("diff", s, F("proj", q, C("input"))), r)))
        if name == "pynini.lib.tagger.Tagger" and len(args) + len(kw) == 3:
            b = dict(zip(["tag_label", "matcher", "sigma_star"], args))
            b.update(kw)
            lab = b["tag_label"]
            if is_const(lab):
                m, s = self.expr_of(b["matcher"], st, node), self.expr_of(b["sigma_star"], st, node)
                e = F("cat", F("ins", F("acc", C("<%s>" % lab.args[0]))), m, F("ins", F("acc", C("</%s>" % lab.args[0]))))
                g = self.newfst(st, node, F("rw", e, F("acc", C("")), F("acc", C("")), s, C("ltr"), C("obl")))
                return [Out("v", st, Sym("libobj", g))]
        return super().libcall(name, args, kw, st, node)

    def text(self, f):
        enc = f.args[1] or "utf-8"
        try:
            with open(f.args[0], encoding=enc, newline=None) as h:
                return h.read()
        except (LookupError, UnicodeDecodeError) as e:
            raise AnalysisError("%s does not decode as %s: %s" % (f.args[0], enc, e))

    def items_of(self, t, st, strings=True):
        if t.op == "datafile":
            return [C(x) for x in io.StringIO(self.text(t))]
        return super().items_of(t, st, strings)

    def getattr(self, base, name, st, node):
        if name == "maxunicode" and base.op in ("ext", "mod") and base.args[0] == "sys":
            return [Out("v", st, C(sys.maxunicode))]
        if base.op == "libobj" and name == "_tagger":
            return [Out("v", st, base.args[0])]
        if base.op == "far":
            return [Out("v", st, Sym("bound", Sym("ext", "." + name), base))]
        if base.op == "datafile":
            return [Out("v", st, Sym("bound", Sym("ext", "." + name), base))]
        return super().getattr(base, name, st, node)

    def fst_call(self, name, args, kw, st, node):
        if any(a.op == "starred" for a in args) and name.startswith(("pynini.", ".")):
            raise AnalysisError("a graph operation takes an unknown number of operands at line %d" % node.lineno)
        if name.startswith(".") and args and args[0].op == "far":
            if name in (".get_fst", ".__getitem__"):
                self.emit(st, "fst:file", [args[0].args[0]], {}, None, node, "far")
                return self.one(st, node, F("far", args[0].args[0], args[1] if len(args) > 1 else NONE))
            if name in (".get_key", ".find", ".done", ".next", ".reset"):
                return None
        return super().fst_call(name, args, kw, st, node)


def pipeline_init(repo, pipeline):
    """The pipeline's constructor options with their literal defaults, caching parameters excluded."""
    mod, cl = pipeline.split(":")
    from .absint import Repo
    m = Repo(repo).find(mod)
    if m is None or cl not in m.bind:
        raise AnalysisError("anchor lost: %s" % pipeline)
    for s in m.bind[cl][1].body:
        if isinstance(s, ast.FunctionDef) and s.name == "__init__":
            a = s.args
            out = {}
            names = a.args[1:]
            for x, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
                if x.arg not in ("cache_dir", "overwrite_cache") and isinstance(d, ast.Constant):
                    out[x.arg] = d.value
            return out
    raise AnalysisError("anchor lost: %s.__init__" % pipeline)


class Grammar:
    """One pipeline under one choice of options: expressions and everything observed while they were assembled."""

    def __init__(self, pipeline, options, I, st, ref):
        self.pipeline, self.options, self.I, self.st, self.ref = pipeline, options, I, st, ref
        inst = st.heap[ref]
        g = {}
        for n in ("tagger", "verbalizer"):
            v = inst.attrs.get(n)
            rec = st.heap.get(v) if v is not None and v.op == "ref" else None
            if not isinstance(rec, HFst):
                raise AnalysisError("anchor lost: %s.%s is not a graph after construction" % (pipeline, n))
            g[n] = rec.expr
        self.tagger, self.verbalizer = g["tagger"], g["verbalizer"]
        self.events = st.events

    def orders(self):
        """The token schema this pipeline's own `verbalize` hands its parser, as a plain dict."""
        from .checks.cache import FAKE, P

        class Caught(Exception):
            pass

        def capture(I, args, kw, st, node):
            raise Caught(args, kw, st)
        I, key = self.I, "fn:tn.token_parser:TokenParser.__init__"
        I.cfg.models[key] = capture
        try:
            m = I.find_member(self.st.heap[self.ref].cls, "verbalize")
            I.call_func(m, [self.ref, P("tagged")], {}, self.st.clone(), FAKE)
        except Caught as e:
            args, kw, st = e.args
        else:
            raise AnalysisError("anchor lost: %s.verbalize builds no TokenParser" % self.pipeline)
        finally:
            del I.cfg.models[key]
        st = st.clone()
        init = I.find_member(st.heap[args[0]].cls, "__init__")
        outs = [o for o in I.call_func(init, args, kw, st, FAKE) if o.k == "v"]
        found = []
        for o in outs:
            for v in o.st.heap[args[0]].attrs.values():
                d = self.plain(v, o.st)
                if d is not None and d not in found:
                    found.append(d)
        if len(found) != 1:
            raise AnalysisError("%s: the parser's schema is not a constant (%d candidates)" % (self.pipeline, len(found)))
        return found[0]

    def plain(self, v, st):
        rec = st.heap.get(v)
        if not isinstance(rec, HDict) or not rec.exact:
            return None
        out = {}
        for k, x in rec.items.items():
            its = self.I.items_of(x, st)
            if its is None or not is_const(k) or not all(is_const(i) for i in its):
                return None
            out[k.args[0]] = [i.args[0] for i in its]
        return out


def extract(repo, pipeline, options=None, interest=None):
    I = GrammarInterp(repo, Config(exceptions=False, unroll=2, interest=interest or (lambda n: n.startswith("fst:"))))
    return construct(I, pipeline, options, State())


def construct(I, pipeline, options, st):
    """The pipeline's constructor, interpreted in a given state; the cache is replaced by an immediate build."""
    def build(I, args, kw, st, node):
        m = I.find_member(st.heap[args[0]].cls, "build_tagger_and_verbalizer")
        if m is not None:
            return I.call_func(m, [args[0]], {}, st, node)
        outs = [Out("v", st, NONE)]
        for n in ("build_tagger", "build_verbalizer"):
            m = I.find_member(st.heap[args[0]].cls, n)
            outs = [p for o in outs for p in (I.call_func(m, [args[0]], {}, o.st, node) if o.k == "v" else [o])]
        return outs
    I.cfg.models = {"fn:tn.processor:Processor.build_fst": build}
    cls = I.cls(pipeline)
    n = 0
    while Sym("ref", "driver:processor", n) in st.heap:
        n += 1
    ref = Sym("ref", "driver:processor", n)
    st.heap[ref] = HInst(cls, {})
    kw = {k: C(v) for k, v in (options or {}).items()}
    init = I.find_member(cls, "__init__")
    I.inflight.append((ref, ))
    fake = ast.parse("f()").body[0].value
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(max(old, 20000))
    outs = I.call_func(init, [ref], kw, st, fake)
    good = [o for o in outs if o.k == "v"]
    if len(good) != 1:
        raise AnalysisError("%s: construction does not fold to one result (%d outcomes, %d raising)" %
                            (pipeline, len(good), len(outs) - len(good)))
    I.stats["paths"] += len(outs)
    return Grammar(pipeline, dict(options or {}), I, good[0].st, ref)
