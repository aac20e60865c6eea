"""Path-collecting abstract interpreter for the Python subset used in /repo.

Nothing of /repo is imported or run: modules are parsed with `ast`, calls to repository
functions are inlined, library calls are replaced by effect summaries (models.py).
"""
import ast
import builtins
import os

from .terms import C, FALSE, NONE, TRUE, Sym, ground, is_const, same, show, subterms


class AnalysisError(Exception):
    """The analysis lost an anchor or met something it cannot interpret soundly."""


# --------------------------------------------------------------------------- heap records

class HFrame:
    __slots__ = ("vars", "parent", "module", "func", "selfcls")

    def __init__(self, vars, parent, module, func, selfcls=None):
        self.vars, self.parent, self.module, self.func, self.selfcls = vars, parent, module, func, selfcls

    def with_var(self, k, v):
        d = dict(self.vars)
        d[k] = v
        return HFrame(d, self.parent, self.module, self.func, self.selfcls)

    def without(self, k):
        d = dict(self.vars)
        d.pop(k, None)
        return HFrame(d, self.parent, self.module, self.func, self.selfcls)

    def children(self):
        return list(self.vars.values())

    def key(self):
        return ("F", self.parent, self.func and self.func.name, tuple(sorted(((k, id(v)) for k, v in self.vars.items()))))


class HInst:
    __slots__ = ("cls", "attrs", "owner")

    def __init__(self, cls, attrs, owner="new"):
        self.cls, self.attrs, self.owner = cls, attrs, owner

    def with_attr(self, k, v):
        d = dict(self.attrs)
        d[k] = v
        return HInst(self.cls, d, self.owner)

    def children(self):
        return list(self.attrs.values())

    def key(self):
        return ("I", id(self.cls), tuple(sorted((k, id(v)) for k, v in self.attrs.items())))


class HSeq:
    """list / set / deque with known items (exact) or a summary of possible items."""
    __slots__ = ("kind", "items", "exact", "owner", "origin")

    def __init__(self, kind, items, exact=True, owner="new", origin=None):
        self.kind, self.items, self.exact, self.owner, self.origin = kind, tuple(items), exact, owner, origin

    def children(self):
        return list(self.items) + ([self.origin] if self.origin is not None else [])

    def replace(self, items=None, exact=None):
        return HSeq(self.kind, self.items if items is None else items, self.exact if exact is None else exact, self.owner,
                    self.origin)

    def key(self):
        return ("S", self.kind, self.exact, tuple(id(i) for i in self.items))


class HDict:
    __slots__ = ("items", "exact", "owner")

    def __init__(self, items, exact=True, owner="new"):
        self.items, self.exact, self.owner = items, exact, owner

    def with_item(self, k, v):
        d = dict(self.items)
        d[k] = v
        return HDict(d, self.exact, self.owner)

    def children(self):
        return list(self.items.keys()) + list(self.items.values())

    def key(self):
        return ("D", self.exact, tuple(sorted((id(k), id(v)) for k, v in self.items.items())))


class Event:
    __slots__ = ("name", "args", "kw", "res", "site", "facts", "extra", "stack")

    def __init__(self, name, args, kw, res, site, facts, stack, extra=None):
        self.name, self.args, self.kw, self.res, self.site, self.facts = name, args, kw, res, site, facts
        self.stack, self.extra = stack, extra

    def __repr__(self):
        return "%s(%s)@%s" % (self.name, ", ".join(show(a, 4) for a in self.args), self.site)

    def key(self):
        return (self.name, self.args, self.res, self.site, self.extra)


class State:
    __slots__ = ("heap", "facts", "events", "occ", "aux")

    def __init__(self):
        self.heap = {}
        self.facts = {}
        self.events = ()
        self.occ = {}
        self.aux = {}

    def clone(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.events = self.events
        s.occ = dict(self.occ)
        s.aux = dict(self.aux)
        return s

    def nexti(self, site):
        n = self.occ.get(site, 0)
        self.occ[site] = n + 1
        return n


class FuncInfo:
    def __init__(self, node, module, cls, name):
        self.node, self.module, self.cls, self.name = node, module, cls, name

    @property
    def qual(self):
        return "%s:%s%s" % (self.module.name, (self.cls.name + ".") if self.cls else "", self.name)


class ClassInfo:
    def __init__(self, node, module, name):
        self.node, self.module, self.name = node, module, name
        self.members = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.members[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.members[t.id] = st
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.members[st.target.id] = st

    def is_dataclass(self):
        for d in self.node.decorator_list:
            n = d.func if isinstance(d, ast.Call) else d
            nm = n.attr if isinstance(n, ast.Attribute) else getattr(n, "id", "")
            if nm == "dataclass":
                return True
        return False

    def fields(self):
        return [(s.target.id, s.value) for s in self.node.body
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.bind = {}
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self._scan(tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.bind[st.name] = ("def", st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.bind[a.asname] = ("mod", a.name)
                    else:
                        self.bind[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = self.name.split(".")
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (st.level - 1)]
                    base = ".".join(parts + ([base] if base else []))
                for a in st.names:
                    if a.name == "*":
                        self.bind.setdefault("*", []) if isinstance(self.bind.get("*"), list) else None
                        self.bind.setdefault("__stars__", ("stars", []))[1].append(base)
                    else:
                        self.bind[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.bind[n.id] = ("assign", st)
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                self.bind[st.target.id] = ("assign", st)
            elif isinstance(st, (ast.If, ast.For, ast.While, ast.With)):
                self._scan(st.body)
                self._scan(getattr(st, "orelse", []))
            elif isinstance(st, ast.Try):
                self._scan(st.body)
                for h in st.handlers:
                    keep = dict(self.bind)
                    self._scan(h.body)
                    self.bind.update(keep)  # the try body's binding wins
                self._scan(st.orelse)
                self._scan(st.finalbody)


class Repo:
    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.missing = set()

    def find(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.missing:
            return None
        rel = name.replace(".", "/")
        for cand in (rel + ".py", rel + "/__init__.py"):
            p = os.path.join(self.root, cand)
            if os.path.isfile(p):
                with open(p, encoding="utf-8") as f:
                    src = f.read()
                try:
                    tree = ast.parse(src, filename=p)
                except SyntaxError as e:
                    raise AnalysisError("cannot parse %s: %s" % (p, e))
                m = Module(name, p, tree)
                self.modules[name] = m
                return m
        p = os.path.join(self.root, rel)
        if os.path.isdir(p) and name.split(".")[0] in ("tn", "itn"):
            m = Module(name, os.path.join(p, "__init__.py"), ast.parse(""))
            self.modules[name] = m
            return m
        self.missing.add(name)
        return None


# --------------------------------------------------------------------------- exceptions

def builtin_mro(name):
    c = getattr(builtins, name, None)
    if isinstance(c, type) and issubclass(c, BaseException):
        return [k.__name__ for k in c.__mro__]
    return None


EXT_EXC = {
    "json.JSONDecodeError": "ValueError", "json.decoder.JSONDecodeError": "ValueError",
    "argparse.ArgumentTypeError": "Exception", "argparse.ArgumentError": "Exception",
    "pynini.FstError": "RuntimeError", "pynini.FstOpError": "RuntimeError", "pynini.FstIOError": "RuntimeError",
    "pynini.FstStringCompilationError": "RuntimeError", "pynini.FstArgError": "RuntimeError",
    "shutil.Error": "OSError", "os.error": "OSError", "struct.error": "Exception", "csv.Error": "Exception",
    "socket.error": "OSError", "zlib.error": "Exception", "subprocess.SubprocessError": "Exception",
}
_OSALIAS = {"IOError": "OSError", "EnvironmentError": "OSError", "WindowsError": "OSError"}


def hkey(v):
    try:
        hash(v)
        return v
    except TypeError:
        return repr(v)


LISTINGS = ("os.listdir", "os.scandir", ".iterdir", ".glob", ".rglob", "glob.glob", "os.walk")


class Out:
    __slots__ = ("k", "st", "v")

    def __init__(self, k, st, v=None):
        self.k, self.st, self.v = k, st, v

    def __repr__(self):
        return "Out(%s,%s)" % (self.k, show(self.v) if isinstance(self.v, Sym) else self.v)


class Config:
    def __init__(self, **kw):
        self.exceptions = True       # model library exceptions
        self.lookup_raises = False   # unknown subscripts may raise
        self.unroll = 2
        self.sym_unroll = None     # for loops over iterables of unknown content (None: as unroll)
        self.fact_gc = False
        self.interest = None         # event name -> bool; None = all
        self.monitor = None          # typestate monitor: called on every event, keeps its state in st.aux
        self.opaque = ()             # qualified names (suffix match) not inlined
        self.max_outs = 60000
        self.max_depth = 60
        self.models = {}             # extra models: name -> callable
        self.fst = False             # model pynini graphs on the heap
        self.stmt_hook = None
        self.const_attrs = {}        # ext dotted -> Sym
        self.merge = True
        self.join = True
        self.disj = 0                # joins keep up to this many alternatives as a case split
        self.tainted = None          # term -> bool: content read from disk whose shape is unknown
        self.live_merge = 4
        self.exc_filter = None       # restricts which library calls are assumed to raise
        self.extra_exc = {}          # library name -> further exceptions it may raise
        self.listing = 0             # directory listings are split into the cases of 0..N entries when iterated
        self.__dict__.update(kw)


class Interp:
    def __init__(self, root, config=None):
        self.repo = root if isinstance(root, Repo) else Repo(root)
        self.root = self.repo.root
        self.cfg = config or Config()
        self.funcs = {}      # func key -> FuncInfo
        self.classes = {}    # class key -> ClassInfo
        self.classkeys = {}
        self.stack = []      # FuncInfo stack
        self.frames = []     # live frame refs
        self.cmstack = []
        self.inflight = []   # values held by suspended expression evaluations (gc roots)
        self.stats = {"functions": set(), "calls": 0, "libcalls": 0, "paths": 0, "unknown": set(), "statements": set()}
        self.static = {}     # module-global evaluation cache
        self.notes = []
        self._fid = 0
        self.callsite = None
        self.comp_kind = None
        self.tick = 0

    # ------------------------------------------------------------- helpers
    def fresh_oid(self, st, site):
        n = st.nexti(("o", site))
        return Sym("ref", site, n)

    def site(self, node):
        f = self.stack[-1] if self.stack else None
        return "%s:%s:%s" % (f.qual if f else "<module>", getattr(node, "lineno", 0), getattr(node, "col_offset", 0))

    def alloc(self, st, node, rec):
        r = self.fresh_oid(st, self.site(node) + rec.__class__.__name__)
        st.heap[r] = rec
        return r

    def emit(self, st, name, args, kw, res, node, extra=None):
        keep = self.cfg.interest is None or self.cfg.interest(name)
        if not keep and self.cfg.monitor is None:
            return
        e = Event(name, tuple(args), tuple(sorted(kw.items())) if kw else (), res, self.site(node),
                  frozenset(st.facts.items()) if keep else None, tuple(f.qual for f in self.stack), extra)
        if keep:
            st.events = st.events + (e, )
        if self.cfg.monitor is not None:
            self.cfg.monitor(self, st, e)

    # ------------------------------------------------------------- classes
    def class_sym(self, mod, node):
        k = Sym("class", mod.name, node.name)
        if k not in self.classes:
            self.classes[k] = ClassInfo(node, mod, node.name)
        return k

    def class_bases(self, k):
        ci = self.classes[k]
        out = []
        for b in ci.node.bases:
            v = self.static_eval(b, ci.module)
            out.append(v)
        return out

    def mro(self, k):
        if k.op != "class":
            return [k]
        seen, out = set(), []

        def visit(c):
            if c in seen:
                return
            seen.add(c)
            out.append(c)
            if c.op == "class":
                for b in self.class_bases(c):
                    visit(b)
        visit(k)
        return out

    def class_name(self, c):
        if c.op == "class":
            return c.args[1]
        if c.op == "ext":
            return c.args[0].split(".")[-1] if c.args[0].startswith("builtins.") else c.args[0]
        return show(c)

    def exc_mro(self, c):
        """names (class syms -> 'mod.Class', builtins -> name) from most specific to BaseException."""
        out = []
        for k in self.mro(c):
            if k.op == "class":
                out.append(k.args[0] + "." + k.args[1])
            elif k.op == "ext":
                out.extend(x for x in self.ext_exc_mro(k.args[0]) if x not in out)
        return out

    def ext_exc_mro(self, dotted):
        n = dotted[9:] if dotted.startswith("builtins.") else dotted
        n = _OSALIAS.get(n, n)
        m = builtin_mro(n)
        if m:
            return m
        if n in EXT_EXC:
            return [n] + builtin_mro(EXT_EXC[n])
        return [n, "Exception", "BaseException", "object"]

    def exc_name(self, v):
        if v.op == "class":
            return v.args[0] + "." + v.args[1]
        if v.op == "ext":
            return self.ext_exc_mro(v.args[0])[0]
        return show(v)

    def name_mro(self, name):
        m = builtin_mro(name)
        if m:
            return m
        if name in EXT_EXC:
            return [name] + builtin_mro(EXT_EXC[name])
        mod, _, cl = name.rpartition(".")
        k = Sym("class", mod, cl)
        if k in self.classes:
            return self.exc_mro(k)
        return [name, "Exception", "BaseException", "object"]

    def mkexc(self, name, upper=False, payload=()):
        return Sym("exc", name, upper, frozenset(), payload)

    # ------------------------------------------------------------- names
    def static_eval(self, node, mod):
        st = State()
        outs = self.ev(node, st, None, mod)
        vals = [o for o in outs if o.k == "v"]
        if not vals:
            return Sym("unknown", ast.dump(node)[:60])
        return vals[0].v

    def module_lookup(self, mod, name, st, depth=0):
        b = mod.bind.get(name)
        if b is None:
            stars = mod.bind.get("__stars__")
            if stars and depth < 5:
                for base in stars[1]:
                    m = self.repo.find(base)
                    if m is not None:
                        v = self.module_lookup(m, name, st, depth + 1)
                        if v is not None:
                            return v
            sub = self.repo.find(mod.name + "." + name) if mod.is_pkg else None
            if sub is not None:
                return Sym("mod", sub.name)
            return None
        kind = b[0]
        if kind == "def":
            node = b[1]
            if isinstance(node, ast.ClassDef):
                return self.class_sym(mod, node)
            return self.func_sym(node, mod, None, None)
        if kind == "mod":
            m = self.repo.find(b[1])
            if m is not None:
                return Sym("mod", b[1])
            return Sym("ext", b[1])
        if kind == "from":
            m = self.repo.find(b[1])
            if m is not None:
                v = self.module_lookup(m, b[2], st, depth + 1)
                if v is not None:
                    return v
                sub = self.repo.find(b[1] + "." + b[2])
                if sub is not None:
                    return Sym("mod", sub.name)
                return Sym("unknown", "%s.%s" % (b[1], b[2]))
            sub = self.repo.find(b[1] + "." + b[2])
            if sub is not None:
                return Sym("mod", sub.name)
            return Sym("ext", (b[1] + "." + b[2]) if b[1] else b[2])
        if kind == "assign":
            return self.module_global(mod, name, b[1], st)
        return None

    def module_frame(self, mod):
        return Sym("ref", "module:" + mod.name, 0)

    def module_global(self, mod, name, stmt, st):
        """Evaluates a module-level assignment once; the objects live in a static heap copied on demand."""
        key = (mod.name, name)
        g = Sym("gvar", mod.name, name)
        if g in st.aux:
            return st.aux[g]
        if key in self.static:
            val, heap = self.static[key]
        else:
            self.static[key] = (Sym("unknown", "recursive %s" % name), {})
            tmp = State()
            saved = self.stack, self.frames
            self.stack, self.frames = [], []
            cfg_exc = self.cfg.exceptions
            self.cfg.exceptions = False
            try:
                outs = self.ev(stmt.value, tmp, None, mod)
            finally:
                self.stack, self.frames = saved
                self.cfg.exceptions = cfg_exc
            outs = [o for o in outs if o.k == "v"]
            if not outs:
                val, heap = Sym("unknown", name), {}
            else:
                val, heap = outs[0].v, {}
                tgt = None
                if isinstance(stmt, ast.Assign):
                    for t in stmt.targets:
                        if isinstance(t, ast.Name) and t.id == name:
                            tgt = "whole"
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            for i, e in enumerate(t.elts):
                                if isinstance(e, ast.Name) and e.id == name:
                                    tgt = i
                else:
                    tgt = "whole"
                if isinstance(tgt, int):
                    items = self.items_of(val, outs[0].st)
                    val = items[tgt] if items is not None and len(items) > tgt else Sym("unknown", name)
                # rename objects to a global owner
                ren = {}
                for r in self.reach(outs[0].st, [val]):
                    if r in outs[0].st.heap:
                        ren[r] = Sym("ref", "global:%s.%s" % key, len(ren))
                for r, n in ren.items():
                    heap[n] = self.rename_rec(outs[0].st.heap[r], ren, "global:%s.%s" % key)
                val = self.rename(val, ren)
            self.static[key] = (val, heap)
        for r, rec in heap.items():
            if r not in st.heap:
                st.heap[r] = rec
        return val

    def rename(self, t, ren):
        if not ren:
            return t
        if isinstance(t, tuple):
            return tuple(self.rename(a, ren) for a in t)
        if not isinstance(t, Sym):
            return t
        if t in ren:
            return ren[t]
        if t.op in ("const", "ext"):
            return t
        if not any(isinstance(a, (Sym, tuple)) for a in t.args):
            return t
        return Sym(t.op, *[self.rename(a, ren) for a in t.args])

    def rename_rec(self, rec, ren, owner):
        if isinstance(rec, HSeq):
            return HSeq(rec.kind, [self.rename(i, ren) for i in rec.items], rec.exact, owner, rec.origin)
        if isinstance(rec, HDict):
            return HDict({self.rename(k, ren): self.rename(v, ren) for k, v in rec.items.items()}, rec.exact, owner)
        if isinstance(rec, HInst):
            return HInst(rec.cls, {k: self.rename(v, ren) for k, v in rec.attrs.items()}, owner)
        return rec

    def reach(self, st, roots):
        seen, out, todo = set(), [], list(roots)
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                todo.extend(x)
                continue
            if not isinstance(x, Sym) or x in seen:
                continue
            seen.add(x)
            out.append(x)
            rec = st.heap.get(x)
            if rec is not None:
                todo.extend(rec.children())
                if isinstance(rec, HFrame) and rec.parent is not None:
                    todo.append(rec.parent)
            todo.extend(a for a in x.args if isinstance(a, (Sym, tuple)))
        return out

    def func_sym(self, node, mod, cls, parent):
        k = Sym("func", mod.name, (cls.name + "." if cls else "") + getattr(node, "name", "<lambda>"),
                getattr(node, "lineno", 0), getattr(node, "col_offset", 0), parent if parent is not None else 0)
        if k not in self.funcs:
            self.funcs[k] = FuncInfo(node, mod, cls, getattr(node, "name", "<lambda>"))
        return k

    def lookup(self, name, st, frame, mod):
        f = frame
        while f is not None:
            rec = st.heap[f]
            if name in rec.vars:
                return rec.vars[name]
            f = rec.parent
        m = mod
        v = self.module_lookup(m, name, st)
        if v is not None:
            return v
        if name == "__file__":
            return C(m.path)
        if name == "__name__":
            return C(m.name)
        if hasattr(builtins, name):
            return Sym("ext", "builtins." + name)
        return Sym("unknown", name)

    # ------------------------------------------------------------- truth and facts
    def truth(self, t, st):
        op = t.op
        if op == "const":
            return bool(t.args[0])
        if op == "ref":
            rec = st.heap.get(t)
            if isinstance(rec, HSeq):
                if rec.items and rec.exact:
                    return True
                if rec.exact:
                    return False
                if rec.items:
                    return st.facts.get(t)
                return st.facts.get(t)
            if isinstance(rec, HDict):
                if rec.exact:
                    return bool(rec.items)
                return st.facts.get(t)
            if isinstance(rec, HInst):
                return True
            return st.facts.get(t)
        if op == "tuple":
            return bool(t.args)
        if op in ("func", "class", "bound", "mod", "lambda", "exc", "path", "fst"):
            return True
        if op == "concat":
            if any(is_const(a) and a.args[0] for a in t.args):
                return True
        if op == "not":
            r = self.truth(t.args[0], st)
            return None if r is None else not r
        if t in st.facts:
            return st.facts[t]
        if op == "cmp":
            return self.infer_cmp(t, st)
        if op in ("and", "or"):
            vals = [self.truth(a, st) for a in t.args]
            if op == "and":
                if any(v is False for v in vals):
                    return False
                if all(v is True for v in vals):
                    return True
            else:
                if any(v is True for v in vals):
                    return True
                if all(v is False for v in vals):
                    return False
            return None
        n = Sym("cmp", "is", *sorted((t, NONE), key=repr))
        if st.facts.get(n) is True:
            return False
        # equality with a falsy/truthy constant
        return None

    def notnone(self, t, st):
        if is_const(t):
            return t.args[0] is not None
        if t.op in ("ref", "tuple", "func", "class", "bound", "mod", "concat", "exc", "ext", "path", "dictview", "fst", "div",
                    "binop", "cmp", "lambda"):
            return True
        if t.op == "call" and t.args[0] in NOT_NONE_CALLS:
            return True
        if t.op == "res" and t.args[0] in NOT_NONE_CALLS:
            return True
        if st is not None:
            if st.facts.get(t) is True:
                return True
            for f, b in st.facts.items():
                if b and f.op == "call" and f.args[0] == "isinstance" and f.args[1] is t:
                    return True
                if f.op == "cmp" and f.args[0] in ("<", "<=") and (f.args[1] is t or f.args[2] is t):
                    return True
        return None

    def infer_cmp(self, t, st):
        rel, a, b = t.args
        if rel == "is":
            if a is b:
                return True
            if is_const(a) and is_const(b):
                return a is b
            other = b if a is NONE else (a if b is NONE else None)
            if other is not None:
                nn = self.notnone(other, st)
                if nn is not None:
                    return not nn
            if a.op == "ref" and b.op == "ref":
                return False
            for x, y in ((a, b), (b, a)):
                if is_const(y) and isinstance(y.args[0], bool):
                    # x is True / False: decide from other is-facts
                    other = FALSE if y is TRUE else TRUE
                    if st.facts.get(Sym("cmp", "is", *sorted((x, other), key=repr))) is True:
                        return False
                    if st.facts.get(Sym("cmp", "is", *sorted((x, NONE), key=repr))) is True:
                        return False
                if y is NONE:
                    for o in (TRUE, FALSE):
                        if st.facts.get(Sym("cmp", "is", *sorted((x, o), key=repr))) is True:
                            return False
            return None
        if rel == "==":
            if a is b:
                return True
            if is_const(a) and is_const(b):
                try:
                    return bool(a.args[0] == b.args[0])
                except Exception:
                    return None
            if a.op == "tuple" and b.op in ("tuple", "const") or b.op == "tuple" and a.op == "const":
                if ground(a) and ground(b):
                    return same(a, b)
            for x, y in ((a, b), (b, a)):
                if is_const(y):
                    for f, v in st.facts.items():
                        if v and f.op == "cmp" and f.args[0] == "==" and x in f.args[1:]:
                            o = f.args[2] if f.args[1] is x else f.args[1]
                            if is_const(o) and o is not y and o.args[0] != y.args[0]:
                                return False
                if y is NONE and self.notnone(x, st):
                    return False
            return None
        if rel == "in":
            if b.op == "setof":
                if is_const(a) and all(is_const(x) for x in b.args):
                    return any(x.args[0] == a.args[0] for x in b.args)
                if a in b.args:
                    return True
                if not b.args:
                    return False
                vals = [self.infer_eq(a, x, st) for x in b.args]
                if any(v is True for v in vals):
                    return True
                if all(v is False for v in vals):
                    return False
            if is_const(a) and is_const(b) and isinstance(b.args[0], (str, bytes)) and isinstance(a.args[0], type(b.args[0])):
                return a.args[0] in b.args[0]
            return None
        if rel in ("<", "<="):
            if is_const(a) and is_const(b):
                try:
                    return bool(a.args[0] < b.args[0]) if rel == "<" else bool(a.args[0] <= b.args[0])
                except Exception:
                    return None
            if a is b:
                return rel == "<="
            if rel == "<":
                if st.facts.get(Sym("cmp", "<", b, a)) is True or st.facts.get(Sym("cmp", "<=", b, a)) is True:
                    return False
            else:
                if st.facts.get(Sym("cmp", "<", a, b)) is True:
                    return True
                if st.facts.get(Sym("cmp", "<", b, a)) is True:
                    return False
            return None
        return None

    def infer_eq(self, a, x, st):
        c = Sym("cmp", "==", *sorted((a, x), key=repr))
        if c in st.facts:
            return st.facts[c]
        return self.infer_cmp(c, st)

    def assume(self, st, t, val):
        """Adds the fact; returns False when contradictory."""
        known = self.truth(t, st)
        if known is not None:
            return known == val
        if t.op == "not":
            return self.assume(st, t.args[0], not val)
        if t.op == "and" and val or t.op == "or" and not val:
            return all(self.assume(st, a, val) for a in t.args)
        st.facts[t] = val
        if t.op == "cmp" and t.args[0] in ("is", "==") and val:
            a, b = t.args[1:]
            for x, y in ((a, b), (b, a)):
                if is_const(y) and x not in st.facts and not is_const(x) and x.op not in ("ref",):
                    if isinstance(y.args[0], (bool, type(None))) and (t.args[0] == "is"):
                        st.facts[x] = bool(y.args[0])
        if t.op == "call" and t.args[0] == "isinstance" and val:
            pass
        return True

    def branch(self, st, t):
        """Forks on truthiness -> list of (state, bool)."""
        k = self.truth(t, st)
        if k is not None:
            return [(st, k)]
        out = []
        s2 = st.clone()
        if self.assume(st, t, True):
            out.append((st, True))
        if self.assume(s2, t, False):
            out.append((s2, False))
        return out

    def mkcmp(self, rel, a, b, st):
        """Comparison term (already canonical); returns Sym (maybe const, maybe not())."""
        neg = False
        if rel in ("!=", "is not", "not in"):
            neg = True
            rel = {"!=": "==", "is not": "is", "not in": "in"}[rel]
        if rel == ">":
            rel, a, b = "<", b, a
        elif rel == ">=":
            rel, a, b = "<=", b, a
        if rel == "in":
            items = self.items_of(b, st, strings=False)
            if items is not None:
                rec = st.heap.get(b)
                if rec is None or rec.exact:
                    b = Sym("setof", *sorted(set(items), key=repr))
        if rel == "==":
            a, b = self.freeze(a, st), self.freeze(b, st)
        if rel in ("==", "is"):
            a, b = sorted((a, b), key=repr)
        t = Sym("cmp", rel, a, b)
        k = self.infer_cmp(t, st)
        if k is not None:
            return C(k != neg)
        return Sym("not", t) if neg else t

    def freeze(self, t, st):
        """Structural image of an exact container for equality tests."""
        rec = st.heap.get(t) if t.op == "ref" else None
        if isinstance(rec, HSeq) and rec.exact:
            its = [self.freeze(i, st) for i in rec.items]
            if rec.kind in ("set", "frozenset"):
                return Sym("setof", *sorted(set(its), key=repr))
            return Sym("listof", *its)
        if isinstance(rec, HSeq):
            return Sym(rec.kind + "~", rec.origin if rec.origin is not None else t)
        if isinstance(rec, HDict) and rec.exact:
            return Sym("dictof", *[x for k, v in sorted(rec.items.items(), key=repr) for x in (k, self.freeze(v, st))])
        if t.op == "call" and t.args[0] in ("set", "frozenset") and len(t.args) == 2:
            return Sym("set~", t.args[1])
        return t

    def items_of(self, t, st, strings=True):
        """Exactly known items of an iterable value, else None."""
        if t.op == "tuple":
            return list(t.args)
        if t.op == "const":
            v = t.args[0]
            if isinstance(v, str) and strings:
                return [C(c) for c in v]
            if isinstance(v, bytes) and strings:
                return [C(c) for c in v]
            if isinstance(v, range):
                return [C(i) for i in v] if len(v) < 5000 else None
            return None
        if t.op == "setof":
            return list(t.args)
        if t.op == "ref":
            rec = st.heap.get(t)
            if isinstance(rec, HSeq) and rec.exact:
                return list(rec.items)
            if isinstance(rec, HDict) and rec.exact:
                return list(rec.items.keys())
            if isinstance(rec, HInst) and self.classes.get(rec.cls) and "_fields" in rec.attrs:
                return [rec.attrs[f.args[0]] for f in rec.attrs["_fields"].args]
            return None
        if t.op == "dictview":
            rec = st.heap.get(t.args[1])
            if isinstance(rec, HDict) and rec.exact:
                if t.args[0] == "keys":
                    return list(rec.items.keys())
                if t.args[0] == "values":
                    return list(rec.items.values())
                return [Sym("tuple", k, v) for k, v in rec.items.items()]
            return None
        return None

    def listing_of(self, v, st):
        """The directory-listing result behind a value, or None."""
        if not self.cfg.listing:
            return None
        if v.op == "res" and v.args[0] in LISTINGS:
            return v
        rec = st.heap.get(v) if v.op == "ref" else None
        if isinstance(rec, HSeq) and not rec.exact and rec.origin is not None and rec.origin.op == "res" and rec.origin.args[0] in LISTINGS:
            return rec.origin
        return None

    def materialise(self, v, st, node):
        """Splits a directory listing into the cases of 0..N entries -> [(state, exact list)], None when v is no listing."""
        key = self.listing_of(v, st)
        if key is None:
            return None
        rec = st.heap.get(v) if v.op == "ref" else None
        pool = list(rec.items) if isinstance(rec, HSeq) else [Sym("elem", key) if i == 0 else Sym("elem", key, i) for i in range(self.cfg.listing)]
        pool = pool[:self.cfg.listing]
        res, live = [], [st]
        for i in range(len(pool) + 1):
            nxt = []
            for s in live:
                if i == len(pool):
                    branches = [(s, False)]
                else:
                    branches = self.branch(s, Sym("more", key, i))
                for s2, b in branches:
                    if b:
                        nxt.append(s2)
                    else:
                        res.append((s2, self.alloc(s2, node, HSeq("list", pool[:i], True))))
            live = nxt
        return res

    # ------------------------------------------------------------- expression evaluation
    def evs(self, nodes, st, frame, mod):
        """Evaluates a list of expressions in order -> outcomes with value lists."""
        outs = [Out("v", st, [])]
        for n in nodes:
            new = []
            for o in outs:
                if o.k != "v":
                    new.append(o)
                    continue
                if isinstance(n, ast.Starred):
                    for p in self.ev_hold(o.v, n.value, o.st, frame, mod):
                        if p.k == "v":
                            items = self.items_of(p.v, p.st)
                            if items is None:
                                new.append(Out("v", p.st, o.v + [Sym("starred", p.v)]))
                            else:
                                new.append(Out("v", p.st, o.v + items))
                        else:
                            new.append(p)
                    continue
                for p in self.ev_hold(o.v, n, o.st, frame, mod):
                    if p.k == "v":
                        new.append(Out("v", p.st, o.v + [p.v]))
                    else:
                        new.append(p)
            outs = new
        return outs

    def ev_hold(self, held, node, st, frame, mod):
        self.inflight.append(tuple(held))
        try:
            return self.ev(node, st, frame, mod)
        finally:
            self.inflight.pop()

    def ev(self, node, st, frame, mod):
        m = getattr(self, "ev_" + node.__class__.__name__, None)
        if m is None:
            self.stats["unknown"].add("expr:" + node.__class__.__name__)
            return [Out("v", st, Sym("unknown", self.site(node)))]
        return m(node, st, frame, mod)

    def ev_Constant(self, node, st, frame, mod):
        return [Out("v", st, C(node.value))]

    def ev_Name(self, node, st, frame, mod):
        return [Out("v", st, self.lookup(node.id, st, frame, mod))]

    def ev_Tuple(self, node, st, frame, mod):
        return [Out("v", o.st, Sym("tuple", *o.v)) if o.k == "v" else o for o in self.evs(node.elts, st, frame, mod)]

    def ev_List(self, node, st, frame, mod):
        outs = self.evs(node.elts, st, frame, mod)
        return [Out("v", o.st, self.mkseq(o.st, node, "list", o.v)) if o.k == "v" else o for o in outs]

    def mkseq(self, st, node, kind, items):
        exact = not any(i.op == "starred" for i in items)
        items = [i.args[0] if i.op == "starred" else i for i in items]
        if kind in ("set", "frozenset"):
            items = list(dict.fromkeys(items))
        return self.alloc(st, node, HSeq(kind, items, exact))

    def ev_Set(self, node, st, frame, mod):
        outs = self.evs(node.elts, st, frame, mod)
        return [Out("v", o.st, self.mkseq(o.st, node, "set", o.v)) if o.k == "v" else o for o in outs]

    def ev_Dict(self, node, st, frame, mod):
        outs = [Out("v", st, [])]
        for k, v in zip(node.keys, node.values):
            new = []
            for o in outs:
                if o.k != "v":
                    new.append(o)
                    continue
                if k is None:
                    for p in self.ev_hold([x for y in o.v for x in y if isinstance(x, Sym)], v, o.st, frame, mod):
                        if p.k == "v":
                            new.append(Out("v", p.st, o.v + [("**", p.v)]))
                        else:
                            new.append(p)
                else:
                    self.inflight.append(tuple(x for y in o.v for x in y if isinstance(x, Sym)))
                    pairs = self.evs([k, v], o.st, frame, mod)
                    self.inflight.pop()
                    for p in pairs:
                        if p.k == "v":
                            new.append(Out("v", p.st, o.v + [tuple(p.v)]))
                        else:
                            new.append(p)
            outs = new
        res = []
        for o in outs:
            if o.k != "v":
                res.append(o)
                continue
            d, exact = {}, True
            for a, b in o.v:
                if a == "**":
                    rec = o.st.heap.get(b)
                    if isinstance(rec, HDict):
                        d.update(rec.items)
                        exact = exact and rec.exact
                    else:
                        exact = False
                else:
                    d[a] = b
            res.append(Out("v", o.st, self.alloc(o.st, node, HDict(d, exact))))
        return res

    def ev_JoinedStr(self, node, st, frame, mod):
        parts = [v.value if isinstance(v, ast.FormattedValue) else v for v in node.values]
        res = []
        for o in self.evs(parts, st, frame, mod):
            if o.k != "v":
                res.append(o)
                continue
            vals = []
            for nd, v in zip(node.values, o.v):
                if isinstance(nd, ast.FormattedValue):
                    spec = ""
                    if nd.format_spec is not None:
                        spec = "".join(x.value for x in nd.format_spec.values if isinstance(x, ast.Constant))
                    vals.append(self.tostr(v, nd.conversion, spec))
                else:
                    vals.append(v)
            res.append(Out("v", o.st, self.concat(vals)))
        return res

    def tostr(self, v, conversion=-1, spec=""):
        if is_const(v) and conversion == -1:
            try:
                return C(format(v.args[0], spec))
            except Exception:
                pass
        if conversion == ord("r") or conversion == ord("a"):
            return Sym("call", "repr", v)
        if spec:
            return Sym("call", "format", v, C(spec))
        return v

    def concat(self, vals):
        flat = []
        for v in vals:
            if v.op == "concat":
                flat.extend(v.args)
            else:
                flat.append(v)
        out = []
        for v in flat:
            if is_const(v) and out and is_const(out[-1]) and type(v.args[0]) is type(out[-1].args[0]) and isinstance(
                    v.args[0], (str, bytes)):
                out[-1] = C(out[-1].args[0] + v.args[0])
            elif is_const(v) and v.args[0] in ("", b"") and out:
                continue
            else:
                out.append(v)
        out = [v for v in out if not (is_const(v) and v.args[0] in ("", b""))] or [C("")]
        return out[0] if len(out) == 1 else Sym("concat", *out)

    def ev_FormattedValue(self, node, st, frame, mod):
        return self.ev(node.value, st, frame, mod)

    def ev_Lambda(self, node, st, frame, mod):
        k = Sym("func", mod.name, "<lambda>", node.lineno, node.col_offset, frame if frame is not None else 0)
        if k not in self.funcs:
            self.funcs[k] = FuncInfo(node, mod, None, "<lambda>")
        return [Out("v", st, k)]

    def ev_IfExp(self, node, st, frame, mod):
        res = []
        for o in self.ev_cond(node.test, st, frame, mod):
            if o.k != "v":
                res.append(o)
                continue
            res.extend(self.ev(node.body if o.v else node.orelse, o.st, frame, mod))
        return res

    def ev_cond(self, node, st, frame, mod):
        """Evaluates a condition and forks: outcome value is a Python bool."""
        if isinstance(node, ast.BoolOp):
            stop = isinstance(node.op, ast.Or)
            outs = [Out("v", st, not stop)]
            final = []
            for v in node.values:
                new = []
                for o in outs:
                    for p in self.ev_cond(v, o.st, frame, mod):
                        if p.k != "v" or p.v == stop:
                            final.append(p)
                        else:
                            new.append(p)
                outs = new
            return final + outs
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [Out("v", o.st, not o.v) if o.k == "v" else o for o in self.ev_cond(node.operand, st, frame, mod)]
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("any", "all") and len(
                node.args) == 1 and isinstance(node.args[0], (ast.GeneratorExp, ast.ListComp)) and self.lookup(
                    node.func.id, st, frame, mod).op == "ext":
            return self.ev_quant(node, st, frame, mod)
        res = []
        for o in self.ev(node, st, frame, mod):
            if o.k != "v":
                res.append(o)
                continue
            for s, b in self.branch(o.st, o.v):
                res.append(Out("v", s, b))
        return res

    def expand_listing(self, outs, node):
        if not self.cfg.listing:
            return outs
        res = []
        for o in outs:
            mat = self.materialise(o.v, o.st, node) if o.k == "v" else None
            if mat is None:
                res.append(o)
            else:
                res.extend(Out("v", s, r) for s, r in mat)
        return res

    def ev_quant(self, node, st, frame, mod):
        n = len(self.frames)
        try:
            return self.ev_quant_(node, st, frame, mod)
        finally:
            del self.frames[n:]

    def ev_quant_(self, node, st, frame, mod):
        """any()/all() over a generator: unrolled over known items, otherwise a quantified fact."""
        stop = node.func.id == "any"
        gen = node.args[0]
        if len(gen.generators) != 1:
            return [Out("v", s, b) for s, b in self.branch(st, Sym("unknown", self.site(node)))]
        g = gen.generators[0]
        res = []
        for o in self.expand_listing(self.ev(g.iter, st, frame, mod), node):
            if o.k != "v":
                res.append(o)
                continue
            items = self.items_of(o.v, o.st)
            if items is None:
                fr = self.push_scope(o.st, node, frame, mod)
                el = Sym("elem", self.iterkey(o.v, o.st))
                s0 = o.st
                self.bind_target(g.target, el, s0, fr, mod)
                conds = [self.pure_term(c, s0, fr, mod) for c in g.ifs]
                body = self.pure_term(gen.elt, s0, fr, mod)
                t = Sym("exists" if stop else "forall", self.iterkey(o.v, o.st), Sym("and", *conds) if conds else TRUE, body)
                for s, b in self.branch(s0, t):
                    if b != stop:
                        s.facts[Sym("forall", self.iterkey(o.v, s), Sym("and", *conds) if conds else TRUE,
                                    body if b else (body.args[0] if body.op == "not" else Sym("not", body)))] = True
                    res.append(Out("v", s, b))
                continue
            fr = self.push_scope(o.st, node, frame, mod)
            live = [o.st]
            for it in items:
                nxt = []
                for s in live:
                    self.bind_target(g.target, it, s, fr, mod)
                    conds = [Out("v", s, True)]
                    for c in g.ifs:
                        conds = [q for p in conds for q in (self.ev_cond(c, p.st, fr, mod) if p.k == "v" and p.v else [p])]
                    for p in conds:
                        if p.k != "v":
                            res.append(p)
                        elif not p.v:
                            nxt.append(p.st)
                        else:
                            for q in self.ev_cond(gen.elt, p.st, fr, mod):
                                if q.k != "v":
                                    res.append(q)
                                elif q.v == stop:
                                    res.append(Out("v", q.st, stop))
                                else:
                                    nxt.append(q.st)
                live = nxt
            res.extend(Out("v", s, not stop) for s in live)
        return res

    def pure_term(self, node, st, frame, mod):
        """A single term for an expression, without forking (conditions become and/or/not terms)."""
        if isinstance(node, ast.BoolOp):
            ts = [self.pure_term(v, st, frame, mod) for v in node.values]
            return Sym("and" if isinstance(node.op, ast.And) else "or", *ts)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            t = self.pure_term(node.operand, st, frame, mod)
            return t.args[0] if t.op == "not" else Sym("not", t)
        outs = [o for o in self.ev(node, st.clone(), frame, mod) if o.k == "v"]
        if not outs:
            return Sym("unknown", self.site(node))
        vals = list(dict.fromkeys(o.v for o in outs))
        if len(vals) == 1:
            return vals[0]
        if all(v in (TRUE, FALSE) for v in vals):
            # a predicate function: rebuild the disjunction of the facts that led to True
            alts = []
            base = set(st.facts.items())
            for o in outs:
                if o.v is TRUE:
                    fs = [f if b else Sym("not", f) for f, b in o.st.facts.items() if (f, b) not in base]
                    alts.append(Sym("and", *sorted(fs, key=repr)) if len(fs) != 1 else fs[0])
            return Sym("or", *sorted(alts, key=repr)) if len(alts) != 1 else alts[0]
        return Sym("choice", *sorted(vals, key=repr))

    def push_scope(self, st, node, frame, mod):
        f = self.stack[-1] if self.stack else None
        fr = self.alloc(st, node, HFrame({}, frame, mod, f))
        self.frames.append(fr)
        return fr

    def iterkey(self, v, st):
        rec = st.heap.get(v) if v.op == "ref" else None
        if isinstance(rec, HSeq) and rec.origin is not None:
            return rec.origin
        return v

    def ev_BoolOp(self, node, st, frame, mod):
        stop = isinstance(node.op, ast.Or)
        outs = [Out("v", st, None)]
        final = []
        for i, v in enumerate(node.values):
            new = []
            last = i == len(node.values) - 1
            for o in outs:
                for p in self.ev(v, o.st, frame, mod):
                    if p.k != "v" or last:
                        final.append(p)
                        continue
                    for s, b in self.branch(p.st, p.v):
                        if b == stop:
                            val = p.v
                            if b and val.op in ("cmp", "not"):
                                val = TRUE
                            if not b and val.op in ("cmp", "not"):
                                val = FALSE
                            final.append(Out("v", s, val))
                        else:
                            new.append(Out("v", s, p.v))
            outs = new
        return final

    def ev_UnaryOp(self, node, st, frame, mod):
        res = []
        for o in self.ev(node.operand, st, frame, mod):
            if o.k != "v":
                res.append(o)
                continue
            if isinstance(node.op, ast.Not):
                k = self.truth(o.v, o.st)
                res.append(Out("v", o.st, C(not k) if k is not None else (o.v.args[0] if o.v.op == "not" else Sym("not", o.v))))
            elif is_const(o.v):
                v = o.v.args[0]
                try:
                    res.append(Out("v", o.st, C({ast.USub: lambda x: -x, ast.UAdd: lambda x: +x,
                                                 ast.Invert: lambda x: ~x}[type(node.op)](v))))
                except Exception:
                    res.append(Out("v", o.st, Sym("unknown", self.site(node))))
            else:
                res.append(Out("v", o.st, Sym("unop", type(node.op).__name__, o.v)))
        return res

    BINFOLD = {
        ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
        ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
        ast.Pow: lambda a, b: a**b if abs(b) < 64 else None, ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b,
        ast.BitXor: lambda a, b: a ^ b, ast.LShift: lambda a, b: a << b if b < 128 else None,
        ast.RShift: lambda a, b: a >> b,
    }

    def binop(self, op, a, b, st, node):
        r = self.binop_hook(op, a, b, st, node)
        if r is not None:
            return r
        t = type(op)
        if is_const(a) and is_const(b):
            try:
                v = self.BINFOLD[t](a.args[0], b.args[0])
                if v is not None:
                    return C(v)
            except Exception:
                pass
        if t is ast.Add:
            if self.stringy(a) or self.stringy(b):
                return self.concat([a, b])
            ia, ib = self.items_of(a, st, strings=False), self.items_of(b, st, strings=False)
            if a.op == "tuple" and b.op == "tuple":
                return Sym("tuple", *(a.args + b.args))
            ra, rb = st.heap.get(a), st.heap.get(b)
            if isinstance(ra, HSeq) and isinstance(rb, HSeq):
                return self.alloc(st, node, HSeq(ra.kind, ra.items + rb.items, ra.exact and rb.exact))
            if (isinstance(ra, HSeq) or isinstance(rb, HSeq)):
                k = (ra or rb).kind
                return self.alloc(st, node, HSeq(k, (ra.items if ra else (Sym("elem", a), )) +
                                                 (rb.items if rb else (Sym("elem", b), )), False))
            if is_const(b) and isinstance(b.args[0], (int, float)) and b.args[0] == 0:
                return a
            return self.linear(a, b, 1)
        if t is ast.Sub:
            return self.linear(a, b, -1)
        if t is ast.Mod and is_const(a) and isinstance(a.args[0], str):
            return self.percent(a.args[0], b)
        if t is ast.Div:
            return self.div(a, b)
        if t in (ast.BitOr, ast.BitAnd, ast.BitXor):
            return self.bitop(t, a, b)
        if t is ast.Mult:
            ra = st.heap.get(a)
            if isinstance(ra, HSeq):
                if is_const(b) and isinstance(b.args[0], int) and b.args[0] < 100 and ra.exact:
                    return self.alloc(st, node, HSeq(ra.kind, ra.items * b.args[0], True))
                return self.alloc(st, node, HSeq(ra.kind, ra.items, False))
            if a.op == "tuple" and is_const(b) and isinstance(b.args[0], int):
                return Sym("tuple", *(a.args * b.args[0]))
        return Sym("binop", t.__name__, a, b)

    def binop_hook(self, op, a, b, st, node):
        return None

    def bitop(self, t, a, b):
        parts = []
        nm = t.__name__
        for x in (a, b):
            if x.op == "bits" and x.args[0] == nm:
                parts.extend(x.args[1:])
            elif is_const(x) and x.args[0] == 0 and nm in ("BitOr", "BitXor"):
                continue
            else:
                parts.append(x)
        parts = sorted(set(parts), key=repr)
        if not parts:
            return C(0)
        if len(parts) == 1:
            return parts[0]
        return Sym("bits", nm, *parts)

    def linear(self, a, b, sign):
        """Canonical sum of terms: Sym('sum', const, (term, coef)...)."""
        coef, const = {}, 0

        def add(t, s):
            nonlocal const
            if is_const(t) and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool):
                const += s * t.args[0]
            elif t.op == "sum":
                const += s * t.args[0].args[0]
                for x in t.args[1:]:
                    coef[x.args[0]] = coef.get(x.args[0], 0) + s * x.args[1]
            else:
                coef[t] = coef.get(t, 0) + s
        add(a, 1)
        add(b, sign)
        items = [(t, c) for t, c in coef.items() if c]
        if not items:
            return C(const)
        if const == 0 and len(items) == 1 and items[0][1] == 1:
            return items[0][0]
        return Sym("sum", C(const), *[Sym("mul", t, c) for t, c in sorted(items, key=repr)])

    def div(self, a, b):
        if a.op == "path" and is_const(b) and isinstance(b.args[0], str):
            return Sym("path", os.path.join(a.args[0], b.args[0]))
        if a.op == "div":
            return Sym("div", *(a.args + (b, )))
        return Sym("div", a, b)

    def percent(self, fmt, b):
        args = list(b.args) if b.op == "tuple" else [b]
        if all(is_const(x) for x in args):
            try:
                return C(fmt % tuple(x.args[0] for x in args))
            except Exception:
                pass
        out, i, buf = [], 0, ""
        j = 0
        while j < len(fmt):
            if fmt[j] == "%" and j + 1 < len(fmt):
                if fmt[j + 1] == "%":
                    buf += "%"
                elif fmt[j + 1] in "sdr" and i < len(args):
                    out.append(C(buf))
                    buf = ""
                    out.append(args[i] if fmt[j + 1] != "r" else Sym("call", "repr", args[i]))
                    i += 1
                else:
                    return Sym("call", "percent", C(fmt), *args)
                j += 2
                continue
            buf += fmt[j]
            j += 1
        out.append(C(buf))
        return self.concat(out)

    def stringy(self, t):
        if is_const(t):
            return isinstance(t.args[0], (str, bytes))
        return t.op == "concat" or (t.op == "call" and t.args[0] in STR_CALLS)

    def ev_BinOp(self, node, st, frame, mod):
        res = []
        for o in self.evs([node.left, node.right], st, frame, mod):
            if o.k != "v":
                res.append(o)
                continue
            res.extend(self.arith(node.op, o.v[0], o.v[1], o.st, node))
        return res

    DUNDER = {ast.Add: "__add__", ast.Sub: "__sub__", ast.MatMult: "__matmul__", ast.BitOr: "__or__", ast.Div: "__truediv__",
              ast.Mult: "__mul__", ast.BitAnd: "__and__", ast.Mod: "__mod__"}

    def arith(self, op, a, b, st, node):
        rec = st.heap.get(a)
        if self.cfg.tainted is not None:
            bad = [o for x in (a, b) for o in self.shape_fault(x, ("int", "float", "str"), "arithmetic", st, node, ("TypeError", ))]
            if bad:
                return bad + [Out("v", st, self.binop(op, a, b, st, node))]
        if isinstance(rec, HInst) and type(op) in self.DUNDER:
            m = self.find_member(rec.cls, self.DUNDER[type(op)])
            if m is not None:
                return self.call_value(Sym("bound", m, a), [b], {}, st, node)
        return [Out("v", st, self.binop(op, a, b, st, node))]

    def shape_fault(self, t, kinds, what, st, node, excs):
        """Exceptional outcomes of an operation on disk content whose shape was not established."""
        if self.cfg.tainted is None or not self.cfg.tainted(t):
            return []
        for f, b in st.facts.items():
            if b and f.op == "call" and f.args[0] == "isinstance" and f.args[1] is t and len(f.args) == 3:
                if f.args[2].op == "ext" and f.args[2].args[0].split(".")[-1] in kinds:
                    return []
        outs = []
        for e in excs:
            s = st.clone()
            self.emit(s, "raised " + what, [t], {}, None, node, e)
            outs.append(Out("r", s, Sym("exc", e, False, frozenset(), (("site", self.site(node)), ("call", what)))))
        return outs

    CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
              ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}

    def ev_Compare(self, node, st, frame, mod):
        res = []
        for o in self.evs([node.left] + node.comparators, st, frame, mod):
            if o.k != "v":
                res.append(o)
                continue
            ts = []
            if self.cfg.tainted is not None:
                for i, op in enumerate(node.ops):
                    if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                        for x in o.v[i:i + 2]:
                            res.extend(self.shape_fault(x, ("int", "float"), "comparison", o.st, node, ("TypeError", )))
                    if isinstance(op, (ast.In, ast.NotIn)):
                        res.extend(self.shape_fault(o.v[i + 1], ("dict", "list", "str"), "containment", o.st, node, ("TypeError", )))
            for i, op in enumerate(node.ops):
                ts.append(self.mkcmp(self.CMPOPS[type(op)], o.v[i], o.v[i + 1], o.st))
            if len(ts) == 1:
                res.append(Out("v", o.st, ts[0]))
                continue
            live = [o.st]
            for t in ts:
                nxt = []
                for s in live:
                    for s2, b in self.branch(s, t):
                        if b:
                            nxt.append(s2)
                        else:
                            res.append(Out("v", s2, FALSE))
                live = nxt
            res.extend(Out("v", s, TRUE) for s in live)
        return res

    def ev_NamedExpr(self, node, st, frame, mod):
        res = []
        for o in self.ev(node.value, st, frame, mod):
            if o.k == "v":
                self.bind_target(node.target, o.v, o.st, frame, mod)
            res.append(o)
        return res

    def ev_Subscript(self, node, st, frame, mod):
        if isinstance(node.slice, ast.Slice):
            parts = [x for x in (node.slice.lower, node.slice.upper, node.slice.step)]
            nodes = [node.value] + [p for p in parts if p is not None]
            res = []
            for o in self.evs(nodes, st, frame, mod):
                if o.k != "v":
                    res.append(o)
                    continue
                vals = iter(o.v[1:])
                lo, hi, step = [next(vals) if p is not None else NONE for p in parts]
                res.append(Out("v", o.st, self.slice(o.v[0], lo, hi, step, o.st, node)))
            return res
        res = []
        for o in self.evs([node.value, node.slice], st, frame, mod):
            if o.k != "v":
                res.append(o)
                continue
            res.extend(self.subscript(o.v[0], o.v[1], o.st, node))
        return res

    def slice(self, base, lo, hi, step, st, node):
        items = self.items_of(base, st, strings=False)
        cs = [x.args[0] if is_const(x) else "?" for x in (lo, hi, step)]
        if "?" not in cs:
            if base.op == "const" and isinstance(base.args[0], (str, bytes)):
                return C(base.args[0][slice(*cs)])
            if items is not None:
                sub = items[slice(*cs)]
                if base.op == "tuple":
                    return Sym("tuple", *sub)
                return self.alloc(st, node, HSeq("list", sub, True))
        rec = st.heap.get(base)
        if isinstance(rec, HSeq):
            return self.alloc(st, node, HSeq("list", rec.items, False))
        return Sym("slice", base, lo, hi, step)

    def subscript(self, base, idx, st, node):
        rec = st.heap.get(base) if base.op == "ref" else None
        if isinstance(rec, HDict):
            if idx in rec.items:
                return [Out("v", st, rec.items[idx])]
            if rec.exact and ground(idx) and all(ground(k) for k in rec.items):
                return [Out("r", st, self.mkexc("KeyError"))]
            outs = []
            if self.cfg.exceptions and self.cfg.lookup_raises:
                outs.append(Out("r", st.clone(), self.mkexc("KeyError")))
            outs.append(Out("v", st, Sym("sub", base, idx)))
            return outs
        if self.cfg.tainted is not None and self.cfg.tainted(base):
            outs = self.shape_fault(base, ("dict", ), "subscript", st, node, ("TypeError", "IndexError"))
            known = False
            for f, b in st.facts.items():
                if b and f.op == "cmp" and f.args[0] == "==":
                    for x, y in ((f.args[1], f.args[2]), (f.args[2], f.args[1])):
                        if x is Sym("set~", base) and y.op == "setof" and idx in y.args:
                            known = True
                elif b and f.op == "cmp" and f.args[0] == "in" and f.args[1] is idx and f.args[2] is base:
                    known = True
            if not known:
                s = st.clone()
                outs.append(Out("r", s, Sym("exc", "KeyError", False, frozenset(), (("site", self.site(node)), ("call", "subscript")))))
            return outs + [Out("v", st, Sym("sub", base, idx))]
        items = self.items_of(base, st)
        if items is not None and is_const(idx) and isinstance(idx.args[0], int):
            i = idx.args[0]
            if -len(items) <= i < len(items):
                return [Out("v", st, items[i])]
            return [Out("r", st, self.mkexc("IndexError"))]
        if isinstance(rec, HInst):
            m = self.find_member(rec.cls, "__getitem__")
            if m is not None:
                return self.call_value(Sym("bound", m, base), [idx], {}, st, node)
        if isinstance(rec, HSeq) and is_const(idx) and isinstance(idx.args[0], int) and 0 <= idx.args[0] < len(
                rec.items) and rec.kind == "list" and rec.exact:
            return [Out("v", st, rec.items[idx.args[0]])]
        if items is not None and items and len(set(items)) == 1 and not self.cfg.lookup_raises:
            return [Out("v", st, items[0])]
        outs = []
        if self.cfg.exceptions and self.cfg.lookup_raises:
            outs.append(Out("r", st.clone(), self.mkexc("LookupError", True)))
        outs.append(Out("v", st, Sym("sub", base, idx)))
        return outs

    def ev_Attribute(self, node, st, frame, mod):
        res = []
        for o in self.ev(node.value, st, frame, mod):
            if o.k != "v":
                res.append(o)
                continue
            res.extend(self.getattr(o.v, node.attr, o.st, node))
        return res

    def find_member(self, cls, name):
        """Resolves a class attribute through the MRO -> func Sym or ('expr', node, module)."""
        for k in self.mro(cls):
            if k.op != "class":
                continue
            ci = self.classes[k]
            m = ci.members.get(name)
            if m is None:
                continue
            if isinstance(m, ast.FunctionDef):
                return self.func_sym(m, ci.module, ci, None)
            if isinstance(m, ast.ClassDef):
                return self.class_sym(ci.module, m)
            if isinstance(m, (ast.Assign, ast.AnnAssign)):
                if m.value is None:
                    return None
                return self.class_attr(ci, name, m)
        return None

    def class_attr(self, ci, name, m):
        key = (ci.module.name, ci.name + "." + name)
        if key not in self.static:
            self.static[key] = (Sym("unknown", name), {})
            st = State()
            outs = [o for o in self.ev(m.value, st, None, ci.module) if o.k == "v"]
            v, heap = (outs[0].v if outs else Sym("unknown", name)), {}
            if outs:
                ren, own = {}, "global:%s.%s" % key
                for r in self.reach(outs[0].st, [v]):
                    if r in outs[0].st.heap:
                        ren[r] = Sym("ref", own, len(ren))
                for r, n in ren.items():
                    heap[n] = self.rename_rec(outs[0].st.heap[r], ren, own)
                v = self.rename(v, ren)
            self.static[key] = (v, heap)
        return self.static[key][0]

    def decorators(self, fi):
        out = []
        for d in getattr(fi.node, "decorator_list", []):
            n = d.func if isinstance(d, ast.Call) else d
            out.append(n.attr if isinstance(n, ast.Attribute) else getattr(n, "id", ""))
        return out

    def getattr(self, base, name, st, node):
        op = base.op
        if op == "ref":
            rec = st.heap.get(base)
            if isinstance(rec, HInst):
                if name in rec.attrs:
                    return [Out("v", st, rec.attrs[name])]
                if name == "__class__":
                    return [Out("v", st, rec.cls)]
                m = self.find_member(rec.cls, name)
                if m is not None:
                    return self.bind_member(m, base, rec.cls, st, node)
                return self.opaque_attr(base, name, st, node)
            if rec is not None:
                return [Out("v", st, Sym("bound", Sym("ext", "." + name), base))]
        if op == "mod":
            m = self.repo.find(base.args[0])
            v = self.module_lookup(m, name, st)
            if v is None:
                sub = self.repo.find(base.args[0] + "." + name)
                v = Sym("mod", sub.name) if sub is not None else Sym("unknown", base.args[0] + "." + name)
            return [Out("v", st, v)]
        if op == "ext":
            full = base.args[0] + "." + name
            if full in self.cfg.const_attrs:
                return [Out("v", st, self.cfg.const_attrs[full])]
            if full in EXT_CONST:
                return [Out("v", st, C(EXT_CONST[full]))]
            return [Out("v", st, Sym("ext", full))]
        if op == "class":
            m = self.find_member(base, name)
            if m is not None:
                fi = self.funcs.get(m)
                if fi is not None and "classmethod" in self.decorators(fi):
                    return [Out("v", st, Sym("bound", m, base))]
                self.static_heap_into(st)
                return [Out("v", st, m)]
            if name == "__name__":
                return [Out("v", st, C(base.args[1]))]
            return [Out("v", st, Sym("attr", base, name))]
        if op == "super":
            cls, self_ = base.args
            rec = st.heap.get(self_)
            real = rec.cls if isinstance(rec, HInst) else cls
            mro = self.mro(real)
            tail = mro[mro.index(cls) + 1:] if cls in mro else self.mro(cls)[1:]
            for k in tail:
                if k.op == "class":
                    ci = self.classes[k]
                    m = ci.members.get(name)
                    if isinstance(m, ast.FunctionDef):
                        f = self.func_sym(m, ci.module, ci, None)
                        if "staticmethod" in self.decorators(self.funcs[f]):
                            return [Out("v", st, f)]
                        return [Out("v", st, Sym("bound", f, self_))]
                elif k.op == "ext":
                    return [Out("v", st, Sym("bound", Sym("ext", k.args[0] + "." + name), self_))]
            return [Out("v", st, Sym("bound", Sym("ext", "builtins.object." + name), self_))]
        return self.opaque_attr(base, name, st, node)

    def static_heap_into(self, st):
        for (k, (v, heap)) in self.static.items():
            for r, rec in heap.items():
                if r not in st.heap:
                    st.heap[r] = rec

    def bind_member(self, m, base, cls, st, node):
        if m.op == "func":
            fi = self.funcs[m]
            decs = self.decorators(fi)
            if "staticmethod" in decs:
                return [Out("v", st, m)]
            if "classmethod" in decs:
                return [Out("v", st, Sym("bound", m, cls))]
            if "property" in decs or "cached_property" in decs:
                return self.call_func(m, [base], {}, st, node)
            return [Out("v", st, Sym("bound", m, base))]
        self.static_heap_into(st)
        return [Out("v", st, m)]

    def opaque_attr(self, base, name, st, node):
        if base.op == "path":
            p = base.args[0]
            if name == "parent":
                return [Out("v", st, Sym("path", os.path.dirname(p)))]
            if name == "name":
                return [Out("v", st, C(os.path.basename(p)))]
            if name == "stem":
                return [Out("v", st, C(os.path.splitext(os.path.basename(p))[0]))]
            if name == "suffix":
                return [Out("v", st, C(os.path.splitext(p)[1]))]
            if name == "parts":
                return [Out("v", st, Sym("tuple", *[C(x) for x in (["/"] if p.startswith("/") else []) + [y for y in p.split("/") if y]]))]
        if base.op == "relpath" and name == "parts":
            return [Out("v", st, Sym("tuple", *base.args))]
        if base.op == "div" and name == "parent":
            return [Out("v", st, Sym("div", *base.args[:-1]) if len(base.args) > 2 else base.args[0])]
        if base.op == "div" and name == "name":
            return [Out("v", st, base.args[-1])]
        if is_const(base):
            return [Out("v", st, Sym("bound", Sym("ext", "." + name), base))]
        if base.op == "exc":
            pl = dict(base.args[3]) if base.args[3] and isinstance(base.args[3][0], tuple) else {}
            if name in pl:
                return [Out("v", st, pl[name])]
        return [Out("v", st, Sym("attr", base, name))]

    # comprehensions
    def ev_ListComp(self, node, st, frame, mod):
        return self.comp(node, [node.elt], "list", st, frame, mod)

    def ev_SetComp(self, node, st, frame, mod):
        return self.comp(node, [node.elt], "set", st, frame, mod)

    def ev_GeneratorExp(self, node, st, frame, mod):
        return self.comp(node, [node.elt], "gen", st, frame, mod)

    def ev_DictComp(self, node, st, frame, mod):
        return self.comp(node, [node.key, node.value], "dict", st, frame, mod)

    def comp(self, node, elts, kind, st, frame, mod):
        fr = self.push_scope(st, node, frame, mod)
        saved, self.comp_kind = self.comp_kind, kind
        outs = self.comp_gen(node.generators, 0, elts, st, fr, mod, [], True)
        self.comp_kind = saved
        self.frames.pop()
        res = []
        for o in outs:
            if o.k != "v":
                res.append(o)
                continue
            items, exact, origin = o.v
            if kind == "dict":
                res.append(Out("v", o.st, self.alloc(o.st, node, HDict({i.args[0]: i.args[1] for i in items}, exact))))
            else:
                rec = HSeq("list" if kind == "gen" else kind, items if kind != "set" else list(dict.fromkeys(items)), exact,
                           origin=origin)
                res.append(Out("v", o.st, self.alloc(o.st, node, rec)))
        return res

    def comp_gen(self, gens, i, elts, st, fr, mod, acc, exact):
        self.inflight.append(tuple(acc))
        try:
            return self.comp_gen_(gens, i, elts, st, fr, mod, acc, exact)
        finally:
            self.inflight.pop()

    def comp_gen_(self, gens, i, elts, st, fr, mod, acc, exact):
        """-> outs with (items, exact, origin)"""
        if i == len(gens):
            res = []
            for o in self.evs(elts, st, fr, mod):
                if o.k != "v":
                    res.append(o)
                else:
                    v = o.v[0] if len(elts) == 1 else Sym("tuple", *o.v)
                    res.append(Out("v", o.st, (acc + [v], exact, None)))
            return res
        g = gens[i]
        res = []
        srcs = self.ev(g.iter, st, fr, mod)
        if self.comp_kind != "set":
            srcs = self.expand_listing(srcs, g.iter)
        for o in srcs:
            if o.k != "v":
                res.append(o)
                continue
            if o.v.op == "ref" and isinstance(o.st.heap.get(o.v), HInst):
                o = Out("v", o.st, Sym("call", "iter", o.v))
            items = self.items_of(o.v, o.st)
            if items is None:
                key = self.iterkey(o.v, o.st)
                rec = o.st.heap.get(o.v)
                samples = [Sym("elem", key)]
                if isinstance(rec, HSeq) and rec.items:
                    samples = list(rec.items)
                cur = [Out("v", o.st, (acc, False, None))]
                for el in samples:
                    nxt = []
                    for c in cur:
                        if c.k != "v":
                            nxt.append(c)
                            continue
                        # summary of the comprehension: items possibly included, filter recorded in the origin term
                        s = c.st
                        self.bind_target(g.target, el, s, fr, mod)
                        conds = [self.pure_term(x, s, fr, mod) for x in g.ifs]
                        origin = Sym("compr", key, *conds)
                        for p in self.comp_gen(gens, i + 1, elts, s, fr, mod, c.v[0], False):
                            if p.k != "v":
                                nxt.append(p)
                            else:
                                v = p.v[0][-1] if p.v[0] else None
                                org = origin if conds else None
                                if v is not None and len(gens) == 1:
                                    org = Sym("compr", key, *(tuple(conds) + (Sym("yield", v), ))) if (conds or v is not el) else key
                                nxt.append(Out("v", p.st, (p.v[0], False, org)))
                    cur = nxt
                res.extend(cur)
                continue
            cur = [Out("v", o.st, (acc, exact, None))]
            self.inflight[-1] = tuple(acc) + tuple(items)
            for it in items:
                nxt = []
                for c in cur:
                    if c.k != "v":
                        nxt.append(c)
                        continue
                    self.bind_target(g.target, it, c.st, fr, mod)
                    conds = [Out("v", c.st, True)]
                    for x in g.ifs:
                        conds = [q for p in conds for q in (self.ev_cond(x, p.st, fr, mod) if p.k == "v" and p.v else [p])]
                    for p in conds:
                        if p.k != "v":
                            nxt.append(p)
                        elif p.v:
                            nxt.extend(self.comp_gen(gens, i + 1, elts, p.st, fr, mod, c.v[0], c.v[1]))
                        else:
                            nxt.append(Out("v", p.st, c.v))
                cur = nxt
            res.extend(cur)
        return res

    def ev_Starred(self, node, st, frame, mod):
        return [Out("v", o.st, Sym("starred", o.v)) if o.k == "v" else o for o in self.ev(node.value, st, frame, mod)]

    def ev_Await(self, node, st, frame, mod):
        return self.ev(node.value, st, frame, mod)

    def ev_Yield(self, node, st, frame, mod):
        outs = self.ev(node.value, st, frame, mod) if node.value is not None else [Out("v", st, NONE)]
        res = []
        for o in outs:
            if o.k != "v":
                res.append(o)
            else:
                res.extend(self.do_yield(o.v, o.st, node))
        return res

    def ev_YieldFrom(self, node, st, frame, mod):
        res = []
        for o in self.ev(node.value, st, frame, mod):
            if o.k != "v":
                res.append(o)
                continue
            items = self.items_of(o.v, o.st)
            if items is None:
                items = [Sym("elem", self.iterkey(o.v, o.st))]
            cur = [Out("v", o.st, NONE)]
            for it in items:
                cur = [q for c in cur for q in (self.do_yield(it, c.st, node) if c.k == "v" else [c])]
            res.extend(cur)
        return res

    def do_yield(self, v, st, node):
        if self.cmstack and self.cmstack[-1][0] == len(self.stack):
            return self.cmstack[-1][1](v, st)
        key = ("yields", len(self.stack))
        st.aux[key] = st.aux.get(key, ()) + (v, )
        return [Out("v", st, NONE)]

    # ------------------------------------------------------------- calls
    def ev_Call(self, node, st, frame, mod):
        f = node.func
        # super()
        if isinstance(f, ast.Name) and f.id == "super" and not node.args:
            fi, fr = self.cur_method(st, frame)
            if fi is not None:
                selfname = fi.node.args.args[0].arg
                return [Out("v", st, Sym("super", self.class_sym(fi.module, fi.cls.node), self.lookup(selfname, st, frame, mod)))]
        if isinstance(f, ast.Name) and f.id in ("any", "all") and len(node.args) == 1 and isinstance(
                node.args[0], (ast.GeneratorExp, ast.ListComp)):
            return [Out("v", o.st, C(o.v)) if o.k == "v" else o for o in self.ev_cond(node, st, frame, mod)]
        if isinstance(f, ast.Name) and f.id == "locals" and not node.args:
            return [Out("v", st, Sym("unknown", "locals"))]
        res = []
        for o in self.ev(f, st, frame, mod):
            if o.k != "v":
                res.append(o)
                continue
            fv = o.v
            self.inflight.append((fv, ))
            argouts = self.evs(node.args, o.st, frame, mod)
            self.inflight.pop()
            for p in argouts:
                if p.k != "v":
                    res.append(p)
                    continue
                kouts = [Out("v", p.st, {})]
                for kw in node.keywords:
                    new = []
                    for q in kouts:
                        if q.k != "v":
                            new.append(q)
                            continue
                        for r in self.ev_hold([fv] + p.v + list(q.v.values()), kw.value, q.st, frame, mod):
                            if r.k != "v":
                                new.append(r)
                                continue
                            d = dict(q.v)
                            if kw.arg is None:
                                rec = r.st.heap.get(r.v)
                                if isinstance(rec, HDict):
                                    for k2, v2 in rec.items.items():
                                        if is_const(k2):
                                            d[k2.args[0]] = v2
                                    if not rec.exact:
                                        d["**"] = r.v
                                else:
                                    d["**"] = r.v
                            else:
                                d[kw.arg] = r.v
                            new.append(Out("v", r.st, d))
                    kouts = new
                for q in kouts:
                    if q.k != "v":
                        res.append(q)
                    else:
                        res.extend(self.call_value(fv, list(p.v), q.v, q.st, node))
        return res

    def cur_method(self, st, frame):
        f = frame
        while f is not None:
            rec = st.heap[f]
            if rec.func is not None and rec.func.cls is not None:
                return rec.func, f
            f = rec.parent
        return None, None

    def is_opaque(self, qual):
        for o in self.cfg.opaque:
            if qual == o or qual.endswith("." + o) or qual.endswith(":" + o):
                return True
        return False

    def call_value(self, fv, args, kw, st, node):
        self.stats["calls"] += 1
        if fv.op == "func":
            return self.call_func(fv, args, kw, st, node)
        if fv.op == "bound":
            f, s = fv.args
            if f.op == "func":
                return self.call_func(f, [s] + args, kw, st, node)
            if f.op == "ext" and f.args[0].startswith("."):
                return self.libcall(f.args[0], [s] + args, kw, st, node)
            if f.op == "ext":
                return self.libcall(f.args[0], [s] + args, kw, st, node)
            return self.libcall("?" + show(f), [s] + args, kw, st, node)
        if fv.op == "class":
            return self.instantiate(fv, args, kw, st, node)
        if fv.op == "ext":
            return self.libcall(fv.args[0], args, kw, st, node)
        if fv.op == "attr":
            return self.libcall("." + fv.args[1], [fv.args[0]] + args, kw, st, node)
        if fv.op == "partial":
            f, a0, k0 = fv.args
            d = dict(k0)
            d.update(kw)
            return self.call_value(f, list(a0) + args, d, st, node)
        if fv.op == "ref":
            rec = st.heap.get(fv)
            if isinstance(rec, HInst):
                m = self.find_member(rec.cls, "__call__")
                if m is not None:
                    return self.call_func(m, [fv] + args, kw, st, node)
        if fv.op == "choice":
            res = []
            for i, f in enumerate(fv.args):
                res.extend(self.call_value(f, args, kw, st.clone() if i else st, node))
            return res
        return self.libcall("?call", [fv] + args, kw, st, node)

    def instantiate(self, cls, args, kw, st, node):
        self.inflight.append(())
        try:
            return self.instantiate_(cls, args, kw, st, node)
        finally:
            self.inflight.pop()

    def instantiate_(self, cls, args, kw, st, node):
        ci = self.classes[cls]
        bases = self.mro(cls)
        mros = self.exc_mro(cls)
        if "BaseException" in mros:
            name = mros[0]
            payload = ()
            init = self.find_member(cls, "__init__")
            ref = self.alloc(st, node, HInst(cls, {"args": Sym("tuple", *args)}))
            self.inflight[-1] = (ref, )
            if init is not None:
                res = []
                for o in self.call_func(init, [ref] + args, kw, st, node):
                    if o.k == "v":
                        res.append(Out("v", o.st, Sym("exc", name, False, frozenset(), (("args", ref), ))))
                    else:
                        res.append(o)
                return res
            return [Out("v", st, Sym("exc", name, False, frozenset(), (("args", ref), )))]
        if self.is_opaque(ci.module.name + ":" + ci.name):
            return self.libcall("new " + ci.name, args, kw, st, node)
        ref = self.alloc(st, node, HInst(cls, {}))
        self.inflight[-1] = (ref, )
        self.emit(st, "new", [cls] + args, kw, ref, node)
        init = self.find_member(cls, "__init__")
        if init is not None:
            res = []
            for o in self.call_func(init, [ref] + args, kw, st, node):
                res.append(Out("v", o.st, ref) if o.k == "v" else o)
            return res
        # dataclass / NamedTuple
        fields = []
        nt = False
        for k in reversed(bases):
            if k.op == "class":
                if self.classes[k].is_dataclass():
                    fields += [(n, d, self.classes[k]) for n, d in self.classes[k].fields()]
            if k.op == "ext" and k.args[0].endswith("NamedTuple"):
                nt = True
        if nt:
            fields = [(n, d, ci) for n, d in ci.fields()]
        if fields:
            attrs = {}
            names = [f[0] for f in fields]
            for n, a in zip(names, args):
                attrs[n] = a
            for n, a in kw.items():
                attrs[n] = a
            for n, d, c in fields:
                if n not in attrs and d is not None:
                    outs = [o for o in self.ev(d, st, None, c.module) if o.k == "v"]
                    attrs[n] = outs[0].v if outs else Sym("unknown", n)
            if nt:
                attrs["_fields"] = Sym("tuple", *[C(n) for n in names])
            st.heap[ref] = HInst(cls, attrs)
            post = self.find_member(cls, "__post_init__")
            if post is not None:
                return [Out("v", o.st, ref) if o.k == "v" else o for o in self.call_func(post, [ref], {}, st, node)]
        return [Out("v", st, ref)]

    def bind_args(self, fi, args, kw, st, frame_ref, node):
        a = fi.node.args
        vars = {}
        pos = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
        rest = list(args)
        star = None
        if any(x.op == "starred" for x in rest):
            i = [x.op for x in rest].index("starred")
            star = rest[i]
            rest = rest[:i]
        for n in pos:
            if rest:
                vars[n] = rest.pop(0)
            elif star is not None and n not in kw:
                vars[n] = Sym("elem", star.args[0])
        if a.vararg:
            vars[a.vararg.arg] = Sym("tuple", *rest) if star is None else star.args[0]
        elif rest:
            return None
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in pos or k in kwonly:
                vars[k] = v
            elif k == "**":
                for n in pos + kwonly:
                    if n not in vars:
                        vars[n] = Sym("sub", v, C(n))
            else:
                extra[k] = v
        if a.kwarg:
            vars[a.kwarg.arg] = self.alloc(st, node, HDict({C(k): v for k, v in extra.items()}, True))
        defaults = a.defaults
        off = len(pos) - len(defaults)
        for i, d in enumerate(defaults):
            n = pos[off + i]
            if n not in vars:
                vars[n] = self.default_value(d, fi, st)
        for n, d in zip(kwonly, a.kw_defaults):
            if n not in vars and d is not None:
                vars[n] = self.default_value(d, fi, st)
        for n in pos + kwonly:
            if n not in vars:
                vars[n] = Sym("missing", n)
        return vars

    def default_value(self, d, fi, st):
        key = (fi.module.name, fi.qual, d.lineno, d.col_offset, "default")
        if isinstance(d, ast.Constant):
            return C(d.value)
        if key not in self.static:
            tmp = State()
            outs = [o for o in self.ev(d, tmp, None, fi.module) if o.k == "v"]
            if outs:
                ren = {r: Sym("ref", "default:" + fi.qual + ":%d" % d.col_offset, i)
                       for i, r in enumerate(x for x in self.reach(outs[0].st, [outs[0].v]) if x in outs[0].st.heap)}
                heap = {n: self.rename_rec(outs[0].st.heap[r], ren, "default:" + fi.qual) for r, n in ren.items()}
                self.static[key] = (self.rename(outs[0].v, ren), heap)
            else:
                self.static[key] = (Sym("unknown", "default"), {})
        v, heap = self.static[key]
        for r, rec in heap.items():
            st.heap.setdefault(r, rec)
        return v

    def is_generator(self, fn):
        if isinstance(fn, ast.Lambda):
            return False
        if hasattr(fn, "_wt_gen"):
            return fn._wt_gen
        todo = list(fn.body)
        r = False
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(n))
        fn._wt_gen = r
        return r

    def call_func(self, fsym, args, kw, st, node, cm_body=None):
        fi = self.funcs[fsym]
        if self.is_opaque(fi.qual):
            return self.libcall("fn:" + fi.qual.split(":")[1], args, kw, st, node)
        hook = self.cfg.models.get("fn:" + fi.qual)
        if hook is not None:
            r = hook(self, args, kw, st, node)
            if r is not None:
                return r
        decs = self.decorators(fi)
        if cm_body is None and {"lru_cache", "cache"} & set(decs):
            mkey = ("memo", fi.qual, tuple(args), tuple(sorted(kw.items())))
            if mkey in st.aux:
                return [Out("v", st, st.aux[mkey])]
            outs = self.call_func_(fsym, fi, decs, args, kw, st, node, cm_body)
            for o in outs:
                if o.k == "v":
                    o.st.aux[mkey] = o.v
            return outs
        return self.call_func_(fsym, fi, decs, args, kw, st, node, cm_body)

    def call_func_(self, fsym, fi, decs, args, kw, st, node, cm_body):
        if "contextmanager" in decs and cm_body is None:
            return [Out("v", st, Sym("cm", fsym, tuple(args), tuple(sorted(kw.items()))))]
        if len(self.stack) >= self.cfg.max_depth or sum(1 for f in self.stack if f is fi) >= 3:
            self.stats["unknown"].add("recursion:" + fi.qual)
            return self.libcall("?rec " + fi.qual, args, kw, st, node)
        self.stats["functions"].add(fi.qual)
        parent = fsym.args[4] if isinstance(fsym.args[4], Sym) else None
        vars = self.bind_args(fi, args, kw, st, None, node)
        if vars is None:
            return [Out("r", st, self.mkexc("TypeError"))]
        if any(v.op == "missing" for v in vars.values()):
            return [Out("r", st, self.mkexc("TypeError"))]
        fr = self.alloc(st, node, HFrame(vars, parent, fi.module, fi))
        self.stack.append(fi)
        self.frames.append(fr)
        self.inflight.append(tuple(args) + tuple(v for v in kw.values() if isinstance(v, Sym)))
        gen = self.is_generator(fi.node)
        ykey = ("yields", len(self.stack))
        saved_y = st.aux.get(ykey)
        if gen:
            st.aux[ykey] = ()
        if cm_body is not None:
            self.cmstack.append((len(self.stack), cm_body))
        try:
            if isinstance(fi.node, ast.Lambda):
                outs = [Out("ret", o.st, o.v) if o.k == "v" else o for o in self.ev(fi.node.body, st, fr, fi.module)]
            else:
                outs = self.block(fi.node.body, st, fr, fi.module)
        finally:
            self.stack.pop()
            self.frames.pop()
            self.inflight.pop()
            if cm_body is not None:
                self.cmstack.pop()
        res = []
        for o in outs:
            if o.k == "n":
                o = Out("v", o.st, NONE)
            elif o.k == "ret":
                o = Out("v", o.st, o.v)
            elif o.k in ("b", "c"):
                raise AnalysisError("break/continue outside loop in " + fi.qual)
            if gen and cm_body is None:
                ys = o.st.aux.pop(ykey, ())
                if saved_y is not None:
                    o.st.aux[ykey] = saved_y
                if o.k == "v":
                    exact = not o.st.aux.pop(("inexact", fr), False)
                    o = Out("v", o.st, self.alloc(o.st, node, HSeq("list", ys, exact)))
            res.append(o)
        if self.cfg.merge:
            res = self.merge(res)
        if len(res) > self.cfg.max_outs:
            raise AnalysisError("path explosion in %s: %d outcomes" % (fi.qual, len(res)))
        return res

    def merge(self, outs):
        """Joins outcomes that agree on value, observed events and live heap: their branch facts are intersected
        (must-facts), so every fact that survives holds on each of the joined paths."""
        if len(outs) < 2:
            return outs
        groups, order = {}, []
        for o in outs:
            self.gc(o)
            k = (o.k, self.exc_key(o.v), tuple(e.key() for e in o.st.events),
                 tuple(sorted([(id(r), rec.key()) for r, rec in o.st.heap.items()])),
                 frozenset((a, hkey(v)) for a, v in o.st.aux.items()) if o.st.aux else ())
            if not self.cfg.join:
                k += (frozenset(o.st.facts.items()), )
            g = groups.get(k)
            if g is None:
                groups[k] = g = []
                order.append(g)
            g.append(o)
        res = []
        for g in order:
            o = g[0]
            if len(g) > 1:
                st = o.st
                every = [p.st.facts for p in g]
                common = {f: b for f, b in every[0].items() if all(pf.get(f) is b for pf in every[1:])}
                if self.cfg.disj and len(g) <= self.cfg.disj:
                    alts = []
                    for pf in every:
                        x = frozenset((f, b) for f, b in pf.items() if common.get(f) is not b)
                        if not x or len(x) > 40:
                            alts = None
                            break
                        alts.append(x)
                    if alts:
                        d = Sym("cases", *sorted({Sym("case", *sorted((Sym("lit", f, b) for f, b in x), key=repr)) for x in alts}, key=repr))
                        if len(d.args) > 1:
                            common[d] = True
                st.facts = common
                for p in g[1:]:
                    for site, n in p.st.occ.items():
                        if st.occ.get(site, 0) < n:
                            st.occ[site] = n
                if st.events:
                    evs = []
                    for i, e in enumerate(st.events):
                        facts = e.facts
                        for p in g[1:]:
                            if p.st.events[i] is not e:
                                facts = facts & p.st.events[i].facts
                        evs.append(e if facts is e.facts else Event(e.name, e.args, e.kw, e.res, e.site, facts, e.stack, e.extra))
                    st.events = tuple(evs)
            res.append(o)
        return res

    @staticmethod
    def exc_key(v):
        if isinstance(v, Sym) and v.op == "exc":
            return ("exc", ) + v.args[:3] + (v.args[3] if v.args[3] and v.args[3][0][0] == "call" else (), )
        return v

    def gc(self, o):
        st = o.st
        roots = list(self.frames) + ([o.v] if isinstance(o.v, Sym) else []) + list(self.inflight)
        for e in st.events:
            roots.extend(e.args)
            if e.res is not None:
                roots.append(e.res)
        for k, v in st.aux.items():
            if isinstance(v, Sym):
                roots.append(v)
            elif isinstance(v, tuple):
                roots.extend(x for x in v if isinstance(x, (Sym, tuple)))
        live = set(self.reach(st, roots))
        for r in list(st.heap):
            if r not in live and not r.args[0].startswith(("global:", "module:", "default:")):
                del st.heap[r]
        if self.cfg.fact_gc:
            keep = self.cfg.fact_gc
            for f in list(st.facts):
                if callable(keep) and keep(f):
                    continue
                for x in subterms(f):
                    if x.op in ("res", "ref") and x not in live:
                        del st.facts[f]
                        break

    # ------------------------------------------------------------- library calls
    def libcall(self, name, args, kw, st, node):
        from . import models
        self.stats["libcalls"] += 1
        if self.cfg.listing and name in ITERATING:
            for i, a in enumerate(args):
                mat = self.materialise(a, st, node)
                if mat is not None:
                    res = []
                    for s, ref in mat:
                        self.inflight.append((ref, ) + tuple(args))
                        res.extend(self.libcall(name, args[:i] + [ref] + args[i + 1:], kw, s, node))
                        self.inflight.pop()
                    return res
        return models.call(self, name, args, kw, st, node)

    def result(self, st, name, node):
        s = self.site(node)
        return Sym("res", name, s, st.nexti(("r", s, name)))

    def raise_outs(self, st, name, excs, args, kw, node):
        """Exceptional outcomes of a library call."""
        if not self.cfg.exceptions or self.cfg.exc_filter is not None and not self.cfg.exc_filter(name):
            return []
        outs = []
        for e in list(excs) + list(self.cfg.extra_exc.get(name, ())):
            upper = e.endswith("+")
            s = st.clone()
            self.emit(s, "raised " + name, args, kw, None, node, e)
            outs.append(Out("r", s, Sym("exc", e.rstrip("+"), upper, frozenset(), (("site", self.site(node)), ("call", name)))))
        return outs

    # ------------------------------------------------------------- binding
    def set_var(self, name, v, st, frame, mod):
        if frame is None:
            return
        rec = st.heap[frame]
        fn = rec.func
        scope = self.scope_of(fn, name) if fn is not None else "local"
        if scope == "global":
            g = Sym("gvar", mod.name, name)
            st.aux[g] = v
            self.emit(st, "store_global", [C(name), v], {}, None, fn.node)
            return
        if scope == "nonlocal":
            f = rec.parent
            while f is not None:
                r2 = st.heap[f]
                if name in r2.vars:
                    st.heap[f] = r2.with_var(name, v)
                    return
                f = r2.parent
        st.heap[frame] = rec.with_var(name, v)

    def scope_of(self, fn, name):
        d = getattr(fn, "_scopes", None)
        if d is None:
            d = {}
            todo = list(fn.node.body) if not isinstance(fn.node, ast.Lambda) else []
            while todo:
                n = todo.pop()
                if isinstance(n, ast.Global):
                    for x in n.names:
                        d[x] = "global"
                elif isinstance(n, ast.Nonlocal):
                    for x in n.names:
                        d[x] = "nonlocal"
                elif isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                todo.extend(ast.iter_child_nodes(n))
            fn._scopes = d
        return d.get(name, "local")

    def bind_target(self, target, v, st, frame, mod):
        """Assignment; returns list of outcomes only for effects that can fork (none here)."""
        if isinstance(target, ast.Name):
            self.set_var(target.id, v, st, frame, mod)
        elif isinstance(target, (ast.Tuple, ast.List)):
            items = self.items_of(v, st)
            n = len(target.elts)
            starred = [i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
            if starred and items is not None:
                i = starred[0]
                after = n - i - 1
                vals = items[:i] + [None] + (items[len(items) - after:] if after else [])
                mid = items[i:len(items) - after]
                for e, x in zip(target.elts, vals):
                    if isinstance(e, ast.Starred):
                        self.bind_target(e.value, self.alloc(st, target, HSeq("list", mid, True)), st, frame, mod)
                    else:
                        self.bind_target(e, x, st, frame, mod)
                return
            for i, e in enumerate(target.elts):
                if isinstance(e, ast.Starred):
                    self.bind_target(e.value, Sym("unknown", "starred"), st, frame, mod)
                    continue
                if items is not None and len(items) == n:
                    self.bind_target(e, items[i], st, frame, mod)
                else:
                    self.bind_target(e, Sym("sub", v, C(i)), st, frame, mod)
        elif isinstance(target, ast.Attribute):
            outs = self.ev(target.value, st, frame, mod)
            base = outs[0].v if outs and outs[0].k == "v" else Sym("unknown", "attr")
            self.store_attr(base, target.attr, v, st, target)
        elif isinstance(target, ast.Subscript):
            outs = self.ev(target.value, st, frame, mod)
            base = outs[0].v if outs and outs[0].k == "v" else Sym("unknown", "sub")
            if isinstance(target.slice, ast.Slice):
                idx = Sym("unknown", "slice")
            else:
                io = self.ev(target.slice, st, frame, mod)
                idx = io[0].v if io and io[0].k == "v" else Sym("unknown", "idx")
            self.store_item(base, idx, v, st, target)
        elif isinstance(target, ast.Starred):
            self.bind_target(target.value, v, st, frame, mod)

    def store_attr(self, base, name, v, st, node):
        rec = st.heap.get(base) if base.op == "ref" else None
        if isinstance(rec, HInst):
            self.emit(st, "store_attr", [base, C(name), v], {}, None, node, rec.owner)
            st.heap[base] = rec.with_attr(name, v)
        else:
            self.emit(st, "store_attr", [base, C(name), v], {}, None, node, "opaque")

    def store_item(self, base, idx, v, st, node):
        rec = st.heap.get(base) if base.op == "ref" else None
        self.emit(st, "store_item", [base, idx, v], {}, None, node, getattr(rec, "owner", "opaque"))
        if isinstance(rec, HDict):
            st.heap[base] = rec.with_item(idx, v)
            if not is_const(idx) and rec.exact and False:
                st.heap[base] = HDict(st.heap[base].items, False, rec.owner)
        elif isinstance(rec, HSeq):
            if rec.exact and is_const(idx) and isinstance(idx.args[0], int) and -len(rec.items) <= idx.args[0] < len(rec.items):
                its = list(rec.items)
                its[idx.args[0]] = v
                st.heap[base] = rec.replace(items=tuple(its))
            else:
                st.heap[base] = rec.replace(items=rec.items + (v, ), exact=False)

    # ------------------------------------------------------------- statements
    def block(self, body, st, frame, mod):
        outs = [Out("n", st)]
        for s in body:
            new = []
            for o in outs:
                if o.k != "n":
                    new.append(o)
                else:
                    new.extend(self.stmt(s, o.st, frame, mod))
            outs = new
            if len(outs) > 40 and self.cfg.merge and len([o for o in outs if o.k == "n"]) > 8:
                outs = self.merge(outs)
            if len(outs) > self.cfg.max_outs:
                raise AnalysisError("path explosion at %s: %d" % (self.site(s), len(outs)))
            if all(o.k != "n" for o in outs):
                break
        return outs

    def stmt(self, s, st, frame, mod):
        self.tick += 1
        m = getattr(self, "st_" + s.__class__.__name__, None)
        if m is None:
            self.stats["unknown"].add("stmt:" + s.__class__.__name__)
            return [Out("n", st)]
        if self.cfg.stmt_hook is not None:
            self.cfg.stmt_hook(self, s, st, frame)
        return m(s, st, frame, mod)

    def st_Expr(self, s, st, frame, mod):
        return [Out("n", o.st) if o.k == "v" else o for o in self.ev(s.value, st, frame, mod)]

    def st_Pass(self, s, st, frame, mod):
        return [Out("n", st)]

    st_Global = st_Nonlocal = st_Pass

    def st_Import(self, s, st, frame, mod):
        for a in s.names:
            if a.asname:
                m = self.repo.find(a.name)
                self.set_var(a.asname, Sym("mod", a.name) if m else Sym("ext", a.name), st, frame, mod)
            else:
                top = a.name.split(".")[0]
                m = self.repo.find(top)
                self.set_var(top, Sym("mod", top) if m else Sym("ext", top), st, frame, mod)
        return [Out("n", st)]

    def st_ImportFrom(self, s, st, frame, mod):
        tmp = Module(mod.name, mod.path, ast.Module(body=[s], type_ignores=[]))
        for a in s.names:
            v = self.module_lookup(tmp, a.asname or a.name, st)
            self.set_var(a.asname or a.name, v if v is not None else Sym("unknown", a.name), st, frame, mod)
        return [Out("n", st)]

    def st_FunctionDef(self, s, st, frame, mod):
        k = self.func_sym(s, mod, None, frame)
        self.set_var(s.name, k, st, frame, mod)
        return [Out("n", st)]

    def st_ClassDef(self, s, st, frame, mod):
        self.set_var(s.name, self.class_sym(mod, s), st, frame, mod)
        return [Out("n", st)]

    def assign(self, targets, value_outs, frame, mod):
        res = []
        for o in value_outs:
            if o.k == "v":
                for t in targets:
                    self.bind_target(t, o.v, o.st, frame, mod)
                res.append(Out("n", o.st))
            else:
                res.append(o)
        return res

    def st_Assign(self, s, st, frame, mod):
        return self.assign(s.targets, self.ev(s.value, st, frame, mod), frame, mod)

    def st_AnnAssign(self, s, st, frame, mod):
        if s.value is None:
            return [Out("n", st)]
        return self.assign([s.target], self.ev(s.value, st, frame, mod), frame, mod)

    def st_AugAssign(self, s, st, frame, mod):
        load = ast.copy_location(
            ast.Name(s.target.id, ast.Load()) if isinstance(s.target, ast.Name) else
            (ast.Attribute(s.target.value, s.target.attr, ast.Load()) if isinstance(s.target, ast.Attribute) else ast.Subscript(
                s.target.value, s.target.slice, ast.Load())), s.target)
        res = []
        for o in self.evs([load, s.value], st, frame, mod):
            if o.k != "v":
                res.append(o)
                continue
            rec = o.st.heap.get(o.v[0]) if o.v[0].op == "ref" else None
            if isinstance(rec, HSeq) and isinstance(s.op, ast.Add) and rec.kind == "list":
                for p in self.libcall(".extend", [o.v[0], o.v[1]], {}, o.st, s):
                    res.append(Out("n", p.st) if p.k == "v" else p)
                continue
            if isinstance(rec, HSeq) and isinstance(s.op, ast.BitOr) and rec.kind == "set":
                for p in self.libcall(".update", [o.v[0], o.v[1]], {}, o.st, s):
                    res.append(Out("n", p.st) if p.k == "v" else p)
                continue
            for p in self.aug(s.op, o.v[0], o.v[1], o.st, s):
                if p.k == "v":
                    self.bind_target(s.target, p.v, p.st, frame, mod)
                    res.append(Out("n", p.st))
                else:
                    res.append(p)
        return res

    def aug(self, op, a, b, st, node):
        return self.arith(op, a, b, st, node)

    def st_Delete(self, s, st, frame, mod):
        for t in s.targets:
            if isinstance(t, ast.Name) and frame is not None:
                st.heap[frame] = st.heap[frame].without(t.id)
            elif isinstance(t, ast.Subscript):
                outs = self.evs([t.value, t.slice], st, frame, mod)
                o = outs[0]
                if o.k == "v":
                    self.emit(st, "del_item", list(o.v), {}, None, s, getattr(st.heap.get(o.v[0]), "owner", "opaque"))
                    rec = st.heap.get(o.v[0])
                    if isinstance(rec, HDict):
                        d = dict(rec.items)
                        d.pop(o.v[1], None)
                        st.heap[o.v[0]] = HDict(d, rec.exact, rec.owner)
                    elif isinstance(rec, HSeq):
                        if rec.exact and is_const(o.v[1]) and isinstance(o.v[1].args[0], int):
                            its = list(rec.items)
                            try:
                                del its[o.v[1].args[0]]
                            except IndexError:
                                pass
                            st.heap[o.v[0]] = rec.replace(items=tuple(its))
                        else:
                            st.heap[o.v[0]] = rec.replace(exact=False)
        return [Out("n", st)]

    def st_Return(self, s, st, frame, mod):
        if s.value is None:
            return [Out("ret", st, NONE)]
        return [Out("ret", o.st, o.v) if o.k == "v" else o for o in self.ev(s.value, st, frame, mod)]

    def st_If(self, s, st, frame, mod):
        res = []
        for o in self.ev_cond(s.test, st, frame, mod):
            if o.k != "v":
                res.append(o)
            else:
                res.extend(self.block(s.body if o.v else s.orelse, o.st, frame, mod))
        return res

    def st_Assert(self, s, st, frame, mod):
        res = []
        for o in self.ev_cond(s.test, st, frame, mod):
            if o.k != "v":
                res.append(o)
            elif o.v:
                res.append(Out("n", o.st))
            else:
                res.append(Out("r", o.st, self.mkexc("AssertionError")))
        return res

    def st_Raise(self, s, st, frame, mod):
        if s.exc is None:
            cur = st.aux.get("handling", ())
            return [Out("r", st, cur[-1] if cur else self.mkexc("RuntimeError"))]
        res = []
        for o in self.ev(s.exc, st, frame, mod):
            if o.k != "v":
                res.append(o)
                continue
            v = o.v
            if v.op == "exc":
                res.append(Out("r", o.st, Sym("exc", v.args[0], v.args[1], v.args[2], v.args[3] or (("site", self.site(s)), ))))
            elif v.op in ("class", "ext"):
                res.append(Out("r", o.st, Sym("exc", self.exc_name(v), False, frozenset(), (("site", self.site(s)), ))))
            elif isinstance(o.st.heap.get(v), HInst):
                res.append(Out("r", o.st, Sym("exc", self.exc_name(o.st.heap[v].cls), False, frozenset(), (("site", self.site(s)), ))))
            else:
                res.append(Out("r", o.st, Sym("exc", "Exception", True, frozenset(), (("site", self.site(s)), ))))
        return res

    def handler_names(self, h, st, frame, mod):
        if h.type is None:
            return ["BaseException"]
        outs = [o for o in self.ev(h.type, st, frame, mod) if o.k == "v"]
        if not outs:
            return ["Exception"]
        v = outs[0].v
        items = list(v.args) if v.op == "tuple" else (self.items_of(v, st) or [v])
        return [self.exc_name(x) for x in items]

    def match_exc(self, exc, names):
        """-> (caught_exc or None, remaining exc or None)"""
        name, upper, excl, payload = exc.args
        m = self.name_mro(name)
        if any(n in m for n in names):
            return exc, None
        if not upper:
            return None, exc
        subs = [n for n in names if name in self.name_mro(n) and not any(e in self.name_mro(n) for e in excl)]
        if not subs:
            return None, exc
        caught = Sym("exc", subs[0], True, excl, payload) if len(subs) == 1 else Sym("exc", name, True, excl, payload)
        rest = Sym("exc", name, True, excl | frozenset(subs), payload)
        return caught, rest

    def st_Try(self, s, st, frame, mod):
        outs = self.block(s.body, st, frame, mod)
        if self.cfg.merge and len(outs) > 20:
            outs = self.merge(outs)
        res = []
        for o in outs:
            if o.k == "n":
                res.extend(self.block(s.orelse, o.st, frame, mod) if s.orelse else [o])
            elif o.k == "r":
                rest = o.v
                for h in s.handlers:
                    if rest is None:
                        break
                    names = self.handler_names(h, o.st, frame, mod)
                    caught, rest = self.match_exc(rest, names)
                    if caught is None:
                        continue
                    s2 = o.st.clone() if rest is not None else o.st
                    if h.name:
                        self.set_var(h.name, caught, s2, frame, mod)
                    s2.aux["handling"] = s2.aux.get("handling", ()) + (caught, )
                    for p in self.block(h.body, s2, frame, mod):
                        p.st.aux["handling"] = p.st.aux.get("handling", ())[:-1]
                        if h.name and frame in p.st.heap:
                            p.st.heap[frame] = p.st.heap[frame].without(h.name)
                        res.append(p)
                if rest is not None:
                    res.append(Out("r", o.st, rest))
            else:
                res.append(o)
        if s.finalbody:
            if self.cfg.merge and len(res) > 20:
                res = self.merge(res)
            fin = []
            for o in res:
                self.inflight.append((o.v, ) if isinstance(o.v, Sym) else ())
                pouts = self.block(s.finalbody, o.st, frame, mod)
                self.inflight.pop()
                for p in pouts:
                    if p.k == "n":
                        fin.append(Out(o.k, p.st, o.v))
                    else:
                        fin.append(p)
            res = fin
        return res

    st_TryStar = st_Try

    def st_With(self, s, st, frame, mod):
        return self.with_items(s.items, 0, s.body, st, frame, mod, s)

    def with_items(self, items, i, body, st, frame, mod, s):
        if i == len(items):
            return self.block(body, st, frame, mod)
        it = items[i]
        res = []
        for o in self.ev(it.context_expr, st, frame, mod):
            if o.k != "v":
                res.append(o)
                continue
            ctx = o.v
            res.extend(self.with_one(ctx, o, it, items, i, body, frame, mod, s))
        return res

    def with_one(self, ctx, o, it, items, i, body, frame, mod, s):
        res = []
        self.inflight.append((ctx, ))
        try:
            if ctx.op == "cm":
                return self.with_cm(ctx, it, items, i, body, o.st, frame, mod, s)
            rec = o.st.heap.get(ctx)
            if isinstance(rec, HInst) and self.find_member(rec.cls, "__enter__") is not None:
                for p in self.call_func(self.find_member(rec.cls, "__enter__"), [ctx], {}, o.st, s):
                    if p.k != "v":
                        res.append(p)
                        continue
                    if it.optional_vars is not None:
                        self.bind_target(it.optional_vars, p.v, p.st, frame, mod)
                    for q in self.with_items(items, i + 1, body, p.st, frame, mod, s):
                        if q.k == "r":
                            a = [Sym("ext", "builtins." + q.v.args[0]), q.v, NONE]
                        else:
                            a = [NONE, NONE, NONE]
                        for r in self.call_func(self.find_member(rec.cls, "__exit__"), [ctx] + a, {}, q.st, s):
                            if r.k != "v":
                                res.append(r)
                            elif q.k == "r":
                                for s2, b in self.branch(r.st, r.v):
                                    res.append(Out("n", s2) if b else Out("r", s2, q.v))
                            else:
                                res.append(Out(q.k, r.st, q.v))
                return res
            if ctx.op == "suppress":
                names = [self.exc_name(x) for x in ctx.args]
                for q in self.with_items(items, i + 1, body, o.st, frame, mod, s):
                    if q.k == "r":
                        caught, rest = self.match_exc(q.v, names)
                        if caught is not None:
                            res.append(Out("n", q.st if rest is None else q.st.clone()))
                        if rest is not None:
                            res.append(Out("r", q.st, rest))
                    else:
                        res.append(q)
                return res
            val = ctx
            exitname = ".__exit__"
            if ctx.op == "closing":
                val = ctx.args[0]
            if it.optional_vars is not None:
                self.bind_target(it.optional_vars, val, o.st, frame, mod)
            self.emit(o.st, ".__enter__", [val], {}, None, s)
            for q in self.with_items(items, i + 1, body, o.st, frame, mod, s):
                self.emit(q.st, exitname, [val], {}, None, s)
                res.append(q)
            return res
        finally:
            self.inflight.pop()

    def with_cm(self, ctx, it, items, i, body, st, frame, mod, s):
        fsym, args, kw = ctx.args
        depth_key = ("cmpend", len(self.stack), s.lineno, s.col_offset)

        def run_body(v, bst):
            # executed at the yield: temporarily restore the caller's interpreter stack
            saved_stack, saved_frames, saved_cm = self.stack, self.frames, self.cmstack
            self.stack, self.frames, self.cmstack = saved_stack[:base], saved_frames, saved_cm[:cmbase]
            try:
                if it.optional_vars is not None:
                    self.bind_target(it.optional_vars, v, bst, frame, mod)
                outs = self.with_items(items, i + 1, body, bst, frame, mod, s)
            finally:
                self.stack, self.frames, self.cmstack = saved_stack, saved_frames, saved_cm
            res = []
            for o in outs:
                if o.k == "n":
                    res.append(Out("v", o.st, NONE))
                elif o.k == "r":
                    o.st.aux[depth_key] = ("exc", o.v)
                    res.append(Out("r", o.st, o.v))
                else:
                    o.st.aux[depth_key] = (o.k, o.v)
                    res.append(Out("v", o.st, NONE))
            return res

        base, cmbase = len(self.stack), len(self.cmstack)
        outs = self.call_func(fsym, list(args), dict(kw), st, s, cm_body=run_body)
        res = []
        for o in outs:
            pend = o.st.aux.pop(depth_key, None)
            if o.k == "r":
                res.append(o)
            elif pend is None or pend[0] == "exc":
                res.append(Out("n", o.st))
            else:
                res.append(Out(pend[0], o.st, pend[1]))
        return res

    # loops
    def st_For(self, s, st, frame, mod):
        res = []
        for o in self.ev(s.iter, st, frame, mod):
            if o.k != "v":
                res.append(o)
                continue
            self.inflight.append((o.v, ) + tuple(self.items_of(o.v, o.st) or ()))
            res.extend(self.for_loop(s, o.v, o.st, frame, mod))
            self.inflight.pop()
        return res

    def for_loop(self, s, it, st, frame, mod):
        mat = self.materialise(it, st, s)
        if mat is not None:
            res = []
            for st1, ref in mat:
                self.inflight.append((ref, ) + tuple(self.items_of(ref, st1)))
                res.extend(self.for_loop(s, ref, st1, frame, mod))
                self.inflight.pop()
            return res
        items = self.items_of(it, st)
        rec = st.heap.get(it) if it.op == "ref" else None
        done = self.shape_fault(it, ("dict", "list", "str"), "iteration", st, s, ("TypeError", ))
        if items is not None:
            live = [st]
            for x in items:
                nxt = []
                for st1 in live:
                    self.bind_target(s.target, x, st1, frame, mod)
                    for o in self.block(s.body, st1, frame, mod):
                        if o.k in ("n", "c"):
                            nxt.append(o.st)
                        elif o.k == "b":
                            done.append(Out("n", o.st))
                        else:
                            done.append(o)
                live = nxt
                if len(live) > 30 and self.cfg.merge:
                    live = [o.st for o in self.merge([Out("n", x) for x in live])]
            for st1 in live:
                done.extend(self.block(s.orelse, st1, frame, mod) if s.orelse else [Out("n", st1)])
            return done
        if it.op == "call" and it.args[0] == "iter" and len(it.args) == 3:
            return self.for_sentinel(s, it.args[1], it.args[2], st, frame, mod)
        key = self.iterkey(it, st)
        live = [st]
        limit = self.cfg.unroll if self.cfg.sym_unroll is None else self.cfg.sym_unroll
        for n in range(limit + 1):
            # zero more iterations: leave the loop
            nxt = []
            for st1 in live:
                s2 = st1.clone() if n < limit else st1
                if n == 0:
                    s2.facts[Sym("emptyiter", key)] = True
                done.extend(self.block(s.orelse, s2, frame, mod) if s.orelse else [Out("n", s2)])
                if n == limit:
                    continue
                el = Sym("elem", key) if n == 0 else Sym("elem", key, n)
                if isinstance(rec, HSeq) and rec.items:
                    el = rec.items[min(n, len(rec.items) - 1)]
                self.emit(st1, "iter", [key, el], {}, None, s)
                self.bind_target(s.target, el, st1, frame, mod)
                for o in self.block(s.body, st1, frame, mod):
                    if o.k in ("n", "c"):
                        nxt.append(o.st)
                    elif o.k == "b":
                        done.append(Out("n", o.st))
                    else:
                        done.append(o)
            live = nxt
            if self.cfg.merge and len(live) > self.cfg.live_merge:
                live = [o.st for o in self.merge([Out("n", x) for x in live])]
        if self.is_generator_frame(frame, st):
            for o in done:
                o.st.aux[("inexact", frame)] = True
        return done

    def for_sentinel(self, s, fn, sentinel, st, frame, mod):
        """for x in iter(fn, sentinel): calls fn before every iteration."""
        done, live = [], [st]
        for n in range(self.cfg.unroll + 1):
            nxt = []
            for st1 in live:
                for o in self.call_value(fn, [], {}, st1, s):
                    if o.k != "v":
                        done.append(o)
                        continue
                    for s2, same in self.branch(o.st, self.mkcmp("==", o.v, sentinel, o.st)):
                        if same:
                            done.extend(self.block(s.orelse, s2, frame, mod) if s.orelse else [Out("n", s2)])
                        elif n < self.cfg.unroll:
                            self.emit(s2, "iter", [fn, o.v], {}, None, s)
                            self.bind_target(s.target, o.v, s2, frame, mod)
                            for p in self.block(s.body, s2, frame, mod):
                                if p.k in ("n", "c"):
                                    nxt.append(p.st)
                                elif p.k == "b":
                                    done.append(Out("n", p.st))
                                else:
                                    done.append(p)
            live = nxt
            if self.cfg.merge and len(live) > self.cfg.live_merge:
                live = [o.st for o in self.merge([Out("n", x) for x in live])]
        if self.is_generator_frame(frame, st):
            for o in done:
                o.st.aux[("inexact", frame)] = True
        return done

    def is_generator_frame(self, frame, st):
        rec = st.heap.get(frame)
        return rec is not None and rec.func is not None and not isinstance(rec.func.node, ast.Lambda) and self.is_generator(
            rec.func.node)

    def st_While(self, s, st, frame, mod):
        done = []
        live = [st]
        limit = self.cfg.unroll
        for n in range(limit + 1):
            nxt = []
            for st1 in live:
                for o in self.ev_cond(s.test, st1, frame, mod):
                    if o.k != "v":
                        done.append(o)
                    elif not o.v:
                        done.extend(self.block(s.orelse, o.st, frame, mod) if s.orelse else [Out("n", o.st)])
                    elif n < limit:
                        self.emit(o.st, "while", [], {}, None, s)
                        for p in self.block(s.body, o.st, frame, mod):
                            if p.k in ("n", "c"):
                                nxt.append(p.st)
                            elif p.k == "b":
                                done.append(Out("n", p.st))
                            else:
                                done.append(p)
            live = nxt
            if self.cfg.merge and len(live) > self.cfg.live_merge:
                live = [o.st for o in self.merge([Out("n", x) for x in live])]
            if not live:
                break
        if live and isinstance(s.test, ast.Constant):
            pass  # only infinite continuations remain beyond the bound
        if self.is_generator_frame(frame, st):
            for o in done:
                o.st.aux[("inexact", frame)] = True
        return done

    def st_Break(self, s, st, frame, mod):
        return [Out("b", st)]

    def st_Continue(self, s, st, frame, mod):
        return [Out("c", st)]

    def st_Match(self, s, st, frame, mod):
        self.stats["unknown"].add("stmt:Match")
        res = []
        for o in self.ev(s.subject, st, frame, mod):
            if o.k != "v":
                res.append(o)
                continue
            live = [o.st]
            for c in s.cases:
                nxt = []
                for st1 in live:
                    t = self.match_term(c.pattern, o.v, st1, frame, mod)
                    for s2, b in self.branch(st1, t):
                        if not b:
                            nxt.append(s2)
                            continue
                        if c.guard is not None:
                            for p in self.ev_cond(c.guard, s2, frame, mod):
                                if p.k != "v":
                                    res.append(p)
                                elif p.v:
                                    res.extend(self.block(c.body, p.st, frame, mod))
                                else:
                                    nxt.append(p.st)
                        else:
                            res.extend(self.block(c.body, s2, frame, mod))
                live = nxt
            res.extend(Out("n", x) for x in live)
        return res

    def match_term(self, p, v, st, frame, mod):
        if isinstance(p, ast.MatchValue):
            o = self.ev(p.value, st, frame, mod)[0]
            return self.mkcmp("==", v, o.v, st)
        if isinstance(p, ast.MatchSingleton):
            return self.mkcmp("is", v, C(p.value), st)
        if isinstance(p, ast.MatchOr):
            return Sym("or", *[self.match_term(x, v, st, frame, mod) for x in p.patterns])
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            if p.name:
                self.set_var(p.name, v, st, frame, mod)
            return TRUE
        return Sym("unknown", "match")

    # ------------------------------------------------------------- entry points
    def run(self, dotted, args=(), kw=None, st=None):
        """Evaluates 'module:Class.method' or 'module:function' on the given abstract arguments."""
        modname, qual = dotted.split(":")
        mod = self.repo.find(modname)
        if mod is None:
            raise AnalysisError("anchor lost: module %s" % modname)
        parts = qual.split(".")
        if parts[0] not in mod.bind:
            raise AnalysisError("anchor lost: %s" % dotted)
        st = st or State()
        v = self.module_lookup(mod, parts[0], st)
        for p in parts[1:]:
            if v.op == "class":
                v = self.find_member(v, p)
                if v is None:
                    raise AnalysisError("anchor lost: %s" % dotted)
        fake = ast.copy_location(ast.Pass(), mod.tree.body[0] if mod.tree.body else ast.Pass(lineno=1, col_offset=0))
        outs = self.call_value(v, list(args), dict(kw or {}), st, fake)
        self.stats["paths"] += len(outs)
        return outs

    def cls(self, dotted):
        modname, qual = dotted.split(":")
        mod = self.repo.find(modname)
        if mod is None or qual not in mod.bind:
            raise AnalysisError("anchor lost: %s" % dotted)
        return self.module_lookup(mod, qual, State())


ITERATING = {"builtins." + n for n in ("list", "tuple", "sorted", "enumerate", "reversed", "zip", "filter", "map", "any", "all", "iter", "min", "max")}
STR_CALLS = {"str", "repr", "format", ".format", ".lower", ".upper", ".strip", ".replace", ".join", ".hexdigest", ".as_posix",
             ".decode", "percent", ".rstrip", ".lstrip", "os.fspath"}
NOT_NONE_CALLS = {"str", "repr", "len", "isinstance", ".hexdigest", ".encode", ".decode", "format", "sorted", "os.open", "open",
                  "builtins.open", "json.dumps", "os.fstat", "os.lstat", "tempfile.mkdtemp", "hashlib.sha256", "Path", "float",
                  "int", "bytearray", "memoryview", "os.listdir", "set", "list", "dict", "tuple", ".split", ".lower", ".resolve",
                  "min", "max", "sum", ".expanduser", ".string", ".paths", "os.path.join", "pynini.shortestpath", "pynini.accep", "pynini.escape"}
import errno as _errno
import stat as _stat
import string as _string
EXT_CONST = {"string." + k: getattr(_string, k) for k in ("ascii_letters", "ascii_lowercase", "ascii_uppercase", "digits",
                                                             "punctuation", "whitespace", "printable", "hexdigits")}
EXT_CONST.update({"math.inf": float("inf")})
