"""Graph-expression domain: pynini objects become heap objects holding an algebraic expression.

Every constructive operation allocates a new object; every in-place operation replaces the expression of the object
it is applied to and is reported as a `fst:mutate` event. Nothing is compiled or composed for real.
"""
import ast
import os

from . import absint
from .absint import HDict, HInst, HSeq, Interp, Out
from .terms import C, FALSE, NONE, TRUE, Sym, is_const, show, subterms


class HFst:
    """expr: immutable expression over F(..) terms; owner: who created the object."""
    __slots__ = ("expr", "owner", "site")

    def __init__(self, expr, owner="new", site=None):
        self.expr, self.owner, self.site = expr, owner, site

    def children(self):
        return [self.expr]

    def key(self):
        return ("G", id(self.expr), self.owner)


class HPaths:
    """An iterator over the paths of a graph."""
    __slots__ = ("expr", "n")

    def __init__(self, expr, n=0):
        self.expr, self.n = expr, n

    def children(self):
        return [self.expr]

    def key(self):
        return ("P", id(self.expr), self.n)


def F(op, *args):
    return Sym("F", op, *args)


# operations that change the object they are called on and return it; True = the relation stays the same
INPLACE = {
    "closure": False, "concat": False, "union": False, "invert": False, "project": False, "prune": False, "push": True,
    "reweight": True, "relabel_pairs": False, "relabel_tables": False, "encode": False, "decode": False, "set_final": False,
    "set_start": False, "add_arc": False, "add_state": False, "add_states": False, "delete_arcs": False, "delete_states": False,
    "optimize": True, "rmepsilon": True, "minimize": True, "connect": True, "arcsort": True, "topsort": True,
    "reserve_arcs": True, "reserve_states": True, "set_input_symbols": True, "set_output_symbols": True, "set_properties": True,
    "mutable_arcs": False,
}
MODS = ("pynini.lib.pynutil.", "pynini.lib.rewrite.", "pynini.lib.byte.", "pynini.lib.utf8.", "pynini.", "pywrapfst.")
IDENT = {"optimize", "rmepsilon", "minimize", "connect", "arcsort", "topsort", "push", "determinize", "epsnormalize", "disambiguate",
         "compact_symbol_table", "reweight", "synchronize"}
BYTE = {"ALNUM", "ALPHA", "BYTE", "DIGIT", "GRAPH", "HEX", "LOWER", "NOT_QUOTE", "NOT_SPACE", "PRINT", "PUNCT", "SPACE", "UPPER"}


def short(name):
    for m in MODS:
        if name.startswith(m):
            return name[len(m):], m
    return None, None


class FstInterp(Interp):

    def __init__(self, root, config=None):
        super().__init__(root, config)
        self.fst_sites = {}
        self.repeats = set()       # shortest-path requests made again on the same path

    # ---------------------------------------------------------------- objects
    def newfst(self, st, node, expr, owner="new"):
        r = self.fresh_oid(st, self.site(node) + "G")
        st.heap[r] = HFst(expr, owner, self.site(node))
        return r

    def rename_rec(self, rec, ren, owner):
        if isinstance(rec, HFst):
            return HFst(rec.expr, owner, rec.site)
        return super().rename_rec(rec, ren, owner)

    def expr_of(self, v, st, node, compile=True):
        """Expression of a graph-like value; strings are compiled."""
        rec = st.heap.get(v) if v.op == "ref" else None
        if isinstance(rec, HFst):
            return rec.expr
        if is_const(v) and isinstance(v.args[0], str):
            if compile:
                self.emit(st, "fst:compile", [v], {}, None, node)
            return F("acc", v)
        if v.op == "ext" and v.args[0].startswith(("pynini.lib.byte.", "pynini.lib.utf8.")):
            return F("set", v.args[0].split(".")[-1])
        if v.op == "choice":
            return F("alt", *[self.expr_of(x, st, node, compile) for x in v.args])
        if v.op in ("attr", "ref", "unknown") and not self.stringy(v):
            return F("unk", v)
        if compile:
            self.emit(st, "fst:compile", [v], {}, None, node)
        return F("acc", v)

    def is_graph(self, v, st):
        rec = st.heap.get(v) if v.op == "ref" else None
        return isinstance(rec, HFst) or v.op == "ext" and v.args[0].startswith(("pynini.lib.byte.", "pynini.lib.utf8."))

    # ---------------------------------------------------------------- attributes, operators
    def getattr(self, base, name, st, node):
        rec = st.heap.get(base) if base.op == "ref" else None
        if isinstance(rec, HFst) or base.op == "ext" and self.is_graph(base, st):
            e = self.expr_of(base, st, node)
            if name == "star":
                return [Out("v", st, self.newfst(st, node, F("clo", e, C(0), NONE)))]
            if name == "plus":
                return [Out("v", st, self.newfst(st, node, F("clo", e, C(1), NONE)))]
            if name == "ques":
                return [Out("v", st, self.newfst(st, node, F("clo", e, C(0), C(1))))]
            return [Out("v", st, Sym("bound", Sym("ext", "." + name), base))]
        return super().getattr(base, name, st, node)

    def binop_hook(self, op, a, b, st, node):
        if not (self.is_graph(a, st) or self.is_graph(b, st)):
            return None
        t = type(op)
        if t is ast.Pow:
            return self.power(a, b, st, node)
        kind = {ast.Add: "cat", ast.BitOr: "alt", ast.MatMult: "comp", ast.Sub: "diff"}.get(t)
        if kind is None:
            return None
        return self.newfst(st, node, F(kind, self.expr_of(a, st, node), self.expr_of(b, st, node)))

    def power(self, a, b, st, node):
        e = self.expr_of(a, st, node)
        if b.op == "tuple" and len(b.args) == 2:
            hi = b.args[1]
            if hi.op == "ext" or is_const(hi) and hi.args[0] in (None, Ellipsis):
                hi = NONE
            return self.newfst(st, node, F("clo", e, b.args[0], hi))
        return self.newfst(st, node, F("clo", e, b, b))

    def aug(self, op, a, b, st, node):
        rec = st.heap.get(a) if a.op == "ref" else None
        if isinstance(rec, HFst) and isinstance(op, (ast.Add, ast.BitOr)):
            k = "cat" if isinstance(op, ast.Add) else "alt"
            self.mutate(a, F(k, rec.expr, self.expr_of(b, st, node)), "+=" if k == "cat" else "|=", st, node, False)
            return [Out("v", st, a)]
        return super().aug(op, a, b, st, node)

    def mutate(self, ref, expr, how, st, node, preserving):
        rec = st.heap[ref]
        if rec.expr is not expr:
            st.heap[ref] = HFst(expr, rec.owner, rec.site)
        self.emit(st, "fst:mutate", [ref, rec.expr], {}, None, node, (how, preserving, rec.owner, rec.site))

    # ---------------------------------------------------------------- calls
    def libcall(self, name, args, kw, st, node):
        r = self.fst_call(name, list(args), dict(kw), st, node)
        if r is not None:
            self.stats["libcalls"] += 1
            return r
        return super().libcall(name, args, kw, st, node)

    def opt(self, args, kw, i, key, default=NONE):
        return args[i] if len(args) > i else kw.get(key, default)

    def items(self, v, st):
        return self.items_of(v, st)

    def fst_call(self, name, args, kw, st, node):
        if name.startswith("."):
            if not args:
                return None
            rec = st.heap.get(args[0]) if args[0].op == "ref" else None
            if isinstance(rec, HFst) or args[0].op == "ext" and self.is_graph(args[0], st):
                return self.fst_method(name[1:], args, kw, st, node)
            if isinstance(rec, HPaths):
                return self.path_method(name[1:], args[0], rec, st, node)
            return None
        if name in ("copy.copy", "copy.deepcopy") and args and self.is_graph(args[0], st):
            return [Out("v", st, self.newfst(st, node, self.expr_of(args[0], st, node)))]
        if name in ("heapq.heappush", "heapq.heappop", "heapq.heapify", "heapq.heappushpop"):
            return self.heap(name, args, st, node)
        if name in ("functools.reduce", ) and len(args) >= 2:
            return self.reduce(args, st, node)
        fn, mod = short(name)
        if fn is None:
            return None
        return self.fst_func(fn, mod, args, kw, st, node)

    def one(self, st, node, expr, owner="new"):
        return [Out("v", st, self.newfst(st, node, expr, owner))]

    def fst_func(self, fn, mod, args, kw, st, node):
        E = lambda v: self.expr_of(v, st, node)
        if fn == "escape":
            v = args[0] if args else kw.get("data", NONE)
            if is_const(v) and isinstance(v.args[0], str):
                s = v.args[0]
                return [Out("v", st, C("".join("\\" + c if c in "[]\\" else c for c in s)))]
            return [Out("v", st, Sym("call", "pynini.escape", v))]
        if fn in ("accep", "acceptor"):
            v = args[0] if args else kw.get("astring", NONE)
            e = E(v)
            w = self.opt(args, kw, 1, "weight")
            return self.one(st, node, F("w", e, w) if w is not NONE else e)
        if fn in ("Fst", ):
            return self.one(st, node, F("alt"))
        if fn in ("cross", "transducer"):
            return self.one(st, node, F("cross", E(args[0]), E(args[1])))
        if fn in ("union", "alternate"):
            flat = []
            for a in args:
                if a.op == "starred" or self.items(a, st) is not None and not self.is_graph(a, st) and not is_const(a):
                    flat.extend(self.items(a, st) or ())
                else:
                    flat.append(a)
            if not flat:
                return self.one(st, node, F("alt"))
            return self.one(st, node, F("alt", *[E(a) for a in flat]))
        if fn in ("concat", ):
            return self.one(st, node, F("cat", *[E(a) for a in args]))
        if fn == "compose":
            return self.one(st, node, F("comp", E(args[0]), E(args[1])))
        if fn == "leniently_compose":
            return self.one(st, node, F("lcomp", *[E(a) for a in args[:3]]))
        if fn == "intersect":
            return self.one(st, node, F("comp", E(args[0]), E(args[1])))
        if fn == "difference":
            return self.one(st, node, F("diff", E(args[0]), E(args[1])))
        if fn == "closure":
            lo, hi = self.opt(args, kw, 1, "lower", C(0)), self.opt(args, kw, 2, "upper")
            return self.one(st, node, F("clo", E(args[0]), lo, hi))
        if fn in ("star", "plus", "ques"):
            lo = {"star": 0, "plus": 1, "ques": 0}[fn]
            return self.one(st, node, F("clo", E(args[0]), C(lo), C(1) if fn == "ques" else NONE))
        if fn == "power":
            return self.one(st, node, F("clo", E(args[0]), args[1], args[1]))
        if fn == "invert":
            return self.one(st, node, F("inv", E(args[0])))
        if fn == "project":
            return self.one(st, node, F("proj", E(args[0]), self.opt(args, kw, 1, "project_type")))
        if fn == "reverse":
            return self.one(st, node, F("rev", E(args[0])))
        if fn == "cdrewrite":
            tau, l, r, sig = args[:4]
            mode = self.opt(args, kw, 4, "direction", C("ltr")), self.opt(args, kw, 5, "mode", C("obl"))
            return self.one(st, node, F("rw", E(tau), E(l), E(r), E(sig), *mode))
        if fn == "shortestpath":
            ask = (E(args[0]), kw.get("nshortest", C(1)))
            if any(e.name == "fst:short" and e.args == ask for e in st.events):
                self.repeats.add((ask, self.site(node)))
            self.emit(st, "fst:short", list(ask), {}, None, node)
            return self.one(st, node, F("short", E(args[0]), kw.get("nshortest", C(1)), kw.get("unique", FALSE)))
        if fn in IDENT:
            return self.one(st, node, E(args[0]))
        if fn == "prune":
            return self.one(st, node, F("prune", E(args[0])))
        if fn == "string_map":
            rows = self.items(args[0], st)
            out = []
            for x in rows if rows is not None else ():
                its = self.items(x, st) if not (is_const(x) and isinstance(x.args[0], str)) else [x]
                out.append(Sym("tuple", *[i if is_const(i) else i for i in (its if its is not None else [x])]))
            if rows is None or any(not all(is_const(i) for i in t.args) for t in out):
                return self.one(st, node, F("map", C("symbolic"), *(out or [args[0]])))
            return self.one(st, node, F("map", C("rows"), *out))
        if fn == "string_file":
            self.emit(st, "fst:file", args[:1], kw, None, node)
            return self.one(st, node, F("file", args[0]))
        if fn == "Far":
            return [Out("v", st, Sym("far", args[0]))]
        if mod == "pynini.lib.pynutil.":
            if fn == "insert":
                e = F("ins", E(args[0]))
                w = self.opt(args, kw, 1, "weight")
                return self.one(st, node, F("w", e, w) if w is not NONE else e)
            if fn == "delete":
                e = F("del", E(args[0]))
                w = self.opt(args, kw, 1, "weight")
                return self.one(st, node, F("w", e, w) if w is not NONE else e)
            if fn == "add_weight":
                return self.one(st, node, F("w", E(args[0]), self.opt(args, kw, 1, "weight")))
            if fn == "join":
                e, s = E(args[0]), E(args[1])
                return self.one(st, node, F("cat", e, F("clo", F("cat", s, e), C(0), NONE)))
        if fn in ("equal", "equivalent", "isomorphic", "shortestdistance", "randgen", "token_type", "default_token_type"):
            return None
        return None

    def fst_method(self, mn, args, kw, st, node):
        base = args[0]
        rec = st.heap.get(base) if base.op == "ref" else None
        e = self.expr_of(base, st, node)
        E = lambda v: self.expr_of(v, st, node)
        if mn == "copy":
            return self.one(st, node, e)
        if mn in INPLACE:
            if rec is None:
                self.emit(st, "fst:mutate", [base, e], {}, None, node, (mn, INPLACE[mn], "module:" + base.args[0], None))
                return [Out("v", st, base)]
            new = e
            if mn == "closure":
                new = F("clo", e, self.opt(args, kw, 1, "lower", C(0)), self.opt(args, kw, 2, "upper"))
            elif mn == "concat":
                new = F("cat", e, E(args[1]))
            elif mn == "union":
                new = F("alt", e, *[E(a) for a in args[1:]])
            elif mn == "invert":
                new = F("inv", e)
            elif mn == "project":
                new = F("proj", e, self.opt(args, kw, 1, "project_type"))
            elif not INPLACE[mn]:
                new = F("unk", Sym("call", "." + mn, e, *[a for a in args[1:]]))
            self.mutate(base, new, mn, st, node, INPLACE[mn])
            return [Out("v", st, base)]
        if mn in ("plus", "star", "ques"):
            return self.one(st, node, F("clo", e, C(1 if mn == "plus" else 0), C(1) if mn == "ques" else NONE))
        if mn == "string":
            self.emit(st, "fst:string", [e], kw, None, node)
            return self.raise_outs(st, ".string", ["pynini.FstOpError"], args, kw, node) + [Out("v", st, Sym("call", "fst.string", e))]
        if mn == "paths":
            r = self.fresh_oid(st, self.site(node) + "P")
            st.heap[r] = HPaths(e)
            return [Out("v", st, r)]
        if mn in ("start", "num_states", "num_arcs", "final", "states", "arcs", "verify", "properties", "write_to_string", "arc_type",
                  "fst_type", "weight_type", "input_symbols", "output_symbols", "num_states_if_known"):
            self.emit(st, "fst:read", [e], {}, None, node, mn)
            return [Out("v", st, Sym("call", "fst." + mn, e, *args[1:]))]
        if mn in ("write", "draw", "print"):
            self.emit(st, "fst:" + mn, args, kw, None, node)
            return [Out("v", st, NONE)]
        return None

    def path_method(self, mn, ref, rec, st, node):
        if mn == "done":
            x = rec.expr
            if x.args[0] == "short" and is_const(x.args[2]) and type(x.args[2].args[0]) is int and rec.n >= max(x.args[2].args[0], 1):
                return [Out("v", st, TRUE)]
            return [Out("v", st, Sym("call", "paths.done", rec.expr, C(rec.n)))]
        if mn in ("ostring", "istring", "weight", "ilabels", "olabels"):
            return [Out("v", st, Sym("call", "paths." + mn, rec.expr, C(rec.n)))]
        if mn == "next":
            st.heap[ref] = HPaths(rec.expr, rec.n + 1)
            return [Out("v", st, NONE)]
        if mn == "reset":
            st.heap[ref] = HPaths(rec.expr, 0)
            return [Out("v", st, NONE)]
        if mn in ("ostrings", "istrings", "weights", "items"):
            return self.all_paths(mn, ref, rec, st, node)
        return None

    def all_paths(self, mn, ref, rec, st, node):
        """Every remaining path as an exact list, one outcome per length up to the bound."""
        x, outs, vals = rec.expr, [], []
        full = x.args[2].args[0] if x.args[0] == "short" and is_const(x.args[2]) and type(x.args[2].args[0]) is int else None
        for k in range(rec.n, rec.n + self.cfg.unroll + 2):
            cond = Sym("call", "paths.done", x, C(k))
            ends = [(st, True)] if full is not None and k >= max(full, 1) else self.branch(st, cond)
            st = None
            for s, done in ends:
                if not done:
                    st = s
                    continue
                r = self.fresh_oid(s, self.site(node) + "L")
                s.heap[r] = HSeq("list", list(vals))
                s.heap[ref] = HPaths(x, k)
                outs.append(Out("v", s, r))
            if st is None:
                break
            t = lambda n: Sym("call", "paths." + n, x, C(k))
            vals.append(Sym("tuple", t("istring"), t("ostring"), t("weight")) if mn == "items" else t(mn[:-1]))
        return outs

    def heap(self, name, args, st, node):
        rec = st.heap.get(args[0]) if args[0].op == "ref" else None
        if not isinstance(rec, HSeq) or not rec.exact:
            return None
        if name == "heapq.heapify":
            return [Out("v", st, NONE)]
        if name == "heapq.heappush":
            st.heap[args[0]] = rec.replace(items=rec.items + (args[1], ))
            self.emit(st, "heap:push", args, {}, None, node)
            return [Out("v", st, NONE)]
        items = rec.items + ((args[1], ) if name == "heapq.heappushpop" else ())
        if not items:
            return [Out("r", st, self.mkexc("IndexError"))]
        outs = []
        for i, x in enumerate(items):
            s = st.clone() if i else st
            s.heap[args[0]] = rec.replace(items=items[:i] + items[i + 1:])
            self.emit(s, "heap:pop", [args[0], x], {}, None, node)
            outs.append((s, x))
        return [Out("v", s, x) for s, x in outs]

    def reduce(self, args, st, node):
        items = self.items_of(args[1], st)
        if items is None:
            return None
        items = list(items)
        if len(args) > 2:
            items = [args[2]] + items
        if not items:
            return [Out("r", st, self.mkexc("TypeError"))]
        cur = [Out("v", st, items[0])]
        for x in items[1:]:
            nxt = []
            for o in cur:
                nxt.extend(self.call_value(args[0], [o.v, x], {}, o.st, node) if o.k == "v" else [o])
            cur = nxt
        return cur
