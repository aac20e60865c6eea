"""Character-class abstract interpretation of a hand-written scanner, to a fixpoint, in lockstep with a reference automaton.

The input text is unknown; a position of it is revealed only when the program looks at it and is then a set of character
classes (represented by one character each), narrowed by the program's own comparisons. At every loop head the state is
reduced to what matters for the rest of the run - the automaton state, the classes of the last few positions, every
value relative to the frontier - and explored once; the analysis ends when no new reduced state appears.
"""
import ast

from .absint import AnalysisError, HDict, HFrame, HInst, HSeq, Interp, Out
from .liveness import Liveness
from .terms import C, NONE, Sym, is_const, show, subterms

TEXT = Sym("stream")
BASE = set(" \t\n\r\x0b{}:\"\\_azAZ-.,0<>[]'\xa0\u3000\u00e9\u4e2d\x1f")
WINDOW = 4


def ch(i):
    return Sym("ch", int(i))


class Pos(int):
    """An index into the text (arithmetic keeps it one)."""

    def __add__(self, o):
        return Pos(int(self) + int(o))

    def __sub__(self, o):
        return int(self) - int(o) if isinstance(o, Pos) else Pos(int(self) - int(o))
    __radd__ = __add__


class Spec:
    """Reference automaton: step(q, c) -> (q', emits)."""
    start, dead = "START", "DEAD"

    def lag(self, s, count):
        return 0

    def verdict(self, st):
        """What a rejection in this state is judged by."""
        return None


class ScanInterp(Interp):
    def __init__(self, repo, config, spec):
        super().__init__(repo, config)
        self.spec = spec
        self.alphabet = set(BASE)
        self.loops = 0
        self.stalls = set()
        self.depth = []
        self.states = 0
        self.limit = 4000
        self.at = {}                        # frame -> statement being executed
        self.live_cache = {}
        self.settled = lambda st: None      # checked at every loop head

    def alphabet_from(self, modname):
        mod = self.repo.find(modname)
        self.texts = {n.value for n in ast.walk(mod.tree) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) <= 4:
                self.alphabet |= set(n.value)
        self.alphabet = frozenset(self.alphabet)

    def begin(self, st):
        st.aux["cls"] = ()
        st.aux["end"] = None
        st.aux["spec"] = self.spec.initial()
        st.aux["done"] = 0         # positions the reference automaton has consumed

    # ------------------------------------------------------------ knowledge about the text
    def reveal(self, st):
        """[(state, exists)] for the first position nothing is known about."""
        a = st.clone()
        n = len(st.aux["cls"])
        a.aux["end"] = n
        st.aux["cls"] = st.aux["cls"] + (self.alphabet, )
        for k in list(st.aux):
            if isinstance(k, tuple) and k[0] == "prog":
                st.aux[k] = True
        return [(a, False), (st, True)]

    def mentions_text(self, t):
        return any(x is TEXT or x.op == "ch" for x in subterms(t))

    def poss(self, t):
        return sorted({x.args[0] for x in subterms(t) if x.op == "ch"})

    def has_len(self, t):
        return any(x is TEXT for x in subterms(t))

    def value(self, t, env):
        """Concrete value of a term under an assignment of characters and the length; raises KeyError when unknown."""
        if t.op == "const":
            return t.args[0]
        if t is TEXT:
            raise KeyError
        if t.op == "ch":
            return env[t.args[0]]
        if t.op == "call" and t.args[0] == "len" and t.args[1] is TEXT:
            return env["len"]
        if t.op == "call" and t.args[0] == "len":
            return len(self.value(t.args[1], env))
        if t.op == "tuple" or t.op == "setof" or t.op == "listof":
            return tuple(self.value(x, env) for x in t.args)
        if t.op == "concat":
            return "".join(self.value(x, env) for x in t.args)
        if t.op == "slice" and t.args[0] is TEXT:
            lo, hi = self.value(t.args[1], env), self.value(t.args[2], env)
            if t.args[3] is not NONE or lo is None or hi is None or lo < 0 or hi < 0:
                raise KeyError
            hi = min(hi, env["len"])
            return "".join(env[i] for i in range(lo, hi))
        if t.op == "sum":
            return t.args[0] + sum(self.value(x, env) for x in t.args[1:]) if not isinstance(t.args[0], Sym) else sum(
                self.value(x, env) for x in t.args)
        if t.op == "mul":
            r = 1
            for x in t.args:
                r *= self.value(x, env) if isinstance(x, Sym) else x
            return r
        if t.op == "cmp":
            rel, a, b = t.args
            x, y = self.value(a, env), self.value(b, env)
            return {"==": lambda: x == y, "is": lambda: x == y and type(x) is type(y), "in": lambda: x in y, "<": lambda: x < y, "<=": lambda: x <= y}[rel]()
        if t.op == "not":
            return not self.value(t.args[0], env)
        if t.op == "and":
            return all(self.value(x, env) for x in t.args)
        if t.op == "or":
            return any(self.value(x, env) for x in t.args)
        if t.op == "call" and isinstance(t.args[0], str) and t.args[0].startswith(".is") and len(t.args) == 2:
            return getattr(self.value(t.args[1], env), t.args[0][1:])()
        if t.op == "call" and t.args[0] in (".lower", ".upper", ".strip") and len(t.args) == 2:
            return getattr(self.value(t.args[1], env), t.args[0][1:])()
        if t.op == "call" and t.args[0] == "ord":
            return ord(self.value(t.args[1], env))
        raise KeyError

    def lengths(self, st):
        n = len(st.aux["cls"])
        return [n] if st.aux["end"] is not None else range(n, n + 9)

    def decide(self, t, st):
        """True/False when decided, None when a fork on characters or length is needed; KeyError when not evaluable."""
        ps = self.poss(t)
        cls = st.aux["cls"]
        res = set()
        for L in (self.lengths(st) if self.has_len(t) else [0]):
            envs = [{"len": L}]
            for p in ps:
                if p >= len(cls):
                    raise KeyError
                envs = [dict(e, **{}) | {p: c} for e in envs for c in cls[p]]
                if len(envs) > 4000:
                    raise KeyError
            for e in envs:
                res.add(bool(self.value(t, e)))
                if len(res) > 1:
                    return None
        return res.pop()

    def truth(self, t, st):
        if t is TEXT:
            t = Sym("cmp", "<", C(0), Sym("call", "len", TEXT))
        if "cls" in st.aux and self.mentions_text(t):
            if t.op == "ch" or t.op == "concat" and any(x.op == "ch" for x in t.args):
                return True
            try:
                return self.decide(t, st)
            except (KeyError, TypeError):
                pass
        return super().truth(t, st)

    def branch(self, st, t):
        if t is TEXT:
            t = Sym("cmp", "<", C(0), Sym("call", "len", TEXT))
        if "cls" in st.aux and t.op == "concat" and any(x.op == "ch" for x in t.args):
            return [(st, True)]
        if "cls" not in st.aux or not self.mentions_text(t) or t.op == "ch":
            return super().branch(st, t)
        try:
            k = self.decide(t, st)
        except (KeyError, TypeError):
            return super().branch(st, t)
        if k is not None:
            return [(st, k)]
        ps = self.poss(t)
        if self.has_len(t) and st.aux["end"] is None:
            return [x for s, _ in self.reveal(st) for x in self.branch(s, t)]
        # split the classes of one position by the predicate (others kept as they are when it does not depend on them)
        out = []
        p = ps[-1]
        groups = {}
        for c in sorted(st.aux["cls"][p]):
            s = st.clone()
            s.aux["cls"] = s.aux["cls"][:p] + (frozenset((c, )), ) + s.aux["cls"][p + 1:]
            groups.setdefault(self.decide(t, s), set()).add(c)
        for k in (True, False, None):
            if k in groups:
                s = st.clone()
                s.aux["cls"] = s.aux["cls"][:p] + (frozenset(groups[k]), ) + s.aux["cls"][p + 1:]
                if k is None:
                    if groups[k] == set(st.aux["cls"][p]) and len(ps) == 1:
                        raise AnalysisError("a decision about a character cannot be evaluated: %s" % show(t, 4))
                    if len(groups[k]) > 1:
                        for c in sorted(groups[k]):
                            s2 = s.clone()
                            s2.aux["cls"] = s.aux["cls"][:p] + (frozenset((c, )), ) + s.aux["cls"][p + 1:]
                            out.extend(self.branch_rest(s2, t, ps[:-1]))
                    else:
                        out.extend(self.branch_rest(s, t, ps[:-1]))
                else:
                    out.append((s, k))
        return out

    def branch_rest(self, st, t, ps):
        if not ps:
            return [(st, self.decide(t, st))]
        out = []
        p = ps[-1]
        for c in sorted(st.aux["cls"][p]):
            s = st.clone()
            s.aux["cls"] = s.aux["cls"][:p] + (frozenset((c, )), ) + s.aux["cls"][p + 1:]
            k = self.decide(t, s)
            out.extend([(s, k)] if k is not None else self.branch_rest(s, t, ps[:-1]))
        return out

    # ------------------------------------------------------------ reading the text
    def subscript(self, base, idx, st, node):
        if base is not TEXT:
            return super().subscript(base, idx, st, node)
        if not is_const(idx) or not isinstance(idx.args[0], int):
            raise AnalysisError("the scanner indexes its text with an unknown position (%s)" % show(idx, 3))
        i, outs, work = idx.args[0], [], [st]
        if i < 0:
            raise AnalysisError("the scanner indexes its text from the end")
        while work:
            s = work.pop()
            if i < len(s.aux["cls"]):
                outs.append(Out("v", s, ch(i)))
            elif s.aux["end"] is not None:
                outs.append(Out("r", s, self.mkexc("IndexError")))
            else:
                work.extend(x for x, _ in self.reveal(s))
        return outs

    def slice(self, base, lo, hi, step, st, node):
        if base is TEXT and step is NONE and is_const(lo) and is_const(hi) and isinstance(hi.args[0], int):
            a, b = lo.args[0] or 0, hi.args[0]
            if 0 <= a <= b <= len(st.aux["cls"]):
                return self.concat([ch(i) for i in range(a, b)])
        return super().slice(base, lo, hi, step, st, node)

    def stringy(self, v):
        return v.op == "ch" or v is TEXT or super().stringy(v)

    def binop(self, op, a, b, st, node):
        if is_const(a) and is_const(b) and (isinstance(a.args[0], Pos) or isinstance(b.args[0], Pos)):
            x, y = a.args[0], b.args[0]
            if isinstance(op, ast.Add):
                return C(Pos(int(x) + int(y)))
            if isinstance(op, ast.Sub):
                return C(int(x) - int(y) if isinstance(y, Pos) else Pos(int(x) - int(y)))
        return super().binop(op, a, b, st, node)

    # ------------------------------------------------------------ loops to a fixpoint
    def settle(self, st):
        """Splits classes until the reference automaton's run over the revealed text is determined."""
        work, out = [st], []
        while work:
            s = work.pop()
            i = s.aux["done"]
            if i >= len(s.aux["cls"]):
                out.append(s)
                continue
            groups = {}
            for c in sorted(s.aux["cls"][i]):
                groups.setdefault(self.spec.kind(s.aux["spec"], c), set()).add(c)
            for k, cs in groups.items():
                x = s if len(groups) == 1 else s.clone()
                x.aux["cls"] = x.aux["cls"][:i] + (frozenset(cs), ) + x.aux["cls"][i + 1:]
                x.aux["spec"] = self.spec.advance(x.aux["spec"], k, i)
                x.aux["done"] = i + 1
                work.append(x)
        return out

    def stmt(self, s, st, frame, mod):
        old = self.at.get(frame)
        self.at[frame] = s
        try:
            return super().stmt(s, st, frame, mod)
        finally:
            self.at[frame] = old

    def live(self, ref, rec, after):
        fi, s = rec.func, self.at.get(ref)
        if fi is None or s is None:
            return rec.vars
        lv = self.live_cache.get(fi.qual)
        if lv is None:
            lv = self.live_cache[fi.qual] = Liveness(fi.node)
        names = (lv.after if ref == after else lv.before).get(id(s))
        if names is None:
            return rec.vars
        return {k: v for k, v in rec.vars.items() if k in names or k in lv.pinned}

    def reduced(self, st, roots, after=None):
        """What the rest of the run can depend on, relative to the frontier."""
        n = len(st.aux["cls"])
        names, seq, keep, low = {}, [], set(), [n]
        spec = st.aux["spec"]

        def term(t, depth=0):
            if isinstance(t, tuple):
                return tuple(term(x, depth) for x in t)
            if not isinstance(t, Sym):
                return t
            if t.op == "const":
                v = t.args[0]
                if isinstance(v, str) and len(v) > 12 and v not in self.texts:
                    return ("c", "str", "long")
                if isinstance(v, Pos):
                    where = self.place(int(v), n, spec)
                    if isinstance(where, int):
                        low[0] = min(low[0], int(v))
                    return ("pos", where)
                return ("c", type(v).__name__, v if isinstance(v, (str, int, float, bool, type(None), bytes)) else repr(v))
            if t.op == "ch":
                if n - t.args[0] > 1:
                    r = self.spec.relate((t, ), spec, n)
                    if r[1:] == (0, ):
                        return ("text", r)
                if n - t.args[0] <= WINDOW:
                    keep.add(t.args[0])
                    return ("ch", n - t.args[0])
                return ("ch", "old")
            if t.op == "concat" and any(x.op == "ch" for x in t.args):
                return ("text", self.spec.relate(t.args, spec, n))
            if t.op == "ref":
                if t not in names:
                    names[t] = len(names)
                    seq.append(t)
                return ("ref", names[t])
            return (t.op, ) + tuple(term(x, depth + 1) if isinstance(x, (Sym, tuple)) else x for x in t.args)
        out = [term(r) for r in roots]
        i = 0
        while i < len(seq):
            r = seq[i]
            i += 1
            rec = st.heap.get(r)
            if rec is None:
                out.append((i, r.args[0]))
            elif isinstance(rec, HFrame):
                out.append((i, "F", tuple(sorted((k, term(v)) for k, v in self.live(r, rec, after).items())), term(rec.parent) if isinstance(rec.parent, Sym) else None))
            elif isinstance(rec, HInst):
                out.append((i, "I", rec.cls.args[-1], tuple(sorted((k, term(v)) for k, v in rec.attrs.items()))))
            elif isinstance(rec, HSeq):
                its = rec.items
                if len(its) > 1 and all(is_const(x) is False for x in its):
                    out.append((i, rec.kind, min(len(its), 3), term(its[-1])))
                else:
                    out.append((i, rec.kind, tuple(term(x) for x in its)))
            elif isinstance(rec, HDict):
                its = list(rec.items.items())
                if r.args[0].startswith(("global:", "module:")):
                    out.append((i, "D", r.args[0]))
                else:
                    out.append((i, "D", min(len(its), 3), tuple((term(k), term(v)) for k, v in its[-1:])))
            else:
                out.append((i, type(rec).__name__, repr(rec.key())))
        facts = tuple(sorted((repr(term(f)), v) for f, v in st.facts.items() if f.op not in ("emptyiter", )))
        cls = tuple(tuple(sorted(st.aux["cls"][p])) if p in keep or p >= low[0] else () for p in range(max(0, n - WINDOW), n))
        lag = tuple(sorted((names[k[1]], d) for k, v in st.aux.items() if isinstance(k, tuple) and k[0] == "app" and k[1] in names
                           for d in [self.spec.lag(spec, v)] if d))
        extra = lag + tuple(sorted((repr(k), v) for k, v in st.aux.items() if isinstance(k, tuple) and k[0] == "prog"))
        return (tuple(out), cls, min(n, WINDOW + 1), st.aux["end"] is not None, self.spec.digest(spec, n), facts, extra)

    def place(self, v, n, spec):
        m = self.spec.mark(spec, v)
        if m is not None:
            return m
        return n - v if n - v <= (2 if spec.q == self.spec.dead else WINDOW) else "old"

    def fix(self, st, step, frame, node):
        """Explores one loop: step(state) -> (continuing states, outcomes that leave the loop)."""
        d = len(self.depth)
        flag = ("prog", d)
        self.depth.append(node)
        self.loops += 1
        seen, edges, done = {}, {}, []
        outer = [x for x in self.frames] + list(self.inflight)
        exits = {}

        def add(s, src):
            moved = s.aux.get(flag, True)
            for x in self.settle(s):
                x.aux[flag] = False
                self.settled(x)
                x.events = ()
                k = self.reduced(x, outer + [frame])
                k2 = k
                edges.setdefault(src, []).append((k2, moved))
                if k not in seen:
                    seen[k] = x
                    work.append((k, x))
                    self.states += 1
                    if len(seen) > self.limit:
                        raise AnalysisError("the scanner's loop at line %s has too many states" % getattr(node, "lineno", "?"))
        work = []
        had = st.aux.get(flag)
        st.aux[flag] = True
        add(st, None)
        while work:
            k, x = work.pop()
            nxt, left = step(x.clone())
            for s in nxt:
                add(s, k)
            for o in left:
                o.st.aux.pop(flag, None)
                for x2 in self.settle(o.st):
                    o2 = Out(o.k, x2, o.v)
                    if o.k == "r":
                        k2 = (o.k, o.v.args[0] if o.v.op == "exc" else show(o.v, 3), self.reduced(x2, outer), self.spec.verdict(x2))
                    else:
                        k2 = (o.k, self.reduced(x2, outer + [frame] + ([o.v] if isinstance(o.v, Sym) else []), frame))
                    if k2 not in exits:
                        exits[k2] = o2
        # a cycle on which nothing new of the text is looked at never ends
        still = {a: [b for b, moved in bs if not moved] for a, bs in edges.items() if a is not None}
        state = {}

        def cyc(a):
            stack = [(a, iter(still.get(a, ())))]
            state[a] = 1
            while stack:
                cur, it = stack[-1]
                for b in it:
                    if state.get(b) == 1:
                        return True
                    if b not in state:
                        state[b] = 1
                        stack.append((b, iter(still.get(b, ()))))
                        break
                else:
                    state[cur] = 2
                    stack.pop()
            return False
        if any(a not in state and cyc(a) for a in list(still)):
            self.stalls.add(self.site(node))
        self.depth.pop()
        return list(exits.values())

    def st_While(self, s, st, frame, mod):
        if "cls" not in st.aux:
            return super().st_While(s, st, frame, mod)

        def step(x):
            nxt, left = [], []
            for o in self.ev_cond(s.test, x, frame, mod):
                if o.k != "v":
                    left.append(o)
                elif not o.v:
                    left.extend(self.block(s.orelse, o.st, frame, mod) if s.orelse else [Out("n", o.st)])
                else:
                    for p in self.block(s.body, o.st, frame, mod):
                        if p.k in ("n", "c"):
                            nxt.append(p.st)
                        elif p.k == "b":
                            left.append(Out("n", p.st))
                        else:
                            left.append(p)
            return nxt, left
        return self.fix(st, step, frame, s)

    def merge(self, outs):
        return outs if outs and "cls" in outs[0].st.aux else super().merge(outs)
