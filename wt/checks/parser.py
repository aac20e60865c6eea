"""T01, T02: the token parser against the wire format it implements (tn/token_parser.py)."""
import itertools
from collections import namedtuple

from ..absint import AnalysisError, Config, HDict, HFrame, HInst, HSeq, Interp, Out, State
from ..scan import TEXT, WINDOW, Pos, ScanInterp, Spec, ch
from ..terms import C, FALSE, NONE, TRUE, Sym, is_const, show, subterms
from .cache import FAKE, P

MOD = "tn.token_parser"
ERR = MOD + ".TokenParseError"
KEY = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")

# q: automaton state; ts: start of the open token; name/key/val: positions or parts read so far
W = namedtuple("W", "q ts te name ks key val fields tokens")


class Wire(Spec):
    """stream := (' '* token)+ ' '*   token := name ' { ' ' '* (name ': "' value '"' ' '*)* '}'
    name := [A-Za-z_]+   value := ([^"\\] | '\\' any)*"""

    def initial(self):
        return W("START", None, None, (), None, (), (), (), ())

    def kind(self, s, c):
        q = s.q
        k = "key" if c in KEY else c
        live = {"START": (" ", "key"), "BLANK": (" ", "key"), "S": (" ", "key"), "N": ("key", " "), "N1": ("{", ), "N2": (" ", ), "F": (" ", "}", "key"),
                "K": ("key", ":"), "K1": (" ", ), "K2": ('"', )}
        if q in live:
            return k if k in live[q] else "dead"
        if q == "V":
            return c if c in '"\\' else "other"
        if q == "E":
            return c if c in '"\\' else "other"
        return "dead"

    def advance(self, s, k, i):
        q = s.q
        if k == "dead" or q == "DEAD":
            return s._replace(q="DEAD")
        if q in ("START", "BLANK", "S"):
            if k == " ":
                return s._replace(q="BLANK" if q != "S" else "S")
            return s._replace(q="N", ts=i, te=None, name=(ch(i), ), fields=())
        if q == "N":
            return s._replace(name=s.name + (ch(i), )) if k == "key" else s._replace(q="N1")
        if q == "N1":
            return s._replace(q="N2")
        if q == "N2":
            return s._replace(q="F")
        if q == "F":
            if k == " ":
                return s
            if k == "}":
                return s._replace(q="S", te=i + 1, tokens=s.tokens + ((s.ts, i + 1, s.name, s.fields), ))
            return s._replace(q="K", ks=i, key=(ch(i), ), val=())
        if q == "K":
            return s._replace(key=s.key + (ch(i), )) if k == "key" else s._replace(q="K1")
        if q == "K1":
            return s._replace(q="K2")
        if q == "K2":
            return s._replace(q="V", val=())
        if q == "V":
            if k == '"':
                return s._replace(q="F", fields=s.fields + ((s.key, s.val), ))
            if k == "\\":
                return s._replace(q="E")
            return s._replace(val=s.val + (ch(i), ))
        if q == "E":
            return s._replace(q="V", val=s.val + ((ch(i), ) if k != "other" else (C("\\"), ch(i))))
        return s._replace(q="DEAD")

    def relate(self, args, s, n):
        if s.q == "DEAD":
            return ("any", 0)
        args = tuple(args)
        last = s.fields[-1] if s.fields else ((), ())
        for label, parts in (("val", s.val), ("key", s.key), ("name", s.name), ("lkey", last[0]), ("lval", last[1])):
            k = len(args) - len(parts)
            if parts and -3 <= k <= 0 and parts[:len(args)] == args:
                return (label, k)
            if parts and 0 < k <= 3 and all(x.op == "ch" or len(x.args[0]) < 8 for x in args[len(parts):]) and args[:len(parts)] == parts:
                return (label, k, tuple(("ch", n - x.args[0]) if x.op == "ch" else x.args for x in args[len(parts):]))
        return ("odd", )

    def mark(self, s, v):
        if s.q == "DEAD":
            return None
        for label, p in (("TS", s.ts), ("TE", s.te), ("KS", s.ks)):
            if p is not None and p == v:
                return label
        return None

    def lag(self, s, count):
        if s.q == "DEAD" or count[1] != s.ts:
            return 0
        return max(-2, min(len(s.fields) - count[0], 2))

    def verdict(self, st):
        q = st.aux["spec"].q
        return (q, st.aux["end"] is not None)

    def digest(self, s, n):
        return (s.q, ) if s.q == "DEAD" else (s.q, min(len(s.fields), 1), min(len(s.tokens), 1))


def atoms(I, st, t):
    """The characters of a text, constants where they are determined."""
    out = []
    for x in (t.args if t.op == "concat" else (t, )):
        if x.op == "ch":
            c = st.aux["cls"][x.args[0]] if x.args[0] < len(st.aux["cls"]) else ()
            out.append(next(iter(c)) if len(c) == 1 else x)
        elif is_const(x) and isinstance(x.args[0], str):
            out.extend(x.args[0])
        else:
            out.append(x)
    return out


def same_text(I, st, t, parts):
    return atoms(I, st, t) == atoms(I, st, Sym("concat", *parts)) if parts else t is C("")


def dup_fact(st):
    """A repeated-field rejection made outside Token.append."""
    return any(f.op == "cmp" and f.args[0] == "in" and v is True and any(x.op == "ch" for x in subterms(f.args[1])) for f, v in st.facts.items())


class Run:
    def __init__(self, ck):
        self.ck = ck
        I = self.I = ScanInterp(ck.repo, Config(exceptions=False, unroll=8, interest=lambda n: False, merge=False), Wire())
        mod = I.repo.find(MOD)
        if mod is None or not {"TokenParser", "Token", "TokenParseError"} <= set(mod.bind):
            raise AnalysisError("anchor lost: %s.TokenParser / Token / TokenParseError" % MOD)
        I.alphabet_from(MOD)
        self.tok, self.par = I.cls(MOD + ":Token"), I.cls(MOD + ":TokenParser")
        self.append = I.find_member(self.tok, "append")
        self.parse = I.find_member(self.par, "parse")
        if self.append is None or self.parse is None:
            raise AnalysisError("anchor lost: Token.append / TokenParser.parse")
        I.cfg.models = {"fn:%s:Token.append" % MOD: self.on_append}
        I.settled = self.on_head
        self.ref = None

    def on_append(self, I, args, kw, st, node):
        tok, key, val = args[0], args[1], args[2] if len(args) > 2 else kw.get("value")
        outs = []
        for s in I.settle(st):
            sp = s.aux["spec"]
            k = s.aux.get(("app", tok), (0, 0))[0]
            s.aux[("app", tok)] = (k + 1, sp.ts)
            if sp.q != "DEAD":
                fs = sp.fields if sp.q != "S" else sp.tokens[-1][3]
                want = fs[k] if k < len(fs) else None
                self.ck.ob("content", "fields", want is not None, "a field is recorded that the stream does not contain", I.site(node))
                if want is not None:
                    self.ck.ob("content", "fields", same_text(I, s, key, want[0]), "a field's name is not the text before its colon", I.site(node))
                    self.ck.ob("content", "fields", same_text(I, s, val, want[1]), "a field's value is not the unescaped text between its quotes", I.site(node))
            outs.append(Out("v", s, NONE))
        return outs

    def on_head(self, st, final=False):
        """Tokens recorded so far are those of the stream."""
        I, sp = self.I, st.aux["spec"]
        # names used as positions in subscripts hold positions
        for r, rec in list(st.heap.items()):
            at = rec.attrs if isinstance(rec, HInst) else rec.vars if isinstance(rec, HFrame) else {}
            for a in self.cursors & set(at):
                if is_const(at[a]) and type(at[a].args[0]) is int:
                    v = C(Pos(at[a].args[0]))
                    st.heap[r] = st.heap[r].with_attr(a, v) if isinstance(rec, HInst) else st.heap[r].with_var(a, v)
        if sp.q == "DEAD" or self.ref not in st.heap:
            return
        toks = st.heap[self.ref].attrs.get("tokens")
        rec = st.heap.get(toks) if toks is not None else None
        if rec is None:
            if final:
                raise AnalysisError("anchor lost: TokenParser.tokens after parsing")
            return
        items = list(rec.items) if isinstance(rec, HSeq) and rec.exact else None
        if items is None:
            raise AnalysisError("TokenParser.tokens is not a list the analysis can follow")
        lag = len(sp.tokens) - len(items)
        late = lag == 0 or lag == 1 and not final and sp.q == "S"
        self.ck.ob("content", "tokens", late, "a token of the stream is %s" % ("dropped" if lag > 0 else "invented"))
        for it, want in list(zip(items, sp.tokens))[-2:]:
            t = st.heap.get(it)
            if not isinstance(t, HInst):
                raise AnalysisError("anchor lost: items of TokenParser.tokens are not Token objects")
            g = lambda k: t.attrs.get(k, NONE)
            self.ck.ob("content", "tokens", same_text(I, st, g("name"), want[2]), "a token's name is not the text before its brace")
            self.ck.ob("span", "start", is_const(g("start")) and g("start").args[0] == want[0], "a token's start is not the offset of its first character")
            end = g("end")
            if end is Sym("call", "len", TEXT) and st.aux["end"] is not None:
                end = C(st.aux["end"])
            self.ck.ob("span", "end", is_const(end) and end.args[0] == want[1], "a token's end is not the offset just behind its closing brace")
            k = st.aux.get(("app", it), (0, 0))[0]
            self.ck.ob("content", "fields", k == len(want[3]), "a token keeps %s fields than the stream gives it" % ("fewer" if k < len(want[3]) else "more"))

    def go(self):
        ck, I = self.ck, self.I
        st = State()
        ref = [o for o in I.call_value(self.par, [], {}, st, FAKE) if o.k == "v"]
        if not ref:
            raise AnalysisError("anchor lost: TokenParser() cannot be constructed")
        st, self.ref = ref[0].st, ref[0].v
        import ast
        self.cursors = set()
        for node in ast.walk(I.repo.find(MOD).tree):
            if isinstance(node, ast.Subscript):
                for x in ast.walk(node.slice):
                    if isinstance(x, (ast.Attribute, ast.Name)):
                        self.cursors.add(x.attr if isinstance(x, ast.Attribute) else x.id)
        I.begin(st)
        I.inflight.append((self.ref, ))
        outs = I.call_func(self.parse, [self.ref, TEXT], {}, st, FAKE)
        I.stats["paths"] += len(outs)
        finals = [x for o in outs for x in [Out(o.k, s, o.v) for s in I.settle(o.st)]]
        return finals


def r_t01(ck, run, finals):
    I = run.I
    for o in finals:
        sp, n, end = o.st.aux["spec"], len(o.st.aux["cls"]), o.st.aux["end"]
        seen = "".join(min(c) if len(c) > 1 else next(iter(c)) for c in o.st.aux["cls"])
        if o.k == "v":
            ck.ob("whole", "normal return", end is not None, "parsing can stop before the end of the stream (after %r)" % seen)
            if end is None:
                continue
            ok = sp.q in ("S", "BLANK")
            ck.ob("rejected", "normal return", ok, "the malformed stream %r is accepted" % seen)
            if ok:
                run.on_head(o.st, True)
            continue
        name = o.v.args[0] if isinstance(o.v, Sym) and o.v.op == "exc" else "?"
        if name != ERR:
            sub = name != "?" and ERR in I.name_mro(name)
            ck.ob("only-parse-error", "raise", sub, "the stream %r raises %s" % (seen, name))
            if not sub:
                continue
        else:
            ck.ob("only-parse-error", "raise", True)
        if dup_fact(o.st) or sp.q == "BLANK" and end is not None:
            continue
        dead = sp.q == "DEAD" or end is not None and sp.q not in ("S", )
        ck.ob("accepted", "raise", dead, "a well-formed stream beginning with %r is refused" % seen)


def t01(ck):
    ck.rule("whole", "parsing returns normally only at the end of the stream")
    ck.rule("rejected", "every stream accepted is in the wire format (reference automaton run in lockstep over every path)")
    ck.rule("accepted", "every rejection is of a stream that no continuation makes well-formed")
    ck.rule("only-parse-error", "the only exception that leaves the parser is TokenParseError, a ValueError")
    ck.rule("terminates", "every cycle of every parsing loop looks at a further character of the finite stream")
    ck.rule("repeated", "a field a token already has is refused, and a new one is stored with its value")
    ck.rule("content", "tokens, fields and values recorded are exactly those of the stream")
    ck.rule("span", "token start and end are the offsets of its text")
    run = Run(ck)
    finals = run.go()
    r_t01(ck, run, finals)
    ck.ob("terminates", "loops", not run.I.stalls, "a parsing loop can go on without reading: %s" % ", ".join(sorted(run.I.stalls)))
    for k in range(run.I.loops):
        ck.ob("terminates", "loop entries", True)
    ck.note("loop_states", run.I.states)
    ck.note("final_states", len(finals))
    ck.interp(run.I)
    repeated(ck)
    I = run.I
    mro = I.name_mro(ERR)
    ck.ob("only-parse-error", "TokenParseError", "ValueError" in mro, "TokenParseError is no ValueError")
    for r, n in (("whole", 2), ("rejected", 2), ("accepted", 10), ("only-parse-error", 10), ("terminates", 4), ("repeated", 2), ("content", 20), ("span", 4)):
        ck.floor(r, n)


FIELDS = ("hour", "a", "preserve_order", "_")


def repeated(ck):
    I = Interp(ck.repo, Config(exceptions=False, unroll=2, interest=lambda n: False))
    cls = I.cls(MOD + ":Token")
    app = I.find_member(cls, "append")
    tok = [o for o in I.call_value(cls, [P("name")], {}, State(), FAKE) if o.k == "v"][0]
    I.inflight.append((tok.v, ))
    held = [((), tok.st)]
    for n in range(4):
        more = []
        for keys, st in held:
            for key in keys + (FIELDS[n], ):
                dup = key in keys
                for p in I.call_func(app, [tok.v, C(key), P("v%d" % n)], {}, st.clone(), FAKE):
                    bad = p.k == "r" and p.v.op == "exc" and ERR in I.name_mro(p.v.args[0])
                    at = "Token.append" if not keys else "Token.append(%s after %s)" % (key, ",".join(keys))
                    ck.ob("repeated", at, bad == dup, "a repeated field is accepted" if dup else "a first field is refused" if not keys else "a new field is refused")
                    if not dup and p.k == "v":
                        more.append((keys + (key, ), p.st))
        held = more
    ck.interp(I)


# ---------------------------------------------------------------------------------------------- T02
ESC = {"\\": "\\\\", '"': '\\"'}
CHARS = "\"\\z \t\n\r{}:'\u3000\u4e2dA0"
PROBE = sorted({"".join(p) for n in range(3) for p in itertools.product(CHARS, repeat=n)} | {"".join(p) for p in itertools.product('"\\z ', repeat=3)})


def hom(t, v):
    """The character substitution a term applies to v, None when it is not recognised as one."""
    if t == v:
        return {}
    if t.op == "call" and t.args[0] == ".replace" and len(t.args) == 4 and all(is_const(x) for x in t.args[2:]):
        a, b = t.args[2].args[0], t.args[3].args[0]
        h = hom(t.args[1], v)
        if h is None or not isinstance(a, str) or len(a) != 1:
            return None
        out = {c: s.replace(a, b) for c, s in h.items()}
        out.setdefault(a, b)
        return out
    if t.op == "call" and t.args[0] == ".translate" and len(t.args) == 3 and t.args[2].op == "strmap" and t.args[1] == v:
        return {chr(k): r if isinstance(r, str) else "" if r is None else chr(r) for k, r in t.args[2].args}
    return None


def atoms_of(t):
    """A text term as a flat list with adjacent constants joined."""
    out = []
    for x in (t.args if t.op == "concat" else (t, )):
        if x.op == "concat":
            xs = atoms_of(x)
        else:
            xs = [x]
        for y in xs:
            if out and is_const(out[-1]) and is_const(y):
                out[-1] = C(out[-1].args[0] + y.args[0])
            elif y is not C(""):
                out.append(y)
    return out


def linear(t):
    """{length atom: coefficient, 1: constant} of an offset term; None when it is no sum of lengths."""
    if isinstance(t, int):
        return {1: t} if t else {}
    if is_const(t) and type(t.args[0]) in (int, Pos):
        return linear(int(t.args[0]))
    if t.op == "sum":
        parts = [linear(x) for x in t.args]
    elif t.op == "mul" and len(t.args) == 2:
        a, b = linear(t.args[0]), linear(t.args[1])
        if a is None or b is None or set(a) - {1} and set(b) - {1}:
            return None
        if set(b) - {1}:
            a, b = b, a
        return {k: n * b.get(1, 0) for k, n in a.items() if n * b.get(1, 0)}
    elif t.op == "call" and t.args[0] == "len":
        parts = [{1: len(x.args[0])} if is_const(x) else {x: 1} for x in atoms_of(t.args[1])]
    else:
        return None
    out = {}
    for p in parts:
        if p is None:
            return None
        for k, n in p.items():
            out[k] = out.get(k, 0) + n
    return {k: n for k, n in out.items() if n}


def expected(name, fields, orders, keep):
    """[(key)] in the order the property gives."""
    if name in orders and not keep:
        want = [k for k in orders[name] if k in fields]
        return want + [k for k in fields if k not in orders[name]]
    return list(fields)


class Writer:
    def __init__(self, ck):
        self.ck = ck
        self.I = I = Interp(ck.repo, Config(exceptions=False, unroll=10, interest=lambda n: False, merge=False))
        mod = I.repo.find(MOD)
        if mod is None or not {"TokenParser", "Token"} <= set(mod.bind):
            raise AnalysisError("anchor lost: %s.TokenParser / Token" % MOD)
        self.tok, self.par = I.cls(MOD + ":Token"), I.cls(MOD + ":TokenParser")
        self.string = I.find_member(self.tok, "string")
        self.app = I.find_member(self.tok, "append")
        self.escape = mod.bind.get("escape_value")
        if self.escape is not None:
            I.cfg.models = dict(self.models())
        if self.string is None or self.app is None:
            raise AnalysisError("anchor lost: Token.string / Token.append")
        self.bad_hom = None
        self.cache = {}

    def models(self):
        return {"fn:%s:escape_value" % MOD: lambda I, args, kw, st, node: [
            Out("v", st, C(esc(args[0].args[0])) if is_const(args[0]) else Sym("escaped", args[0]))] if len(args) == 1 else None}

    def schema(self, st, orders):
        I = self.I
        k = tuple((n, tuple(v)) for n, v in orders.items())
        inner = {C(n): I.alloc(st, ("sch", n, tuple(v)), HSeq("list", [C(x) for x in v])) for n, v in orders.items()}
        return I.alloc(st, ("sch", k), HDict(inner))

    def token(self, st, name, fields):
        """[(state, token)] after appending the fields."""
        I = self.I
        outs = [(o.st, o.v) for o in I.call_value(self.tok, [name], {}, st, FAKE) if o.k == "v"]
        for k, v in fields:
            nxt = []
            for s, t in outs:
                I.inflight.append((t, ))
                nxt += [(o.st, t) for o in I.call_func(self.app, [t, C(k), v], {}, s, FAKE) if o.k == "v"]
                I.inflight.pop()
            outs = nxt
        return outs

    def value_ok(self, t, v):
        """The part of the output for value v is v escaped."""
        if is_const(v):
            return is_const(t) and t.args[0] == esc(v.args[0])
        if t.op == "escaped":
            return t.args[0] == v
        h = hom(t, v)
        return h is not None and {c: s for c, s in h.items() if s != c} == ESC

    def matches(self, t, name, keys, vals):
        """None when the text is `name { k: "esc(v)" ... }`, else what is wrong."""
        got = atoms_of(t)
        want, parts = [], []

        def put(x):
            if want and isinstance(x, str) and isinstance(want[-1], str):
                want[-1] += x
            elif x != "":
                want.append(x)
        put(name if isinstance(name, str) else ("raw", name))
        put(" {")
        for k in keys:
            put(' %s: "' % k)
            v = vals[k]
            put(esc(v.args[0]) if is_const(v) else ("val", v))
            put('"')
        put(" }")
        if len(want) != len(got):
            return "fields"
        for w, g in zip(want, got):
            if isinstance(w, str):
                if not (is_const(g) and g.args[0] == w):
                    return "fields"
            elif w[0] == "raw":
                if g != w[1]:
                    return "fields"
            elif not self.value_ok(g, w[1]):
                return "escape" if any(x == w[1] for x in subterms(g)) else "fields"
        return None


def esc(s):
    return s.replace("\\", "\\\\").replace('"', '\\"')


def t02_cases(thorough):
    orders = {"t": ["a", "b", "c"]}
    for n in range(0, 6 if thorough else 4):
        for fs in itertools.permutations("abcxy", n):
            yield "t", fs, orders, None
    for n in range(0, 3):
        for fs in itertools.permutations("abx", n):
            for i in range(n + 1):
                for flag in ("true", "false", "?"):
                    yield "t", fs[:i] + ("preserve_order", ) + fs[i:], orders, flag
                    yield "t", fs[:i] + ("preserve_order", ) + fs[i:], {"t": ["preserve_order", "b", "a"]}, flag
    for fs in (("a", ), ("b", "a"), ("x", "b", "a")):
        yield "u", fs, orders, None
        yield "t", fs, {}, None
        yield "t", fs, {"t": []}, None
        yield "t", fs, {"s": ["b"], "t": ["a", "b"], "v": ["x"]}, None


def t02(ck):
    ck.rule("fields", "a serialised token holds every field exactly once: schema order first, others after in their original order, original order when preserve_order is \"true\"")
    ck.rule("escape", "values are written with backslash and quote escaped, and nothing else changed")
    ck.rule("text", "the reordered stream is the serialised tokens in their order, separated by one space")
    ck.rule("spans", "each reported span starts and ends exactly where its token's text does (as sums of lengths)")
    ck.rule("schema", "the parser serialises with the schema it was constructed with")
    W_ = Writer(ck)
    I = W_.I
    probe = []
    for name, fs, orders, flag in t02_cases(ck.thorough):
        st = State()
        sch = W_.schema(st, orders)
        I.inflight.append((sch, ))
        vals = {k: (C(flag) if k == "preserve_order" and flag != "?" else P("v_" + k)) for k in fs}
        site = "Token.string(%s; schema %s%s)" % (",".join(fs), orders.get(name), "" if flag is None else ", preserve_order=" + flag)
        for s, t in W_.token(st, C(name), [(k, vals[k]) for k in fs]):
            I.inflight.append((t, ))
            outs = I.call_func(W_.string, [t, sch], {}, s, FAKE)
            I.inflight.pop()
            I.stats["paths"] += len(outs)
            ck.ob("fields", site, bool(outs) and all(o.k == "v" for o in outs), "serialising a token raises")
            for o in outs:
                if o.k != "v":
                    continue
                keep = flag == "true"
                if flag == "?":
                    f = Sym("cmp", "==", vals["preserve_order"], C("true"))
                    keep = I.truth(f, o.st)
                    if keep is None:
                        keep = expected(name, fs, orders, True) == expected(name, fs, orders, False)
                        if not keep:
                            ck.ob("fields", site, False, "whether the order is kept does not depend on preserve_order being \"true\"")
                            continue
                bad = W_.matches(o.v, name, expected(name, fs, orders, keep), vals)
                ck.ob("fields", site, bad != "fields", "the output is not the token's fields in the order the schema asks for")
                if bad == "escape":
                    probe.append(site)
                elif bad is None and fs:
                    ck.ob("escape", "Token.string", True)
        I.inflight.pop()
    escaping(ck, W_, bool(probe))
    spans(ck, W_)
    ck.interp(I)
    for r, n in (("fields", 100), ("escape", 10), ("text", 4), ("spans", 6), ("schema", 2)):
        ck.floor(r, n)


def escaping(ck, W_, probe):
    I = W_.I
    I.cfg.models = {}
    if W_.escape is not None and not probe:
        v = P("value")
        I2 = Interp(ck.repo, Config(exceptions=False, unroll=0, interest=lambda n: False, merge=False))
        outs = I2.run(MOD + ":escape_value", [v], {}, State())
        hs = [hom(o.v, v) if o.k == "v" else None for o in outs]
        if hs and all(h is not None for h in hs):
            for h in hs:
                ck.ob("escape", "escape_value", {c: s for c, s in h.items() if s != c} == ESC, "the substitution made when a value is written is %r" % (h, ))
            return
    # the substitution is not recognised as a term: decided on constant values
    for text in PROBE:
        for s, t in W_.token(State(), C("t"), [("a", C(text))]):
            sch = W_.schema(s, {})
            I.inflight.append((t, sch))
            for o in I.call_func(W_.string, [t, sch], {}, s, FAKE):
                if o.k == "v" and not is_const(o.v):
                    raise AnalysisError("the way Token.string escapes a value cannot be evaluated: %s" % show(o.v, 4))
                ok = o.k == "v" and W_.matches(o.v, "t", ["a"], {"a": C(text)}) is None
                ck.ob("escape", "Token.string(%r)" % text, ok, "the value %r is written so that reading it back gives another value" % text)
            I.inflight.pop()
    I.cfg.models = dict(W_.models()) if W_.escape is not None else {}


def spans(ck, W_):
    I = W_.I
    mod = "fn:%s:TokenParser.parse" % MOD
    for count in range(1, 6 if ck.thorough else 4):
        for meth in ("reorder_with_spans", "reorder"):
            for real in (False, True):
                st = State()
                orders = {"t": ["b", "a"]} if real else {}
                sch = W_.schema(st, orders)
                parsers = [o for o in I.call_value(W_.par, [sch], {}, st, FAKE) if o.k == "v"]
                fired = [0]

                def parse(I, args, kw, st, node):
                    fired[0] += 1
                    cur = [(st, ())]
                    for i in range(count):
                        nxt = []
                        for s, ts in cur:
                            I.inflight.append((args[0], ) + ts)
                            fs = [("a", P("a%d" % i)), ("b", P("b%d" % i))] if real else [("k", P("v%d" % i))]
                            nxt += [(s2, ts + (t, )) for s2, t in W_.token(s, C("t" if real else "n" * (i + 1)), fs)]
                            I.inflight.pop()
                        cur = nxt
                    outs = []
                    for s, ts in cur:
                        lst = I.alloc(s, ("toks", count), HSeq("list", ts))
                        s.heap[args[0]] = s.heap[args[0]].with_attr("tokens", lst)
                        outs.append(Out("v", s, NONE))
                    return outs
                I.cfg.models = dict(W_.models() if W_.escape is not None else {}, **{mod: parse})
                m = I.find_member(W_.par, meth)
                if m is None or not parsers:
                    raise AnalysisError("anchor lost: TokenParser.%s" % meth)
                done = 0
                for po in parsers:
                    if po.st.heap[po.v].attrs.get("orders") is None:
                        continue
                    I.inflight.append((po.v, sch))
                    outs = I.call_func(m, [po.v, P("stream")], {}, po.st.clone(), FAKE)
                    I.inflight.pop()
                    for o in outs:
                        if o.k != "v":
                            if not (o.v.op == "exc" and o.v.args[0] == ERR):
                                ck.ob("text", meth, False, "%s raises on a parsed stream" % meth)
                            continue
                        done += 1
                        one_reorder(ck, W_, meth, count, real, o)
                if not fired[0] or not done:
                    raise AnalysisError("anchor lost: TokenParser.%s does not use parse" % meth)
    I.cfg.models = {}


def one_reorder(ck, W_, meth, count, real, o):
    I, st = W_.I, o.st
    text, sp = o.v, None
    if meth == "reorder_with_spans":
        pair = I.items_of(o.v, st)
        if pair is None or len(pair) != 2:
            raise AnalysisError("anchor lost: reorder_with_spans does not return (text, spans)")
        text, sp = pair
    rule = "schema" if real else "text"
    got, pos = atoms_of(text), 0
    ok, ends = True, []
    # consume the expected atoms; offsets are the lengths of what has been consumed
    flat = []
    for i in range(count):
        if i:
            flat.append(" ")
        ends.append([len(flat), None])
        if real:
            flat += ['t { b: "', ("val", P("b%d" % i)), '" a: "', ("val", P("a%d" % i)), '" }']
        else:
            flat += ["n" * (i + 1) + ' { k: "', ("val", P("v%d" % i)), '" }']
        ends[-1][1] = len(flat)
    cum, cur, k, rest = [{}], {}, 0, list(got)
    for w in flat:
        cur = dict(cur)
        if isinstance(w, str):
            if not rest or not is_const(rest[0]) or not rest[0].args[0].startswith(w):
                ok = False
                break
            cur[1] = cur.get(1, 0) + len(w)
            tail = rest[0].args[0][len(w):]
            rest = ([C(tail)] if tail else []) + rest[1:]
        else:
            good = rest and (rest[0] == w[1] if w[0] == "raw" else W_.value_ok(rest[0], w[1]) or any(x == w[1] for x in subterms(rest[0])))
            if not good:
                ok = False
                break
            cur[rest[0]] = cur.get(rest[0], 0) + 1
            rest = rest[1:]
        cum.append(cur)
    ok = ok and not rest
    ck.ob(rule, "%s of %d" % (meth, count), ok, "the reordered stream is not the serialised tokens joined by single spaces"
          if not real else "the reordered stream does not follow the parser's own schema")
    if sp is None or not ok:
        return
    items = I.items_of(sp, st)
    ck.ob("spans", "%d tokens" % count, items is not None and len(items) == count, "the number of spans is not the number of tokens")
    for i, it in enumerate(items or ()):
        pair = I.items_of(it, st) if i < count else None
        if pair is None or len(pair) != 2:
            ck.ob("spans", "token %d of %d" % (i, count), False, "a span is no pair of offsets")
            continue
        a, b = linear(pair[0]), linear(pair[1])
        ck.ob("spans", "token %d of %d" % (i, count), (a, b) == (cum[ends[i][0]], cum[ends[i][1]]), "the span of a token is not where its text stands")
