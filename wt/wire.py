"""The tagged-token wire format over a whole tagger language: parsed, reordered and fed to the verbalizer, exhaustively.

`A` is an explicit machine for every string a tagger can write, `D` the subset construction of what a verbalizer reads.
Strings are never enumerated: a field value is the pair of machine states it runs between, and what reading it does to D is
a reachability question over the product.
"""
import string
import unicodedata

from .absint import AnalysisError
from .fstlang import CS, Det, SAME, inter, one

LETTERS = CS(string.ascii_letters + "_")
SPACE, QUOTE, BACK, OPEN, CLOSE, COLON = map(one, (" ", '"', "\\", "{", "}", ":"))
SPECIAL = CS('"\\')


class Closed:
    """Epsilon-free view of an acceptor."""

    def __init__(self, m):
        self.m = m
        self._c, self._r = {}, {}

    def closure(self, s):
        r = self._c.get(s)
        if r is None:
            seen, todo = {s}, [s]
            while todo:
                for i, o, t in self.m.arcs(todo.pop()):
                    if i is None and t not in seen:
                        seen.add(t)
                        todo.append(t)
            r = self._c[s] = tuple(sorted(seen))
        return r

    def arcs(self, s):
        r = self._r.get(s)
        if r is None:
            out = []
            for x in self.closure(s):
                for i, o, t in self.m.arcs(x):
                    if i is not None:
                        out.append((i, t))
            r = self._r[s] = tuple(dict.fromkeys(out))
        return r

    def fin(self, s):
        return any(self.m.fin(x) for x in self.closure(s))


class Fault(Exception):
    pass


class Skeletons:
    """Every token form of the tagger language: name, fields with the states their values run between, state after."""

    def __init__(self, A, report):
        self.A = A
        self.report = report          # report(kind, detail, where)
        self.starts = {}              # start state -> list of (name, fields, end state)
        self.values = {}              # (entry) -> {exit state after the closing quote}
        self.keys = {}                # (token, key) -> set of (entry, exit)
        self.orders_seen = {}         # token -> set of key tuples
        self._run()

    def literal(self, states, text, ctx):
        """States after exactly this text; any other continuation is reported."""
        cur = set(states)
        for n, c in enumerate(text):
            nxt = set()
            for q in cur:
                if self.A.fin(q):
                    self.report("truncated", "the text may end inside a token", ctx)
                for cs, t in self.A.arcs(q):
                    if cs.has(c):
                        nxt.add(t)
                    if cs.neg or cs.chars - (LETTERS.chars if n == 0 else frozenset()) - {c}:
                        self.report("delimiter", "%r where the parser expects %r" % (cs, c), ctx)
            cur = nxt
        return cur

    def value(self, p):
        """{state after the closing quote} for values entered at p; escapes other than \\\\ and \\" are reported."""
        if p in self.values:
            return self.values[p]
        exits, todo, seen = set(), [(p, False)], {(p, False)}
        while todo:
            q, esc = todo.pop()
            if self.A.fin(q):
                self.report("truncated", "the text may end inside a value", "")
            for cs, t in self.A.arcs(q):
                if esc:
                    if not inter(cs, SPECIAL) is cs:
                        self.report("escape", "a backslash is followed by %r inside a value" % cs, "")
                    nx = [(t, False)]
                else:
                    nx = []
                    if cs.has('"'):
                        exits.add(t)
                    if cs.has("\\"):
                        nx.append((t, True))
                    rest = CS(cs.chars | SPECIAL.chars, True) if cs.neg else CS(cs.chars - SPECIAL.chars)
                    if not rest.empty():
                        nx.append((t, False))
                for k in nx:
                    if k not in seen:
                        seen.add(k)
                        todo.append(k)
        self.values[p] = exits
        return exits

    def blanks(self, states):
        cur, todo = set(states), list(states)
        while todo:
            for cs, t in self.A.arcs(todo.pop()):
                if cs.has(" ") and t not in cur:
                    cur.add(t)
                    todo.append(t)
        return cur

    def _run(self):
        todo = [q for q in self.blanks([self.A.m.start])]
        self.first = list(todo)
        seen = set(todo)
        self.follow = {}
        while todo:
            p = todo.pop()
            forms = self.token(p)
            self.starts[p] = forms
            for name, fields, e in forms:
                if e not in self.follow:
                    self.follow[e] = self.blanks([e])
                    for q in self.follow[e]:
                        if q not in seen:
                            seen.add(q)
                            todo.append(q)

    def token(self, p):
        starts = any(not inter(cs, LETTERS).empty() for cs, t in self.A.arcs(p))
        if not starts:
            for cs, t in self.A.arcs(p):
                if cs is not SPACE:
                    self.report("name", "%r where a token name belongs" % cs, "")
            return []
        out = []
        for name, qs in self.letters(p).items():
            after = self.literal(qs, " { ", name)
            todo = [((), s) for s in after]
            seen = set(todo)
            while todo:
                fields, s = todo.pop()
                for q in self.blanks([s]):
                    for cs, t in self.A.arcs(q):
                        if cs.has("}"):
                            out.append((name, fields, t))
                            self.orders_seen.setdefault(name, set()).add(tuple(f[0] for f in fields))
                    if any(not inter(cs, LETTERS).empty() for cs, t in self.A.arcs(q)):
                        for key, ks in self.letters(q, "}").items():
                            if any(f[0] == key for f in fields):
                                self.report("duplicate", "field %s is written twice" % key, name)
                                continue
                            for v in self.literal(ks, ': "', "%s.%s" % (name, key)):
                                for x in self.value(v):
                                    self.keys.setdefault((name, key), set()).add((v, x))
                                    k = (fields + ((key, v, x), ), x)
                                    if k not in seen:
                                        seen.add(k)
                                        todo.append(k)
                            if len(seen) > 400000:
                                raise AnalysisError("too many field layouts in token %s" % name)
        return list(dict.fromkeys(out))

    def letters(self, p, other=""):
        return self.word_from(p, " " + other)

    def word_from(self, p, allowed):
        out, todo = {}, [("", p)]
        seen = set(todo)
        while todo:
            w, q = todo.pop()
            if len(w) > 40:
                self.report("name", "an unbounded run of letters where a name belongs", w[:40])
                return out
            ends = False
            for cs, t in self.A.arcs(q):
                m = inter(cs, LETTERS)
                if not m.empty():
                    for c in m.chars:
                        k = (w + c, t)
                        if k not in seen:
                            seen.add(k)
                            todo.append(k)
                rest = None if m is cs else cs
                if rest is not None:
                    ends = True
                    if not w:
                        bad = CS(rest.chars - LETTERS.chars - frozenset(allowed)) if not rest.neg else rest
                        if not bad.empty():
                            self.report("name", "%r where a name belongs" % bad, "")
            if self.A.fin(q) and w:
                self.report("truncated", "the text may end inside a name", w)
            if ends and w:
                out.setdefault(w, set()).add(q)
        return out


class Protocol:
    """Feeds every tagged text, reordered, to the verbalizer's reading automaton."""

    def __init__(self, sk, D, orders, miss):
        self.sk, self.A, self.D, self.orders = sk, sk.A, D, orders
        self.miss = miss                 # miss(kind, token, keys, detail)
        self._seg, self._txt, self._true = {}, {}, {}
        self.pairs = 0
        self.forms = 0

    def text(self, S, s):
        for c in s:
            k = (S, c)
            r = self._txt.get(k)
            if r is None:
                r = self.D.dead
                for cs, S2 in self.D.step(S):
                    if cs.has(c):
                        r = S2
                        break
                self._txt[k] = r
            S = r
        return S

    def segment(self, p, S):
        """{exit: {D state}} for the value entered at p with D in S, the closing quote read on both sides."""
        k = (p, S)
        r = self._seg.get(k)
        if r is not None:
            return r
        D, A = self.D, self.A
        out, least = {}, {}
        todo, seen = [(p, S, False)], {(p, S, False): None}
        while todo:
            q, s, esc = node = todo.pop()
            steps = D.step(s) if s != D.dead else ()
            for cs, t in A.arcs(q):
                rest = cs
                for c2, s2 in steps:
                    m = inter(cs, c2)
                    if m.empty():
                        continue
                    rest = inter(rest, CS(c2.chars, not c2.neg))
                    self.put(m, t, s2, esc, node, seen, todo, out, least)
                if not rest.empty():
                    self.put(rest, t, D.dead, esc, node, seen, todo, out, least)
        self.pairs += len(seen)
        r = self._seg[k] = (out, seen)
        return r

    def put(self, m, t, s2, esc, node, seen, todo, out, least):
        if esc:
            self.visit((t, s2, False), node, m, seen, todo, least)
            return
        if m.has('"'):
            e = out.setdefault(t, {})
            if s2 not in e and not any(self.within(x, s2) for x in e):
                e[s2] = node
        if m.has("\\"):
            self.visit((t, s2, True), node, BACK, seen, todo, least)
        rest = CS(m.chars | SPECIAL.chars, True) if m.neg else CS(m.chars - SPECIAL.chars)
        if not rest.empty():
            self.visit((t, s2, False), node, rest, seen, todo, least)

    def within(self, a, b):
        return self.D.sets[a] <= self.D.sets[b]

    def visit(self, nx, node, m, seen, todo, least):
        """Reading states only matter through what they can still read: a superset of one already met is no new case."""
        if nx in seen:
            return
        small = least.setdefault((nx[0], nx[2]), [])
        S = self.D.sets[nx[1]]
        for x in small:
            if x <= S:
                return
        small.append(S)
        seen[nx] = (node, m)
        todo.append(nx)

    def witness(self, p, S, x, want):
        """A value text from p to x that takes D from S to `want`."""
        out, seen = self.segment(p, S)
        node = out[x][want]
        w = []
        while seen[node] is not None:
            node, cs = seen[node]
            w.append(cs.sample())
        return "".join(reversed(w))

    def is_true(self, p, x):
        """The set of truth values of `value == "true"` over the texts between the states."""
        k = (p, x)
        if k in self._true:
            return self._true[k]
        res = set()
        todo, seen = [(p, "")], {(p, "")}
        while todo:
            q, w = todo.pop()
            for cs, t in self.A.arcs(q):
                if cs.has('"') and t == x and w != "\0":
                    res.add(w == "true")
                if cs.has('"') and t == x and w == "\0":
                    res.add(False)
                for c in ("true"[len(w)], ) if w != "\0" and len(w) < 4 else ():
                    if cs.has(c):
                        k2 = (t, w + c)
                        if k2 not in seen:
                            seen.add(k2)
                            todo.append(k2)
                other = cs if cs.neg else CS(cs.chars - frozenset("true"[len(w)] if w != "\0" and len(w) < 4 else "") - {'"'})
                if not other.empty():
                    k2 = (t, "\0")
                    if k2 not in seen:
                        seen.add(k2)
                        todo.append(k2)
        self._true[k] = res
        return res

    def layouts(self, name, fields):
        """The field orders the parser may write for this layout."""
        if name not in self.orders:
            return [fields]
        kinds = {False}
        for key, p, x in fields:
            if key == "preserve_order":
                kinds = self.is_true(p, x)
        out = []
        for keep in sorted(kinds):
            if keep:
                out.append(fields)
            else:
                canon = self.orders[name]
                known = [f for k in canon for f in fields if f[0] == k]
                out.append(tuple(known) + tuple(f for f in fields if f[0] not in canon))
        return out

    def run(self):
        A, D = self.A, self.D
        todo = [(p, D.start, True) for p in self.sk.first]
        seen = set(todo)
        done = {}
        while todo:
            p, S, first = todo.pop()
            S0 = S if first else self.text(S, " ")
            for name, fields, e in self.sk.starts.get(p, ()):
                for lay in self.layouts(name, fields):
                    k = (name, lay, S0)
                    if k not in done:
                        done[k] = self.token(name, lay, S0)
                        self.forms += 1
                    ends = done[k]
                    fin = any(A.fin(q) for q in self.sk.follow[e])
                    more = [q for q in self.sk.follow[e] if self.sk.starts.get(q)]
                    for S2 in ends:
                        if fin and not D.fin(S2):
                            self.miss("end", name, [f[0] for f in lay], "the verbalizer cannot stop after this token")
                        for q in more:
                            n = (q, S2, False)
                            if n not in seen:
                                seen.add(n)
                                todo.append(n)
        return self

    def token(self, name, lay, S):
        keys = [f[0] for f in lay]
        S = self.text(S, name + " {")
        if S == self.D.dead:
            self.miss("token", name, keys, "the verbalizer reads no token of this name here")
            return set()
        cur = {S}
        for key, p, x in lay:
            nxt = set()
            for s in cur:
                s1 = self.text(s, " %s: \"" % key)
                if s1 == self.D.dead:
                    self.miss("field", name, keys, "the verbalizer does not read field %s at this place" % key)
                    continue
                out, _ = self.segment(p, s1)
                for s2 in out.get(x, ()):
                    if s2 == self.D.dead:
                        self.miss("value", name, keys, "the verbalizer does not read %s: %r" % (key, self.witness(p, s1, x, s2)))
                    else:
                        nxt.add(s2)
            cur = nxt
        end = set()
        for s in cur:
            s2 = self.text(s, " }")
            if s2 == self.D.dead:
                self.miss("close", name, keys, "the verbalizer expects more fields")
            else:
                end.add(s2)
        return end


def wire(A, V, orders, report, miss):
    sk = Skeletons(Closed(A), report)
    return sk, Protocol(sk, Det(V), orders, miss).run()


BLANKS = CS(" \t\n\r\x0b\x0c\xa0\u3000")


class Copying:
    """What a tagger writes into values, against what it read: kept characters are copied, everything else is dropped.

    Explores the tagging transducer with the wire phase of its output, the name and field being written, and the last few
    characters read but not yet written. A character written into a value that was not read is an insertion; it is a
    rewrite if text was read inside the same value, and a stand-in if text was dropped just before a value made of nothing
    but insertions. What remains are fixed markers.
    """

    def __init__(self, T, fault, keep=3):
        self.T, self.keep, self.fault = T, keep, fault
        self.markers = {}       # (token, key) -> characters inserted
        self.copied = set()     # (token, key) with at least one copied character
        self.dropped = set()
        self.states = 0
        self._run()

    def _run(self):
        T = self.T
        # phase: 0 between tokens, 1 in a token between fields (or in a key), 2 in a value
        # read: text was read in this value (phase 2) or dropped since the last boundary (else); made: something was inserted
        start = (T.start, 0, "", "", "", False, (), False, False)
        todo, seen = [start], {start}
        while todo:
            x = todo.pop()
            s = x[0]
            for i, o, t in T.arcs(s):
                for y in self.step(i, o, *x[1:]):
                    if i is not None or o is not None:
                        self.gone(x, i, o, y)
                    k = (t, ) + y
                    if k not in seen:
                        seen.add(k)
                        todo.append(k)
            if len(seen) > 3000000:
                raise AnalysisError("the tagging transducer has too many writing states")
        self.states = len(seen)

    def gone(self, x, i, o, y):
        """Notes what this step gives up for good: it was read, and is not among what is still to be written."""
        src = x[6] if o is SAME else x[6] + ((i, ) if i is not None else ())
        lost = src[:len(src) - len(y[5])]
        if o is not None and o is not SAME and x[1] == 2 and lost and (inter(o, lost[-1]) is o or inter(o, lost[-1]) is lost[-1]):
            lost = lost[:-1]
        for c in lost:
            self.dropped.add(c)
            if c.neg or any(not ch.isspace() and unicodedata.category(ch)[0] != "P" for ch in c.chars):
                self.fault("drop", x[2], x[3].rstrip("\0"), "%r is read and not written" % c)

    def step(self, i, o, phase, name, key, last, esc, pend, read, made):
        blank = i is None or inter(i, BLANKS) is i
        if o is None:
            if i is not None:
                pend = (pend + (i, ))[-self.keep:]
                if phase == 2 and made and not blank:
                    self.fault("rewrite", name, key, "%r is read and other text written in its place" % i)
            return ((phase, name, key, last, esc, pend, read or not blank, made), )
        same = o is SAME
        if same:
            o, pend = i, (i, )
        elif i is not None:
            pend = pend + (i, )
        if phase == 2:
            return self.inside(o, same, name, key, esc, pend, read or not blank, made)
        return self.outside(o, phase, name, key, last, () if same else pend[-self.keep:], read or not blank)

    def outside(self, o, phase, name, key, last, pend, read):
        out = []
        w = last
        for c in inter(o, LETTERS).chars:
            w = last + c if len(last) < 40 else last
            out.append((0, w, "", w, False, pend, read, False) if phase == 0 else (1, name, w, w, False, pend, read, False))
        for c, ph in (("{", 1), ("}", 0)):
            if o.has(c):
                out.append((ph, name if c == "{" else "", "", "", False, pend, read and c == "{", False))
        if o.has('"'):
            # what was dropped since the last boundary is remembered through `key`'s opening quote
            out.append((2, name, key + ("\0" if read else ""), "", False, pend, False, False))
        if o.has(" ") or o.has(":"):
            out.append((phase, name, key, "", False, pend, read, False))
        return out

    def inside(self, o, same, name, key, esc, pend, read, made):
        out = []
        if not esc:
            if o.has('"'):
                out.append((1, name, "", "", False, pend[-self.keep:], False, False))
            if o.has("\\"):
                out.append((2, name, key, "", True, pend[-self.keep:], read, made))
            rest = CS(o.chars | SPECIAL.chars, True) if o.neg else CS(o.chars - SPECIAL.chars)
        else:
            rest = o
        if rest.empty():
            return out
        hit = len(pend) - 1 if same else None
        if hit is None:
            for n, p in enumerate(pend):
                if p is rest or inter(rest, p) is rest and len(rest.chars) == 1 and not rest.neg:
                    hit = n
                    break
        field = (name, key.rstrip("\0"))
        if hit is None and rest is not one(" "):
            if read:
                self.fault("rewrite", field[0], field[1], "%r is written in place of other text" % rest)
            elif key.endswith("\0"):
                self.fault("stand-in", field[0], field[1], "%r is written for text dropped before the field" % rest)
            made = True
            self.markers.setdefault(field, set()).add(rest)
        elif hit is not None:
            if made:
                self.fault("rewrite", field[0], field[1], "copied text is mixed with inserted text")
            self.copied.add(field)
        out.append((2, name, key, "", False, () if hit is None else pend[hit + 1:][-self.keep:], read or hit is not None, made))
        return out


class Decoding:
    """Does a rule's reading relation drop every escaping backslash of the values it is given?"""

    def __init__(self, sk, fault):
        self.sk, self.A, self.fault = sk, sk.A, fault
        self._esc = {}
        self.forms = 0
        self.nodes = 0

    def escapes(self, p, x):
        """Can a text between the states contain a backslash?"""
        k = (p, x)
        if k not in self._esc:
            todo, seen, hit = [(p, False)], {(p, False)}, False
            edges = {}
            while todo:
                q, esc = todo.pop()
                for cs, t in self.A.arcs(q):
                    for nx in (((t, False), ) if esc else tuple(
                            ([(t, True)] if cs.has("\\") else []) +
                            ([(t, False)] if cs.neg or cs.chars - SPECIAL.chars else []))):
                        edges.setdefault(nx, set()).add((q, esc))
                        if nx not in seen:
                            seen.add(nx)
                            todo.append(nx)
            ends = {n for n in seen if not n[1] and any(cs.has('"') and t == x for cs, t in self.A.arcs(n[0]))}
            back, live = list(ends), set(ends)
            while back:
                for m in edges.get(back.pop(), ()):
                    if m not in live:
                        live.add(m)
                        back.append(m)
            self._esc[k] = any(n[1] for n in live)
        return self._esc[k]

    def rule(self, name, V, layouts):
        for lay in layouts:
            if any(self.escapes(p, x) for _, p, x in lay):
                self.form(name, V, lay)

    def form(self, name, V, lay):
        """Product of the value texts with the reading relation, over one field layout; only completed readings count."""
        self.forms += 1
        # stages: literal text, then a value, alternating
        text = name + " {"
        stages = []
        for key, p, x in lay:
            stages.append(("t", text + " %s: \"" % key))
            stages.append(("v", p, x, key))
            text = ""
        stages.append(("t", text + " }"))
        start = (0, 0, V.start, False)
        todo, seen, back, bad, ends = [start], {start}, {}, [], []
        while todo:
            n = todo.pop()
            k, q, v, esc = n
            nxt = []
            if k == len(stages):
                if V.fin(v):
                    ends.append(n)
                for i, o, t in V.arcs(v):
                    if i is None:
                        nxt.append(((k, 0, t, False), False))
            elif stages[k][0] == "t":
                w = stages[k][1]
                c = w[q]
                for i, o, t in V.arcs(v):
                    if i is None:
                        nxt.append(((k, q, t, False), False))
                    elif i.has(c):
                        if q + 1 < len(w):
                            nxt.append(((k, q + 1, t, False), False))
                        else:
                            nxt.append(((k + 1, stages[k + 1][1] if k + 1 < len(stages) else 0, t, False), False))
            else:
                _, p, x, key = stages[k]
                for i, o, t in V.arcs(v):
                    if i is None:
                        nxt.append(((k, q, t, esc), False))
                        continue
                    for cs, r in self.A.arcs(q):
                        m = inter(cs, i)
                        if m.empty():
                            continue
                        if esc:
                            nxt.append(((k, r, t, False), False))
                            continue
                        if m.has('"') and r == x:
                            nxt.append(((k + 1, 0, t, False), False))
                        if m.has("\\"):
                            nxt.append(((k, r, t, True), o is not None))
                        if m.neg or m.chars - SPECIAL.chars:
                            nxt.append(((k, r, t, False), False))
            for y, wrong in nxt:
                back.setdefault(y, set()).add(n)
                if wrong:
                    bad.append((n, y, stages[k][3]))
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        self.nodes += len(seen)
        if bad:
            live, todo = set(ends), list(ends)
            while todo:
                for m in back.get(todo.pop(), ()):
                    if m not in live:
                        live.add(m)
                        todo.append(m)
            for n, y, key in bad:
                if y in live:
                    self.fault("decode", name, key, "the escaping backslash is read as part of the text")
