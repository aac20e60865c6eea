"""Languages of extracted graph expressions: lazily unfolded automata over character classes.

A node of an expression becomes a nondeterministic transducer whose states are unfolded on demand; nothing is sampled,
and no input text exists: labels are sets of characters, and every question (inclusion, intersection, equality of what a
path keeps) is answered by a fixpoint over reachable state sets. Weights are ignored here.
"""
import struct

from .absint import AnalysisError
from .terms import NONE, Sym, is_const, show

SAME = "same"


# ------------------------------------------------------------------ character classes

class CS:
    """A set of characters: `chars`, or every character but `chars`. '[EOS]'-like markers are multi-letter members."""
    __slots__ = ("neg", "chars", "h")
    table = {}

    def __new__(cls, chars, neg=False):
        chars = frozenset(chars)
        k = (neg, chars)
        r = cls.table.get(k)
        if r is None:
            r = object.__new__(cls)
            r.neg, r.chars, r.h = neg, chars, hash(k)
            cls.table[k] = r
        return r

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def has(self, c):
        return (c not in self.chars and len(c) == 1) if self.neg else c in self.chars

    def empty(self):
        return not self.neg and not self.chars

    def sample(self):
        if not self.neg:
            return min(self.chars, key=lambda c: (len(c), c))
        for c in "xXa0京y1b2c3d4 ,.Zz测":
            if c not in self.chars:
                return c
        i = 0x4E00
        while chr(i) in self.chars:
            i += 1
        return chr(i)

    def __repr__(self):
        s = "".join(sorted(self.chars)[:12])
        return ("[^%s]" if self.neg else "[%s]") % s


_INTER = {}


def inter(a, b):
    if a is b:
        return a
    k = (a, b)
    r = _INTER.get(k)
    if r is None:
        if a.neg and b.neg:
            r = CS(a.chars | b.chars, True)
        elif a.neg:
            r = CS(c for c in b.chars if a.has(c))
        elif b.neg:
            r = CS(c for c in a.chars if b.has(c))
        else:
            r = CS(a.chars & b.chars)
        _INTER[k] = r
    return r


def minus(a, b):
    if b.neg:
        return inter(a, CS(b.chars))      # markers are never in a negated class; they stay out here
    if a.neg:
        return CS(a.chars | frozenset(c for c in b.chars if len(c) == 1), True)
    return CS(a.chars - b.chars)


ANY = CS((), True)
NOTHING = CS(())


def one(c):
    return CS((c, ))


ASCII = {
    "ALNUM": "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", "ALPHA": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ",
    "DIGIT": "0123456789", "HEX": "0123456789abcdefABCDEF", "LOWER": "abcdefghijklmnopqrstuvwxyz", "UPPER": "ABCDEFGHIJKLMNOPQRSTUVWXYZ",
    "SPACE": " \t\n\r\x0b\x0c", "PUNCT": "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~",
}
ASCII["GRAPH"] = ASCII["ALNUM"] + ASCII["PUNCT"]
ASCII["PRINT"] = ASCII["GRAPH"] + " "


def named_set(n):
    if n in ASCII:
        return CS(ASCII[n])
    if n == "VALID_UTF8_CHAR":
        return ANY
    if n == "NOT_SPACE":
        return CS(ASCII["SPACE"], True)
    if n == "NOT_QUOTE":
        return CS('"', True)
    if n == "BYTE":
        return ANY
    if n == "SINGLE_BYTE":
        return CS(map(chr, range(1, 128)))
    raise AnalysisError("unknown character set %s" % n)


ESCAPES = {"[": "[", "]": "]", "\\": "\\", "n": "\n", "r": "\r", "t": "\t"}


def file_rows(path):
    """The rows of a label file as the graph reader sees them: (columns, line number, truncated).

    '#' starts a comment unless escaped, and what precedes it loses its trailing blanks; '\\' escapes the next character.
    """
    out = []
    with open(path, encoding="utf-8", newline="\n") as f:
        lines = f.read().split("\n")
    for n, line in enumerate(lines, 1):
        line = line.rstrip("\r")
        t, i, cut = "", 0, False
        while i < len(line):
            c = line[i]
            if c == "#":
                cut, t = True, t.rstrip()
                break
            if c == "\\" and i + 1 < len(line):
                i += 1
                if line[i] != "#":
                    t += "\\"
                c = line[i]
            t += c
            i += 1
        if t or cut:
            out.append((t.split("\t") if t else [], n, cut))
    return out


def symbols(s):
    """The symbols of a pynini string: characters, escaped brackets, [generated] symbols, [byte] codes."""
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == "\\" and i + 1 < len(s) and s[i + 1] in ESCAPES:
            out.append(ESCAPES[s[i + 1]])
            i += 2
        elif c == "[":
            j = s.find("]", i)
            if j < 0:
                raise AnalysisError("unbalanced bracket in %r" % s)
            body = s[i + 1:j]
            if body.startswith("0x") or body.isdigit():
                out.append(chr(int(body, 0)))
            else:
                out.append("[%s]" % body)
            i = j + 1
        else:
            out.append(c)
            i += 1
    return out


# ------------------------------------------------------------------ machines

class M:
    """A lazily unfolded transducer. States are small ints; `raw` holds what they stand for."""
    acceptor = False

    def setup(self, start):
        self.ids, self.raw, self._a, self._f = {}, [], {}, {}
        self.start = self.id(start)

    def id(self, x):
        r = self.ids.get(x)
        if r is None:
            r = self.ids[x] = len(self.raw)
            self.raw.append(x)
        return r

    def arcs(self, s):
        r = self._a.get(s)
        if r is None:
            r = self._a[s] = tuple(self.out(self.raw[s]))
        return r

    def fin(self, s):
        r = self._f.get(s)
        if r is None:
            r = self._f[s] = self.end(self.raw[s])
        return r


class Str(M):
    acceptor = True

    def __init__(self, syms):
        self.syms = tuple(one(c) for c in syms)
        self.setup(0)

    def out(self, k):
        if k < len(self.syms):
            yield self.syms[k], SAME, self.id(k + 1)

    def end(self, k):
        return k == len(self.syms)


class Set(M):
    acceptor = True

    def __init__(self, cs):
        self.cs = cs
        self.setup(0)

    def out(self, k):
        if k == 0 and not self.cs.empty():
            yield self.cs, SAME, self.id(1)

    def end(self, k):
        return k == 1


class Map(M):
    """A finite relation (in, out) or, with out None everywhere, a finite language; input side folded into a minimal trie."""

    def __init__(self, pairs):
        self.acceptor = all(b is None for _, b in pairs)
        root = [{}, set()]
        for a, b in pairs:
            n = root
            for c in a:
                n = n[0].setdefault(c, [{}, set()])
            n[1].add(b)
        self.nodes = []
        table = {}

        def fold(n):
            kids = {}
            for c, k in n[0].items():
                kids.setdefault(fold(k), []).append(c)
            key = (frozenset(n[1]), tuple(sorted((k, tuple(sorted(cs))) for k, cs in kids.items())))
            if key not in table:
                table[key] = len(self.nodes)
                self.nodes.append((key[0], [(CS(cs), k) for k, cs in key[1]]))
            return table[key]
        r = fold(root)
        self.setup((r, None))

    def out(self, x):
        n, tail = x
        if tail is not None:
            yield None, one(tail[0]), self.id((None, tail[1:]) if len(tail) > 1 else (None, ()))
            return
        if n is None:
            return
        outs, kids = self.nodes[n]
        for cs, k in kids:
            yield cs, (SAME if self.acceptor else None), self.id((k, None))
        if not self.acceptor:
            for o in sorted(outs, key=str):
                if o:
                    yield None, one(o[0]), self.id((None, o[1:]) if len(o) > 1 else (None, ()))

    def arcs(self, s):
        x = self.raw[s]
        if x[0] is None and x[1] == ():
            return ()
        return super().arcs(s)

    def end(self, x):
        n, tail = x
        if tail is not None:
            return tail == ()
        outs = self.nodes[n][0]
        return bool(outs) if self.acceptor else () in outs


class Cat(M):
    def __init__(self, parts):
        self.p = parts
        self.acceptor = all(x.acceptor for x in parts)
        self.setup((0, parts[0].start))

    def out(self, x):
        k, s = x
        m = self.p[k]
        for i, o, t in m.arcs(s):
            yield i, o, self.id((k, t))
        if k + 1 < len(self.p) and m.fin(s):
            yield None, None, self.id((k + 1, self.p[k + 1].start))

    def end(self, x):
        return x[0] == len(self.p) - 1 and self.p[-1].fin(x[1])


class Alt(M):
    def __init__(self, parts):
        self.p = parts
        self.acceptor = all(x.acceptor for x in parts)
        self.setup(None)

    def out(self, x):
        if x is None:
            for k, m in enumerate(self.p):
                yield None, None, self.id((k, m.start))
            return
        k, s = x
        for i, o, t in self.p[k].arcs(s):
            yield i, o, self.id((k, t))

    def end(self, x):
        return x is not None and self.p[x[0]].fin(x[1])


class Clo(M):
    def __init__(self, m, lo, hi):
        self.m, self.lo, self.hi, self.cap = m, lo, hi, (lo if hi is None else hi)
        self.acceptor = m.acceptor
        self.setup((0, -1))

    def out(self, x):
        n, s = x
        if s < 0:
            if self.hi is None or n < self.hi:
                yield None, None, self.id((n, self.m.start))
            return
        for i, o, t in self.m.arcs(s):
            yield i, o, self.id((n, t))
        if self.m.fin(s):
            yield None, None, self.id((min(n + 1, self.cap), -1))

    def end(self, x):
        return x[1] < 0 and x[0] >= self.lo


class Cross(M):
    def __init__(self, a, b):
        self.a, self.b = a, b
        self.setup((0, a.start))

    def out(self, x):
        k, s = x
        m = self.b if k else self.a
        for i, o, t in m.arcs(s):
            yield (None, i, self.id((1, t))) if k else (i, None, self.id((0, t)))
        if not k and m.fin(s):
            yield None, None, self.id((1, self.b.start))

    def end(self, x):
        return x[0] == 1 and self.b.fin(x[1])


class Inv(M):
    def __init__(self, m):
        self.m = m
        self.acceptor = m.acceptor
        self.setup(m.start)

    def out(self, s):
        for i, o, t in self.m.arcs(s):
            if o is SAME:
                yield i, o, self.id(t)
            else:
                yield o, i, self.id(t)

    def end(self, s):
        return self.m.fin(s)


class Proj(M):
    acceptor = True

    def __init__(self, m, side):
        self.m, self.side = m, side
        self.setup(m.start)

    def out(self, s):
        for i, o, t in self.m.arcs(s):
            x = i if self.side == 0 or o is SAME else o
            yield (None, None, self.id(t)) if x is None else (x, SAME, self.id(t))

    def end(self, s):
        return self.m.fin(s)


class Comp(M):
    def __init__(self, a, b):
        self.a, self.b = a, b
        self.acceptor = a.acceptor and b.acceptor
        self.setup((a.start, b.start))

    def out(self, x):
        s, r = x
        mids = []
        for i, o, t in self.a.arcs(s):
            if o is None:
                yield i, None, self.id((t, r))
            else:
                mids.append((i, o, t))
        for y, o2, u in self.b.arcs(r):
            if y is None:
                yield None, o2, self.id((s, u))
                continue
            for i, o, t in mids:
                m = inter(i if o is SAME else o, y)
                if m.empty():
                    continue
                k = self.id((t, u))
                if o is SAME:
                    yield (m, o2, k)
                else:
                    yield (i, m if o2 is SAME else o2, k)

    def end(self, x):
        return self.a.fin(x[0]) and self.b.fin(x[1])


class Diff(M):
    acceptor = True

    def __init__(self, a, b):
        self.a, self.d = a, Det(b)
        self.setup((a.start, self.d.start))

    def out(self, x):
        s, S = x
        steps = self.d.step(S)
        for i, o, t in self.a.arcs(s):
            if i is None:
                yield None, None, self.id((t, S))
                continue
            rest = i
            for cs, S2 in steps:
                m = inter(i, cs)
                if not m.empty():
                    yield m, SAME, self.id((t, S2))
                    rest = minus(rest, cs)
            if not rest.empty():
                yield rest, SAME, self.id((t, self.d.dead))

    def end(self, x):
        return self.a.fin(x[0]) and not self.d.fin(x[1])


class Table(M):
    """An explicit transducer read from a compiled archive."""

    def __init__(self, start, states):
        self.states = states
        self.setup(start)

    def out(self, s):
        for i, o, t in self.states[s][1]:
            if i == o:
                yield (None, None, self.id(t)) if i == 0 else (one(chr(i)), SAME, self.id(t))
            else:
                yield (one(chr(i)) if i else None), (one(chr(o)) if o else None), self.id(t)

    def end(self, s):
        return self.states[s][0]


class Rw(M):
    """Context-dependent rewriting, left to right: obligatory (or optional) over every position where the context holds.

    Phases of a boundary: 0 fresh, 1 just after an empty match, 2 just after a nonempty match. An empty match needs phase 0.
    """

    def __init__(self, tau, l, r, optional=False):
        self.tau, self.opt = tau, optional
        self.l, self.r = l, r
        after = r or Str("")
        self.right = Det(after)
        dom = Proj(tau, 0)
        self.empty = Det(dom).fin(Det(dom).start)
        if self.empty:
            both = Alt([Cat([Diff(dom, Str("")), after]), after])
            self.need = Det(both)
            self.need_more = self.need.id(self.need.closure([both.id((0, both.p[0].start))]))
        else:
            self.need = Det(Cat([dom, after]))
            self.need_more = self.need.start
        ls = 0
        if l is not None:
            # the left context may begin with the start marker
            full = Det(Cat([Clo(Set(ANY), 0, None), l]))
            self.left = full
            ls = full.join(dict_step(full, full.start, "[BOS]"), full.start)
        self.setup((-1, ls, frozenset(), self.need.dead, 0))

    def ok_left(self, L):
        return self.l is None or self.left.fin(L)

    def discharge(self, pos):
        return frozenset(p for p in pos if not self.right.fin(p))

    def demand(self, phase):
        return self.need_more if phase else self.need.start

    def out(self, x):
        s, L, pos, neg, ph = x
        # inside a match: 3 nothing read since phase 0, 4 nothing read since phase 1 or 2, 5 something read
        if s >= 0:
            if self.tau.fin(s) and ph != 4:
                p2 = self.discharge(pos | {self.right.start}) if self.r is not None else pos
                yield None, None, self.id((-1, L, p2, neg, 2 if ph == 5 else 1))
            for i, o, t in self.tau.arcs(s):
                if i is None:
                    if o is None:
                        yield None, None, self.id((t, L, pos, neg, ph))
                    else:
                        for cs, L2 in self.full(self.left, L, o) if self.l is not None else ((o, L), ):
                            yield None, cs, self.id((t, L2, pos, neg, ph))
                    continue
                for cs, pos2, neg2 in self.eat(i, pos, neg):
                    if o is None:
                        yield cs, None, self.id((t, L, pos2, neg2, 5))
                    elif self.l is None:
                        yield cs, o, self.id((t, L, pos2, neg2, 5))
                    else:
                        for c2, L2 in self.full(self.left, L, cs if o is SAME else o):
                            yield (c2, SAME, self.id((t, L2, pos2, neg2, 5))) if o is SAME else (cs, c2, self.id((t, L2, pos2, neg2, 5)))
            return
        here = self.ok_left(L)
        if here:
            yield None, None, self.id((self.tau.start, L, pos, neg, 4 if ph else 3))
        n = neg
        if here and not self.opt:
            n = self.need.join(neg, self.demand(ph))
            if self.need.fin(n):
                return
        for cs, pos2, neg2 in self.eat(ANY, pos, n):
            if self.l is None:
                yield cs, SAME, self.id((-1, L, pos2, neg2, 0))
            else:
                for c2, L2 in self.full(self.left, L, cs):
                    yield c2, SAME, self.id((-1, L2, pos2, neg2, 0))

    def full(self, det, S, cs):
        """Partition of cs by det's steps from S, the dead rest included."""
        rest, out = cs, []
        for c, S2 in det.step(S):
            m = inter(cs, c)
            if not m.empty():
                out.append((m, S2))
                rest = minus(rest, c)
        if not rest.empty():
            out.append((rest, det.dead))
        return out

    def eat(self, cs, pos, neg):
        cur = [(cs, neg)]
        if neg != self.need.dead:
            cur = [(c, n) for c, n in self.full(self.need, neg, cs) if not self.need.fin(n)]
        res = [(c, frozenset(), n) for c, n in cur]
        for p in pos:
            nxt = []
            for c, ps, n in res:
                for c2, p2 in self.full(self.right, p, c):
                    if p2 == self.right.dead:
                        continue
                    nxt.append((c2, ps if self.right.fin(p2) else ps | {p2}, n))
            res = nxt
        return res

    def end(self, x):
        s, L, pos, neg, ph = x
        if s >= 0:
            return False
        if self.ok_left(L) and not self.opt:
            neg = self.need.join(neg, self.demand(ph))
        if self.need.fin(neg) or self.need.fin(dict_step(self.need, neg, "[EOS]")):
            return False
        return all(self.right.fin(dict_step(self.right, p, "[EOS]")) for p in pos)


def dict_step(det, S, sym):
    for cs, S2 in det.step(S):
        if cs.has(sym):
            return S2
    return det.dead


# ------------------------------------------------------------------ subset construction

_PART = {}


def partition(labels):
    """Disjoint classes of the given labels with the bit mask of labels each lies in."""
    k = tuple(labels)
    r = _PART.get(k)
    if r is not None:
        return r
    base = 0
    for n, l in enumerate(labels):
        if l.neg:
            base |= 1 << n
    sig = {}
    for l in labels:
        for c in l.chars:
            if c not in sig:
                sig[c] = base if len(c) == 1 else 0
    for n, l in enumerate(labels):
        b = 1 << n
        if l.neg:
            for c in l.chars:
                sig[c] &= ~b
        else:
            for c in l.chars:
                sig[c] |= b
    groups = {}
    for c, m in sig.items():
        if m:
            groups.setdefault(m, []).append(c)
    out = []
    explicit = frozenset(sig)
    if base:
        g = groups.pop(base, [])
        out.append((CS(explicit - frozenset(g), True), base))
    out.extend((CS(g), m) for m, g in groups.items())
    _PART[k] = out
    return out


class Det:
    """Subset construction over the input side of a machine. States are ints; dead is the empty subset."""

    def __init__(self, m):
        self.m = m
        self.ids, self.sets, self._s, self._f, self._c = {}, [], {}, {}, {}
        self.dead = self.id(frozenset())
        self.start = self.id(self.closure([m.start]))

    def id(self, x):
        r = self.ids.get(x)
        if r is None:
            r = self.ids[x] = len(self.sets)
            self.sets.append(x)
        return r

    def closure(self, states):
        seen, todo, keep = set(), list(states), []
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            real = self.m.fin(s)
            for i, o, t in self.m.arcs(s):
                if i is None:
                    todo.append(t)
                else:
                    real = True
            if real:
                keep.append(s)
        return frozenset(keep)

    def single(self, s):
        """Closure of one state, remembered."""
        r = self._c.get(s)
        if r is None:
            r = self._c[s] = self.closure([s])
        return r

    def join(self, a, b):
        return self.id(self.sets[a] | self.sets[b])

    def step(self, S):
        r = self._s.get(S)
        if r is None:
            labels, tgts = [], []
            where = {}
            for s in self.sets[S]:
                for i, o, t in self.m.arcs(s):
                    if i is not None:
                        if i in where:
                            tgts[where[i]].append(t)
                        else:
                            where[i] = len(labels)
                            labels.append(i)
                            tgts.append([t])
            order = sorted(range(len(labels)), key=lambda n: id(labels[n]))
            labels, tgts = [labels[n] for n in order], [tgts[n] for n in order]
            acc = {}
            for cs, mask in partition(labels) if labels else ():
                c, n = set(), 0
                while mask:
                    if mask & 1:
                        for t in tgts[n]:
                            c |= self.single(t)
                    mask >>= 1
                    n += 1
                k = self.id(frozenset(c))
                acc.setdefault(k, []).append(cs)
            r = self._s[S] = [(union_cs(v), k) for k, v in acc.items() if k != self.dead]
        return r

    def fin(self, S):
        r = self._f.get(S)
        if r is None:
            r = self._f[S] = any(self.m.fin(s) for s in self.sets[S])
        return r

    def read(self, S, text):
        for c in text:
            S = dict_step(self, S, c)
        return S


def union_cs(l):
    if len(l) == 1:
        return l[0]
    neg = [x for x in l if x.neg]
    if not neg:
        return CS(frozenset().union(*[x.chars for x in l]))
    out = frozenset.intersection(*[x.chars for x in neg])
    for x in l:
        if not x.neg:
            out = out - x.chars
    return CS(out, True)


# ------------------------------------------------------------------ materialising

class Auto(M):
    """An explicit machine: state -> (final, arcs)."""

    def __init__(self, start, states, acceptor):
        self.acceptor, self.start, self.states = acceptor, start, states

    def arcs(self, s):
        return self.states[s][1]

    def fin(self, s):
        return self.states[s][0]


def determinize(m, budget):
    """Deterministic states of an acceptor as [final, {target: label}], or None beyond the budget."""
    d = Det(m)
    order, out = {d.start: 0}, []
    todo = [d.start]
    while todo:
        nxt = []
        for S in todo:
            row = {}
            for cs, S2 in d.step(S):
                if S2 not in order:
                    order[S2] = len(order)
                    nxt.append(S2)
                    if len(order) > budget:
                        return None
                k = order[S2]
                row[k] = cs if k not in row else union_cs([row[k], cs])
            out.append((d.fin(S), row))
        todo = nxt
    return out


def expand(m, budget):
    """The transducer with labels taken as opaque symbols, determinized over them: [final, {target: [labels]}], or None."""
    closures = {}

    def closure(states):
        seen, todo, keep = set(), list(states), []
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            real = m.fin(s)
            for i, o, t in m.arcs(s):
                if i is None and o is None:
                    todo.append(t)
                else:
                    real = True
            if real:
                keep.append(s)
        return frozenset(keep)

    def single(s):
        r = closures.get(s)
        if r is None:
            r = closures[s] = closure([s])
        return r
    start = closure([m.start])
    order, out, todo = {start: 0}, [], [start]
    while todo:
        nxt = []
        for S in todo:
            acc = {}
            for s in S:
                for i, o, t in m.arcs(s):
                    if i is not None or o is not None:
                        acc.setdefault((i, o), set()).update(single(t))
            row = {}
            for lab, ts in acc.items():
                T = frozenset(ts)
                if T not in order:
                    order[T] = len(order)
                    nxt.append(T)
                    if len(order) > budget:
                        return None
                row.setdefault(order[T], []).append(lab)
            out.append((any(m.fin(s) for s in S), row))
        todo = nxt
    return out


def trim(rows):
    """Indices of states from which a final state is reachable."""
    back = [[] for _ in rows]
    for s, (f, row) in enumerate(rows):
        for t in row:
            back[t].append(s)
    live = {s for s, (f, row) in enumerate(rows) if f}
    todo = list(live)
    while todo:
        s = todo.pop()
        for p in back[s]:
            if p not in live:
                live.add(p)
                todo.append(p)
    return live


def minimize(rows, merge):
    """Coarsest partition refining finality, by successive signatures; `merge` joins the labels leading to one class."""
    live = trim(rows)
    if 0 not in live:
        return None
    cls = {s: int(rows[s][0]) for s in live}
    n = len(set(cls.values()))
    while True:
        sig, new = {}, {}
        for s in live:
            acc = {}
            for t, lab in rows[s][1].items():
                if t in live:
                    acc.setdefault(cls[t], []).append(lab)
            key = (cls[s], tuple(sorted((k, merge(v)[0]) for k, v in acc.items())))
            new[s] = sig.setdefault(key, len(sig))
        cls, same = new, len(sig) == n
        n = len(sig)
        if same:
            break
    out = [None] * n
    for s in live:
        if out[cls[s]] is None:
            acc = {}
            for t, lab in rows[s][1].items():
                if t in live:
                    acc.setdefault(cls[t], []).append(lab)
            out[cls[s]] = (rows[s][0], [(merge(v)[1], k) for k, v in acc.items()])
    return cls[0], out


def _merge_cs(labels):
    u = union_cs(labels)
    return id(u), u


def _merge_rel(lists):
    flat = [x for l in lists for x in l]
    sets, rest = [], []
    for i, o in flat:
        (sets if o is SAME else rest).append(i if o is SAME else (i, o))
    out = [(union_cs(sets), SAME)] if sets else []
    by = {}
    for i, o in rest:
        by.setdefault((i is None, o), []).append(i)
    for (eps, o), l in by.items():
        out.append((None if eps else union_cs(l), o))
    out.sort(key=lambda x: (id(x[0]), id(x[1])))
    return tuple((id(a), id(b)) for a, b in out), out


def connect(m, limit):
    """The reachable part from which an end is reachable, as an explicit machine; None beyond the limit."""
    order, arcs, todo = {m.start: 0}, [], [m.start]
    fins = []
    while todo:
        nxt = []
        for s in todo:
            row = []
            for i, o, t in m.arcs(s):
                k = order.get(t)
                if k is None:
                    k = order[t] = len(order)
                    nxt.append(t)
                row.append((i, o, k))
            arcs.append(row)
            fins.append(m.fin(s))
            if len(order) > limit:
                return None
        todo = nxt
    back = [[] for _ in arcs]
    for s, row in enumerate(arcs):
        for i, o, t in row:
            back[t].append(s)
    live = {s for s, f in enumerate(fins) if f}
    todo = list(live)
    while todo:
        for p in back[todo.pop()]:
            if p not in live:
                live.add(p)
                todo.append(p)
    if 0 not in live:
        return Set(NOTHING)
    num = {s: n for n, s in enumerate(sorted(live))}
    return Auto(0, [(fins[s], tuple((i, o, num[t]) for i, o, t in arcs[s] if t in num)) for s in sorted(live)], m.acceptor)


def optimize(m, budget=6000):
    """An equivalent smaller explicit machine; at worst the machine itself with its dead states removed."""
    if isinstance(m, (Auto, Str, Set, Map)):
        return m
    c = connect(m, 40 * budget)
    if c is not None:
        m = c
    if isinstance(m, Set):
        return m
    rows = determinize(m, budget) if m.acceptor else expand(m, budget)
    if rows is None:
        return m
    r = minimize(rows, _merge_cs if m.acceptor else _merge_rel)
    if r is None:
        return Set(NOTHING)
    start, states = r
    if m.acceptor:
        return Auto(start, [(f, tuple((cs, SAME, t) for cs, t in arcs)) for f, arcs in states], True)
    return Auto(start, [(f, tuple((i, o, t) for labs, t in arcs for i, o in labs)) for f, arcs in states], False)


# ------------------------------------------------------------------ expressions -> machines

OPT = {"comp", "diff", "proj", "alt", "cat", "clo"}


class Lang:
    """Compiles expressions; `dom` and `rng` push the projection inwards so that most questions stay about acceptors."""

    def __init__(self, budget=6000):
        self.memo = {}
        self.fars = {}
        self.files = {}
        self.budget = budget
        self.stats = {}

    # -- helpers
    def const(self, v, what="constant"):
        if is_const(v):
            return v.args[0]
        raise AnalysisError("graph operand is not a constant: %s" % show(v))

    def rows(self, e):
        k = e.args[0]
        if k == "file":
            p = self.const(e.args[1])
            if p not in self.files:
                out = [(tuple(symbols(c[0])), tuple(symbols(c[1])) if len(c) > 1 else None) for c, _, _ in file_rows(p) if c]
                self.files[p] = out
            return self.files[p]
        out = []
        for t in e.args[2:]:
            c = [self.const(a) for a in t.args]
            out.append((tuple(symbols(c[0])), tuple(symbols(c[1])) if len(c) > 1 else None))
        return out

    def universal(self, e):
        k = e.args[0]
        if k == "clo":
            x = e.args[1]
            lo, hi = self.bounds(e)
            return lo == 0 and hi is None and self.charset(x) is ANY
        if k == "w":
            return self.universal(e.args[1])
        return False

    def universal_dom(self, e):
        k = e.args[0]
        if k == "rw":
            return self.universal(e.args[4])
        if k == "clo":
            return self.universal(e)
        if k == "w":
            return self.universal_dom(e.args[1])
        if k == "comp":
            return self.universal_dom(e.args[1]) and self.universal_dom(e.args[2])
        return False

    def bounds(self, e):
        lo = self.const(e.args[2])
        hi = None if e.args[3] is NONE else self.const(e.args[3])
        return lo, hi

    def charset(self, e):
        """The expression as one character class, or None."""
        k = e.args[0]
        if k == "set":
            return named_set(e.args[1])
        if k == "acc":
            s = symbols(self.const(e.args[1]))
            return one(s[0]) if len(s) == 1 else None
        if k == "w":
            return self.charset(e.args[1])
        if k == "alt":
            l = [self.charset(x) for x in e.args[1:]]
            return union_cs(l) if l and None not in l else None
        if k == "diff":
            a, b = self.charset(e.args[1]), self.charset(e.args[2])
            return minus(a, b) if a is not None and b is not None else None
        if k == "file":
            r = self.rows(e)
            if r and all(b is None and len(a) == 1 for a, b in r):
                return CS(a[0] for a, b in r)
        if k == "proj":
            return self.charset(e.args[1])
        return None

    def flat(self, e, k):
        out, todo = [], list(reversed(e.args[1:]))
        while todo:
            x = todo.pop()
            if x.op == "F" and x.args[0] == k:
                todo.extend(reversed(x.args[1:]))
            else:
                out.append(x)
        return out

    def build(self, e, mode):
        k = (e, mode)
        r = self.memo.get(k)
        if r is None:
            r = self._build(e, mode)
            if e.args[0] in OPT:
                n = optimize(r, self.budget)
                self.stats["optimized" if n is not r else "kept lazy"] = self.stats.get("optimized" if n is not r else "kept lazy", 0) + 1
                r = n
            self.memo[k] = r
        return r

    def rel(self, e):
        return self.build(e, "rel")

    def dom(self, e):
        return self.build(e, "dom")

    def rng(self, e):
        return self.build(e, "rng")

    def _build(self, e, mode):
        if not isinstance(e, Sym) or e.op != "F":
            raise AnalysisError("not a graph expression: %s" % show(e))
        k = e.args[0]
        B = lambda x: self.build(x, mode)
        if k in ("w", "prune"):
            return B(e.args[1])
        cs = self.charset(e)
        if cs is not None:
            return Set(cs)
        if k == "acc":
            return Str(symbols(self.const(e.args[1])))
        if k == "cat":
            return self.cat(self.flat(e, "cat"), mode)
        if k == "alt":
            return self.alt(self.flat(e, "alt"), mode)
        if k == "clo":
            lo, hi = self.bounds(e)
            return Clo(B(e.args[1]), lo, hi)
        if k == "ins":
            return Str("") if mode == "dom" else self.rng(e.args[1]) if mode == "rng" else Cross(Str(""), self.rng(e.args[1]))
        if k == "del":
            return Str("") if mode == "rng" else self.dom(e.args[1]) if mode == "dom" else Cross(self.dom(e.args[1]), Str(""))
        if k == "cross":
            a, b = e.args[1:3]
            return self.dom(a) if mode == "dom" else self.rng(b) if mode == "rng" else Cross(self.dom(a), self.rng(b))
        if k == "inv":
            return self.inv(e.args[1], mode)
        if k == "proj":
            side = self.const(e.args[2])
            if side not in ("input", "output"):
                raise AnalysisError("unknown projection %r" % side)
            return self.dom(e.args[1]) if side == "input" else self.rng(e.args[1])
        if k in ("file", "map"):
            if k == "map" and self.const(e.args[1]) != "rows":
                raise AnalysisError("string map of unknown rows")
            r = self.rows(e)
            if mode == "dom":
                return Map([(a, None) for a, b in r])
            if mode == "rng":
                return Map([(b if b is not None else a, None) for a, b in r])
            if all(b is None for a, b in r):
                return Map(r)
            return Map([(a, b if b is not None else a) for a, b in r])
        if k == "far":
            m = self.far(self.const(e.args[1]), e.args[2])
            return m if mode == "rel" else Proj(m, 0 if mode == "dom" else 1)
        if k == "diff":
            return Diff(self.dom(e.args[1]), self.dom(e.args[2]))
        if k == "comp":
            a, b = e.args[1:3]
            if mode == "dom" and self.universal_dom(b):
                return self.dom(a)
            if mode == "rng" and self.universal(a):
                return self.rng(b)
            if mode == "rel":
                if self.universal(a):
                    return self.rel(b)
                if self.universal(b):
                    return self.rel(a)
                return Comp(self.rel(a), self.rel(b))
            if mode == "dom":
                x = self.rel(a)
                y = self.dom(b)
                m = Comp(x, y)
                return m if m.acceptor else Proj(m, 0)
            x, y = self.rng(a), self.rel(b)
            m = Comp(x, y)
            return m if m.acceptor else Proj(m, 1)
        if k == "rw":
            if not self.universal(e.args[4]):
                return Set(NOTHING)                  # the alphabet is not closed: such a rule maps nothing
            if mode == "dom":
                return Clo(Set(ANY), 0, None)
            tau, l, r = e.args[1:4]
            d, md = self.const(e.args[5]), self.const(e.args[6])
            if d != "ltr" or md not in ("obl", "opt"):
                raise AnalysisError("rewriting direction %r mode %r is not modelled" % (d, md))
            ctx = lambda x: None if x.args[0] == "acc" and self.const(x.args[1]) == "" else self.dom(x)
            m = Rw(self.rel(tau), ctx(l), ctx(r), md == "opt")
            return m if mode == "rel" else Proj(m, 1)
        raise AnalysisError("graph operation %s is not modelled: %s" % (k, show(e)[:120]))

    def pairs(self, x):
        """(in, out) symbol tuples if the expression is one constant pair, else None."""
        k = x.args[0]
        if k == "w":
            return self.pairs(x.args[1])
        if k == "acc":
            s = tuple(symbols(self.const(x.args[1])))
            return (s, s)
        if k in ("cross", "ins", "del"):
            ps = [self.pairs(y) for y in x.args[1:]]
            if None in ps:
                return None
            if k == "cross":
                return (ps[0][0], ps[1][1])
            return ((), ps[0][1]) if k == "ins" else (ps[0][0], ())
        return None

    def alt(self, parts, mode):
        finite, rest, sets = [], [], []
        for x in parts:
            p = self.pairs(x)
            if p is not None:
                finite.append(p)
                continue
            c = self.charset(x)
            if c is not None:
                sets.append(c)
            else:
                rest.append(x)
        ms = []
        if mode == "dom":
            finite = [(a, None) for a, b in finite]
        elif mode == "rng":
            finite = [(b, None) for a, b in finite]
        same = [(a, None) for a, b in finite if b is None or a == b]
        diff = [(a, b) for a, b in finite if not (b is None or a == b)]
        if same:
            ms.append(Map(same))
        if diff:
            ms.append(Map(diff))
        if sets:
            ms.append(Set(union_cs(sets)))
        ms.extend(self.build(x, mode) for x in rest)
        if not ms:
            return Set(NOTHING)
        return ms[0] if len(ms) == 1 else Alt(ms)

    def cat(self, parts, mode):
        ms = []
        for x in parts:
            m = self.build(x, mode)
            if isinstance(m, Str) and not m.syms:
                continue
            if isinstance(m, Str) and ms and isinstance(ms[-1], Str):
                ms[-1] = Str([next(iter(c.chars)) for c in ms[-1].syms + m.syms])
            else:
                ms.append(m)
        if not ms:
            return Str("")
        return ms[0] if len(ms) == 1 else Cat(ms)

    def inv(self, e, mode):
        if mode == "dom":
            return self.rng(e)
        if mode == "rng":
            return self.dom(e)
        k = e.args[0]
        if k in ("file", "map"):
            r = self.rows(e)
            return Map([((b if b is not None else a), a) for a, b in r])
        if k == "w":
            return self.inv(e.args[1], mode)
        if k in ("cat", "alt"):
            ms = [self.inv(x, mode) for x in self.flat(e, k)]
            return (Cat if k == "cat" else Alt)(ms) if len(ms) > 1 else ms[0]
        if k == "clo":
            lo, hi = self.bounds(e)
            return Clo(self.inv(e.args[1], mode), lo, hi)
        if k == "cross":
            return Cross(self.rng(e.args[2]), self.dom(e.args[1]))
        if k == "inv":
            return self.rel(e.args[1])
        m = self.rel(e)
        return m if m.acceptor else Inv(m)

    def far(self, path, key):
        if key is not NONE and not (is_const(key) and key.args[0] is None):
            raise AnalysisError("archive member by name is not modelled")
        if path not in self.fars:
            self.fars[path] = read_far(path)
        return self.fars[path]


def read_far(path):
    """The single vector transducer stored in an archive, decoded from its bytes."""
    with open(path, "rb") as f:
        d = f.read()
    mark = struct.pack("<i", 2125659606)
    i = d.find(mark)
    if i < 0:
        raise AnalysisError("%s holds no recognisable graph" % path)
    i += 4

    def s():
        nonlocal i
        n = struct.unpack_from("<i", d, i)[0]
        t = d[i + 4:i + 4 + n].decode()
        i += 4 + n
        return t
    if s() != "vector" or s() != "standard":
        raise AnalysisError("%s: not a standard vector graph" % path)
    version, flags, props, start, nstates, narcs = struct.unpack_from("<iiQqqq", d, i)
    i += 40
    if flags & 3:
        raise AnalysisError("%s: symbol tables are not modelled" % path)
    states = []
    for _ in range(nstates):
        final, n = struct.unpack_from("<fq", d, i)
        i += 12
        arcs = []
        for _ in range(n):
            il, ol, w, t = struct.unpack_from("<iifi", d, i)
            i += 16
            arcs.append((il, ol, t))
        states.append((final != float("inf"), arcs))
    return Table(start, states)


def missing(a, b, limit=2000000, plain=True):
    """A shortest text of machine a that machine b does not read, or None: inclusion by antichains of reading states."""
    D = b if isinstance(b, Det) else Det(b)
    # epsilon-free view of a
    cl = {}

    def closure(s):
        r = cl.get(s)
        if r is None:
            seen, todo = {s}, [s]
            while todo:
                for i, o, t in a.arcs(todo.pop()):
                    if i is None and t not in seen:
                        seen.add(t)
                        todo.append(t)
            r = cl[s] = (tuple(x for x in seen), any(a.fin(x) for x in seen))
        return r
    start = (a.start, D.start)
    prev = {start: None}
    least = {a.start: [D.sets[D.start]]}
    layer = [start]

    def text(n, last=""):
        w = [last]
        while prev[n] is not None:
            n, c = prev[n]
            w.append(c)
        return "".join(reversed(w))
    while layer:
        nxt = []
        for n in layer:
            s, S = n
            states, fin = closure(s)
            if fin and not D.fin(S):
                return text(n)
            steps = D.step(S) if S != D.dead else ()
            for x in states:
                for i, o, t in a.arcs(x):
                    if i is None:
                        continue
                    rest = i
                    moves = []
                    for cs, S2 in steps:
                        m = inter(i, cs)
                        if not m.empty():
                            moves.append((m, S2))
                            rest = inter(rest, CS(cs.chars, not cs.neg))
                    if not rest.empty():
                        moves.append((rest, D.dead))
                    for m, S2 in moves:
                        k = (t, S2)
                        if k in prev:
                            continue
                        small = least.setdefault(t, [])
                        X = D.sets[S2]
                        if any(y <= X for y in small):
                            continue
                        small.append(X)
                        prev[k] = (n, m.sample())
                        nxt.append(k)
        layer = nxt
        if len(prev) > limit:
            raise AnalysisError("inclusion too large to decide")
    return None


def broken_identity(m, keep=8):
    """A text that m rewrites to something else (None: m maps every text it reads only to itself)."""
    start = (m.start, 0, ())
    prev, todo, back, bad = {start: None}, [start], {}, []
    for n in todo:
        s, side, pend = n
        if m.fin(s) and pend:
            bad.append((n, None))
        for i, o, t in m.arcs(s):
            if o is SAME:
                if not pend:
                    y = (t, 0, ())
                else:
                    y = advance(side, pend, i, i, t) if len(i.chars) == 1 and not i.neg else None
            else:
                y = advance(side, pend, i, o, t)
            if y is None or len(y[2]) > keep:
                y = (t, 2, ())
                bad.append((n, y))
            back.setdefault(y, set()).add(n)
            if y not in prev:
                prev[y] = (n, i)
                todo.append(y)
        if len(prev) > 500000:
            raise AnalysisError("identity check exceeds its bound")
    if not bad:
        return None
    live = {n for n in prev if m.fin(n[0])}
    stack = list(live)
    while stack:
        for q in back.get(stack.pop(), ()):
            if q not in live:
                live.add(q)
                stack.append(q)
    for n, y in bad:
        end = n if y is None else y
        if end in live:
            text = []
            while prev[end] is not None:
                end, i = prev[end]
                if i is not None:
                    text.append(i.sample())
            return "text starting %r" % "".join(reversed(text))
    return None


def advance(side, pend, i, o, t):
    """Reads i, writes o against what is owed: side 1 = read and not yet written, -1 = written and not yet read."""
    if side == 2:
        return (t, 2, ())
    single = lambda c: len(c.chars) == 1 and not c.neg
    for what, sign in ((i, 1), (o, -1)):
        if what is None:
            continue
        if not pend or side == sign:
            side, pend = sign, pend + (what, )
        else:
            if pend[0] != what or not single(what):
                return None
            pend = pend[1:]
            side = side if pend else 0
    return (t, side, pend)
