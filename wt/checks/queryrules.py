"""R02-R04: literal user text, the n-best contract, and mapped = plain normalization."""
from ..absint import AnalysisError, Config, HInst, HSeq, Out, State
from ..fstmodel import F, FstInterp, HFst
from ..terms import C, FALSE, NONE, TRUE, Sym, is_const, show, subterms
from .cache import FAKE, P
from .queries import ALIGN, PROC, QUERIES, STREAM, changed, distinct, interp, keep, processor, query, value_strings

ESC = "pynini.escape"
SPECIAL = set("[]\\")
LEAF = {"fst.string", "paths.ostring", "paths.istring", "stream.text", "stream.end", "stream.weight", "paths.done", "paths.weight", "paths.ostrings",
        "paths.items", "traced", "traced.input", "paths.ilabels", "paths.olabels"}
TEXT = P("text")


# ------------------------------------------------------------------ R02

def is_esc(t):
    return t.op == "call" and t.args[0] == ESC


def escaped_inside(t):
    """Does escaped text occur in this string-level value (graphs and texts read from graphs are opaque)?"""
    if isinstance(t, tuple):
        return any(escaped_inside(x) for x in t)
    if not isinstance(t, Sym):
        return False
    if is_esc(t):
        return True
    if t.op == "F" or t.op == "call" and t.args and t.args[0] in LEAF:
        return False
    return any(escaped_inside(x) for x in t.args if isinstance(x, (Sym, tuple)))


def compiled_ok(t):
    """None if the compiled string is literal text escaped exactly once, else the reason."""
    if is_const(t):
        s = t.args[0]
        if isinstance(s, str):
            x = s
            for q in ("\\[", "\\]", "\\\\"):
                x = x.replace(q, "")
            return "the constant %r is grammar syntax" % s if SPECIAL & set(x) else None
        return None
    if is_esc(t):
        return "it is escaped twice" if escaped_inside(t.args[1]) else None
    if t.op in ("concat", "fstring", "join") and any(escaped_inside(x) for x in t.args if isinstance(x, Sym)):
        for x in t.args:
            r = compiled_ok(x) if isinstance(x, Sym) else None
            if r:
                return r
        return None
    if t.op == "ite":
        return compiled_ok(t.args[1]) or compiled_ok(t.args[2])
    if escaped_inside(t):
        return "the escaped text was changed before it was compiled"
    return "it is compiled without being escaped"


def graph_texts(t, out, seen):
    """Every string compiled inside the graph expressions reachable from a value."""
    for x in subterms(t, seen):
        if x.op == "F" and x.args[0] == "acc":
            out.add(x.args[1])


def literal(ck, I, outs, label):
    seen = set()
    for o in outs:
        st = o.st
        for e in st.events:
            if (e.name, e.args) in seen:
                continue
            seen.add((e.name, e.args))
            if e.name == "fst:compile":
                why = compiled_ok(e.args[0])
                ck.ob("escaped-once", label, why is None, "%s reaches a composition but %s" % (show(e.args[0], 4), why), e.site)
            elif e.name in ("parse", "trace:input", "trace:output"):
                bad = [a for a in e.args if a.op != "F" and escaped_inside(a)]
                ck.ob("not-shown", label, not bad, "%s receives escaped text" % {"parse": "the token parser"}.get(e.name, "span tracing"), e.site)
        if o.k == "v" and isinstance(o.v, Sym):
            for s in value_strings(I, o.v, st):
                ck.ob("not-shown", label, not escaped_inside(s), "the result contains escaped text: %s" % show(s, 4))
        if o.k == "r" and o.v.op == "exc":
            continue
        for f in st.facts:
            if f in seen:
                continue
            seen.add(f)
            ck.ob("not-shown", label, not escaped_inside(f), "a decision measures the escaped text: %s" % show(f, 4))


def r02(ck):
    ck.rule("escaped-once", "every query-time string compiled into a graph is pynini.escape applied exactly once to text that was not escaped")
    ck.rule("not-shown", "escaped text never reaches results, the token parser, span tracing, measurements or decisions")
    ck.rule("user-text", "each query composes the user's own text with the graph of that stage")
    for p in distinct(interp(ck)):
        for q in QUERIES:
            for n in ([None] if q == "verbalize" else [C(1), C(2)]):
                I = interp(ck, unroll=4 if n is C(2) else 3, sym_unroll=1 if n is C(1) else 0)
                ref, before, outs = query(ck, I, p, q, TEXT, n)
                label = q if n is None or n.args[0] == 1 else q + " (n-best)"
                literal(ck, I, outs, label)
                ck.interp(I)
                for o in outs:
                    if o.k == "v" and o.v.op != "const" and any(v.op not in ("const", "param") for v in value_strings(I, o.v, o.st)):
                        used = set()
                        for e in o.st.events:
                            if e.name == "fst:compile":
                                used.add(e.args[0])
                            elif e.name.startswith("trace:"):
                                used.update(Sym("call", ESC, a) for a in e.args)
                        want = {Sym("call", ESC, TEXT)} if q != "verbalize" else {Sym("call", ESC, Sym("call", "reorder", TEXT))}
                        ck.ob("user-text", label, want <= used, "a result is produced without composing %s" % (
                            "the user's text" if q != "verbalize" else "the parsed tag"))
    for fn in ("trace_input_spans", "transduce_with_spans"):
        I = FstInterp(ck.repo, Config(exceptions=False, unroll=1, interest=keep))
        st, args, names = tracer(I, fn)
        for variant in ("value", "none"):
            if variant == "none" and "output_text" in names and fn == "transduce_with_spans":
                args[names.index("output_text")] = NONE
            outs = I.run("tn.alignment:" + fn, list(args), {}, st.clone())
            literal(ck, I, outs, fn)
            for o in outs:
                texts = {e.args[0] for e in o.st.events if e.name == "fst:compile"}
                if o.k == "v":
                    ck.ob("user-text", fn, Sym("call", ESC, P("input_text")) in texts, "a result is produced without composing the input text")
        I.inflight.pop()
        ck.interp(I)
    ck.floor("escaped-once", 20)
    ck.floor("not-shown", 40)
    ck.floor("user-text", 8)


def tracer(I, fn):
    mod = I.repo.find("tn.alignment")
    if mod is None or fn not in mod.bind or mod.bind[fn][0] != "def":
        raise AnalysisError("anchor lost: tn.alignment.%s" % fn)
    node = mod.bind[fn][1]
    st = State()
    g = Sym("ref", "graph:g", 0)
    st.heap[g] = HFst(F("graph", C("g")), "processor", "fst")
    args, names = [], [a.arg for a in node.args.args]
    for a in names:
        if a == "fst":
            args.append(g)
        elif a.endswith("spans"):
            args.append(Sym("tuple", Sym("tuple", P("start"), P("end"))))
        else:
            args.append(P(a))
    if "fst" not in names or "input_text" not in names:
        raise AnalysisError("anchor lost: parameters of tn.alignment.%s" % fn)
    I.inflight.append((g, ))
    return st, args, names


# ------------------------------------------------------------------ R03

BAD = [C(True), C(False), C(0), C(-1), C(-3), C("2"), C("1"), C(1.0), C(2.0), C(None), C(""), Sym("tuple", C(1))]


def fact(st, t):
    return st.facts.get(t)


def differ(I, st, a, b):
    if is_const(a) and is_const(b):
        return a.args[0] != b.args[0]
    if a is b:
        return False
    for f, v in st.facts.items():
        if f.op == "cmp" and v is False:
            op, x, y = f.args[0], f.args[1], f.args[2]
            if op == "in" and (x is a and y.op in ("setof", "tuple") and b in y.args or x is b and y.op in ("setof", "tuple") and a in y.args):
                return True
            if op == "in" and y.op == "ref" and x in (a, b):
                rec = st.heap.get(y)
                its = rec.items if isinstance(rec, HSeq) else ()
                if (b if x is a else a) in its and x in its:
                    return True
            if op == "==" and {x, y} == {a, b}:
                return True
        if f.op == "cmp" and v is True and f.args[0] == "!=" and {f.args[1], f.args[2]} == {a, b}:
            return True
    if a.op == b.op == "call" and a.args[0] == b.args[0] in ("paths.ostring", "stream.text") and a.args[1] is b.args[1] and a.args[2] is not b.args[2]:
        if a.args[0] == "stream.text":
            return True
        x = a.args[1]
        return x.args[0] == "short" and x.args[3] is TRUE and output_side(x.args[1])
    return False


def output_side(x):
    return x.args[0] == "proj" and x.args[2] in (C("output"), C(True))


def result_text(I, v, st):
    """The output text a result item stands for."""
    rec = st.heap.get(v) if v.op == "ref" else None
    if isinstance(rec, HInst):
        t = rec.attrs.get("output_text")
        if t is None:
            return v
        if t.op == "call" and t.args[0] == "traced.text":
            sel = t.args[1].args[-1]
            return sel if sel is not NONE else t
        return t
    return v


def listing(I, v, st):
    rec = st.heap.get(v) if v.op == "ref" else None
    if isinstance(rec, HSeq) and rec.kind == "list" and rec.exact:
        return list(rec.items)
    return None


def single(I, q, v, st):
    rec = st.heap.get(v) if v.op == "ref" else None
    if q == "normalize_with_mapping":
        return isinstance(rec, HInst) and rec.cls.args[-1] == "NormalizationResult"
    return not isinstance(rec, (HSeq, )) and v is not NONE and v.op not in ("tuple", )


def empty(I, q, v, st):
    rec = st.heap.get(v) if v.op == "ref" else None
    if q == "normalize_with_mapping":
        if not single(I, q, v, st):
            return False
        vals = list(rec.attrs.values())
        ok = [x for x in vals if x is C("")]
        rest = [x for x in vals if x is not C("")]
        return len(ok) == 2 and len(rest) == 1 and I.items_of(rest[0], st) == () or len(ok) == 2 and len(rest) == 1 and not I.items_of(rest[0], st)
    return v is C("")


def r03(ck):
    ck.rule("validated", "booleans, non-integers and values below one raise before anything is compiled, parsed or searched, also for empty text")
    ck.rule("shape", "one result object for n = 1, a list for larger n; empty text gives the empty result in the same shape")
    ck.rule("bounded", "a list never has more than n results")
    ck.rule("different", "the results of one call are pairwise different")
    ck.rule("order", "results come in the order the search produced them")
    ck.rule("found", "normalization returns at least one result or raises")
    ck.rule("stream", "the candidate stream yields each output once, cheapest enumeration first, ranks counting from zero, and ends only when the enumeration was complete")
    qs = [q for q in QUERIES if q != "verbalize"]
    for p in distinct(interp(ck)):
        for q in qs:
            for n in BAD:
                for t in (TEXT, C("")):
                    I = interp(ck, unroll=1)
                    ref, before, outs = query(ck, I, p, q, t, n)
                    for o in outs:
                        if o.k == "r" and o.v.op == "exc" and o.v.args[0] not in ("ValueError", "TypeError"):
                            ck.ob("validated", q, False, "n-best count %s raises %s" % (show(n), o.v.args[0]))
                            continue
                        ck.ob("validated", q, o.k == "r", "n-best count %s is accepted%s" % (show(n), " for empty text" if t is not TEXT else ""))
                        work = [e for e in o.st.events if e.name.startswith(("fst:", "heap:", "parse", "trace:"))]
                        ck.ob("validated", q, not work, "n-best count %s is rejected only after work was done" % show(n), work and work[0].site)
            for n in (1, 2, 3):
                shapes(ck, p, q, n)
            symbolic(ck, p, q)
    stream_contract(ck)
    for r, n in (("validated", 72), ("shape", 12), ("bounded", 8), ("different", 6), ("order", 6), ("found", 4), ("stream", 20)):
        ck.floor(r, n)


def shapes(ck, p, q, n):
    I = interp(ck, unroll=1)
    ref, before, outs = query(ck, I, p, q, C(""), C(n))
    for o in outs:
        if o.k != "v":
            ck.ob("shape", q, False, "empty text raises %s for n = %d" % (show(o.v, 2), n))
            continue
        its = listing(I, o.v, o.st)
        ok = its is None and empty(I, q, o.v, o.st) if n == 1 else its is not None and len(its) == 1 and empty(I, q, its[0], o.st)
        ck.ob("shape", q, ok, "empty text with n = %d does not give %s" % (n, "the empty result" if n == 1 else "a list holding one empty result"))
    depth = {1: 3, 2: 5, 3: 5}[n] + (1 if ck.thorough else 0)
    if q == "tag":
        depth = n + 2
    I = interp(ck, unroll=depth, sym_unroll=1 if n == 1 else 0)
    ref, before, outs = query(ck, I, p, q, TEXT, C(n))
    ck.interp(I)
    longest = 0
    for o in outs:
        if o.k != "v":
            continue
        st = o.st
        its = listing(I, o.v, st)
        if n == 1:
            ck.ob("shape", q, its is None and single(I, q, o.v, st), "n = 1 does not return a single result")
            if q != "tag":
                ck.ob("found", q, o.v is not NONE and o.v is not C("") or fact(st, TEXT) is False or blank(st), "no candidate found, yet a result is returned")
            continue
        if its is None:
            ck.ob("shape", q, False, "n = %d does not return a list" % n)
            continue
        ck.ob("shape", q, all(single(I, q, x, st) for x in its), "the list for n = %d holds something that is not a result" % n)
        ck.ob("bounded", q, len(its) <= n, "n = %d returns %d results" % (n, len(its)))
        longest = max(longest, len(its))
        if q != "tag":
            ck.ob("found", q, len(its) > 0, "no candidate found, yet an empty list is returned")
        texts = [result_text(I, x, st) for x in its]
        for i in range(len(texts)):
            for j in range(i):
                ck.ob("different", q, differ(I, st, texts[j], texts[i]), "two results of one call can be the same text: %s and %s" % (show(texts[j], 5), show(texts[i], 5)))
        pops = []
        for e in st.events:
            if e.name == "heap:pop":
                pops.append({x for x in reach(I, e.args[1], st)})
        if pops:
            pos = -1
            for t in texts:
                nxt = [i for i in range(pos + 1, len(pops)) if t in pops[i]]
                ck.ob("order", q, bool(nxt), "results are not in the order in which the search selected them")
                if not nxt:
                    break
                pos = nxt[0]
        elif q == "tag":
            ks = [t.args[2].args[0] if t.op == "call" and t.args[0] == "paths.ostring" else None for t in texts]
            if blank(st):
                continue
            x = {t.args[1] for t in texts if t.op == "call" and t.args[0] == "paths.ostring"}
            ok = None not in ks and ks == list(range(len(ks))) and len(x) <= 1
            ck.ob("order", q, ok, "the list is not the enumeration of the shortest paths in order")
            for g in x:
                ck.ob("bounded", q, g.args[0] == "short" and g.args[2] is C(n), "the enumeration is not limited to n paths")
    if longest < min(n, 2) and n > 1:
        raise AnalysisError("%s with n = %d: no path with two results within the analysed bound" % (q, n))


def blank(st):
    return any(f is Sym("cmp", "==", C(0), Sym("call", "len", TEXT)) and v for f, v in st.facts.items()) or st.facts.get(TEXT) is False


def reach(I, v, st, depth=0):
    yield v
    if depth > 3:
        return
    rec = st.heap.get(v) if v.op == "ref" else None
    kids = v.args if v.op == "tuple" else rec.items if isinstance(rec, HSeq) else tuple(rec.attrs.values()) if isinstance(rec, HInst) else ()
    for k in kids:
        if isinstance(k, Sym):
            yield from reach(I, k, st, depth + 1)


def symbolic(ck, p, q):
    """n unknown: the number of results is bounded by n on every analysed path."""
    n = P("n")
    I = interp(ck, unroll=4, sym_unroll=0)
    ref, before, outs = query(ck, I, p, q, TEXT, n)
    for o in outs:
        if o.k != "v":
            continue
        its = listing(I, o.v, o.st)
        if its is None or len(its) < 2 or blank(o.st):
            continue
        if q == "tag":
            gs = {t.args[1] for t in its if t.op == "call" and t.args[0] == "paths.ostring"}
            ck.ob("bounded", q, len(gs) == 1 and all(g.args[0] == "short" and g.args[2] is n for g in gs), "the enumeration is not limited to n paths")
            continue
        k = len(its)
        ok = any(below(f, v, k - 1, n) for f, v in o.st.facts.items())
        ck.ob("bounded", q, ok, "%d results are returned without having checked that n is larger than %d" % (k, k - 1))


def below(f, v, k, n):
    if f.op != "cmp":
        return False
    op, a, b = f.args
    if op == "<" and a is C(k) and b is n:
        return v is True
    if op == "<=" and a is n and b is C(k) or op == "<" and a is n and b is C(k + 1):
        return v is False
    if op == "<=" and a is C(k + 1) and b is n:
        return v is True
    return op == "==" and {a, b} == {C(k + 1), n} and v is True


def stream_contract(ck):
    I = FstInterp(ck.repo, Config(exceptions=False, unroll=5 if ck.thorough else 4, interest=keep, merge=False))
    mod = I.repo.find("tn.processor")
    if "_UniqueOutputPathStream" not in mod.bind:
        ck.ob("stream", "inlined", True)
        I = interp(ck, unroll=3, streams=False)
        for o in query(ck, I, PROC, "normalize", TEXT, C(2))[2]:
            ck.ob("stream", "inlined", True)
        raise AnalysisError("anchor lost: the candidate stream class")
    cls = I.cls("tn.processor:_UniqueOutputPathStream")
    st = State()
    g = Sym("ref", "graph:L", 0)
    st.heap[g] = HFst(F("graph", C("L")), "caller", "lattice")
    I.inflight.append((g, ))
    obj = I.instantiate(cls, [g], {}, st, FAKE)
    seqs = [(o.st, []) for o in obj if o.k == "v"]
    obj = obj[0].v
    I.inflight[-1] = (g, obj)
    pop, peek = I.find_member(cls, "pop"), I.find_member(cls, "peek")
    if pop is None or peek is None:
        raise AnalysisError("anchor lost: the candidate stream's pop and peek")
    for step in ("pop", "peek", "pop"):
        new = []
        for s, vals in seqs:
            for o in I.call_func(peek if step == "peek" else pop, [obj], {}, s.clone(), FAKE):
                if o.k != "v":
                    ck.ob("stream", step, False, "raises %s" % show(o.v, 2))
                    continue
                rec = o.st.heap.get(o.v) if o.v.op == "ref" else None
                item = None if o.v is NONE else {k: v for k, v in rec.attrs.items()} if isinstance(rec, HInst) else None
                if o.v is not NONE and (item is None or "text" not in item or "rank" not in item):
                    raise AnalysisError("anchor lost: items of the candidate stream")
                new.append((o.st, vals + [item]))
        seqs = new
    for s, vals in seqs:
        ck.ob("stream", "lattice", s.heap[g].expr is F("graph", C("L")) and not any(
            e.name == "fst:mutate" and e.args[0] is g for e in s.events), "the stream changes the lattice it was given")
        if vals[1] is not None:
            ck.ob("stream", "peek", vals[2] is not None and all(vals[1][k] is vals[2][k] for k in vals[1]), "peek shows something else than the next pop returns")
        else:
            ck.ob("stream", "peek", vals[2] is None, "pop returns an item although peek found none")
        got = [v for v in (vals[0], vals[2]) if v is not None]
        ck.ob("stream", "end", not (vals[0] is None and vals[2] is not None), "the stream goes on after it ended")
        for i, v in enumerate(got):
            t, w = v["text"], v.get("weight")
            while w is not None and w.op == "call" and w.args[0] == "float":
                w = w.args[1]
            good = t.op == "call" and t.args[0] == "paths.ostring"
            ck.ob("stream", "text", good, "an item's text is not an output string of the lattice")
            if not good:
                continue
            x = t.args[1]
            ck.ob("stream", "text", x.args[0] == "short" and x.args[3] is TRUE and output_side(x.args[1]) and x.args[1].args[1] is F("graph", C("L")),
                  "items are not enumerated as unique shortest output strings of the lattice")
            ck.ob("stream", "weight", w is Sym("call", "paths.weight", x, t.args[2]), "an item's weight belongs to another path than its text")
            ck.ob("stream", "rank", v["rank"] is C(i), "ranks do not count up from zero")
            if i == 0:
                ck.ob("stream", "first", t.args[2] is C(0), "the first item is not the best path")
            else:
                ck.ob("stream", "once", differ(I, s, got[0]["text"], t), "an output can be yielded twice")
                skipped(ck, s, got[0]["text"], t)
        if len(got) < 2:
            end = [f for f, v in s.facts.items() if v is True and f.op == "call" and f.args[0] == "paths.done" and f.args[1].args[0] == "short"
                   and f.args[1].args[1].args[0] == "proj"]
            ok = any(is_const(f.args[1].args[2]) and f.args[2].args[0] < f.args[1].args[2].args[0] for f in end)
            ck.ob("stream", "end", ok, "the stream ends although further outputs may exist")
    ck.ob("stream", "grows", not I.repeats, "the enumeration is repeated without asking for more paths, so the search may not end",
          sorted(x[1] for x in I.repeats)[0] if I.repeats else None)
    ck.interp(I)


def skipped(ck, s, first, t):
    """Cheaper items of the same enumeration may only be skipped because they were yielded before."""
    x, k = t.args[1], t.args[2].args[0]
    for j in range(k):
        u = Sym("call", "paths.ostring", x, C(j))
        ok = u is first or any(f.op == "cmp" and f.args[0] == "in" and f.args[1] is u and v is True for f, v in s.facts.items())
        ck.ob("stream", "cheapest", ok, "an item is yielded before a cheaper one of the same enumeration")


# ------------------------------------------------------------------ R04

def outputs_of(I, v, st):
    its = listing(I, v, st)
    return tuple(result_text(I, x, st) for x in its) if its is not None else result_text(I, v, st)


def r04(ck):
    ck.rule("same-search", "for every n the mapped results are exactly the plain results: same outputs, same order, same failures")
    ck.rule("selected", "each mapped result reports the output selected for its candidate: the trace is constrained to it and to the candidate's own tag")
    ck.rule("traced-input", "input spans are traced from the same text to the same tag on the tagger")
    ck.rule("constrained", "span tracing composes both the text and the selected output with the graph whenever an output is given, the empty one included")
    for p in distinct(interp(ck)):
        for n in ((1, 2, 3) if ck.thorough else (1, 2)):
            depth = {1: 3, 2: 4, 3: 5}[n] + (1 if ck.thorough and n < 3 else 0)
            I = interp(ck, unroll=depth, sym_unroll=0)
            plain, fails = set(), set()
            for o in query(ck, I, p, "normalize", TEXT, C(n))[2]:
                if o.k == "v":
                    plain.add(outputs_of(I, o.v, o.st))
                else:
                    fails.add(o.v.args[0] if o.v.op == "exc" else o.v)
            for ident in (TRUE, FALSE):
                I2 = interp(ck, unroll=depth, sym_unroll=1 if n == 1 else 0)
                ref, before, outs = query(ck, I2, p, "normalize_with_mapping", TEXT, C(n), {"include_identity": ident})
                mapped, mfails = set(), set()
                for o in outs:
                    if o.k == "v":
                        mapped.add(outputs_of(I2, o.v, o.st))
                        results(ck, I2, o, n)
                    else:
                        mfails.add(o.v.args[0] if o.v.op == "exc" else o.v)
                ck.interp(I2)
                for x in plain | mapped:
                    t = show(x, 6) if isinstance(x, Sym) else "%d results" % len(x)
                    ck.ob("same-search", "n=%d" % n, x in plain and x in mapped, "only %s can return %s" % (
                        "normalize" if x in plain else "normalize_with_mapping", t))
                ck.ob("same-search", "n=%d failures" % n, fails == mfails, "failures differ: %s and %s" % (sorted(map(str, fails)), sorted(map(str, mfails))))
            ck.interp(I)
    constrained(ck)
    for r, n in (("same-search", 6), ("selected", 10), ("traced-input", 10), ("constrained", 6)):
        ck.floor(r, n)


def candidate(out):
    """(T, O-consistent?) for an output text drawn from a verbalizer stream."""
    if out.op == "call" and out.args[0] in ("stream.text", "paths.ostring"):
        x = out.args[1]
        while x.args[0] in ("short", "proj"):
            x = x.args[1]
        if x.args[0] == "comp" and x.args[2] is F("graph", C("verbalizer")) and x.args[1].args[0] == "acc" and is_esc(x.args[1].args[1]):
            r = x.args[1].args[1].args[1]
            if r.op == "call" and r.args[0] == "reorder":
                return r.args[1]
    return None


def results(ck, I, o, n):
    st = o.st
    its = listing(I, o.v, st)
    its = [o.v] if its is None else its
    traced = [e for e in st.events if e.name == "trace:input"]
    for v in its:
        rec = st.heap.get(v) if v.op == "ref" else None
        if not isinstance(rec, HInst) or "output_text" not in rec.attrs:
            raise AnalysisError("anchor lost: normalize_with_mapping does not return NormalizationResult objects")
        inp, out = rec.attrs["input_text"], rec.attrs["output_text"]
        if blank(st):
            ck.ob("selected", "result", inp is C("") and out is C(""), "empty text is reported as something else")
            continue
        ck.ob("selected", "result", inp is TEXT, "the result's input text is not the text that was asked")
        sel = out
        if out.op == "call" and out.args[0] == "traced.text":
            a = out.args[1].args
            reordered, graph, sel = a[1], a[2], a[-1]
            ck.ob("selected", "trace", graph is F("graph", C("verbalizer")), "the output is traced on another graph than the verbalizer")
            ck.ob("selected", "trace", sel is not NONE, "the trace is not constrained to the selected output")
            if sel is NONE:
                continue
            tag = candidate(sel)
            if tag is None:
                raise AnalysisError("anchor lost: the selected output is not a candidate of the verbalizer")
            ck.ob("selected", "trace", reordered is Sym("call", "reorder", tag), "the output is traced from another tag than its candidate's")
        tag = candidate(sel)
        if tag is None and any(x.op == "call" and x.args[0] in ("stream.text", "traced.text", "paths.ostring") for x in subterms(sel)):
            ck.ob("selected", "result", False, "the reported output is not the selected output itself: %s" % show(sel, 3))
            continue
        if tag is None:
            raise AnalysisError("anchor lost: the reported output is not a candidate of the verbalizer")
        src = tag.args[1] if tag.op == "call" and tag.args[0] in ("stream.text", "paths.ostring") else None
        while src is not None and src.args[0] in ("short", "proj"):
            src = src.args[1]
        ck.ob("selected", "tag", src is F("comp", F("acc", Sym("call", ESC, TEXT)), F("graph", C("tagger"))), "the candidate's tag is not a tagging of the text")
        ok = any(e.args[0] is TEXT and e.args[1] is tag and e.args[2] is F("graph", C("tagger")) for e in traced)
        ck.ob("traced-input", "result", ok, "no input trace of this text and this tag on the tagger")


def constrained(ck):
    esc = lambda t: F("acc", Sym("call", ESC, t) if not is_const(t) else t)
    for fn in ("transduce_with_spans", "trace_input_spans"):
        for given in (P("output_text"), C("")) if fn == "transduce_with_spans" else (P("output_text"), ):
            I = FstInterp(ck.repo, Config(exceptions=False, unroll=2, sym_unroll=1, interest=keep))
            st, args, names = tracer(I, fn)
            if "output_text" not in names:
                raise AnalysisError("anchor lost: %s has no output_text parameter" % fn)
            args[names.index("output_text")] = given
            outs = I.run("tn.alignment:" + fn, args, {}, st)
            I.inflight.pop()
            ck.interp(I)
            for o in outs:
                if o.k != "v" or any(f.op == "cmp" and f.args[0] == "is" and given in f.args and NONE in f.args and v for f, v in o.st.facts.items()):
                    continue
                roots = ([o.v] if isinstance(o.v, Sym) else []) + list(o.st.facts) + [a for e in o.st.events for a in e.args if isinstance(a, Sym)]
                shorts = {x for r in roots for x in subterms(r) if x.op == "F" and x.args[0] == "short"}
                ck.ob("constrained", fn, bool(shorts), "no path is traced")
                for x in shorts:
                    flat = chain(x.args[1])
                    ends = flat[-1:] == [esc(given)]
                    ck.ob("constrained", fn, flat[:1] == [esc(P("input_text"))] and ends and F("graph", C("g")) in flat,
                          "the traced path is not constrained to %s" % ("the selected output" if not ends else "the text"))
                    ck.ob("constrained", fn, x.args[2] is C(1), "more than one path is traced")


def chain(x):
    if x.args[0] == "comp":
        return chain(x.args[1]) + chain(x.args[2])
    return [x]
