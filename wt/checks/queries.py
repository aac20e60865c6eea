"""R01-R04: tagging, verbalizing and normalizing (tn/processor.py) analysed with graphs as algebraic expressions.

The token parser and the span tracing functions are replaced by their contracts here (T01, T02, R05 decide those);
everything else on a query's path is interpreted, with every library call, branch and loop (up to the stated bound).
"""
from ..absint import AnalysisError, Config, HDict, HInst, HSeq, Out, State
from ..fstmodel import F, FstInterp, HFst, HPaths
from ..terms import C, FALSE, NONE, TRUE, Sym, is_const, mentions, show, subterms
from .cache import FAKE, P
from .cachebuild import PIPELINES

PROC = "tn.processor:Processor"
QUERIES = ("tag", "verbalize", "normalize", "normalize_with_mapping")
PARSER = "fn:tn.token_parser:TokenParser."
ALIGN = "fn:tn.alignment:"
STREAM = "fn:tn.processor:_UniqueOutputPathStream."
WORLD = ("time.", "random.", "uuid.", "os.", "open", "io.", "platform.", "socket.", "threading.", "secrets.", "input", "tempfile.", "sys.",
         "pathlib.Path.cwd", "builtins.input", ".read", "urllib", "subprocess")
TEXTY = {"fst.string", "paths.ostring", "paths.istring", "stream.text", "reorder", "traced.text"}


def keep(n):
    return n.startswith(("fst:", "heap:", "parse", "trace", "store", "new")) or n.startswith(WORLD)


# ------------------------------------------------------------------ contracts

def hook_reorder(spans):
    def f(I, args, kw, st, node):
        text = args[1] if len(args) > 1 else next(iter(kw.values()))
        I.emit(st, "parse", [text], {}, None, node)
        st.heap[args[0]] = st.heap[args[0]].with_attr("tokens", Sym("call", "tokens", text))
        r = Sym("call", "reorder", text)
        return [Out("v", st, Sym("tuple", r, Sym("call", "tokenspans", text)) if spans else r)]
    return f


def bind(I, fn, args, kw, st):
    """Arguments of a hooked function by parameter name (defaults included)."""
    m, q = fn[3:].split(":")
    mod = I.repo.find(m)
    node = mod.bind[q][1]
    names = [a.arg for a in node.args.args]
    out = dict(zip(names, args))
    out.update(kw)
    ds = node.args.defaults
    for a, d in zip(names[len(names) - len(ds):], ds):
        if a not in out:
            out[a] = I.ev(d, st, None, mod)[0].v
    return out, names


def hook_trace(I, args, kw, st, node):
    b, names = bind(I, ALIGN + "trace_input_spans", args, kw, st)
    vals = [I.expr_of(b[n], st, node, False) if I.is_graph(b[n], st) else b.get(n, NONE) for n in names]
    I.emit(st, "trace:input", vals, {}, None, node)
    return [Out("v", st, Sym("call", "traced.input", *vals))]


def hook_transduce(I, args, kw, st, node):
    b, names = bind(I, ALIGN + "transduce_with_spans", args, kw, st)
    vals = [I.expr_of(b[n], st, node, False) if I.is_graph(b[n], st) else b.get(n, NONE) for n in names]
    I.emit(st, "trace:output", vals, {}, None, node)
    x = Sym("call", "traced", *vals)
    return [Out("v", st, Sym("tuple", Sym("call", "traced.text", x), Sym("call", "traced.spans", x)))]


def stream_hooks(I):
    """Contract of the lazily expanded output stream (decided by stream_contract below)."""
    mod = I.repo.find("tn.processor")
    names = {n for n in mod.bind}
    if not {"_UniqueOutputPathStream", "_WeightedOutput"} <= names:
        return {}
    cls = I.cls("tn.processor:_UniqueOutputPathStream")
    if any(I.find_member(cls, m) is None for m in ("__init__", "peek", "pop")):
        return {}
    fields = [n for n, _ in I.classes[I.cls("tn.processor:_WeightedOutput")].fields()]
    if fields != ["text", "weight", "rank"]:
        return {}

    def init(I, args, kw, st, node):
        g = args[1] if len(args) > 1 else next(iter(kw.values()))
        st.heap[args[0]] = st.heap[args[0]].with_attr("_x", I.expr_of(g, st, node)).with_attr("_n", C(0))
        return [Out("v", st, NONE)]

    def step(pop):
        def f(I, args, kw, st, node):
            rec = st.heap[args[0]]
            if "_x" not in rec.attrs:
                return None
            x, n = rec.attrs["_x"], rec.attrs["_n"].args[0]
            outs = []
            for s, end in I.branch(st, Sym("call", "stream.end", x, C(n))):
                if end:
                    outs.append(Out("v", s, NONE))
                    continue
                v = I.instantiate(I.cls("tn.processor:_WeightedOutput"),
                                  [Sym("call", "stream.text", x, C(n)), Sym("call", "stream.weight", x, C(n)), C(n)], {}, s, node)[0].v
                if pop:
                    s.heap[args[0]] = s.heap[args[0]].with_attr("_n", C(n + 1))
                outs.append(Out("v", s, v))
            return outs
        return f
    return {STREAM + "__init__": init, STREAM + "peek": step(False), STREAM + "pop": step(True)}


def interp(ck, unroll=2, streams=True, **kw):
    I = FstInterp(ck.repo, Config(exceptions=kw.pop("exceptions", False), unroll=unroll, interest=kw.pop("interest", keep), **kw))
    models = {PARSER + "reorder": hook_reorder(False), PARSER + "reorder_with_spans": hook_reorder(True)}
    for n, h in (("trace_input_spans", hook_trace), ("transduce_with_spans", hook_transduce)):
        m = I.repo.find("tn.alignment")
        if m is not None and n in m.bind and m.bind[n][0] == "def":
            models[ALIGN + n] = h
    if streams:
        models.update(stream_hooks(I))
    I.cfg.models = dict(models, **I.cfg.models)
    return I


def hook_build(I, args, kw, st, node):
    for n in ("tagger", "verbalizer"):
        g = Sym("ref", "graph:" + n, 0)
        st.heap[g] = HFst(F("graph", C(n)), "processor", n)
        st.heap[args[0]] = st.heap[args[0]].with_attr(n, g)
    return [Out("v", st, NONE)]


def processor(I, pipeline):
    """A constructed pipeline whose two graphs are opaque -> (state, ref)."""
    cls = I.cls(pipeline)
    saved = dict(I.cfg.models), I.cfg.interest
    I.cfg.models["fn:tn.processor:Processor.build_fst"] = hook_build
    I.cfg.interest = lambda n: False
    st = State()
    init = I.find_member(cls, "__init__")
    ref = Sym("ref", "driver:processor", 0)
    st.heap[ref] = HInst(cls, {})
    args, kw = [ref], {}
    if pipeline == PROC:
        args.append(P("name"))
    else:
        a = I.funcs[init].node.args
        for x in a.args[1:] + a.kwonlyargs:
            kw[x.arg] = P(x.arg)
    I.inflight.append((ref, ))
    outs = [o for o in I.call_func(init, args, kw, st, FAKE) if o.k == "v"]
    I.cfg.models, I.cfg.interest = saved
    if not outs:
        raise AnalysisError("anchor lost: %s cannot be constructed" % pipeline)
    st = outs[0].st
    if pipeline == PROC:
        hook_build(I, [ref], {}, st, FAKE)
    for n in ("tagger", "verbalizer"):
        if not isinstance(st.heap.get(st.heap[ref].attrs.get(n)), HFst):
            raise AnalysisError("anchor lost: %s.%s is not the graph built by build_fst" % (pipeline, n))
    I.inflight[-1] = (ref, )
    return st, ref


def distinct(I):
    """Pipelines whose query methods differ from those already listed (normally they all share one implementation)."""
    seen, out = set(), []
    for p in [PROC] + PIPELINES:
        c = I.cls(p)
        ms = {n: m for k in reversed(I.mro(c)) if k.op == "class" for n, m in I.classes[k].members.items()}
        key = tuple(I.find_member(c, q) for q in QUERIES + tuple(sorted(
            n for n in ms if I.find_member(I.cls(PROC), n) is not None and n not in ("__init__", "build_tagger", "build_verbalizer"))))
        if key not in seen:
            seen.add(key)
            out.append(p)
    return out


def query(ck, I, pipeline, name, text, nbest=None, extra=None):
    st, ref = processor(I, pipeline)
    m = I.find_member(st.heap[ref].cls, name)
    if m is None:
        raise AnalysisError("anchor lost: %s.%s" % (pipeline, name))
    names = [a.arg for a in I.funcs[m].node.args.args][1:]
    args = [ref, text]
    kw = {}
    if nbest is not None:
        if "nbest" not in names:
            raise AnalysisError("anchor lost: %s has no nbest parameter" % name)
        kw["nbest"] = nbest
    kw.update(extra or {})
    before = dict(st.heap)
    outs = I.call_func(m, args, kw, st, FAKE)
    I.stats["paths"] += len(outs)
    if not any(o.k == "v" for o in outs) and nbest is None:
        raise AnalysisError("%s has no normal outcome within the analysed bound" % name)
    return ref, before, outs


def value_strings(I, v, st, depth=0):
    """String-like parts of a query's result (lists, tuples and result objects opened)."""
    rec = st.heap.get(v) if v.op == "ref" else None
    if depth > 5:
        return [v]
    if isinstance(rec, HSeq):
        return [y for x in rec.items for y in value_strings(I, x, st, depth + 1)]
    if isinstance(rec, HInst):
        return [y for x in rec.attrs.values() for y in value_strings(I, x, st, depth + 1)]
    if v.op == "tuple":
        return [y for x in v.args for y in value_strings(I, x, st, depth + 1)]
    return [v]


# ------------------------------------------------------------------ R01

def changed(I, before, st):
    """Objects that existed before the query (or belong to a module) and are not the same afterwards."""
    out = []
    static = {}
    for k, (v, heap) in I.static.items():
        static.update(heap)
    for r, rec in st.heap.items():
        old = before.get(r)
        if old is None and r.args[0].startswith(("global:", "default:")):
            old = static.get(r)
        if old is None or old is rec or r.args[0].startswith("module:"):
            continue
        if old.key() != rec.key():
            out.append((r, old, rec))
    return out


def describe(r, old, rec, ref):
    if r is ref and isinstance(rec, HInst):
        d = [k for k in rec.attrs if rec.attrs.get(k) is not old.attrs.get(k)]
        return "the processor's attribute %s" % ", ".join(sorted(d))
    if isinstance(rec, HFst):
        return "the processor's graph %s" % (rec.site or r.args[0])
    return "a shared %s (%s)" % (type(rec).__name__, r.args[0].split(":", 1)[-1])


def pure(ck, I, ref, before, outs, label):
    for o in outs:
        bad = changed(I, before, o.st)
        ck.ob("unchanged", label, not bad, "; ".join(describe(r, a, b, ref) for r, a, b in bad) + " is different after the query" if bad else "")
        for e in o.st.events:
            if e.name in ("store_attr", "store_item", "store_global"):
                base = e.args[0]
                if e.name != "store_global" and base.op == "ref" and base not in before and not base.args[0].startswith(("global:", "default:", "module:")):
                    continue
                ck.ob("unchanged", label, False, "the query stores into %s that outlives it" % (
                    "a module variable" if e.name == "store_global" else show(base, 3)), e.site)
            elif e.name == "fst:mutate":
                how, preserving, owner, site = e.extra
                ck.ob("unchanged", label, owner not in ("processor", ) and not str(owner).startswith(("module:", "global:")),
                      "the query applies the in-place operation %s to a graph of the processor" % how, e.site)
            elif e.name.startswith(WORLD):
                ck.ob("own-inputs", label, False, "the query consults %s, which is not one of its inputs" % e.name, e.site)
        terms = [o.v] if isinstance(o.v, Sym) else []
        world = [x for t in terms + list(o.st.facts) for x in subterms(t) if x.op in ("ext", "call", "res") and x.args and isinstance(
            x.args[0], str) and x.args[0].startswith(("time.", "random.", "os.environ", "os.getenv", "platform.", "id", "hash(")) and x.args[0] not in ("index", )]
        ck.ob("own-inputs", label, not world, "the result depends on %s" % (world and show(world[0], 2)))


def r01(ck):
    ck.rule("unchanged", "after every query, on every path, each object that existed before it (processor, graphs, token orders, module objects) is unchanged")
    ck.rule("own-inputs", "nothing but the arguments and the processor's graphs and orders determines the result")
    ck.rule("orders", "every pipeline keeps its own schema; serialising a token leaves the schema and the token as they were")
    I = interp(ck, unroll=3)
    todo = distinct(I)
    ck.note("query_implementations", len(todo))
    for p in todo:
        for q in QUERIES:
            I = interp(ck, unroll=3)
            nb = [None] if q == "verbalize" else [C(1), C(2)]
            for n in nb:
                ref, before, outs = query(ck, I, p, q, P("text"), n)
                pure(ck, I, ref, before, outs, "%s(%s)" % (q, "nbest=%s" % n.args[0] if n is not None else ""))
                I.inflight.pop()
            ck.interp(I)
    for q in ("tag", "verbalize"):
        I = interp(ck, unroll=2)
        ref, before, outs = query(ck, I, PROC, q, P("text"))
        for o in outs:
            if o.k == "v":
                st = o.st.clone()
                st.events, before = (), dict(st.heap)
                m = I.find_member(st.heap[ref].cls, q)
                pure(ck, I, ref, before, I.call_func(m, [ref, P("text2")], {}, st, FAKE), "%s after %s" % (q, q))
        ck.interp(I)
    stream_purity(ck)
    tracing_purity(ck)
    parser_purity(ck)
    for r in ck.rules:
        ck.floor(r, 4)


def stream_purity(ck):
    """The queries once more with the output stream inlined."""
    for q, n in (("normalize", 1), ("normalize", 2)):
        I = interp(ck, unroll=2, streams=False)
        st, ref = processor(I, PROC)
        m = I.find_member(st.heap[ref].cls, q)
        before = dict(st.heap)
        outs = I.call_func(m, [ref, P("text")], {"nbest": C(n)}, st, FAKE)
        pure(ck, I, ref, before, outs, "%s(nbest=%d), streams inlined" % (q, n))
        ck.interp(I)


def tracing_purity(ck):
    for fn in ("trace_input_spans", "transduce_with_spans"):
        I = FstInterp(ck.repo, Config(exceptions=False, unroll=1, interest=keep))
        mod = I.repo.find("tn.alignment")
        if mod is None or fn not in mod.bind:
            raise AnalysisError("anchor lost: tn.alignment.%s" % fn)
        node = mod.bind[fn][1]
        st = State()
        g = Sym("ref", "graph:tagger", 0)
        st.heap[g] = HFst(F("graph", C("tagger")), "processor", "fst")
        args = []
        for a in node.args.args:
            if a.arg == "fst":
                args.append(g)
            elif a.arg.endswith("spans"):
                args.append(Sym("tuple", Sym("tuple", P("start"), P("end"))))
            else:
                args.append(P(a.arg))
        I.inflight.append((g, ))
        before = dict(st.heap)
        outs = I.run("tn.alignment:" + fn, args, {}, st)
        pure(ck, I, g, before, outs, fn)
        ck.interp(I)


def parser_purity(ck):
    """Token serialisation with the pipelines' real schemas."""
    n = 0
    for p in PIPELINES:
        I = interp(ck, unroll=2)
        I.cfg.models = {}
        st, ref = processor(I, p)
        cls = st.heap[ref].cls
        tp = I.find_member(cls, "token_parser")
        if tp is None:
            raise AnalysisError("anchor lost: Processor.token_parser")
        before0 = dict(st.heap)
        for o in I.call_func(tp, [ref], {}, st, FAKE):
            if o.k != "v":
                continue
            parser = o.v
            bad = changed(I, before0, o.st)
            ck.ob("orders", "%s:token_parser" % p.split(":")[0], not bad,
                  "making a parser changes %s" % "; ".join(describe(r, a, b, ref) for r, a, b in bad))
            prec = o.st.heap.get(parser)
            if not isinstance(prec, HInst):
                raise AnalysisError("anchor lost: token_parser() does not return a parser object")
            orders = prec.attrs.get("orders")
            orec = o.st.heap.get(orders) if orders is not None else None
            if not isinstance(orec, HDict) or not orec.items:
                raise AnalysisError("anchor lost: %s has no token orders" % p)
            for name in list(orec.items):
                for case in ((), ("extra", ), ("extra", "preserve_order")):
                    s = o.st.clone()
                    I.inflight.append((ref, parser, orders))
                    before = dict(s.heap)
                    fields = [x.args[0] for x in (I.items_of(orec.items[name], s) or ()) if is_const(x)][:2]
                    fields += [x for x in case if x not in fields]
                    tok = I.run("tn.token_parser:Token", [name], {}, s)
                    tok = [t for t in tok if t.k == "v"][0]
                    s = tok.st
                    for f in fields:
                        r = [x for x in method(I, tok.v, "append", [C(f), C("true") if f == "preserve_order" else P("v" + f)], s) if x.k == "v"]
                        if not r:
                            raise AnalysisError("Token.append has no normal outcome")
                        s = r[0].st
                    trec = s.heap[tok.v]
                    I.inflight[-1] = (ref, parser, orders, tok.v)
                    before2 = dict(s.heap)
                    for out in method(I, tok.v, "string", [orders], s):
                        n += 1
                        bad = changed(I, before2, out.st)
                        ck.ob("orders", "%s:Token.string" % p.split(":")[0], not bad,
                              "serialising a %s token changes %s" % (show(name), "; ".join(describe(r, a, b, ref) for r, a, b in bad)))
                    I.inflight.pop()
        I.inflight.pop()
    ck.note("serialisations", n)


def method(I, ref, name, args, st):
    m = I.find_member(st.heap[ref].cls, name)
    if m is None:
        raise AnalysisError("anchor lost: %s.%s" % (show(st.heap[ref].cls), name))
    return I.call_func(m, [ref] + list(args), {}, st.clone(), FAKE)
