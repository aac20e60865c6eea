"""L01, L02: the command line (tn/cli.py, tn/main.py, itn/main.py) with argparse modelled by its documented semantics."""
from ..absint import AnalysisError, Config, HDict, HInst, HSeq, Interp, Out, State
from ..terms import C, FALSE, NONE, TRUE, Sym, is_const, show, subterms
from .cache import FAKE, P
from .cachebuild import PIPELINES

MOD = "tn.cli"
LANGS = ("zh", "en", "ja")
CLASSES = {("tn", "zh"): "tn.chinese.normalizer:Normalizer", ("tn", "en"): "tn.english.normalizer:Normalizer", ("tn", "ja"): "tn.japanese.normalizer:Normalizer",
           ("itn", "zh"): "itn.chinese.inverse_normalizer:InverseNormalizer", ("itn", "en"): "itn.english.inverse_normalizer:InverseNormalizer",
           ("itn", "ja"): "itn.japanese.inverse_normalizer:InverseNormalizer"}
COMMON = ("text", "file", "cache_dir", "overwrite_cache", "language")
NS = Sym("class", "argparse", "Namespace")
GIVEN = Sym("argv")
STDIN, FILE, STDOUT = Sym("stdin"), Sym("infile"), Sym("stdout")


class CliInterp(Interp):
    """Streams of text lines and text with known ends."""
    lines = {}

    def items_of(self, t, st, strings=True):
        if t in self.lines:
            return list(self.lines[t])
        return super().items_of(t, st, strings)

    def stringy(self, v):
        return v.op == "body" or super().stringy(v)

    def getattr(self, base, name, st, node):
        rec = st.heap.get(base) if base.op == "ref" else None
        if isinstance(rec, HInst) and rec.cls is NS:
            return [Out("v", st, rec.attrs[name]) if name in rec.attrs else Out("r", st, self.mkexc("AttributeError"))]
        return super().getattr(base, name, st, node)

    def truth(self, t, st):
        if t.op == "cmp" and t.args[0] == "is" and NONE in t.args[1:] and any(x in (STDIN, FILE, STDOUT, GIVEN) for x in t.args[1:]):
            return False
        if t.op == "concat" and any(is_const(x) and x.args[0] for x in t.args):
            return True
        return super().truth(t, st)

    def slice(self, base, lo, hi, step, st, node):
        if base.op == "concat" and step is NONE:
            xs = list(base.args)
            if lo in (NONE, C(0)) and is_const(hi) and isinstance(hi.args[0], int) and hi.args[0] < 0 and is_const(xs[-1]) and len(xs[-1].args[0]) >= -hi.args[0]:
                return self.concat(xs[:-1] + [C(xs[-1].args[0][:hi.args[0]])])
            if hi is NONE and is_const(lo) and isinstance(lo.args[0], int) and lo.args[0] > 0 and is_const(xs[0]) and len(xs[0].args[0]) >= lo.args[0]:
                return self.concat([C(xs[0].args[0][lo.args[0]:])] + xs[1:])
        return super().slice(base, lo, hi, step, st, node)

    def subscript(self, base, idx, st, node):
        if base.op == "concat" and is_const(idx) and idx.args[0] == -1 and is_const(base.args[-1]) and base.args[-1].args[0]:
            return [Out("v", st, C(base.args[-1].args[0][-1]))]
        return super().subscript(base, idx, st, node)


def str_model(I, name, args, kw, st, node):
    """String methods on text whose ends are known and whose middle holds no line break."""
    t = args[0] if args else None
    if t is None or t.op != "concat" or not name.startswith("."):
        return None
    xs, rest = list(t.args), [a.args[0] if is_const(a) else None for a in args[1:]]
    if kw or any(r is None and a is not NONE and a.op != "tuple" for r, a in zip(rest, args[1:])):
        return None
    head = xs[0].args[0] if is_const(xs[0]) else ""
    tail = xs[-1].args[0] if is_const(xs[-1]) else ""
    mn = name[1:]
    O = lambda v: [Out("v", st, v)]
    if mn in ("endswith", "startswith") and len(rest) == 1:
        alts = [x.args[0] for x in args[1].args] if args[1].op == "tuple" else rest
        known = tail if mn == "endswith" else head
        if all(isinstance(a, str) and len(a) <= len(known) for a in alts):
            return O(C(any(getattr(known, mn)(a) for a in alts)))
        # too little is known about the text: line breaks occur only in the known ends
        if all(isinstance(a, str) and (len(a) <= len(known) or a.strip("\r\n") == "") for a in alts):
            return O(C(any(len(a) <= len(known) and getattr(known, mn)(a) for a in alts)))
        return None
    if mn in ("removesuffix", "removeprefix") and len(rest) == 1:
        if mn == "removesuffix" and tail.endswith(rest[0]):
            return O(I.concat(xs[:-1] + [C(tail[:len(tail) - len(rest[0])])]))
        if mn == "removeprefix" and head.startswith(rest[0]):
            return O(I.concat([C(head[len(rest[0]):])] + xs[1:]))
        return O(t)
    if mn in ("rstrip", "strip", "lstrip") and len(rest) <= 1:
        r = list(xs)
        cs = rest[0] if rest else None
        if mn != "lstrip":
            r[-1] = C(tail.rstrip(cs))
            if tail and not r[-1].args[0] and not (cs and not cs.strip("\r\n")):
                return None
        if mn != "rstrip":
            r[0] = C(head.lstrip(cs))
            if head and not r[0].args[0] and not (cs and not cs.strip("\r\n")):
                return None
        return O(I.concat(r))
    if mn == "replace" and len(rest) == 2 and rest[0] and not rest[0].strip("\r\n"):
        return O(I.concat([C(x.args[0].replace(rest[0], rest[1])) if is_const(x) else x for x in xs]))
    if mn in ("partition", "rpartition", "split", "rsplit") and rest and isinstance(rest[0], str) and rest[0] and not rest[0].strip("\r\n") and rest[0] not in head:
        cut = getattr(tail, mn)(*rest)
        parts = [I.concat(xs[:-1] + [C(cut[0])])] + [C(c) for c in cut[1:]]
        if mn == "rpartition" and not cut[1]:
            parts = [C(""), C(""), t]
        return O(Sym("tuple", *parts) if mn in ("partition", "rpartition") else I.alloc(st, node, HSeq("list", parts)))
    return None


# ------------------------------------------------------------------------------------------ argparse

def argparse_models(I):
    def new(I, args, kw, st, node):
        n = st.aux.get("apn", 0)
        st.aux["apn"] = n + 1
        st.aux[("ap", n)] = ()
        return [Out("v", st, Sym("aparser", n))]

    def group(excl):
        def f(I, args, kw, st, node):
            n = st.aux.get("agn", 0)
            st.aux["agn"] = n + 1
            return [Out("v", st, Sym("agroup", parser_of(args[0]), n if excl else None))]
        return f

    def parser_of(x):
        while x.op == "agroup":
            x = x.args[0]
        if x.op != "aparser":
            raise AnalysisError("an option is added to something that is no parser: %s" % show(x, 3))
        return x

    def add(I, args, kw, st, node):
        p = parser_of(args[0])
        names = []
        for a in args[1:]:
            if not is_const(a) or not isinstance(a.args[0], str):
                raise AnalysisError("an option name is not constant: %s" % show(a, 3))
            names.append(a.args[0])
        dest = kw.get("dest")
        if dest is None:
            long = [n for n in names if n.startswith("--")] or names
            dest = C(long[0].lstrip("-").replace("-", "_"))
        choices = kw.get("choices")
        opt = {"names": tuple(names), "dest": dest.args[0], "excl": args[0].args[1] if args[0].op == "agroup" else None,
               "choices": None if choices is None else tuple(x.args[0] for x in I.items_of(choices, st) or ())}
        for k in ("action", "nargs", "const", "default", "type", "required"):
            opt[k] = kw.get(k)
        st.aux[("ap", p.args[0])] += (tuple(sorted(opt.items(), key=lambda x: x[0])), )
        return [Out("v", st, Sym("action", p, len(st.aux[("ap", p.args[0])])))]

    def setdef(I, args, kw, st, node):
        p = parser_of(args[0])
        st.aux[("apd", p.args[0])] = st.aux.get(("apd", p.args[0]), ()) + tuple(kw.items())
        return [Out("v", st, NONE)]

    def parse(known):
        def f(I, args, kw, st, node):
            p = parser_of(args[0])
            argv = args[1] if len(args) > 1 else kw.get("args", NONE)
            if argv.op == "ref":
                argv = I.freeze(argv, st)
            opts = [dict(o) for o in st.aux[("ap", p.args[0])]]
            I.emit(st, "argv", [argv, C(known), p], {}, None, node)
            outs = []
            given = [st.aux[("given", argv)]] if ("given", argv) in st.aux else list(LANGS) + [None]
            for g in given:
                s = st.clone()
                s.aux[("given", argv)] = g
                attrs = {}
                for o in opts:
                    if o["dest"] == "language":
                        d = effective_default(opts, "language", st.aux.get(("apd", p.args[0]), ()))
                        v = d if g is None else C(g)
                    else:
                        v = Sym("opt", o["dest"], argv)
                    attrs[o["dest"]] = v
                ns = I.alloc(s, node, HInst(NS, attrs))
                outs.append(Out("v", s, Sym("tuple", ns, Sym("call", "rest", argv)) if known else ns))
            return outs
        return f

    def error(I, args, kw, st, node):
        return [Out("r", st, I.mkexc("SystemExit"))]

    def vars_(I, args, kw, st, node):
        rec = st.heap.get(args[0]) if args else None
        if isinstance(rec, HInst):
            return [Out("v", st, I.alloc(st, node, HDict({C(k): v for k, v in rec.attrs.items()})))]
    return {"argparse.ArgumentParser": new, ".add_mutually_exclusive_group": group(True), ".add_argument_group": group(False), ".add_argument": add,
            ".set_defaults": setdef, ".parse_args": parse(False), ".parse_known_args": parse(True), ".error": error, "builtins.vars": vars_,
            ".exit": error, "sys.exit": error}


def effective_default(opts, dest, overrides):
    for k, v in overrides[::-1]:
        if k == dest:
            return v
    for o in opts:
        if o["dest"] == dest:
            if o["default"] is not None:
                return o["default"]
            a = o["action"]
            return C({"store_true": False, "store_false": True}.get(a.args[0] if a is not None and is_const(a) else None))
    return None


def bare(o, name):
    """What giving the option without a value stores; None when it needs one."""
    a = o["action"]
    if a is not None and a.op == "ext" and a.args[0].endswith("BooleanOptionalAction"):
        return C(not name.startswith("--no-"))
    k = a.args[0] if a is not None and is_const(a) else "store"
    if k == "store_true":
        return TRUE
    if k == "store_false":
        return FALSE
    if k == "store_const" or k == "store" and o["nargs"] is C("?"):
        return o["const"] if o["const"] is not None else NONE
    return None


def all_names(o):
    a = o["action"]
    ns = list(o["names"])
    if a is not None and a.op == "ext" and a.args[0].endswith("BooleanOptionalAction"):
        ns += ["--no-" + n[2:] for n in ns if n.startswith("--")]
    return ns


def make(ck, **kw):
    I = CliInterp(ck.repo, Config(**dict(dict(exceptions=False, unroll=12, sym_unroll=2, merge=False, interest=lambda n: True), **kw)))
    mod = I.repo.find(MOD)
    need = {"create_parser", "create_processor", "parse_args", "run"}
    if mod is None or not need <= set(mod.bind):
        raise AnalysisError("anchor lost: tn.cli needs %s" % ", ".join(sorted(need)))
    I.cfg.models = argparse_models(I)
    I.cfg.models["*"] = str_model
    return I


def signature(I, cls):
    """[(parameter, default term or None)] of a class' constructor."""
    fn = I.find_member(I.cls(cls), "__init__")
    if fn is None:
        raise AnalysisError("anchor lost: %s.__init__" % cls)
    m, q = cls.split(":")
    mod = I.repo.find(m)
    node = I.funcs[fn].node if fn in I.funcs else None
    if node is None:
        node = [x for x in mod.bind[q][1].body if getattr(x, "name", "") == "__init__"][0]
    a = node.args
    names = [x.arg for x in a.args][1:]
    ds = [None] * (len(names) - len(a.defaults)) + list(a.defaults)
    out = [(n, None if d is None else I.ev(d, State(), None, mod)[0].v) for n, d in zip(names, ds)]
    out += [(x.arg, None if d is None else I.ev(d, State(), None, mod)[0].v) for x, d in zip(a.kwonlyargs, a.kw_defaults)]
    return out


def l01(ck):
    ck.rule("offered", "exactly the options of the selected language's constructor are offered, besides the common ones")
    ck.rule("default", "an option's default is the constructor's default")
    ck.rule("switch", "positive spellings store True, negative ones False, explicit values are read as written; no spelling stores to another option")
    ck.rule("wired", "create_processor builds the processor of that direction and language, handing every option to the parameter of the same name")
    ck.rule("language", "the language that selects the options is the language that is parsed, from the same arguments")
    ck.rule("common", "text and file exclude one another; cache and language options have their documented defaults")
    ck.rule("command", "each console command runs its own direction")
    I = make(ck)
    for (direction, lang), cls in CLASSES.items():
        where = "%s/%s" % (direction, lang)
        sig = signature(I, cls)
        params = [n for n, _ in sig if n not in ("cache_dir", "overwrite_cache")]
        outs = [o for o in I.run(MOD + ":create_parser", [C(direction), C(lang)], {}, State()) if o.k == "v"]
        if not outs:
            raise AnalysisError("anchor lost: create_parser(%s) never returns" % where)
        for o in outs:
            if o.v.op != "aparser":
                raise AnalysisError("anchor lost: create_parser does not return an argparse parser")
            opts = [dict(x) for x in o.st.aux[("ap", o.v.args[0])]]
            over = o.st.aux.get(("apd", o.v.args[0]), ())
            dests = {x["dest"] for x in opts}
            ck.ob("offered", where, dests == set(params) | set(COMMON), "options %s are offered, the constructor takes %s" % (
                sorted(dests - set(COMMON)), sorted(params)))
            for n, d in sig:
                if n not in dests:
                    continue
                e = effective_default(opts, n, over)
                ck.ob("default", "%s --%s" % (where, n), e is d, "the default on the command line is %s, the constructor's is %s" % (
                    show(e, 2) if e is not None else "missing", show(d, 2) if d is not None else "missing"))
            for n in params:
                switches(ck, I, o.st, where, n, [x for x in opts if x["dest"] == n], opts)
            common(ck, I, where, opts, over)
        wired(ck, I, direction, lang, cls, sig)
    language(ck)
    commands(ck)
    ck.interp(I)
    for r, n in (("offered", 6), ("default", 30), ("switch", 60), ("wired", 30), ("language", 6), ("common", 20), ("command", 2)):
        ck.floor(r, n)


def switches(ck, I, st, where, n, mine, opts):
    hy = n.replace("_", "-")
    pos, neg = {"--" + n, "--" + hy}, {"--no-" + n, "--no-" + hy}
    seen = set()
    for o in mine:
        for s in all_names(o):
            site = "%s %s" % (where, s)
            want = True if s in pos else False if s in neg else None
            ck.ob("switch", site, want is not None, "the option %s stores to %s" % (s, n))
            if want is None:
                continue
            seen.add(want)
            b = bare(o, s)
            ck.ob("switch", site, b is None and want or b is C(want), "%s alone stores %s" % (s, show(b, 2) if b is not None else "nothing"))
            a = o["action"]
            takes = (a is None or a is C("store"))
            if not takes:
                continue
            for text, v in (("True", True), ("true", True), ("TRUE", True), ("False", False), ("false", False), ("FALSE", False)):
                ty = o["type"]
                if ty is None:
                    ck.ob("switch", site, False, "%s %s stores the text" % (s, text))
                    continue
                for r in I.call_value(ty, [C(text)], {}, st.clone(), FAKE):
                    ck.ob("switch", site, r.k == "v" and r.v is C(v if want else not v), "%s %s stores %s" % (s, text, show(r.v, 2)))
            for text in ("maybe", "", "0", "tru"):
                if ty is not None:
                    for r in I.call_value(ty, [C(text)], {}, st.clone(), FAKE):
                        ck.ob("switch", site, r.k == "r", "%s %r is accepted" % (s, text))
    ck.ob("switch", "%s %s" % (where, n), seen == {True, False}, "%s has no %s spelling" % (n, "positive" if True not in seen else "negative"))
    for o in opts:
        if o["dest"] != n:
            hit = [s for s in all_names(o) if s in pos | neg]
            ck.ob("switch", "%s %s" % (where, n), not hit, "the option %s stores to %s" % (hit[:1], o["dest"]))


def common(ck, I, where, opts, over):
    by = {}
    for o in opts:
        by.setdefault(o["dest"], []).append(o)
    g = {o["excl"] for d in ("text", "file") for o in by.get(d, ())}
    ck.ob("common", where, len(g) == 1 and None not in g and "text" in by and "file" in by, "--text and --file may be given together")
    for d, v in (("text", None), ("file", None), ("cache_dir", None), ("overwrite_cache", False), ("language", "zh")):
        e = effective_default(opts, d, over)
        ck.ob("common", "%s --%s" % (where, d), d in by and e is C(v), "the default of --%s is %s" % (d, show(e, 2) if e is not None else "missing"))
    for o in by.get("language", ()):
        ck.ob("common", where, set(o["choices"] or ()) == set(LANGS), "--language offers %s" % (o["choices"], ))
    for o in by.get("overwrite_cache", ()):
        ck.ob("common", where, bare(o, o["names"][0]) is TRUE, "--overwrite_cache does not store True")
    for d in ("text", "file", "cache_dir"):
        for o in by.get(d, ()):
            ck.ob("common", "%s --%s" % (where, d), o["type"] in (None, ) and bare(o, o["names"][0]) is None, "--%s does not store its value as written" % d)
            ck.ob("common", "%s --%s" % (where, d), "--" + d in o["names"], "--%s is missing" % d)


def wired(ck, I, direction, lang, cls, sig):
    where = "%s/%s" % (direction, lang)
    built = []

    def hook(c):
        def f(I, args, kw, st, node):
            s = signature(I, c)
            names = [n for n, _ in s]
            got = dict(zip(names, args[1:]))
            got.update(kw)
            I.emit(st, "construct", [C(c), args[0], Sym("args", *[Sym("kv", C(k), v) for k, v in sorted(got.items())])], {}, None, node)
            return [Out("v", st, NONE)]
        return f
    old = dict(I.cfg.models)
    for c in CLASSES.values():
        I.cfg.models["fn:%s.__init__" % c] = hook(c)
    st = State()
    names = [n for n, _ in sig]
    attrs = {n: P("args." + n) for n in set(names) | set(COMMON)}
    attrs["language"] = C(lang)
    ns = I.alloc(st, FAKE, HInst(NS, attrs))
    I.inflight.append((ns, ))
    outs = I.run(MOD + ":create_processor", [C(direction), ns], {}, st)
    I.inflight.pop()
    I.cfg.models = old
    for o in outs:
        ev = [e for e in o.st.events if e.name == "construct"]
        ck.ob("wired", where, o.k == "v" and len(ev) == 1 and ev[0].args[0] is C(cls) and ev[0].args[1] == o.v,
              "selecting %s builds %s" % (where, ev[0].args[0].args[0] if ev else "nothing"))
        if len(ev) != 1 or ev[0].args[0] is not C(cls):
            continue
        got = {k.args[0].args[0]: k.args[1] for k in ev[0].args[2].args}
        for n in names:
            ck.ob("wired", "%s %s" % (where, n), got.get(n) is attrs[n], "%s receives %s" % (n, show(got[n], 3) if n in got else "nothing"))
        ck.ob("wired", where, set(got) <= set(names), "%s are no parameters" % sorted(set(got) - set(names)))


def language(ck):
    I = make(ck)
    for direction in ("tn", "itn"):
        seen = set()

        def hook(I, args, kw, st, node):
            seen.add("called")
            I.emit(st, "create_parser", list(args) + [v for _, v in sorted(kw.items())], {}, None, node)
            return None
        for o in I.run(MOD + ":parse_args", [C(direction), P("argv")], {}, State()):
            if o.k != "v":
                continue
            rec = o.st.heap.get(o.v)
            if not isinstance(rec, HInst) or rec.cls is not NS:
                raise AnalysisError("anchor lost: parse_args does not return the parsed namespace")
            lang = rec.attrs.get("language")
            evs = [e for e in o.st.events if e.name == "argv"]
            used = {e.args[0] for e in evs}
            own = I.truth(Sym("cmp", "is", *sorted((P("argv"), NONE), key=repr)), o.st) is True
            ck.ob("language", direction, len(used) == 1 and (P("argv") in used or own and "sys.argv" in show(list(used)[0], 6)),
                  "the language is read from other arguments than the options")
            if len(used) != 1:
                continue
            sig = [n for n, _ in signature(I, CLASSES[(direction, lang.args[0])])] if is_const(lang) and (direction, lang.args[0]) in CLASSES else None
            given = o.st.aux.get(("given", list(used)[0]))
            ck.ob("language", "%s, --language %s" % (direction, given or "omitted"), sig is not None and set(rec.attrs) == set(sig) | set(COMMON),
                  "the options parsed are not those of the language %s" % show(lang, 2))
            ck.ob("language", direction, lang is C(given or "zh"), "the language parsed is %s" % show(lang, 2))
        # the command's own arguments are used when none are handed over
        for o in I.run(MOD + ":parse_args", [C(direction)], {}, State()):
            evs = [e for e in o.st.events if e.name == "argv"]
            if o.k == "v":
                ck.ob("language", direction, all("sys.argv" in show(e.args[0], 6) or e.args[0] is NONE for e in evs) and bool(evs), "without arguments the command's own are not read")
    ck.interp(I)


def commands(ck):
    I = make(ck)
    for mod, direction in (("tn.main", "tn"), ("itn.main", "itn")):
        m = I.repo.find(mod)
        if m is None or "main" not in m.bind:
            raise AnalysisError("anchor lost: %s.main" % mod)

        def run(I, args, kw, st, node):
            I.emit(st, "run", list(args) + list(kw.values()), {}, None, node)
            return [Out("v", st, P("processor"))]
        I.cfg.models["fn:tn.cli:run"] = run
        for o in I.run(mod + ":main", [], {}, State()):
            ev = [e for e in o.st.events if e.name == "run"]
            ck.ob("command", mod, o.k == "v" and len(ev) == 1 and ev[0].args[0] is C(direction), "the command runs %s" % (show(ev[0].args[0], 2) if ev else "nothing"))
    ck.interp(I)


# ---------------------------------------------------------------------------------------------- L02
def body(i):
    return Sym("body", i)


BODIES = [("\u3000", " \t"), ("\t ", "\u3000"), (" ", " ")]
ENDS = ["\n", "\r\n", ""]


def lines_of(which):
    """[(line, text)]: unknown text between visible ends, with every line ending."""
    out = []
    for i, e in enumerate(ENDS):
        a, b = BODIES[i]
        m = Sym("body", which, i)
        out.append((Sym("concat", C(a), m, C(b + e)), Sym("concat", C(a), m, C(b))))
        if e:
            out.append((C(e), C("")))
    out.insert(2, (C("  \t\n"), C("  \t")))
    return out[:-1] + out[-1:]


class Out_:
    """The text a path wrote, from print and write events."""

    def __init__(self, ck, I, o, out):
        self.parts, self.odd, self.calls, self.n = [], [], [], 0
        for e in o.st.events:
            kw = dict(e.kw)
            if e.name in ("print", "builtins.print"):
                sep, end, to = kw.get("sep", C(" ")), kw.get("end", C("\n")), kw.get("file", NONE)
                if to is not out and not (to is NONE and out is None):
                    self.odd.append("printed to %s" % show(to, 2))
                for i, a in enumerate(e.args):
                    if i:
                        self.parts.append(sep)
                    self.parts.append(a)
                self.parts.append(end)
            elif e.name == ".write" and e.args[0] is out:
                self.parts.append(e.args[1])
            elif e.name == ".writelines" and e.args[0] is out:
                self.parts.extend(I.items_of(e.args[1], o.st) or [Sym("unknown")])
            elif e.name in (".tag", ".verbalize", ".normalize", ".normalize_with_mapping"):
                self.calls.append(e)
            elif e.name == "open":
                self.n += 1

    def text(self):
        from .parser import atoms_of
        flat = []
        for p in self.parts:
            flat.extend(p.args if p.op == "concat" else [p])
        return atoms_of(Sym("concat", *flat)) if flat else []


def l02_models(I):
    def proc(name):
        def f(I, args, kw, st, node):
            r = Sym("call", name, args[0], *args[1:], *[v for _, v in sorted(kw.items())])
            I.emit(st, name, args, kw, r, node)
            bad = st.clone()
            return [Out("v", st, r), Out("r", bad, I.mkexc("RuntimeError")), Out("r", bad.clone(), I.mkexc("ValueError"))]
        return f

    def fopen(I, args, kw, st, node):
        vals = list(args) + [Sym("kv", C(k), v) for k, v in sorted(kw.items())]
        I.emit(st, "open", vals, {}, None, node)
        bad = st.clone()
        return [Out("v", st, FILE), Out("r", bad, I.mkexc("FileNotFoundError"))]

    def readlines(I, args, kw, st, node):
        if args[0] in I.lines and len(args) == 1:
            return [Out("v", st, I.alloc(st, node, HSeq("list", I.lines[args[0]])))]
    def readline(I, args, kw, st, node):
        if args[0] in I.lines and len(args) == 1:
            n = st.aux.get(("at", args[0]), 0)
            st.aux[("at", args[0])] = n + 1
            return [Out("v", st, I.lines[args[0]][n] if n < len(I.lines[args[0]]) else C(""))]

    def read(I, args, kw, st, node):
        if args[0] in I.lines and len(args) == 1:
            return [Out("v", st, I.concat(I.lines[args[0]]))]
    m = argparse_models(I)
    m.update({".tag": proc(".tag"), ".verbalize": proc(".verbalize"), "builtins.open": fopen, "open": fopen, "io.open": fopen, "codecs.open": fopen, ".readlines": readlines, ".read": read, ".readline": readline,
              "*": str_model})
    return m


def l02(ck):
    ck.rule("output", "every input line gives exactly its tag line and the verbalization of that very tag, in input order")
    ck.rule("input", "each line reaches the processor without its line terminator and otherwise unchanged")
    ck.rule("source", "exactly one input source is read: the text, else the file, else standard input")
    ck.rule("encoding", "files are opened for reading as UTF-8")
    ck.rule("skipped", "a run that returns normally has processed every line")
    ck.rule("processor", "the processor used and returned is the one the selected options build")
    I = make(ck, unroll=24)
    I.cfg.models = l02_models(I)
    streams = {STDIN: lines_of("stdin"), FILE: lines_of("file")}
    I.lines = {k: [a for a, _ in v] for k, v in streams.items()}
    paths = {"text": 0, "file": 0, "stdin": 0}
    for direction in ("tn", "itn"):
        outs = I.run(MOD + ":run", [C(direction), GIVEN, STDIN, STDOUT, P("factory")], {}, State())
        I.stats["paths"] += len(outs)
        ck.ob("output", direction, any(o.k == "v" for o in outs), "the command never returns")
        for o in outs:
            if o.k == "v":
                paths[one_run(ck, I, o, direction, streams)] += 1
    for k, n in paths.items():
        ck.ob("source", k, n > 0, "no run of the command reads its %s" % k)
    defaults(ck)
    ck.interp(I)
    for r, n in (("output", 10), ("input", 10), ("source", 6), ("encoding", 2), ("skipped", 4), ("processor", 6)):
        ck.floor(r, n)


def opt_of(o, name):
    return Sym("opt", name, GIVEN)


def one_run(ck, I, o, direction, streams):
    st = o.st
    given = lambda n: st_given(I, st, Sym("opt", n, GIVEN))
    w = Out_(ck, I, o, STDOUT)
    text, file_ = given("text"), given("file")
    # which source the path has to read
    if text:
        src, want = "text", [Sym("opt", "text", GIVEN)]
    elif file_:
        src, want = "file", [t for _, t in streams[FILE]]
    else:
        src, want = "stdin", [t for _, t in streams[STDIN]]
    site = "%s, %s" % (direction, src)
    if text is None or src != "text" and file_ is None:
        ck.ob("source", site, False, "whether an option was given is not decided by its presence")
        return src
    procs = {e.args[0] for e in w.calls}
    ck.ob("processor", site, procs <= {o.v} and any(
        e.name == "?call" and e.args[0] is P("factory") and e.args[1] is C(direction) and e.res == o.v for e in st.events), "the processor used is not the one the options build")
    tags = [e for e in w.calls if e.name == ".tag"]
    got = [e.args[1] if len(e.args) > 1 else dict(e.kw).get("input") for e in tags]
    ck.ob("skipped", site, len(got) >= len(want), "%d of %d lines are processed" % (len(got), len(want)))
    for i, t in enumerate(want):
        if i < len(got):
            ck.ob("input", "%s line %d" % (site, i), same(got[i], t), "the line %s is handed over as %s" % (show(t, 3), show(got[i], 4)))
    ck.ob("source", site, len(got) <= len(want) and w.n == (1 if src == "file" else 0), "another source is read as well")
    expected = []
    for t in want:
        tagged = [e.res for e in tags if same(e.args[1] if len(e.args) > 1 else C(0), t)]
        if not tagged:
            expected = None
            break
        verb = Sym("call", ".verbalize", o.v, tagged[0])
        expected += [tagged[0], C("\n"), verb, C("\n")]
    if expected is not None:
        from .parser import atoms_of
        ck.ob("output", site, w.text() == atoms_of(Sym("concat", *expected)) and not w.odd, "the output is not the tag line and the text line of every input line")
    for e in st.events:
        if e.name == "open":
            enc = [a.args[1] for a in e.args if a.op == "kv" and a.args[0] is C("encoding")]
            mode = [a.args[1] for a in e.args if a.op == "kv" and a.args[0] is C("mode")] + [a for a in e.args[1:2] if a.op != "kv"]
            if len(e.args) > 3 and e.args[3].op != "kv":
                enc.append(e.args[3])
            ck.ob("encoding", site, len(enc) == 1 and is_const(enc[0]) and str(enc[0].args[0]).lower().replace("_", "-") in ("utf-8", "utf8"), "the file is not read as UTF-8")
            ck.ob("encoding", site, all(m is C("r") or m is C("rt") for m in mode), "the file is not opened as text for reading")
            ck.ob("source", site, e.args[0] is Sym("opt", "file", GIVEN), "another file is read")
            bad = [a for a in e.args if a.op == "kv" and a.args[0] in (C("errors"), ) and not (a.args[1] is NONE or a.args[1] is C("strict"))]
            ck.ob("encoding", site, not bad, "undecodable bytes are replaced silently")
    return src


def same(a, b):
    from .parser import atoms_of
    return a is not None and atoms_of(a) == atoms_of(b)


def st_given(I, st, opt):
    """Whether the path assumes the option was given (None: not decided, or decided by the text being non-empty)."""
    k = I.truth(Sym("cmp", "is", *sorted((opt, NONE), key=repr)), st)
    return None if k is None else not k


def defaults(ck):
    """Without streams handed over, the command's own are used; the options choose the processor by default."""
    I = make(ck, unroll=2)
    I.cfg.models = l02_models(I)
    I.cfg.models["fn:%s:create_processor" % MOD] = lambda I, args, kw, st, node: [Out("v", st, Sym("res", "made", *args))]
    seen = 0
    for o in I.run(MOD + ":run", [C("tn"), GIVEN], {}, State()):
        if o.k != "v":
            continue
        seen += 1
        ck.ob("processor", "default", o.v.op == "res" and o.v.args[0] == "made" and o.v.args[1] is C("tn"), "the processor is not made by create_processor for the direction")
        for e in o.st.events:
            if e.name in ("print", "builtins.print"):
                to = dict(e.kw).get("file", NONE)
                ck.ob("output", "default", to is NONE or "sys.stdout" in show(to, 3), "the output goes to %s" % show(to, 3))
    ck.ob("processor", "default", seen > 0, "the command never returns")
    ck.interp(I)
