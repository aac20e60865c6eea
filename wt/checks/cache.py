"""C01, C03-C08: the compiled-graph cache (tn/cache.py, Processor.build_fst)."""
import ast

from ..absint import AnalysisError, Config, HDict, HInst, HSeq, Interp, Out, State
from ..query import (access_path, bits, eq_with, equalities, isinstances, last_name, segments, split_eq, strip, upper_bounds)
from ..terms import C, FALSE, NONE, TRUE, Sym, is_const, mentions, show, subterms

P = lambda n: Sym("param", n)
FAKE = ast.parse("f()").body[0]
CLS = "tn.cache:CacheBundle"
NOFOLLOW = "os.O_NOFOLLOW"


def interp(ck, interest=None, monitor=None, exceptions=True, osname="posix", **kw):
    return Interp(ck.repo, Config(interest=interest or (lambda n: False), monitor=monitor, exceptions=exceptions,
                                  const_attrs={"os.name": C(osname)}, **kw))


def bundle(I):
    """A freshly constructed bundle with symbolic arguments -> (state, ref, {attr: term})."""
    e, mon, it = I.cfg.exceptions, I.cfg.monitor, I.cfg.interest
    I.cfg.exceptions, I.cfg.monitor, I.cfg.interest = False, None, lambda n: False
    try:
        outs = I.run(CLS, [P("cache_root"), P("prefix"), P("ordertype"), P("cache_config"), P("source_fingerprint")])
    finally:
        I.cfg.exceptions, I.cfg.monitor, I.cfg.interest = e, mon, it
    ok = [o for o in outs if o.k == "v"]
    if not ok:
        raise AnalysisError("CacheBundle cannot be constructed")
    o = ok[0]
    attrs = o.st.heap[o.v].attrs
    for need in ("path", "parent", "lock_path", "cache_root"):
        if need not in attrs:
            raise AnalysisError("anchor lost: CacheBundle.%s" % need)
    o.st.occ = dict(o.st.occ)
    return o.st, o.v, attrs


def method(I, ref, name, args, st, kw=None):
    m = I.find_member(st.heap[ref].cls, name)
    if m is None:
        raise AnalysisError("anchor lost: CacheBundle.%s" % name)
    outs = I.call_func(m, [ref] + list(args), dict(kw or {}), st, FAKE)
    I.stats["paths"] += len(outs)
    return outs


def where(e):
    return e.site if e is not None else None


def short(e_stack):
    return e_stack[-1].split(":")[1] if e_stack else "<module>"


# ------------------------------------------------------------------ provenance of bytes

READS = {".readinto", ".read", "os.read", ".read_bytes", "os.readv", "os.pread", ".readall"}
OPENS = {"os.open", "open", "os.fdopen", "io.open", ".open", "os.openat"}


def file_of(t, opens):
    """Follows a file object or descriptor back to the path it was opened with -> (name term, dir_fd term or None)."""
    for _ in range(10):
        t = strip(t)
        e = opens.get(t)
        if e is None:
            return t, None
        kw = dict(e.kw)
        if e.name == "os.open":
            return e.args[0], kw.get("dir_fd")
        if not e.args:
            return t, None
        nxt = strip(e.args[0])
        if nxt not in opens:
            return nxt, kw.get("dir_fd")
        t = nxt
    return t, None


def byte_source(b, events):
    """Path term the byte string `b` was read from, None when unknown."""
    opens = {e.res: e for e in events if e.name in OPENS}
    for e in events:
        if e.name in READS:
            if e.res is b and e.name != ".readinto":
                return file_of(e.args[0], opens)
            if e.name == ".readinto" and any(mentions(a, b) for a in e.args[1:]):
                return file_of(e.args[0], opens)
    for e in events:
        if e.name == "bytearray" and e.res is b and e.args:
            # nothing read on this path (empty file): the buffer was sized after the file it belongs to
            for x in subterms(e.args[0]):
                for f in events:
                    if f.name in ("os.fstat", "os.stat", "os.lstat") and f.res is x and f.args:
                        return file_of(f.args[0], opens)
    if b.op == "call" and b.args[0] in ("bytes", ".join", "bytearray"):
        for x in subterms(b):
            if x is not b and x.op == "res":
                s = byte_source(x, events)
                if s is not None:
                    return s
    return None


def graph_bytes(t):
    """The byte term a loaded graph was deserialised from."""
    t = strip(t)
    while t.op == "call" and t.args[0] in (".optimize", ".copy"):
        t = t.args[1]
    if t.op == "call" and t.args[0] == "pynini.Fst.read_from_string":
        return strip(t.args[1])
    return None


def sha_of(t):
    """Bytes hashed by a SHA-256 digest term."""
    if t.op == "call" and t.args[0] in (".hexdigest", ".digest") and len(t.args) >= 3 and t.args[1] is C("sha256"):
        items = [strip(x) for x in t.args[2:]]
        return items
    return None


LOAD_EVENTS = READS | OPENS | {"bytearray", "pynini.Fst.read_from_string", "os.listdir", "os.scandir", "json.loads", "os.fstat", "json.load",
                               ".iterdir", "os.stat", "os.lstat"}


class Verified:
    """What the must-facts at a point prove about the graphs loaded from one bundle directory."""

    def __init__(self, items, facts, events, st, I):
        self.items, self.facts, self.events, self.st, self.I = items, facts, events, st, I
        self.eqs = list(equalities(facts))

    def manifest(self):
        """The manifest term: the json.loads result that is compared and known to be a mapping."""
        cands = [e.res for e in self.events if e.name in ("json.loads", "json.load")]
        return cands[-1] if cands else None

    def eq(self, t):
        out = []
        for a, b in self.eqs:
            if a is t:
                out.append(b)
            elif b is t:
                out.append(a)
        return out


def check_verified(ck, I, label, items, facts, events, st, expect_identity, names, R):
    """Obligations on graphs `items` handed back at a program point."""
    V = Verified(items, facts, events, st, I)
    M = V.manifest()
    ck.ob(R + "manifest", label + ":manifest-parsed", M is not None, "a graph is returned without a parsed manifest")
    if M is None:
        return
    pos, _ = isinstances(facts, M)
    ck.ob(R + "manifest", label + ":manifest-is-mapping", "dict" in pos or "Mapping" in pos,
          "the manifest is not known to be a mapping when graphs are returned")
    # identity
    for key, want in sorted(expect_identity.items()):
        ok = False
        for a, b in V.eqs:
            for x, y in ((a, b), (b, a)):
                base, path = access_path(x)
                if base is M and path == (key, ) and y is want:
                    ok = True
        ck.ob(R + "identity", label + ":manifest[%s]" % key, ok,
              "published identity field %r is not compared with the requested build before graphs are returned" % key)
    # exact directory contents
    listing = [e for e in events if e.name in ("os.listdir", "os.scandir", ".iterdir")]
    want = {"manifest.json"} | set(names)
    ok = False
    for a, b in V.eqs:
        for x, y in ((a, b), (b, a)):
            if x.op in ("setof", "listof") and all(is_const(i) for i in x.args) and {i.args[0] for i in x.args} == want:
                if any(mentions(y, e.res) for e in listing if e.res is not None):
                    ok = True
    ck.ob(R + "entries", label + ":directory-entries", ok,
          "graphs are returned without the directory listing being equal to exactly %s" % sorted(want))
    # graphs
    ck.ob(R + "pair", label + ":pair", len(items) == 2, "the loaded value is not a tagger/verbalizer pair")
    opens = {e.res: e for e in events if e.name in OPENS}
    for i, it in enumerate(items[:2]):
        role = ("tagger", "verbalizer")[i]
        b = graph_bytes(it)
        lab = label + ":" + role
        if not ck.ob(R + "deserialise", lab, b is not None, "returned value is not deserialised from verified bytes: %s" % show(it, 4)):
            continue
        src = byte_source(b, events)
        nm = last_name(src[0]) if src else None
        ck.ob(R + "order", lab + ":file", nm == names[i], "the %s graph is read from %s instead of %s" % (role, nm, names[i]))
        # digest
        ok = False
        for a, c in V.eqs:
            for x, y in ((a, c), (c, a)):
                h = sha_of(y)
                base, path = access_path(x)
                if h == [b] and base is M and len(path) == 3 and path[0] == "files" and path[1] == nm and path[2] == "sha256":
                    ok = True
        ck.ob(R + "digest", lab + ":sha256", ok,
              "no must-fact equates manifest files[%s].sha256 with the SHA-256 of the very bytes deserialised" % nm)
        # size
        decl = None
        for a, c in V.eqs:
            for x, y in ((a, c), (c, a)):
                base, path = access_path(x)
                if base is M and len(path) == 3 and path[0] == "files" and path[1] == nm and path[2] == "size":
                    decl = (x, y)
                    if size_term_of(y, b, events, V):
                        ok = "size"
        ck.ob(R + "size", lab + ":declared-size", ok == "size",
              "the declared size of %s is not compared with the size of the bytes deserialised" % nm)
        sizes = [t for t in all_sizes(b, events, V)]
        if decl:
            sizes.append(decl[0])
        lim = any(is_limit(bd) for s in sizes for bd, _ in upper_bounds(facts, s))
        ck.ob(R + "limit", lab + ":size-limit", lim, "no size limit is enforced on %s before it is returned" % nm)
        ck.ob(R + "complete", lab + ":fully-read", fully_read(b, events, facts), "%s may be returned after a partial read" % nm)
    mb = None
    for e in events:
        if e.name == "json.loads":
            for x in subterms(e.args[0]):
                if x.op == "res":
                    s = byte_source(x, events)
                    if s is not None:
                        mb = (x, s)
    if mb:
        ck.ob(R + "order", label + ":manifest-file", last_name(mb[1][0]) == "manifest.json", "manifest is read from %s" % show(mb[1][0]))
        lim = any(is_limit(bd) for s in all_sizes(mb[0], events, V) for bd, _ in upper_bounds(facts, s))
        ck.ob(R + "limit", label + ":manifest:size-limit", lim, "no size limit is enforced on the manifest")


def all_sizes(b, events, V):
    out = [Sym("call", "len", b)]
    for e in events:
        if e.name == "bytearray" and e.res is b and e.args:
            out.append(e.args[0])
    for t in list(out):
        out.extend(V.eq(t))
    return out


def size_term_of(t, b, events, V):
    return any(t is s for s in all_sizes(b, events, V))


def is_limit(t):
    if is_const(t):
        return isinstance(t.args[0], (int, float)) and 0 < t.args[0] <= 1 << 40
    if t.op == "call" and t.args[0] == "min":
        return any(is_const(a) for a in t.args[1:])
    return False


def fully_read(b, events, facts):
    """A preallocated buffer must be filled up to its size before use."""
    pre = [e for e in events if e.name == "bytearray" and e.res is b and e.args]
    if not pre:
        return True
    size = pre[0].args[0]
    opens = {e.res: e for e in events if e.name in OPENS}
    for f, v in facts:
        if f.op == "cmp" and f.args[0] == "<" and not v and f.args[2] is size:
            return True
        if f.op == "cmp" and f.args[0] in ("<=", "==") and v and size in f.args[1:]:
            o = f.args[1] if f.args[2] is size else f.args[2]
            if any(x.op == "res" and x.args[0] in (".readinto", ".read", "os.read") for x in subterms(o)):
                return True
    return False


def pair_items(I, v, st):
    its = I.items_of(v, st)
    return its


def publish_shape(ck, I0=None):
    """Evaluates publish without faults -> (names in tagger/verbalizer order, manifest dict terms, interp, outcome)."""
    I = interp(ck, lambda n: n in LOAD_EVENTS | {".write", "json.dump", "os.write", ".write_text", ".write_bytes", "os.replace", "os.rename",
                                                "tempfile.mkdtemp"}, exceptions=False)
    st, ref, attrs = bundle(I)
    outs = method(I, ref, "publish", [P("tagger"), P("verbalizer")], st)
    ok = [o for o in outs if o.k == "v"]
    if not ok:
        raise AnalysisError("publish has no successful outcome")
    o = ok[0]
    names = {}
    for e in o.st.events:
        if e.name == ".write" and len(e.args) == 2:
            base = strip(e.args[0])
            while base.op == "call" and base.args[0] in (".optimize", ".copy"):
                base = base.args[1]
            if base.op == "param":
                names[base.args[0]] = last_name(e.args[1])
    man = None
    for e in o.st.events:
        if e.name == "json.dump" and e.args:
            man = e.args[0]
        elif e.name in (".write", "os.write", ".write_text", ".write_bytes"):
            for x in subterms(e.args[1] if len(e.args) > 1 else e.args[0]):
                if x.op == "call" and x.args[0] == "json.dumps":
                    man = x.args[1]
    return I, o, names, man, attrs


def rules_c01(ck, R=""):
    ck.rule(R + "manifest", "graphs are returned only under the must-fact that the manifest was parsed and is a mapping")
    ck.rule(R + "identity", "every identity field publish writes is equal (must-fact) to the requested build's value when graphs are returned")
    ck.rule(R + "entries", "the directory listing equals exactly the bundle's three names (must-fact)")
    ck.rule(R + "pair", "the returned value is a two-element sequence")
    ck.rule(R + "deserialise", "each returned graph derives from Fst.read_from_string of a byte term read from the bundle")
    ck.rule(R + "order", "item 0 comes from the file publish writes the tagger to, item 1 from the verbalizer's")
    ck.rule(R + "digest", "SHA-256 of the same byte term equals the manifest entry of the same file (must-fact)")
    ck.rule(R + "size", "declared size equals the size of the same byte term (must-fact)")
    ck.rule(R + "limit", "a finite upper bound on the size holds (must-fact)")
    ck.rule(R + "complete", "a preallocated buffer is known to be filled before use")


def identity_of(I, man, st, attrs):
    rec = st.heap.get(man) if man is not None else None
    if not isinstance(rec, HDict):
        raise AnalysisError("anchor lost: the manifest publish writes is not a mapping literal")
    ident, files = {}, None
    for k, v in rec.items.items():
        if not is_const(k):
            continue
        if k.args[0] == "files":
            files = v
        else:
            ident[k.args[0]] = I.freeze(v, st)
    return ident, files


def c01(ck):
    rules_c01(ck)
    ck.rule("published", "the metadata publish writes for a file is the SHA-256 and length of that file's own bytes as read back")
    ck.rule("mandatory", "every argument that identifies a build is compared by value with the manifest")
    Ip, op, names, man, pattrs = publish_shape(ck)
    ck.ob("order", "publish:files", set(names) == {"tagger", "verbalizer"} and len(set(names.values())) == 2 and None not in names.values(),
          "publish does not write the two graphs to two distinct constant names: %s" % names)
    order = [names.get("tagger"), names.get("verbalizer")]
    ident, files = identity_of(Ip, man, op.st, pattrs)
    for p in ("prefix", "ordertype", "cache_config", "source_fingerprint"):
        ck.ob("mandatory", "manifest:" + p, any(v is P(p) for v in ident.values()), "the manifest does not record %s by value" % p)
    ck.ob("mandatory", "manifest:builder",
          any(mentions(v, Sym("ext", "pynini.__version__")) or "pynini" in show(v, 9) for v in ident.values()),
          "the manifest does not record the builder (Python/Pynini versions)")
    # published metadata
    frec = op.st.heap.get(files) if files is not None else None
    evs = op.st.events
    for nm in order:
        ent = frec.items.get(C(nm)) if isinstance(frec, HDict) else None
        erec = op.st.heap.get(ent) if ent is not None else None
        sha = erec.items.get(C("sha256")) if isinstance(erec, HDict) else None
        size = erec.items.get(C("size")) if isinstance(erec, HDict) else None
        hb = sha_of(sha) if sha is not None else None
        b = hb[0] if hb and len(hb) == 1 else None
        src = byte_source(b, evs) if b is not None else None
        ck.ob("published", "publish:%s:sha256" % nm, src is not None and last_name(src[0]) == nm,
              "the recorded sha256 of %s is not the digest of that file's bytes" % nm)
        okk = size is not None and b is not None and (size is Sym("call", "len", b) or any(
            e.name == "bytearray" and e.res is b and e.args and e.args[0] is size for e in evs))
        ck.ob("published", "publish:%s:size" % nm, okk, "the recorded size of %s is not the length of the same bytes" % nm)
    ck.interp(Ip)
    for osname in (("posix", "nt") if ck.thorough else ("posix", )):
        I = interp(ck, lambda n: n in LOAD_EVENTS, exceptions=True, osname=osname)
        st, ref, attrs = bundle(I)
        outs = method(I, ref, "load", [], st)
        n = 0
        for o in outs:
            if o.k != "v" or o.v is NONE:
                continue
            n += 1
            items = pair_items(I, o.v, o.st)
            lab = "load"
            if not ck.ob("pair", lab + ":value", items is not None, "load may return %s, which is not a verified pair" % show(o.v, 4)):
                continue
            check_verified(ck, I, lab, items, frozenset(o.st.facts.items()), o.st.events, o.st, ident, order, "")
        if not n:
            raise AnalysisError("load never returns graphs")
        ck.note("graph_returning_paths", n)
        ck.note("miss_or_refusal_paths", len(outs) - n)
        ck.interp(I)
    for r in ("digest", "size", "limit", "order", "identity", "entries"):
        ck.floor(r, 1)
