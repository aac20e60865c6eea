"""C04 (lock discipline) and C07 (construction rules): Processor.build_fst with the cache inlined."""
from ..absint import AnalysisError, HInst, HSeq, Out, State
from ..query import equalities, last_name, lower_bounds, segments, strip, upper_bounds
from ..terms import C, FALSE, NONE, Sym, is_const, show
from .cache import FAKE, LOAD_EVENTS, P, bundle, byte_source, graph_bytes, interp, publish_shape
from .cachefd import entries
from .fsmodel import canon, classify, holds, under

PIPELINES = ["tn.chinese.normalizer:Normalizer", "tn.english.normalizer:Normalizer", "tn.japanese.normalizer:Normalizer",
             "itn.chinese.inverse_normalizer:InverseNormalizer", "itn.english.inverse_normalizer:InverseNormalizer",
             "itn.japanese.inverse_normalizer:InverseNormalizer"]
FP = "fn:tn.cache:production_source_fingerprint"


def build_hook(role):
    def f(I, args, kw, st, node):
        self = args[0]
        outs = []
        if I.cfg.exceptions:
            s2 = st.clone()
            outs.append(Out("r", s2, Sym("exc", "Exception", True, frozenset(), (("call", "build"), ))))
        for r in (("tagger", "verbalizer") if role == "both" else (role, )):
            res = I.result(st, "BUILD." + r, node)
            I.emit(st, "BUILD", [C(r)], {}, res, node)
            rec = st.heap[self]
            st.heap[self] = rec.with_attr(r, res)
        return outs + [Out("v", st, NONE)]
    return f


def fp_hook(I, args, kw, st, node):
    res = I.result(st, "FINGERPRINT", node)
    I.emit(st, "FINGERPRINT", [], {}, res, node)
    return [Out("v", st, res)]


class Summary:
    """Effect summary of one public method of CacheBundle, obtained by analysing it on its own."""

    def __init__(self, name):
        self.name, self.mutates, self.lists, self.values, self.raises = name, False, False, [], False


MUTATING = ("rename", "unlink", "rmdir", "tree", "mkdtemp", "mktemp", "writegraph", "writepath", "link", "copy")


def mutation(op, a):
    """Whether a file-system operation creates, changes or removes cache content (the lock file and the directories above it excepted)."""
    lockp, parent = canon(a["lock_path"]), canon(a["parent"])
    k = op.kind
    return op.path is not None and (k in MUTATING or (k == "mkdir" and not under(parent, op.path)) or (
        k == "open" and op.info.writable() and op.path is not lockp) or (k in ("write", "meta") and op.path is not lockp))


def summaries(ck, osname, monitor_for=None):
    """Analyses every public method of CacheBundle (lock() excepted) -> {name: Summary}; fails when load or publish is gone."""
    out = {}
    I = interp(ck, lambda n: n in LOAD_EVENTS, exceptions=False, osname=osname, disj=4, listing=1)
    st, ref, attrs = bundle(I)
    cls = st.heap[ref].cls
    for name in entries(I, st, ref):
        m = I.find_member(cls, name)
        fi = I.funcs[m]
        if {"staticmethod", "classmethod"} & set(I.decorators(fi)):
            continue
        sm = out[name] = Summary(name)
        sm.qual = fi.qual
        if "contextmanager" in I.decorators(fi):
            sm.cm = True
            continue
        sm.cm = False
        extra = monitor_for(name, attrs) if monitor_for else None

        def mon(I, st, e, sm=sm, extra=extra):
            op = classify(I, st, e)
            if op is not None and op.kind not in ("fsync-failed", "open-failed"):
                if mutation(op, attrs):
                    sm.mutates = True
                if op.kind == "list" and op.path is canon(attrs["path"]):
                    sm.lists = True
            if extra is not None:
                extra(I, st, e)
        I.cfg.monitor = mon
        params = [x.arg for x in fi.node.args.args[1:]]
        sm.params = params
        outs = I.call_func(m, [ref] + [P(p) for p in params], {}, st.clone(), FAKE)
        I.cfg.monitor = None
        sm.raises = any(o.k == "r" for o in outs)
        seen = set()
        for o in outs:
            if o.k == "v":
                k = o.v
                if k not in seen:
                    seen.add(k)
                    sm.values.append((o.v, o.st))
    ck.interp(I)
    for need in ("load", "publish", "lock"):
        if need not in out:
            raise AnalysisError("anchor lost: CacheBundle.%s" % need)
    return out


def summary_hook(sm, roles):
    def f(I, args, kw, st, node):
        res = I.result(st, "BUNDLE." + sm.name, node)
        named = dict(zip(sm.params, args[1:]))
        named.update(kw)
        I.emit(st, "BUNDLE." + sm.name, [args[0]] + [named.get(p, NONE) for p in sm.params], {}, res, node)
        outs = []
        done = set()
        for v, vst in (sm.values or [(NONE, st)]):
            s2 = st.clone()
            if is_const(v):
                if v in done:
                    continue
                done.add(v)
                outs.append(Out("v", s2, v))
                continue
            rec = vst.heap.get(v)
            if v.op == "tuple":
                t = Sym("tuple", *(x if is_const(x) else Sym("loaded", res, roles(x, vst)) for x in v.args))
                if t not in done:
                    done.add(t)
                    outs.append(Out("v", s2, t))
                continue
            if isinstance(rec, HSeq) and rec.exact:
                items = tuple(Sym("loaded", res, roles(x, vst)) for x in rec.items)
                if items in done:
                    continue
                done.add(items)
                outs.append(Out("v", s2, I.alloc(s2, node, HSeq(rec.kind, items))))
            elif isinstance(rec, HInst):
                at = {k: (x if is_const(x) else Sym("loaded", res, roles(x, vst))) for k, x in rec.attrs.items()}
                k = tuple(sorted(at.items(), key=lambda p: p[0]))
                if k in done:
                    continue
                done.add(k)
                outs.append(Out("v", s2, I.alloc(s2, node, HInst(rec.cls, at))))
            else:
                if "unknown" in done:
                    continue
                done.add("unknown")
                outs.append(Out("v", s2, Sym("loaded", res, C(None))))
        return outs
    return f


def setup(ck, monitor, variant, sums, roles, osname="posix", **kw):
    """Drives build_fst with the bundle's methods replaced by their effect summaries and the builds by events."""
    models = {FP: fp_hook}
    for name, sm in sums.items():
        if not sm.cm:
            models["fn:" + sm.qual] = summary_hook(sm, roles)
    I = interp(ck, monitor=None, osname=osname, **kw)
    I.cfg.models = models
    c = I.cls(variant)
    both = I.find_member(c, "build_tagger_and_verbalizer")
    if both is not None:
        models["fn:" + I.funcs[both].qual] = build_hook("both")
    for role in ("tagger", "verbalizer"):
        m = I.find_member(c, "build_" + role)
        if m is not None:
            models["fn:" + I.funcs[m].qual] = build_hook(role)
        elif both is None:
            raise AnalysisError("anchor lost: %s.build_%s" % (variant, role))
    st = State()
    ref = Sym("ref", "driver:processor", 0)
    st.heap[ref] = HInst(c, {"name": P("name"), "ordertype": P("ordertype"), "tagger": NONE, "verbalizer": NONE})
    st.aux["self"] = ref
    I.cfg.monitor = monitor
    I.frames.append(ref)
    m = I.find_member(c, "build_fst")
    if m is None:
        raise AnalysisError("anchor lost: Processor.build_fst")
    outs = I.call_func(m, [ref, P("prefix"), P("cache_dir"), P("overwrite_cache"), P("cache_config")], {}, st, FAKE)
    I.stats["paths"] += len(outs)
    ck.interp(I)
    return I, ref, outs


def bundle_attrs(I, st):
    for r, rec in st.heap.items():
        if isinstance(rec, HInst) and rec.cls.op == "class" and rec.cls.args[1] == "CacheBundle":
            return rec.attrs
    return None


def overwrite(st):
    return st.facts.get(P("overwrite_cache"))


# ------------------------------------------------------------------ C04

def parts(t):
    return list(t.args) if t.op == "concat" else [t]


def could_start_with(name, prefix):
    """Whether a term `name` may start with term `prefix` (structural; unknown -> True)."""
    a, b = parts(name), parts(prefix)
    i = 0
    while i < len(b):
        if i >= len(a):
            return True
        x, y = a[i], b[i]
        if x is y:
            i += 1
            continue
        if is_const(x) and is_const(y) and isinstance(x.args[0], str) and isinstance(y.args[0], str):
            u, v = x.args[0], y.args[0]
            if u.startswith(v) and i == len(b) - 1:
                return True
            if v.startswith(u) and i == len(a) - 1:
                return False
            return False
        return True
    return True


class Lock:
    def __init__(self, ck, entry, attrs=None, sums=None):
        self.ck, self.entry, self.attrs, self.sums = ck, entry, attrs, sums
        self.builds = self.mutations = self.attempts = 0

    def get(self, I, st):
        return self.attrs or bundle_attrs(I, st)

    def __call__(self, I, st, e):
        ck = self.ck
        if e.name == "BUILD":
            self.builds += 1
            if st.facts.get(Sym("cmp", "is", *sorted((P("cache_dir"), FALSE), key=repr))) is True:
                return
            ck.ob("build-locked", "build_fst:build", st.aux.get("lk") is not None, "a build for the cache starts without holding the key's lock")
            ck.ob("relookup", "build_fst:build", st.aux.get("looked") is True or overwrite(st) is True,
                  "a build starts without looking the entry up again after the lock was obtained")
            return
        if e.name.startswith("BUNDLE."):
            sm = self.sums[e.name[7:]]
            if sm.mutates:
                self.mutations += 1
                ck.ob("held", "build_fst:" + sm.name, st.aux.get("lk") is not None, "CacheBundle.%s changes the cache entry and is called without holding its lock" % sm.name)
            if sm.name == "load" and sm.lists and st.aux.get("lk") is not None:
                st.aux["looked"] = True
            return
        if e.name in ("time.monotonic", "time.monotonic_ns", "time.perf_counter"):
            st.aux["mono"] = st.aux.get("mono", ()) + (e.res, )
            return
        op = classify(I, st, e)
        a = self.get(I, st)
        here = "%s:%s:%s" % (self.entry, op.fn() if op else "", e.name.replace("raised ", ""))
        if e.name in ("raised fcntl.flock", "raised fcntl.lockf", "raised msvcrt.locking"):
            st.aux["failed"] = True
            st.aux["mono_old"] = st.aux.get("mono_old", ()) + st.aux.get("mono", ())
            st.aux["mono"] = ()
            return
        if op is None or a is None:
            return
        lockp, path, parent = canon(a["lock_path"]), canon(a["path"]), canon(a["parent"])
        k = op.kind
        if k == "flock":
            flags = {f.split(".")[-1] for f in op.info}
            if "LOCK_UN" in flags or "LK_UNLCK" in flags:
                if st.aux.get("lk") is op.fd:
                    st.aux["lk"] = None
                return
            ck.ob("exclusive", here, ("LOCK_EX" in flags or flags & {"LK_NBLCK", "LK_LOCK", "LK_RLCK", "LK_NBRLCK"}) and op.path is lockp,
                  "the lock taken is not an exclusive lock on the key's lock file (%s)" % ", ".join(sorted(flags)))
            ck.ob("non-blocking", here, "LOCK_NB" in flags or "LK_NBLCK" in flags or "LK_NBRLCK" in flags, "the acquisition can block without limit")
            self.attempts += 1
            self.timeout(I, st, e, here)
            if op.path is lockp and ("LOCK_EX" in flags or "LK_NBLCK" in flags or "LK_LOCK" in flags):
                st.aux["lk"] = op.fd
                st.aux["looked"] = False
            return
        if k == "close" and st.aux.get("lk") is op.fd and op.fd is not None:
            st.aux["lk"] = None
        if k == "close" and op.path is lockp:
            st.aux["lockfd"] = tuple(x for x in st.aux.get("lockfd", ()) if x is not op.fd)
        if k == "open" and op.path is lockp:
            st.aux["lockfd"] = st.aux.get("lockfd", ()) + (op.fd, )
        if k == "list" and op.path is path and st.aux.get("lk") is not None:
            st.aux["looked"] = True
        # the lock file itself
        if k in ("unlink", "rmdir", "tree", "rename", "link", "copy"):
            for p in (op.path, op.path2):
                if p is None:
                    continue
                ck.ob("lock-file", here, not under(lockp, p), "%s acts on the lock file (or a directory holding it)" % e.name)
                b, c = segments(p)
                b2, c2 = segments(parent)
                if b is b2 and len(c) > len(c2):
                    name = c[len(c2)]
                    if name.op == "entry" or (name.op == "attr" and name.args[0].op in ("elem", "entry")):
                        lname = segments(lockp)[1][-1]
                        ok = holds(st.facts.items(), lambda facts: any(
                            v and t.op == "call" and t.args[0] == ".startswith" and t.args[1] is name and not any(could_start_with(lname, x) for x in t.args[2:])
                            for t, v in facts.items()))
                        ck.ob("lock-file", here + ":entry", ok, "a directory entry is moved or removed although it may be the lock file")
        # effects that need the lock
        if mutation(op, a):
            self.mutations += 1
            if self.entry == "build_fst":
                ck.ob("held", here, st.aux.get("lk") is not None, "%s changes the cache entry without holding its lock" % e.name)

    def timeout(self, I, st, e, here):
        """Between a failed attempt and the next one the deadline was compared, and the limit was validated."""
        ck = self.ck
        if not st.aux.get("failed"):
            return
        new, old = st.aux.get("mono", ()), st.aux.get("mono_old", ())
        ok = valid = False
        for f, b in st.facts.items():
            if f.op != "cmp" or f.args[0] not in ("<", "<="):
                continue
            rel, x, y = f.args
            small, big = (x, y) if b else (y, x)
            d = I.linear(small, big, -1)
            coefs = {m.args[0]: m.args[1] for m in d.args[1:]} if d.op == "sum" else {d: 1}
            if not any(coefs.get(n) == 1 for n in new):
                continue
            rest = [t for t in coefs if t not in new and t not in old]
            if any(coefs[t] != -1 for t in rest) or any(coefs.get(o, -1) != -1 for o in old):
                continue
            ok = True
            if all(self.validated(st, t) for t in rest):
                valid = True
        ck.ob("bounded", here, ok, "a failed acquisition is retried without comparing the clock with a deadline")
        if ok:
            ck.ob("timeout", here, valid, "the waiting time is not known to be finite and non-negative")

    def validated(self, st, t):
        if is_const(t):
            return isinstance(t.args[0], (int, float)) and 0 <= t.args[0] < float("inf")

        def ok(facts):
            fin = facts.get(Sym("call", "math.isfinite", t)) is True or any(
                is_const(b) and isinstance(b.args[0], (int, float)) and (b.args[0] < float("inf") or s) for b, s in upper_bounds(facts.items(), t)) or (
                    facts.get(Sym("call", "math.isinf", t)) is False and facts.get(Sym("call", "math.isnan", t)) is False)
            low = any(is_const(b) and isinstance(b.args[0], (int, float)) and b.args[0] >= 0 for b, s in lower_bounds(facts.items(), t))
            return fin and low
        return holds(st.facts.items(), ok)

    def exits(self, outs):
        for o in outs:
            how = "error" if o.k == "r" else "normal"
            self.ck.ob("released", "%s:exit-%s" % (self.entry, how), o.st.aux.get("lk") is None, "the lock is still held when leaving")
            self.ck.ob("released", "%s:fd-%s" % (self.entry, how), not o.st.aux.get("lockfd"), "the lock file is still open when leaving")


def c04(ck):
    ck.rule("held", "every effect that creates, moves or removes cache content happens in a state where the key's exclusive lock is held (typestate)")
    ck.rule("build-locked", "a build whose result is cached starts only with the lock held")
    ck.rule("relookup", "between lock acquisition and a build the entry's directory is listed again, unless overwrite was requested")
    ck.rule("exclusive", "the acquisition is exclusive and on the lock path")
    ck.rule("non-blocking", "the acquisition is non-blocking")
    ck.rule("bounded", "a retry after a failed attempt is dominated by a fresh monotonic-clock comparison with the deadline")
    ck.rule("timeout", "the limit in that comparison is known finite and non-negative (must-facts)")
    ck.rule("entered", "the body of lock() runs only with the lock held")
    ck.rule("released", "no exit leaves the lock held or its file open")
    ck.rule("lock-file", "the lock file is never an operand of unlink/rename/rmdir/rmtree, nor a listed entry that may be it")
    names = role_names(ck)
    for osname in ("posix", "nt") if ck.thorough else ("posix", ):
        sums = summaries(ck, osname, lambda name, attrs: Lock(ck, name, attrs))
        for variant in PIPELINES:
            mon = Lock(ck, "build_fst", sums=sums)
            I, ref, outs = setup(ck, mon, variant, sums, roles_of(names), osname, exceptions=True, disj=4, listing=1,
                                 exc_filter=lambda n: n in ("BUILD", "fcntl.flock", "msvcrt.locking"))
            mon.exits(outs)
            if not mon.builds or not mon.mutations or not mon.attempts:
                raise AnalysisError("anchor lost: build_fst builds %d, mutates %d, locks %d times" % (mon.builds, mon.mutations, mon.attempts))
        # the lock itself, with every library failure
        I = interp(ck, exceptions=True, osname=osname, disj=6)
        st, ref, attrs = bundle(I)
        mon = Lock(ck, "lock", attrs)
        I.cfg.monitor = mon

        def body(v, s):
            ck.ob("entered", "lock:body", s.aux.get("lk") is not None, "the body of lock() can run without the lock being held")
            s2 = s.clone()
            return [Out("v", s, NONE), Out("r", s2, Sym("exc", "Exception", True, frozenset(), (("call", "body"), )))]
        m = I.find_member(st.heap[ref].cls, "lock")
        if m is None or "contextmanager" not in I.decorators(I.funcs[m]):
            raise AnalysisError("anchor lost: CacheBundle.lock is not a context manager function")
        for targ in (P("timeout"), NONE):
            outs = I.call_func(m, [ref, targ], {}, st.clone(), FAKE, cm_body=body)
            mon.exits(outs)
        ck.interp(I)
    for r in ("held", "build-locked", "relookup", "exclusive", "non-blocking", "bounded", "timeout", "entered", "released", "lock-file"):
        ck.floor(r, 1)


# ------------------------------------------------------------------ C07

def role_names(ck):
    """File name -> graph role, from what publish writes."""
    I, o, names, man, attrs = publish_shape(ck)
    if not names.get("tagger") or not names.get("verbalizer"):
        raise AnalysisError("anchor lost: publish does not write both graphs to constant names")
    return {names["tagger"]: "tagger", names["verbalizer"]: "verbalizer"}


def roles_of(names):
    def f(t, st):
        gb = graph_bytes(t)
        src = byte_source(gb, st.events) if gb is not None else None
        return C(names.get(last_name(src[0])) if src is not None else None)
    return f


def built(x, role):
    x = strip(x)
    while x.op == "call" and x.args[0] in (".optimize", ".copy"):
        x = strip(x.args[1])
    return x.op == "res" and x.args[0] == "BUILD." + role


class Build:
    """History of one construction: what was built, fingerprinted, published and loaded, in which order."""

    def __init__(self, ck, sums):
        self.ck, self.sums = ck, sums

    def __call__(self, I, st, e):
        ck = self.ck
        if e.name == "BUILD":
            st.aux["built"] = tuple(dict.fromkeys(st.aux.get("built", ()) + (e.args[0].args[0], )))
            st.aux["fps"] = ()
            st.aux["published"] = st.aux["fresh"] = None
            return
        if e.name == "FINGERPRINT":
            st.aux["fps"] = st.aux.get("fps", ()) + (e.res, )
            return
        if e.name.startswith("BUNDLE."):
            st.aux["touched"] = True
            sm = self.sums[e.name[7:]]
            if sm.name == "publish":
                self.publish(I, st, e, sm)
            elif sm.name == "load":
                st.aux["fresh"] = e.res
                st.aux["loads"] = min(st.aux.get("loads", 0) + 1, 3)
            elif sm.mutates:
                st.aux["fresh"] = None
            return
        op = classify(I, st, e)
        if op is not None and op.kind not in ("fsync-failed", "open-failed"):
            st.aux["touched"] = True

    def publish(self, I, st, e, sm):
        ck = self.ck
        args = dict(zip(sm.params, e.args[1:]))
        for role in ("tagger", "verbalizer"):
            g = args.get(role, NONE)
            ck.ob("published-graphs", "build_fst:publish(%s)" % role, built(g, role), "%s is published from %s instead of the freshly built %s" % (role, show(g, 3), role))
        done = set(st.aux.get("built", ()))
        ck.ob("both-built", "build_fst:publish", done >= {"tagger", "verbalizer"}, "a bundle is published before both graphs were built")
        rec = st.heap.get(e.args[0])
        fp0 = rec.attrs.get("source_fingerprint") if isinstance(rec, HInst) else None
        fps = st.aux.get("fps", ())

        def ok(facts):
            return any((x is fp0 and y in fps) or (y is fp0 and x in fps) for x, y in equalities(facts.items()))
        ck.ob("sources-unchanged", "build_fst:publish", fp0 is not None and fp0.op == "res" and fp0.args[0] == "FINGERPRINT" and fp0 not in fps and holds(st.facts.items(), ok),
              "a bundle is published without the sources having been confirmed unchanged after the build")
        st.aux["published"], st.aux["fresh"] = e.args[0], None


def c07(ck):
    ck.rule("in-memory", "with cache_dir False: no file-system event at all, and both graphs are the ones just built")
    ck.rule("loaded-pair", "every other normal exit leaves tagger/verbalizer equal to the two graphs returned by one and the same non-None lookup, each in its role")
    ck.rule("last-lookup", "that lookup is the last one and nothing changed the entry after it")
    ck.rule("overwrite", "with overwrite requested every cached normal exit built and published first, and did not look up before")
    ck.rule("hit-not-rebuilt", "there is a normal exit that used the entry found by the first lookup without locking or building")
    ck.rule("rebuilt-published", "when a build happened, the graphs used were looked up after publishing")
    ck.rule("both-built", "publishing is dominated by both builds")
    ck.rule("published-graphs", "the published graphs are the ones just built, each in its role")
    ck.rule("sources-unchanged", "publishing is under the must-fact that a fingerprint taken after the build equals the one the bundle's key was computed from")
    ck.rule("modes", "both the cached and the in-memory mode, with and without overwrite, have normal exits")
    names = role_names(ck)
    sums = summaries(ck, "posix")
    if not {"tagger", "verbalizer"} <= set(sums["publish"].params):
        raise AnalysisError("anchor lost: publish(tagger, verbalizer)")
    for variant in PIPELINES:
        mon = Build(ck, sums)
        I, ref, outs = setup(ck, mon, variant, sums, roles_of(names), exceptions=True, disj=4, listing=1,
                             exc_filter=lambda n: n in ("BUILD", ))
        mem = Sym("cmp", "is", *sorted((P("cache_dir"), FALSE), key=repr))
        seen = set()
        for o in outs:
            if o.k != "v":
                continue
            st = o.st
            rec = st.heap[ref]
            t, v = rec.attrs.get("tagger", NONE), rec.attrs.get("verbalizer", NONE)
            here = "build_fst[%s]" % variant.split(":")[0]
            if st.facts.get(mem) is True:
                seen.add("memory")
                ck.ob("in-memory", here + ":no-files", not st.aux.get("touched"), "the cache is touched although caching is disabled")
                ck.ob("in-memory", here + ":graphs", built(t, "tagger") and built(v, "verbalizer"),
                      "with caching disabled the processor ends up with %s / %s" % (show(t, 3), show(v, 3)))
                continue
            ow = overwrite(st)
            seen.add("overwrite" if ow else "cached")
            lt, lv = strip(t), strip(v)
            ok = lt.op == "loaded" and lv.op == "loaded" and lt.args[0] is lv.args[0] and lt.args[1] is C("tagger") and lv.args[1] is C("verbalizer")
            ck.ob("loaded-pair", here, ok, "after construction the processor uses %s / %s, which are not the pair one lookup returned" % (show(t, 3), show(v, 3)))
            if ok:
                ck.ob("last-lookup", here, st.aux.get("fresh") is lt.args[0], "the entry may have changed after the lookup whose graphs are used")
            b = st.aux.get("built")
            if ow is not False:
                ck.ob("overwrite", here, st.aux.get("published") is not None and set(b or ()) >= {"tagger", "verbalizer"},
                      "with overwrite requested, construction can finish with a previously cached entry")
            if ow is not True and not b and st.aux.get("loads") == 1:
                seen.add("hit")
            if b:
                ck.ob("rebuilt-published", here, st.aux.get("published") is not None, "a normal exit after a build that published nothing")
        ck.ob("modes", "build_fst[%s]" % variant.split(":")[0], seen >= {"memory", "overwrite", "cached"}, "only the modes %s finish normally" % sorted(seen))
        ck.ob("hit-not-rebuilt", "build_fst[%s]" % variant.split(":")[0], "hit" in seen, "no construction uses a valid entry directly")
    for r in ("in-memory", "loaded-pair", "overwrite", "rebuilt-published", "sources-unchanged", "published-graphs"):
        ck.floor(r, 1)
