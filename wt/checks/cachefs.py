"""C03 (atomic durable publish) and C06 (containment, no-follow, flat removal) over tn/cache.py."""
import ast
import re

from ..absint import AnalysisError, Out
from ..query import access_path, equalities, segments, strip
from ..terms import C, FALSE, NONE, TRUE, Sym, is_const, mentions, show, subterms
from .cache import CLS, FAKE, P, bundle, identity_of, interp, method, publish_shape, sha_of
from .cachefd import body_outs, entries
from .fsmodel import aset, amap, canon, classify, depth_below, expand, handle, holds, listing_source, path_arg, under

MUTATING = {"mkdir", "unlink", "rmdir", "tree", "write", "writegraph", "writepath", "link", "copy", "meta"}
UNIQUE = ("uuid.uuid4", "uuid.uuid1", "os.urandom", "secrets.token_hex", "time.time_ns", "random.random")


def touches(op):
    out = []
    if op.kind in MUTATING:
        out.append(op.path2 if op.kind in ("link", "copy") else op.path)
    if op.kind == "open" and op.info.writable():
        out.append(op.path)
    return [p for p in out if p is not None]


def track_bytes(I, st, e, op):
    """Remembers which file a byte term was read from."""
    if e.name == ".readinto" and op is not None and op.kind == "read":
        for x in subterms(e.args[1]):
            if x.op == "res" and x.args[0] == "bytearray":
                aset(st, "src", x, op.path)
    elif e.name in (".read", "os.read", ".readall") and op is not None and op.kind == "read" and e.res is not None:
        aset(st, "src", e.res, op.path)
    elif e.name == ".read_bytes" and op is not None:
        aset(st, "src", e.res, op.path)
    elif e.name == "bytearray" and e.args:
        stats = amap(st, "stats")
        for x in subterms(e.args[0]):
            if x in stats:
                aset(st, "src", e.res, stats[x][0])
    elif e.name == "json.loads" and e.args:
        src = amap(st, "src")
        for x in subterms(e.args[0]):
            if x in src:
                aset(st, "src", e.res, src[x])


class Publish:
    """Typestate of one publish/recover/quarantine operation."""

    def __init__(self, ck, entry, attrs, files, ident):
        self.ck, self.entry, self.files, self.ident = ck, entry, files, ident
        self.path, self.parent = canon(attrs["path"]), canon(attrs["parent"])
        self.renames = 0

    def __call__(self, I, st, e):
        op = classify(I, st, e)
        track_bytes(I, st, e, op)
        if op is None:
            return
        ck, k = self.ck, op.kind
        here = "%s:%s:%s" % (self.entry, op.fn(), op.e.name.replace("raised ", ""))
        for p in touches(op):
            ck.ob("final-name", here, not under(p, self.path), "%s acts on the bundle's final name %s directly" % (e.name, show(p, 4)))
        tmp = amap(st, "tmp")
        w = amap(st, "w")
        if k == "mkdtemp":
            aset(st, "tmp", op.path, op.path2 is self.parent)
        elif k == "mkdir" and depth_below(op.path, self.parent) == 1 and any(
                x.op == "res" and x.args[0] in UNIQUE for x in subterms(op.path)):
            aset(st, "tmp", op.path, True)
        # writes
        created = None
        if k == "open" and op.info.writable():
            created = (op.info.isfile and op.info.mode and op.info.mode[0] in "wx") or bool({"os.O_CREAT", "os.O_TRUNC"} & op.info.flags)
            if created:
                aset(st, "w", op.path, "dirty")
        elif k in ("write", "writegraph", "writepath"):
            aset(st, "w", op.path, "pending" if k == "write" and op.info.isfile else "dirty")
            created = k != "write"
            aset(st, "rb", op.path, False)
        elif k == "copy":
            aset(st, "w", op.path2, "dirty")
            created = True
        if created or k in ("write", "writegraph", "writepath", "copy"):
            tgt = op.path2 if k == "copy" else op.path
            for t in tmp:
                if under(tgt, t):
                    if created:
                        aset(st, "dsync", t, False)
                    break
            else:
                if self.entry == "publish":
                    ck.ob("private", here, False, "publish writes %s, which is not inside its private temporary directory" % show(tgt, 4))
            if self.entry == "publish":
                ck.ob("private", here, True)
        if k in ("flush", "close") and op.fd is not None:
            h = handle(st, op.fd)
            if h is not None and w.get(h.path) == "pending":
                aset(st, "w", h.path, "dirty")
        if k == "write-unknown" and self.entry == "publish":
            pass
        if k == "fsync" and op.path in w and w[op.path] == "dirty":
            aset(st, "w", op.path, "synced")
        if k == "sync":
            for p, s in w.items():
                if s == "dirty":
                    aset(st, "w", p, "synced")
        if k in ("fsync", "fsync-failed", "open-failed"):
            if op.path in tmp:
                aset(st, "dsync", op.path, True)
            if op.path is self.parent:
                st.aux["psync"] = True
        if k in ("read", "readpath") and op.path in w:
            aset(st, "rb", op.path, True)
        if k == "rename":
            self.rename(I, st, e, op, here)
        if k == "rename-failed" and op.path2 is self.path and op.path is st.aux.get("taken"):
            st.aux["restored"] = True
        if k in ("unlink", "rmdir", "tree"):
            taken = st.aux.get("taken")
            if taken is not None and self.entry == "publish" and under(op.path, taken):
                ok = st.aux.get("published") is not None
                ck.ob("old-copy", here, ok, "the previous bundle is discarded before the new one is in place")
                ck.ob("rename-flushed", here, st.aux.get("psync") is True,
                      "the previous bundle is discarded before the parent directory was flushed after the rename")

    def complete(self, st, src, here, why):
        ck = self.ck
        w, rb, ds = amap(st, "w"), amap(st, "rb"), amap(st, "dsync")
        b, c = segments(src)
        for i, nm in enumerate(self.files):
            p = Sym("div", b, *(c + [C(nm)]))
            lab = "%s:%s:%s" % (self.entry, why, nm)
            ck.ob("written", lab, p in w, "%s is not written before the final name is %s" % (nm, why))
            ck.ob("flushed", lab, w.get(p) == "synced", "%s is not flushed to disk before the final name is %s" % (nm, why))
            if i < 2:
                ck.ob("read-back", lab, rb.get(p) is True, "%s is not read back after it was written, before the final name is %s" % (nm, why))
        ck.ob("dir-flushed", "%s:%s" % (self.entry, why), ds.get(src) is True,
              "the temporary directory's entry list is not flushed before the final name is %s" % why)

    def rename(self, I, st, e, op, here):
        ck = self.ck
        src, dst = op.path, op.path2
        self.renames += 1
        ck.ob("atomic", here, e.name not in ("shutil.move", "os.renames"), "%s is not an atomic rename" % e.name)
        tmp = amap(st, "tmp")
        if dst is self.path:
            if src in tmp:
                ck.ob("beside", here, tmp[src] is True, "the temporary directory is not created beside the target")
                self.complete(st, src, here, "given")
                st.aux["published"] = TRUE
                st.aux["psync"] = False
            elif src is st.aux.get("taken"):
                st.aux["restored"] = True
            else:
                bad = self.unverified(st, src)
                ck.ob("recovered-verified", here, not bad, "a directory is given the bundle's final name without verification: %s" % bad)
                st.aux["psync"] = False
        elif under(dst, self.path) or (under(src, self.path) and src is not self.path):
            ck.ob("final-name", here, False, "a rename moves single files into or out of the published bundle")
        if src is self.path:
            ck.ob("quarantine", here, depth_below(dst, self.parent) == 1 and any(
                x.op == "res" and x.args[0] in UNIQUE for x in subterms(dst)), "the current bundle is moved to %s, which is not a fresh name beside it"
                  % show(dst, 4))
            if self.entry == "publish":
                for t in tmp:
                    self.complete(st, t, here, "taken")
                if not tmp:
                    ck.ob("written", here, False, "the current bundle is moved away before a new one exists")
            st.aux["taken"] = dst
            st.aux["restored"] = False

    def unverified(self, st, cand):
        src = amap(st, "src")
        b, c = segments(cand)
        at = lambda nm: Sym("div", b, *(c + [C(nm)]))
        reason = []

        def check(facts):
            r = one(facts)
            if r:
                reason.append(r)
            return not r

        def one(facts):
            eqs = [p for x, y in equalities(facts.items()) for p in ((x, y), (y, x))]
            man = [m for m, p in src.items() if m.op in ("call", "res") and m.args[0] == "json.loads" and p is at("manifest.json")]
            man += [m for x, y in eqs for m, k in [access_path(x)] if k and m.op == "call" and m.args[0] == "json.loads" and any(
                src.get(z) is at("manifest.json") for z in subterms(m))]
            if not man:
                return "its manifest was not read"
            for nm in self.files[:2]:
                ok = False
                for x, y in eqs:
                    base, keys = access_path(x)
                    h = sha_of(y)
                    if base in man and keys == ("files", nm, "sha256") and h and len(h) == 1 and src.get(h[0]) is at(nm):
                        ok = True
                if not ok:
                    return "%s was not checked against the manifest" % nm
            for key, want in self.ident.items():
                if not any(access_path(x)[0] in man and access_path(x)[1] == (key, ) and y is want for x, y in eqs):
                    return "manifest field %s was not compared" % key
            want = {C(n) for n in self.files}
            if not any(x.op in ("setof", "listof") and set(x.args) == want and any(
                    listing_source(st, z) is canon(cand) for z in subterms(y)) for x, y in eqs):
                return "its directory entries were not checked"
            return None
        return None if holds(st.facts.items(), check) else reason[0]

    def exits(self, I, outs):
        ck = self.ck
        for o in outs:
            st = o.st
            taken = st.aux.get("taken")
            if self.entry != "publish":
                continue
            if o.k == "v":
                ck.ob("publishes", "publish:exit", st.aux.get("published") is not None, "publish can return without having renamed a bundle into place")
                continue
            if taken is None or st.aux.get("published") is not None or st.aux.get("restored"):
                ck.ob("restore", "publish:error-exit", True)
                continue
            stats = amap(st, "stats")
            ok = holds(st.facts.items(), lambda facts: any(
                stats.get(f) is not None and (stats[f][0] is taken and b is False or stats[f][0] is self.path and b is True)
                for f, b in facts.items()))
            ck.ob("restore", "publish:error-exit", ok, "an error (%s) leaves no bundle under the final name although the previous one was moved away"
                  % (o.v.args[0] if o.v.op == "exc" else show(o.v)))


def c03(ck):
    ck.rule("final-name", "no event except a rename acts on the bundle's final path or anything below it")
    ck.rule("private", "every file publish writes lies inside a directory it created itself beside the target (mkdtemp/unique mkdir)")
    ck.rule("beside", "the renamed temporary directory was created with the bundle's parent as its parent (same file system)")
    ck.rule("atomic", "the final name changes only by os.replace/os.rename/Path.rename")
    ck.rule("written", "all files of the bundle were written before the rename (typestate)")
    ck.rule("flushed", "each file's last write is followed by flush+fsync before the rename (typestate)")
    ck.rule("read-back", "each graph file is read back after its last write")
    ck.rule("dir-flushed", "fsync of the temporary directory is attempted after its last entry was created, before the rename")
    ck.rule("quarantine", "the current bundle is only moved to a fresh sibling name")
    ck.rule("old-copy", "the previous bundle is deleted only after the new one is in place")
    ck.rule("rename-flushed", "fsync of the parent is attempted between the rename and the deletion of the previous bundle")
    ck.rule("restore", "every error exit after the old bundle was moved away has attempted to put it back (or knows it need not)")
    ck.rule("publishes", "every normal exit of publish renamed a bundle into place")
    ck.rule("recovered-verified", "a leftover directory gets the final name only under the must-facts that load establishes")
    Ip, op, names, man, pattrs = publish_shape(ck)
    ident, _ = identity_of(Ip, man, op.st, pattrs)
    if set(names) != {"tagger", "verbalizer"} or None in names.values():
        raise AnalysisError("anchor lost: publish does not write both graphs to constant names")
    files = [names["tagger"], names["verbalizer"], "manifest.json"]
    for entry, args in (("publish", [P("tagger"), P("verbalizer")]), ("remove_invalid", []), ("recover_residuals", [])):
        rec = entry == "recover_residuals"
        I = interp(ck, exceptions=not rec, disj=6, extra_exc={"os.replace": ["KeyboardInterrupt"], "os.rename": ["KeyboardInterrupt"]},
                   listing=(2 if ck.thorough else 1) if rec else 0)
        st, ref, attrs = bundle(I)
        mon = Publish(ck, entry, attrs, files, ident)
        I.cfg.monitor = mon
        outs = method(I, ref, entry, args, st)
        mon.exits(I, outs)
        if not mon.renames:
            raise AnalysisError("anchor lost: %s renames nothing" % entry)
        ck.note("renames_" + entry, mon.renames)
        ck.interp(I)
    for r in ("final-name", "private", "flushed", "read-back", "dir-flushed", "restore", "recovered-verified", "old-copy", "rename-flushed", "quarantine"):
        ck.floor(r, 1)


# ------------------------------------------------------------------ C06

def safe_component(c, prefix):
    """The term denotes exactly one path component that is neither '.' nor '..'."""
    c = strip(c)
    if is_const(c):
        v = c.args[0]
        return isinstance(v, str) and v not in ("", ".", "..") and not any(x in v for x in "/\\\0")
    if c is prefix:
        return True
    if c.op == "call" and c.args[0] in (".hexdigest", ".hex", "os.path.basename"):
        return True
    if c.op == "attr" and c.args[1] in ("name", "hex", "stem"):
        return True
    if c.op in ("entry", "elem"):
        return any(x.op == "res" for x in subterms(c))
    if c.op == "concat":
        parts = [strip(x) for x in c.args]
        for x in parts:
            if is_const(x):
                if not isinstance(x.args[0], str) or any(ch in x.args[0] for ch in "/\\\0"):
                    return False
            elif not (safe_component(x, prefix) or (x.op in ("call", "res") and x.args[0] in ("time.time_ns", "os.getpid", "threading.get_ident")) or x.op == "str"):
                return False
        return any(is_const(x) and x.args[0].strip(".") or not is_const(x) for x in parts)
    return False


class Contain:
    def __init__(self, ck, entry, attrs, digest, known):
        self.ck, self.entry, self.known = ck, entry, known
        self.root, self.parent, self.path, self.lockp = (canon(attrs[k]) for k in ("cache_root", "parent", "path", "lock_path"))
        self.digest = digest
        self.prefix = P("prefix")
        self.seen = {}

    def own_tmp(self, st, p):
        return any(ok is True and under(p, t) for t, ok in st.aux.get("tmp", ()))

    def inside(self, st, p):
        b, comps = segments(p)
        if not all(safe_component(c, self.prefix) for c in comps):
            return False
        if b is self.root or under(Sym("div", b, *comps) if comps else b, self.root):
            return True
        return any(ok is True and b is t for t, ok in st.aux.get("tmp", ()))

    def facts_all(self, st, pred):
        return holds(st.facts.items(), pred)

    def nolink(self, st, p):
        """p was lstat'ed in this operation and is known to be a directory, not a link."""
        rs = [r for r, (q, follow, x) in st.aux.get("stats", ()) if q is p and follow is False]

        def ok(facts):
            for r in rs:
                m = Sym("attr", r, "st_mode")
                if facts.get(Sym("call", "stat.S_ISDIR", m)) is True or (facts.get(Sym("call", "stat.S_ISLNK", m)) is False):
                    return True
            return False
        return self.facts_all(st, ok)

    def ancestors(self, st, p):
        """Every cache-owned directory above p is known not to be a link."""
        b, c = segments(p)
        n = depth_below(p, self.root)
        if n is None:
            return True
        rb, rc = segments(self.root)
        for i in range(len(rc) + 1, len(c)):
            if not self.nolink(st, Sym("div", b, *c[:i])):
                return False
        return True

    def regular(self, st, fd, p):
        rs = [r for r, (q, follow, x) in st.aux.get("stats", ()) if x is fd or (q is p and follow is False)]

        def ok(facts):
            for r in rs:
                if facts.get(Sym("call", "stat.S_ISREG", Sym("attr", r, "st_mode"))) is True:
                    return True
                for t, b in facts.items():
                    if t.op == "cmp" and t.args[0] == "==" and b and any(
                            x.op == "call" and x.args[0] == "stat.S_IFMT" and x.args[1] is Sym("attr", r, "st_mode") for x in t.args[1:]) and any(
                                show(x).endswith("S_IFREG") for x in t.args[1:]):
                        return True
            return False
        return self.facts_all(st, ok)

    def entry_ok(self, st, facts, el):
        name = Sym("attr", el, "name")
        rs = [(r, follow) for r, (q, follow, x) in st.aux.get("stats", ()) if x is el or q is path_arg(st, el) and follow is False]
        link = reg = False
        for r, follow in rs:
            if follow is False:
                m = Sym("attr", r, "st_mode")
                link = link or facts.get(Sym("call", "stat.S_ISLNK", m)) is True
                reg = reg or facts.get(Sym("call", "stat.S_ISREG", m)) is True
            if r.op == "res" and r.args[0] == ".is_symlink":
                link = link or facts.get(r) is True
            if r.op == "res" and r.args[0] == ".is_file" and follow is False:
                reg = reg or facts.get(r) is True
        if link:
            return True
        for t, b in facts.items():
            if b and t.op == "cmp" and t.args[0] == "in" and t.args[1] is name and t.args[2].op == "setof" and all(
                    is_const(x) and x.args[0] in self.known for x in t.args[2].args):
                return reg
            if b and t.op == "cmp" and t.args[0] == "==" and name in t.args[1:] and any(is_const(x) and x.args[0] in self.known for x in t.args[1:]):
                return reg
        return False

    def __call__(self, I, st, e):
        pre = handle(st, e.args[0]) if e.args else None
        op = classify(I, st, e)
        if op is None:
            return
        ck, k = self.ck, op.kind
        here = "%s:%s:%s" % (self.entry, op.fn(), e.name)
        if k == "mkdtemp":
            aset(st, "tmp", op.path, op.path2 is not None and self.inside(st, op.path2))
            ck.ob("contained", here, op.path2 is not None and self.inside(st, op.path2), "the temporary directory is created outside the cache root")
            return
        if k in ("open-failed", "fsync-failed", "rename-failed", "fsync", "sync", "flush", "close", "stat"):
            return
        for p in ([op.path] if k not in ("rename", "link", "copy") else [op.path, op.path2]):
            if p is not None and k in ("open", "mkdir", "rename", "unlink", "rmdir", "tree", "list", "writegraph", "writepath", "readpath", "link", "copy"):
                ck.ob("contained", here, self.inside(st, p), "%s acts on %s, which is not provably below the cache root" % (e.name, show(p, 4)))
        if k == "mkdir" and depth_below(op.path, self.parent) == 1 and any(x.op == "res" and x.args[0] in UNIQUE for x in subterms(op.path)):
            aset(st, "tmp", op.path, True)
        if k == "tree":
            ck.ob("flat", here, False, "%s descends into subdirectories" % e.name)
        # opened without following links
        if k in ("read", "write", "list", "meta") and op.fd is not None:
            h = handle(st, op.fd)
            self.use(st, h, op.fd, here, k)
        if k == "open":
            d = op.info.dirfd
            if d is not None:
                dh = handle(st, d)
                if dh is not None:
                    self.use(st, dh, d, here, "traverse")
            elif depth_below(op.path, self.root) not in (None, 0) and not self.own_tmp(st, op.path) and not op.info.isfile and "os.O_NOFOLLOW" in op.info.flags:
                ck.ob("ancestors", here, self.ancestors(st, op.path),
                      "%s is opened by path although its parent directories were not checked for links in this operation" % show(op.path, 3))
        if k == "readpath" and not self.own_tmp(st, op.path):
            ck.ob("no-follow", here, False, "%s reads a cache file by path, following links" % e.name)
        if k in ("writepath", ) and not self.own_tmp(st, op.path):
            ck.ob("no-follow", here, False, "%s writes a cache file by path, following links" % e.name)
        if k == "list" and op.fd is None and not self.own_tmp(st, op.path):
            ck.ob("no-follow", here, op.path is self.root or (self.nolink(st, op.path) and self.ancestors(st, op.path)),
                  "a directory is listed by path without being known not to be a link")
        if k == "read":
            if not self.own_tmp(st, op.path):
                h = op.info
                fd = h.ofd or op.fd
                ck.ob("regular", here, self.regular(st, fd, op.path), "%s is read without being known to be a regular file" % show(op.path, 3))
        if k in ("write", "meta") and op.fd is not None and not self.own_tmp(st, op.path):
            h = handle(st, op.fd)
            ck.ob("regular", here, self.regular(st, h.ofd or op.fd, op.path), "a file is modified without being known to be a regular file")
        if k == "unlink":
            self.unlink(st, op, here)
        if k == "rmdir":
            self.target(st, op.path, here)
            ck.ob("flat", here, depth_below(op.path, self.parent) == 1 or self.own_tmp(st, op.path) and segments(op.path)[1] == [],
                  "rmdir is applied to %s, which is not a bundle directory" % show(op.path, 3))
        if k == "rename":
            for p in (op.path, op.path2):
                ck.ob("contained", here + ":sibling", depth_below(p, self.parent) == 1 or any(t is p for t, ok in st.aux.get("tmp", ())),
                      "a rename reaches %s, which is not directly below the key's directory" % show(p, 3))
            self.target(st, op.path, here)

    def use(self, st, h, fd, here, k):
        if h is None or self.own_tmp(st, h.path) or depth_below(h.path, self.root) == 0 or depth_below(h.path, self.root) is None:
            return
        plain = h.isfile and h.ofd is None
        self.ck.ob("no-follow", "%s:%s" % (here, k), not plain and "os.O_NOFOLLOW" in h.flags,
                   "%s was opened in a way that follows a symbolic link" % show(h.path, 3))

    def target(self, st, p, here):
        """Only this key's own directories may be moved or removed."""
        b, c = segments(p)
        n = depth_below(p, self.parent)
        if n is None or n == 0 or self.own_tmp(st, p):
            if n == 0:
                self.ck.ob("own-key", here, False, "the key's whole directory is moved or removed")
            return
        rb, rc = segments(self.parent)
        name = c[len(rc)]
        if name.op in ("entry", ) or (name.op == "attr" and name.args[0].op in ("elem", "entry")):
            def ok(facts):
                return any(b and t.op == "call" and t.args[0] == ".startswith" and t.args[1] is name and any(mentions(x, self.digest) for x in t.args[2:])
                           for t, b in facts.items())
            self.ck.ob("own-key", here, self.facts_all(st, ok), "a directory entry is moved or removed although its name is not known to belong to this key")
        else:
            self.ck.ob("own-key", here, mentions(name, self.digest), "%s is not derived from this key" % show(name, 3))

    def unlink(self, st, op, here):
        ck = self.ck
        e = op.e
        b, c = segments(op.path)
        self.target(st, Sym("div", b, *c[:-1]) if len(c) > 1 else b, here)
        d = op.info
        h = handle(st, d) if d is not None else None
        ck.ob("anchored", here, h is not None and ("os.O_NOFOLLOW" in h.flags), "a bundle file is unlinked by path instead of relative to a directory opened without following links")
        name = c[-1] if c else op.path
        if is_const(name):
            ck.ob("flat", here, name.args[0] in self.known, "%r is deleted although it is not a bundle file" % name.args[0])
            return
        el = name.args[0] if name.op == "attr" else name
        res = [x for x in subterms(el) if x.op == "res"]
        if el.op not in ("elem", "entry") or not res:
            ck.ob("flat", here, False, "a file with the unknown name %s is deleted" % show(name, 3))
            return
        key = res[0]

        def ok(facts):
            for i in range(2):
                more = facts.get(Sym("more", key, i))
                if more is False:
                    break
                x = (Sym("elem", key) if i == 0 else Sym("elem", key, i)) if el.op == "elem" else Sym("entry", key, i)
                if x is el or more is True:
                    if not self.entry_ok(st, facts, x):
                        return False
                elif more is None:
                    return False
            return True
        ck.ob("flat", here, self.facts_all(st, ok),
              "an entry is deleted before every entry of the directory is known to be a link or a known regular bundle file")


def regex_charset(pattern, flags=0):
    """(allowed characters or None, minimum width) of a full match, over-approximated from the parsed pattern."""
    try:
        import re._parser as sre
    except ImportError:  # pragma: no cover
        import sre_parse as sre
    tree = sre.parse(pattern, flags)
    chars = set()

    def walk(t):
        for opname, arg in t:
            o = str(opname)
            if o == "LITERAL":
                chars.add(chr(arg))
            elif o in ("IN", ):
                for n, a in arg:
                    n = str(n)
                    if n == "LITERAL":
                        chars.add(chr(a))
                    elif n == "RANGE":
                        chars.update(chr(x) for x in range(a[0], min(a[1], 0x3000) + 1))
                    elif n == "CATEGORY" and str(a) in ("CATEGORY_WORD", ):
                        chars.update(chr(x) for x in range(0x3000) if chr(x).isalnum() or chr(x) == "_")
                    elif n == "CATEGORY" and str(a) == "CATEGORY_DIGIT":
                        chars.update("0123456789")
                    else:
                        return False
            elif o in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                if not walk(arg[2]):
                    return False
            elif o == "SUBPATTERN":
                if not walk(arg[-1]):
                    return False
            elif o == "BRANCH":
                if not all(walk(x) for x in arg[1]):
                    return False
            elif o == "AT":
                pass
            elif o in ("ASSERT", "ASSERT_NOT"):
                pass
            else:
                return False
        return True
    ok = walk(tree)
    trailing_nl = any(str(o) == "AT" and str(a) == "AT_END" for o, a in tree)
    anchored_end = any(str(o) == "AT" and str(a) in ("AT_END_STRING", "AT_END") for o, a in tree)
    return (chars if ok else None), tree.getwidth()[0], anchored_end, trailing_nl


def prefix_safe(facts, t):
    """What the constructor's must-facts prove about the cache name -> list of missing guarantees."""
    charset, width = None, 0
    excluded = set()
    isstr = False
    name_eq = False
    for f, b in facts.items():
        if f.op == "call" and f.args[0] == "isinstance" and f.args[1] is t and b and show(f.args[2]).endswith("str"):
            isstr = True
        if f.op == "cmp" and f.args[0] == "in" and f.args[1] is t and not b and f.args[2].op == "setof":
            excluded |= {x.args[0] for x in f.args[2].args if is_const(x)}
        if f.op == "cmp" and f.args[0] == "==" and t in f.args[1:]:
            o = f.args[1] if f.args[2] is t else f.args[2]
            if is_const(o) and not b:
                excluded.add(o.args[0])
            if b and (o.op == "attr" and o.args[1] == "name" and strip(o.args[0]) is t or o.op == "call" and o.args[0] == "os.path.basename" and strip(o.args[1]) is t):
                name_eq = True
        if f is t and b:
            excluded.add("")
        m = f
        neg = b
        if f.op == "cmp" and f.args[0] == "is" and NONE in f.args[1:]:
            m = f.args[1] if f.args[2] is NONE else f.args[2]
            neg = not b
        if m.op == "call" and neg and m.args[0] in (".fullmatch", ".match", ".search", "re.fullmatch", "re.match", "re.search") and t in m.args[1:]:
            pat = m.args[1]
            flags = 0
            if pat.op == "call" and pat.args[0] == "re.compile":
                pat = pat.args[1]
            if not is_const(pat):
                continue
            cs, wd, end, nl = regex_charset(pat.args[0])
            how = m.args[0].split(".")[-1]
            if cs is None or (how != "fullmatch" and not end) or how == "search" and not pat.args[0].startswith(("^", "\\A")):
                continue
            if how != "fullmatch" and nl:
                cs = cs | {"\n"}
            charset = cs if charset is None else charset & cs
            width = max(width, wd)
    missing = []
    if not isstr and charset is None:
        missing.append("not known to be a string")
    for bad, nm in (("/", "a slash"), ("\\", "a backslash"), ("\0", "a NUL"), ("\n", "a line break")):
        if charset is None and bad == "/" and name_eq:
            continue
        if charset is None or bad in charset:
            missing.append("may contain " + nm)
    if width < 1 and "" not in excluded:
        missing.append("may be empty")
    for d in (".", ".."):
        if d not in excluded and (charset is None or "." in charset):
            missing.append("may be %r" % d)
    return missing


def c06(ck):
    ck.rule("name", "every accepted cache name is provably one safe component (facts at the constructor's normal exit; regexes are parsed, not run)")
    ck.rule("contained", "every path given to a creating, opening, renaming or deleting call is the cache root plus safe components")
    ck.rule("no-follow", "every handle read, written, listed or traversed below the root was opened with O_NOFOLLOW (or is the operation's own temporary directory)")
    ck.rule("ancestors", "files opened by path have all cache-owned parents known (lstat must-facts) not to be links")
    ck.rule("regular", "reads and writes happen only under the must-fact S_ISREG of that very file")
    ck.rule("flat", "an entry is unlinked only when all entries are known to be links or known regular bundle files; no recursive removal")
    ck.rule("anchored", "unlink is relative to a directory handle opened without following links")
    ck.rule("own-key", "only directories whose name derives from this key's digest are moved or removed")
    Ip, op, names, man, pattrs = publish_shape(ck)
    known = set(names.values()) | {"manifest.json"}
    # constructor
    Ic = interp(ck, exceptions=True)
    outs = Ic.run(CLS, [P("cache_root"), P("prefix"), P("ordertype"), P("cache_config"), P("source_fingerprint")])
    n = 0
    for o in outs:
        if o.k == "v":
            n += 1
            for facts in expand(frozenset(o.st.facts.items())):
                miss = prefix_safe(facts, P("prefix"))
                ck.ob("name", "CacheBundle.__init__", not miss, "an accepted cache name %s" % ", ".join(miss))
    if not n:
        raise AnalysisError("CacheBundle cannot be constructed")
    ck.interp(Ic)
    probe = interp(ck)
    st, ref, attrs = bundle(probe)
    for k in ("path", "parent", "lock_path"):
        b, comps = segments(canon(attrs[k]))
        rb, rc = segments(canon(attrs["cache_root"]))
        ck.ob("contained", "CacheBundle." + k, depth_below(canon(attrs[k]), canon(attrs["cache_root"])) not in (None, 0) and all(
            safe_component(c, P("prefix")) for c in comps[len(rc):]), "%s is not the cache root plus safe components" % k)
    digest = segments(canon(attrs["path"]))[1][-1]
    for nm in entries(probe, st, ref):
        exc = nm != "recover_residuals"
        I = interp(ck, exceptions=exc, disj=150, listing=2, live_merge=40)
        st, ref, attrs = bundle(I)
        mon = Contain(ck, nm, attrs, digest, known)
        I.cfg.monitor = mon
        m = I.find_member(st.heap[ref].cls, nm)
        fi = I.funcs[m]
        npos = len(fi.node.args.args) - len(fi.node.args.defaults) - 1
        args = [P(a.arg) for a in fi.node.args.args[1:1 + npos]]
        if nm == "lock":
            args = [P("timeout")]
        if "contextmanager" in I.decorators(fi):
            outs = I.call_func(m, [ref] + args, {}, st, FAKE, cm_body=body_outs)
        else:
            outs = I.call_func(m, [ref] + args, {}, st, FAKE)
        I.stats["paths"] += len(outs)
        ck.interp(I)
    for r in ("name", "contained", "no-follow", "ancestors", "regular", "flat", "anchored", "own-key"):
        ck.floor(r, 1)
