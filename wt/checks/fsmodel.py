"""File-system effect tracking shared by C03, C04, C06 and C07: resolves each library event to (operation, path term)."""
from ..query import bits, segments, strip
from ..terms import C, FALSE, NONE, TRUE, Sym, is_const, mentions, show, subterms

OPEN_FILE = {"open", "io.open", ".open", "os.fdopen"}
UNLINK = {"os.unlink", "os.remove", ".unlink"}
RMDIR = {"os.rmdir", ".rmdir", "os.removedirs"}
RENAME = {"os.replace", "os.rename", ".rename", ".replace_path", "os.renames", "shutil.move"}
MKDIR = {"os.mkdir", "os.makedirs", ".mkdir"}
LIST = {"os.listdir", "os.scandir", ".iterdir", ".glob", ".rglob"}
STAT = {"os.stat": True, "os.lstat": False, "os.fstat": None, ".stat": True, ".lstat": False, "os.path.exists": True, "os.path.lexists": False,
        "os.path.isdir": True, "os.path.isfile": True, "os.path.islink": False, ".exists": True, ".is_dir": True, ".is_file": True,
        ".is_symlink": False, "os.path.getsize": True}
READ = {".read", ".readinto", "os.read", ".readline", ".readlines", ".readall", "os.pread", "json.load", "pickle.load"}
WRITE = {".write", "os.write", "json.dump", ".writelines", "os.pwrite", "pickle.dump"}
LINK = {"os.symlink", "os.link", ".symlink_to", ".hardlink_to", ".link_to"}
TREE = {"shutil.rmtree", "shutil.copytree", "os.walk", "os.fwalk", "os.removedirs", ".walk"}
COPY = {"shutil.copy", "shutil.copyfile", "shutil.copy2", "shutil.copyfileobj"}
META = {"os.chmod", "os.chown", "os.utime", ".chmod", ".touch", "os.truncate", "os.ftruncate"}


def canon(t):
    """Path term -> canonical div term (fspath/str/resolve/absolute wrappers removed)."""
    for _ in range(20):
        t = strip(t)
        if t.op == "call" and t.args[0] in (".resolve", ".absolute", "os.path.abspath", "os.path.realpath", "os.path.normpath") and len(t.args) >= 2:
            t = t.args[1]
            continue
        base, comps = segments(t)
        if not comps:
            return base
        inner = canon(base)
        if inner is base:
            return Sym("div", base, *comps)
        t = Sym("div", *((inner.args if inner.op == "div" else (inner, )) + tuple(comps)))
    return t


class Op:
    __slots__ = ("kind", "path", "path2", "fd", "e", "info")

    def __init__(self, kind, path=None, path2=None, fd=None, e=None, info=None):
        self.kind, self.path, self.path2, self.fd, self.e, self.info = kind, path, path2, fd, e, info

    def fn(self):
        return self.e.stack[-1].split(":")[-1] if self.e.stack else "<module>"


class Handle:
    """A tracked descriptor or file object."""
    __slots__ = ("path", "flags", "mode", "dirfd", "isfile", "ofd")

    def __init__(self, path, flags, mode, dirfd, isfile, ofd=None):
        self.path, self.flags, self.mode, self.dirfd, self.isfile, self.ofd = path, flags, mode, dirfd, isfile, ofd

    def key(self):
        return (self.path, self.flags, self.mode, self.dirfd, self.isfile, self.ofd)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Handle) and self.key() == o.key()

    def writable(self):
        if self.isfile and self.mode is not None:
            return any(c in self.mode for c in "wax+")
        return bool({"os.O_WRONLY", "os.O_RDWR", "os.O_CREAT", "os.O_TRUNC", "os.O_APPEND"} & set(map(str, self.flags)))

    def __repr__(self):
        return "H(%s)" % show(self.path)


def amap(st, key):
    return dict(st.aux.get(key, ()))


def aset(st, key, k, v):
    st.aux[key] = tuple(x for x in st.aux.get(key, ()) if x[0] is not k) + ((k, v), )


def handle(st, t):
    t = strip(t)
    if t.op == "call" and t.args[0] == ".fileno":
        t = strip(t.args[1])
    for k, v in st.aux.get("fs", ()):
        if k is t:
            return v
    return None


def path_arg(st, t, dirfd=None):
    t = strip(t)
    if dirfd is not None and dirfd is not NONE:
        h = handle(st, dirfd)
        if h is not None:
            b, comps = segments(h.path)
            b2, comps2 = segments(t)
            return Sym("div", b, *(comps + [b2] + comps2))
        return Sym("div", Sym("unknown", "dirfd"), t)
    h = handle(st, t)
    if h is not None:
        return h.path
    # scandir entries: entry.path / entry
    if t.op == "attr" and t.args[1] in ("path", "name") and t.args[0].op == "elem":
        src = listing_source(st, t.args[0].args[0])
        if src is not None:
            b, comps = segments(src)
            return Sym("div", b, *(comps + [Sym("attr", t.args[0], "name")]))
    if t.op == "elem":
        src = listing_source(st, t.args[0])
        if src is not None:
            b, comps = segments(src)
            return Sym("div", b, *(comps + [Sym("attr", t, "name")]))
    return canon(t)


def listing_source(st, res):
    for k, v in st.aux.get("ls", ()):
        if k is res:
            return v
    return None


def classify(I, st, e):
    """Event -> Op (or None); updates the handle map in st.aux."""
    n = e.name
    if n.startswith("raised "):
        inner = n[7:]
        kw = dict(e.kw)
        if inner == "os.fsync" and e.args:
            h = handle(st, e.args[0])
            return Op("fsync-failed", h.path if h else None, e=e)
        if inner in ("os.open", "open") and e.args:
            return Op("open-failed", path_arg(st, e.args[0], kw.get("dir_fd")), e=e)
        if inner in RENAME and len(e.args) >= 2:
            return Op("rename-failed", path_arg(st, e.args[0]), path_arg(st, e.args[1]), e=e)
        return None
    kw = dict(e.kw)
    a = e.args
    if n in ("os.open", "os.openat"):
        fl = frozenset(bits(a[1])) if len(a) > 1 else frozenset()
        d = kw.get("dir_fd")
        p = path_arg(st, a[0], d)
        h = Handle(p, frozenset(map(str, fl)), None, strip(d) if d is not None else None, False)
        aset(st, "fs", e.res, h)
        return Op("open", p, fd=e.res, e=e, info=h)
    if n == "os.dup":
        h = handle(st, a[0])
        if h is not None:
            aset(st, "fs", e.res, h)
        return None
    if n in OPEN_FILE:
        if not a:
            return None
        src = handle(st, a[0])
        mode = a[1] if len(a) > 1 else kw.get("mode")
        m = mode.args[0] if mode is not None and is_const(mode) and isinstance(mode.args[0], str) else ("r" if mode is None else None)
        if src is not None:
            aset(st, "fs", e.res, Handle(src.path, src.flags, m, src.dirfd, True, src.ofd or strip(a[0])))
            return None
        p = path_arg(st, a[0])
        h = Handle(p, frozenset(), m, None, True)
        aset(st, "fs", e.res, h)
        return Op("open", p, fd=e.res, e=e, info=h)
    if n == "tempfile.mkdtemp":
        d = kw.get("dir", a[2] if len(a) > 2 else None)
        return Op("mkdtemp", strip(e.res), canon(d) if d is not None else None, e=e, info=kw.get("prefix"))
    if n in ("tempfile.mkstemp", "tempfile.NamedTemporaryFile", "tempfile.TemporaryDirectory"):
        d = kw.get("dir")
        return Op("mktemp", e.res, canon(d) if d is not None else None, e=e)
    if n in TREE and a:
        return Op("tree", path_arg(st, a[0], kw.get("dir_fd")), e=e)
    if n in UNLINK and a:
        return Op("unlink", path_arg(st, a[0], kw.get("dir_fd")), e=e, info=kw.get("dir_fd"))
    if n in RMDIR and a:
        return Op("rmdir", path_arg(st, a[0], kw.get("dir_fd")), e=e, info=kw.get("dir_fd"))
    if n in RENAME and len(a) >= 2:
        src, dst = path_arg(st, a[0], kw.get("src_dir_fd")), path_arg(st, a[1], kw.get("dst_dir_fd"))
        st.aux["stats"] = tuple((r, v) for r, v in st.aux.get("stats", ()) if v[1] is None or not (under(v[0], src) or under(v[0], dst)))
        return Op("rename", src, dst, e=e)
    if n in MKDIR and a:
        return Op("mkdir", path_arg(st, a[0], kw.get("dir_fd")), e=e)
    if n in LIST:
        src = a[0] if a else Sym("const", ".")
        h = handle(st, src)
        p = h.path if h is not None else path_arg(st, src)
        aset(st, "ls", e.res, p)
        return Op("list", p, fd=src if h is not None else None, e=e)
    if n in STAT and a:
        follow = STAT[n]
        if n in ("os.stat", ".stat") and kw.get("follow_symlinks") is FALSE:
            follow = False
        h = handle(st, a[0])
        x = strip(a[0])
        if h is not None and n in ("os.fstat", "os.stat"):
            follow = None
            tgt = x
            p = h.path
        else:
            p = path_arg(st, a[0], kw.get("dir_fd"))
            tgt = p
        aset(st, "stats", e.res, (p, follow, x))
        return Op("stat", p, fd=x if h is not None else None, e=e, info=follow)
    if n in READ and a:
        h = handle(st, a[0])
        if h is not None:
            return Op("read", h.path, fd=strip(a[0]), e=e, info=h)
        return None
    if n in (".read_bytes", ".read_text") and a:
        return Op("readpath", path_arg(st, a[0]), e=e)
    if n in (".write_bytes", ".write_text") and a:
        return Op("writepath", path_arg(st, a[0]), e=e)
    if n in WRITE and a:
        tgt = a[1] if n in ("json.dump", "pickle.dump") and len(a) > 1 else kw.get("fp", a[0]) if n in ("json.dump", "pickle.dump") else a[0]
        h = handle(st, tgt)
        if h is not None:
            return Op("write", h.path, fd=strip(tgt), e=e, info=h)
        if n == ".write" and len(a) == 2:
            return Op("writegraph", path_arg(st, a[1]), e=e)
        return Op("write-unknown", None, e=e)
    if n in META and a:
        h = handle(st, a[0])
        return Op("meta", h.path if h is not None else path_arg(st, a[0]), fd=strip(a[0]) if h is not None else None, e=e)
    if n in LINK and len(a) >= 2:
        return Op("link", path_arg(st, a[0]), path_arg(st, a[1]), e=e)
    if n in COPY and len(a) >= 2:
        return Op("copy", path_arg(st, a[0]), path_arg(st, a[1]), e=e)
    if n in ("os.fsync", "os.fdatasync") and a:
        h = handle(st, a[0])
        return Op("fsync", h.path if h is not None else path_arg(st, a[0]), fd=strip(a[0]), e=e)
    if n == "os.sync":
        return Op("sync", e=e)
    if n == ".flush" and a:
        return Op("flush", fd=strip(a[0]), e=e)
    if n in (".close", ".__exit__", "os.close") and a:
        h = handle(st, a[0])
        return Op("close", h.path if h is not None else None, fd=strip(a[0]), e=e, info=h)
    if n in ("fcntl.flock", "fcntl.lockf", "msvcrt.locking") and a:
        h = handle(st, a[0])
        return Op("flock", h.path if h is not None else None, fd=strip(a[0]), e=e, info=frozenset(map(str, bits(a[1]))) if len(a) > 1 else frozenset())
    return None


def under(p, base):
    """p is base or below it (structurally)."""
    b, c = segments(p)
    b2, c2 = segments(base)
    return b is b2 and len(c) >= len(c2) and all(x is y for x, y in zip(c, c2))


def depth_below(p, base):
    b, c = segments(p)
    b2, c2 = segments(base)
    if b is not b2 or len(c) < len(c2) or not all(x is y for x, y in zip(c, c2)):
        return None
    return len(c) - len(c2)


def expand(facts, limit=64):
    """Must-facts with case splits -> list of consistent conjunctions."""
    base = {f: b for f, b in facts if f.op != "cases"}
    alts = [base]
    for f, b in facts:
        if f.op != "cases" or not b:
            continue
        nxt = []
        for x in alts:
            for case in f.args:
                y = dict(x)
                ok = True
                for lit in case.args:
                    k, v = lit.args
                    if y.get(k, v) is not v:
                        ok = False
                        break
                    y[k] = v
                if ok:
                    nxt.append(y)
        if len(nxt) > limit:
            return alts
        alts = nxt
    return alts


def holds(facts, pred):
    """pred is true in every case the must-facts allow (a sufficient set of case splits is searched)."""
    base = {f: b for f, b in facts if f.op != "cases"}
    if pred(base):
        return True
    splits = [f for f, b in facts if f.op == "cases" and b]

    def alts(x, c):
        out = []
        for case in c.args:
            y = dict(x)
            for lit in case.args:
                k, v = lit.args
                if y.get(k, v) is not v:
                    break
                y[k] = v
            else:
                out.append(y)
        return out
    for c in splits:
        if all(pred(y) for y in alts(base, c)):
            return True
    for i, c in enumerate(splits):
        first = [y for y in alts(base, c) if not pred(y)]
        for d in splits[:i]:
            if all(pred(z) for y in first for z in alts(y, d)):
                return True
    return all(pred(y) for y in expand(facts, 512))
