"""Effect summaries of builtins and library calls (outcome term, event, exceptions)."""
import ast
import os
import re

from .terms import C, FALSE, NONE, TRUE, Sym, ground, is_const
from . import absint


def O(st, v):
    return [absint.Out("v", st, v)]


# exception sets: "X+" = X or any subclass
OSE = ["OSError+"]
SPEC = {}


def spec(names, pure=False, exc=(), ev=None, ret=None):
    for n in names.split():
        SPEC[n] = {"pure": pure, "exc": list(exc), "ev": (not pure) if ev is None else ev, "ret": ret}


# pure, total
spec("builtins.isinstance builtins.issubclass builtins.callable builtins.id builtins.repr builtins.str builtins.bool "
     "builtins.hash builtins.abs builtins.chr builtins.ord builtins.round builtins.min builtins.max builtins.sum "
     "builtins.slice builtins.format builtins.ascii builtins.type builtins.hasattr builtins.vars builtins.dir "
     "builtins.bytes builtins.memoryview builtins.complex builtins.divmod builtins.pow builtins.hex builtins.bin", pure=True)
spec("stat.S_ISREG stat.S_ISDIR stat.S_ISLNK stat.S_ISFIFO stat.S_ISSOCK stat.S_IFMT math.isfinite math.isnan math.isinf math.floor "
     "os.path.join os.path.dirname os.path.basename os.path.normcase os.path.normpath os.path.splitext os.path.isabs os.path.abspath "
     "os.fsencode os.fsdecode re.compile re.fullmatch re.match re.search re.escape re.sub re.split json.dumps "
     "dataclasses.replace dataclasses.asdict dataclasses.field functools.wraps operator.itemgetter operator.attrgetter",
     pure=True)
spec("os.path.commonpath", pure=True, exc=["ValueError"])
spec("os.path.commonprefix os.path.relpath", pure=True)
spec("os.path.exists os.path.lexists os.path.isfile os.path.isdir os.path.islink os.path.getsize os.path.samefile os.access",
     exc=[], ev=True)
spec("os.open os.openat", exc=OSE)
spec("os.dup os.pipe os.memfd_create socket.socket os.fdopen builtins.open io.open os.open_osfhandle", exc=OSE)
spec("os.close", exc=[])
spec("os.fstat os.lstat os.stat os.listdir os.scandir os.mkdir os.makedirs os.unlink os.remove os.rmdir os.removedirs os.rename "
     "os.renames os.replace os.link os.symlink os.truncate os.ftruncate os.lseek os.read os.write os.fsync os.fdatasync os.sync os.walk "
     "os.chmod os.chown os.utime os.readlink os.path.realpath os.fchmod os.sendfile os.copy_file_range os.pread os.pwrite", exc=OSE)
spec("shutil.rmtree shutil.move shutil.copy shutil.copyfile shutil.copytree shutil.copy2 shutil.copyfileobj", exc=OSE)
spec("tempfile.mkdtemp tempfile.mkstemp tempfile.NamedTemporaryFile tempfile.TemporaryDirectory tempfile.TemporaryFile", exc=OSE)
spec("fcntl.flock fcntl.lockf fcntl.fcntl msvcrt.locking", exc=OSE)
spec("time.monotonic time.time time.perf_counter time.sleep time.time_ns time.monotonic_ns os.getpid platform.node "
     "platform.python_implementation uuid.uuid4 uuid.uuid1 socket.gethostname random.random random.randint os.urandom "
     "secrets.token_hex threading.get_ident", exc=[], ev=True)
spec("platform.python_implementation platform.python_version platform.machine platform.system sys.getdefaultencoding", pure=True)
spec("os.environ.get os.getenv os.fspath os.path.expanduser", pure=True)
spec("json.loads", pure=True, exc=["ValueError+", "RecursionError"], ev=True)
spec("json.load", exc=["ValueError+", "RecursionError", "OSError+"])
spec("json.dump", exc=["OSError+", "ValueError"])
spec("pickle.loads pickle.load marshal.loads yaml.safe_load", exc=["Exception+"])
spec("builtins.print sys.exit warnings.warn", exc=[], ev=True)
spec("builtins.int", pure=True, exc=["ValueError", "TypeError"])
spec("builtins.float", pure=True, exc=["ValueError", "TypeError"])
spec("builtins.bytearray", exc=[], ev=True)
spec("builtins.next", exc=["StopIteration"], ev=True)
spec("builtins.input", exc=["EOFError"], ev=True)
spec("builtins.iter builtins.filter builtins.map builtins.zip builtins.enumerate builtins.reversed builtins.range builtins.sorted",
     pure=True)
spec("logging.getLogger logging.StreamHandler logging.Formatter logging.info logging.debug logging.warning logging.error", exc=[], ev=False)
spec("pathlib.Path.home pathlib.Path.cwd", pure=True)
spec("hashlib.sha256 hashlib.sha1 hashlib.md5 hashlib.sha512 hashlib.blake2b hashlib.sha224 hashlib.sha384", exc=[], ev=False)
spec("pynini.Fst.read_from_string", pure=True, exc=["RuntimeError+", "TypeError", "ValueError"], ev=True)
spec("pynini.Fst.read pywrapfst.Fst.read", exc=["RuntimeError+", "OSError+"])
spec("gc.collect gc.disable gc.enable copy.copy copy.deepcopy contextlib.nullcontext", exc=[], ev=False)
spec("csv.reader csv.DictReader", exc=[], ev=False)
# methods of unknown receivers
spec(".decode", pure=True, exc=["UnicodeDecodeError"])
spec(".encode", pure=True, exc=[])
spec(".hexdigest .digest .format .join .split .rsplit .splitlines .strip .rstrip .lstrip .lower .upper .startswith .endswith .replace "
     ".title .capitalize .swapcase .isspace .isdigit .isalpha .isalnum .isupper .islower .isnumeric .isdecimal .isascii .find .rfind "
     ".index_ .count .partition .rpartition .zfill .casefold .removeprefix .removesuffix .expandtabs .translate .to_bytes .hex "
     ".get .items .keys .values .copy .as_posix .with_suffix .with_name .joinpath .is_absolute .fullmatch .match .search .sub .group "
     ".groups .bit_length .union .intersection .difference .issubset .issuperset .issubset .center .ljust .rjust .fileno .tobytes "
     ".nbytes .isidentifier .isprintable .cast .istitle .symmetric_difference .findall .conjugate .tolist .as_integer_ratio",
     pure=True)
spec(".index", pure=True, exc=["ValueError"])
spec(".relative_to", pure=True, exc=["ValueError"])
spec(".expanduser", pure=True, exc=[])
spec(".resolve .absolute .samefile", pure=True, exc=[])
spec(".exists .is_file .is_dir .is_symlink .is_dir_", exc=[], ev=True)
spec(".stat .lstat .iterdir .rglob .glob .mkdir .unlink .rmdir .rename .touch .chmod .read_text .read_bytes .write_text .write_bytes "
     ".symlink_to .hardlink_to .link_to .readlink", exc=OSE)
spec(".replace_path", exc=OSE)
spec(".read .readinto .readline .readlines .write .writelines .flush .seek .tell .truncate", exc=OSE)
spec(".close", exc=[])
spec(".optimize", pure=True, exc=[])
spec(".info .debug .warning .error .exception .critical .setLevel .addHandler .setFormatter .log", exc=[], ev=False)
spec(".__enter__ .__exit__ .release", exc=[], ev=True)
spec(".acquire", exc=[], ev=True)

TRANSPARENT = {"os.fspath", "pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath", "pathlib.PurePosixPath", "builtins.memoryview",
               "builtins.bytes"}
STRMETHODS = {"lower", "upper", "strip", "lstrip", "rstrip", "split", "rsplit", "splitlines", "startswith", "endswith", "replace", "title",
              "capitalize", "swapcase", "isspace", "isdigit", "isalpha", "isalnum", "isupper", "islower", "isnumeric", "find", "rfind",
              "count", "partition", "rpartition", "zfill", "casefold", "removeprefix", "removesuffix", "encode", "decode", "index",
              "isidentifier", "isascii", "center", "ljust", "rjust", "join", "translate", "to_bytes", "bit_length", "hex"}


def fold(st, interp, node, fn, *args, **kw):
    try:
        v = fn(*args, **kw)
    except Exception:
        return None
    return lift(st, interp, node, v)


def lift(st, interp, node, v):
    if isinstance(v, (str, bytes, int, float, bool, type(None), range, complex)):
        return C(v)
    if isinstance(v, tuple):
        return Sym("tuple", *[lift(st, interp, node, x) for x in v])
    if isinstance(v, (list, set, frozenset)):
        kind = type(v).__name__
        its = list(v) if kind == "list" else sorted(v, key=repr)
        return interp.alloc(st, node, absint.HSeq(kind, [lift(st, interp, node, x) for x in its], True))
    if isinstance(v, dict):
        return interp.alloc(st, node, absint.HDict({lift(st, interp, node, a): lift(st, interp, node, b) for a, b in v.items()}, True))
    return None


SHAPES = {".get": ("dict", ), ".items": ("dict", ), ".keys": ("dict", ), ".values": ("dict", ), ".pop": ("dict", "list"), ".copy": ("dict", "list"),
          "builtins.set": ("dict", "list", "str"), "builtins.len": ("dict", "list", "str"), "builtins.list": ("dict", "list", "str"),
          "builtins.tuple": ("dict", "list", "str"), "builtins.sorted": ("dict", "str"), "builtins.frozenset": ("dict", "list", "str"),
          "builtins.dict": ("dict", ), "builtins.enumerate": ("dict", "list", "str"), "builtins.zip": ("dict", "list", "str"),
          "builtins.abs": ("int", "float"), "builtins.range": ("int", ), "builtins.bytearray": ("int", )}


def call(I, name, args, kw, st, node):
    if I.cfg.tainted is not None and args:
        kinds = SHAPES.get(name)
        if kinds is None and name.startswith(".") and name[1:] in STRMETHODS:
            kinds = ("str", "dict") if name == ".get" else ("str", )
        if kinds is not None:
            bad = I.shape_fault(args[0], kinds, name, st, node, ("AttributeError" if name.startswith(".") else "TypeError", ))
            if bad:
                return bad + call_(I, name, args, kw, st, node)
    return call_(I, name, args, kw, st, node)


def call_(I, name, args, kw, st, node):
    m = I.cfg.models.get(name)
    if m is not None:
        r = m(I, args, kw, st, node)
        if r is not None:
            return r
    if name.startswith("."):
        r = method(I, name, args, kw, st, node)
        if r is not None:
            return r
    else:
        h = BUILTIN.get(name)
        if h is not None:
            r = h(I, args, kw, st, node)
            if r is not None:
                return r
    if I.cfg.models.get("*") is not None:
        r = I.cfg.models["*"](I, name, args, kw, st, node)
        if r is not None:
            return r
    if name in TRANSPARENT and args:
        return O(st, args[0])
    sp = SPEC.get(name)
    if name.startswith("builtins.") and sp is None:
        mro = absint.builtin_mro(name[9:])
        if mro:
            ref = Sym("tuple", *args)
            return O(st, Sym("exc", name[9:], False, frozenset(), (("args", ref), )))
    if sp is None:
        I.stats["unknown"].add("call:" + name)
        sp = {"pure": False, "exc": ["Exception+"], "ev": True, "ret": None}
    kws = tuple(sorted(kw.items()))
    outs = I.raise_outs(st, name, sp["exc"], args, kw, node)
    short = name[9:] if name.startswith("builtins.") else name
    if sp["pure"]:
        res = Sym("call", short, *args, *[Sym("kw", k, v) for k, v in kws])
    else:
        res = I.result(st, short, node)
    if sp["ev"]:
        I.emit(st, short, args, kw, res, node)
    outs.extend(O(st, res))
    return outs


# ----------------------------------------------------------------- builtins

def b_len(I, args, kw, st, node):
    v = args[0]
    if is_const(v) and isinstance(v.args[0], (str, bytes)):
        return O(st, C(len(v.args[0])))
    if v.op == "tuple":
        return O(st, C(len(v.args)))
    if v.op == "ch" or v.op == "concat" and all(x.op == "ch" or is_const(x) for x in v.args):
        return O(st, C(sum(1 if x.op == "ch" else len(x.args[0]) for x in (v.args if v.op == "concat" else (v, )))))
    rec = st.heap.get(v)
    if isinstance(rec, absint.HSeq) and rec.exact:
        return O(st, C(len(rec.items)))
    if isinstance(rec, absint.HDict) and rec.exact:
        return O(st, C(len(rec.items)))
    if isinstance(rec, absint.HInst):
        m = I.find_member(rec.cls, "__len__")
        if m is not None:
            return I.call_func(m, [v], {}, st, node)
    return O(st, Sym("call", "len", v))


PYTYPES = {"builtins." + k: v for k, v in dict(str=str, int=int, bool=bool, float=float, bytes=bytes, list=list, dict=dict, tuple=tuple,
                                                set=set, frozenset=frozenset).items()}


def b_isinstance(I, args, kw, st, node):
    v, t = args[0], args[1]
    ts = list(t.args) if t.op == "tuple" else [t]
    ts = [x for y in ts for x in (y.args if y.op == "tuple" else (y, ))]
    res = []
    for x in ts:
        r = None
        if is_const(v) and x.op == "ext" and x.args[0] in PYTYPES:
            r = isinstance(v.args[0], PYTYPES[x.args[0]])
        elif is_const(v) and x.op == "ext" and x.args[0].split(".")[-1] in ("Mapping", "MutableMapping", "Set", "MutableSequence", "PathLike"):
            r = False
        elif v.op == "tuple" and x.op == "ext":
            r = x.args[0] == "builtins.tuple"
        elif v.op == "concat" and x.op == "ext":
            r = x.args[0] in ("builtins.str", "builtins.object")
        elif v.op == "exc":
            n = I.exc_name(x)
            if n in I.name_mro(v.args[0]):
                r = True
            elif not v.args[1] or not (v.args[0] in I.name_mro(n)):
                r = False
        else:
            rec = st.heap.get(v) if v.op == "ref" else None
            if isinstance(rec, absint.HInst):
                r = x in I.mro(rec.cls)
            elif isinstance(rec, absint.HDict):
                r = x.op == "ext" and x.args[0].split(".")[-1] in ("dict", "Mapping", "MutableMapping")
            elif isinstance(rec, absint.HSeq):
                r = x.op == "ext" and x.args[0].split(".")[-1] in (rec.kind, "Iterable", "Sequence", "Collection")
        res.append(r)
    if any(r is True for r in res):
        return O(st, TRUE)
    unk = [x for x, r in zip(ts, res) if r is None]
    if not unk:
        return O(st, FALSE)
    terms = [Sym("call", "isinstance", v, x) for x in unk]
    t = terms[0] if len(terms) == 1 else Sym("or", *sorted(terms, key=repr))
    k = I.truth(t, st)
    return O(st, C(k) if k is not None else t)


def b_getattr(I, args, kw, st, node):
    base, nm = args[0], args[1]
    if is_const(nm) and isinstance(nm.args[0], str):
        if base.op in ("ext", "mod", "class"):
            return I.getattr(base, nm.args[0], st, node)
        rec = st.heap.get(base) if base.op == "ref" else None
        if isinstance(rec, absint.HInst):
            if nm.args[0] in rec.attrs or I.find_member(rec.cls, nm.args[0]) is not None:
                return I.getattr(base, nm.args[0], st, node)
            if len(args) > 2:
                return O(st, args[2])
        if base.op == "exc" and len(args) > 2:
            return O(st, Sym("attr", base, nm.args[0]))
        return O(st, Sym("attr", base, nm.args[0]))
    return O(st, Sym("call", "getattr", *args))


def b_hasattr(I, args, kw, st, node):
    rec = st.heap.get(args[0]) if args[0].op == "ref" else None
    if isinstance(rec, absint.HInst) and is_const(args[1]):
        return O(st, C(args[1].args[0] in rec.attrs or I.find_member(rec.cls, args[1].args[0]) is not None))
    return None


def b_setattr(I, args, kw, st, node):
    if is_const(args[1]):
        I.store_attr(args[0], args[1].args[0], args[2], st, node)
        return O(st, NONE)
    I.emit(st, "store_attr", args, kw, None, node, "dynamic")
    return O(st, NONE)


def b_objsetattr(I, args, kw, st, node):
    return b_setattr(I, args, kw, st, node)


def mkcol(kind):
    def f(I, args, kw, st, node):
        if not args:
            if kind == "dict":
                return O(st, I.alloc(st, node, absint.HDict({C(k): v for k, v in kw.items()}, True)))
            if kind == "tuple":
                return O(st, Sym("tuple"))
            return O(st, I.alloc(st, node, absint.HSeq(kind, (), True)))
        src = args[0]
        if kind == "dict":
            rec = st.heap.get(src) if src.op == "ref" else None
            if isinstance(rec, absint.HDict):
                d = dict(rec.items)
                d.update({C(k): v for k, v in kw.items()})
                return O(st, I.alloc(st, node, absint.HDict(d, rec.exact)))
            items = I.items_of(src, st)
            if items is not None:
                pairs = [I.items_of(x, st) for x in items]
                if all(p is not None and len(p) == 2 for p in pairs):
                    d = {a: b for a, b in pairs}
                    d.update({C(k): v for k, v in kw.items()})
                    return O(st, I.alloc(st, node, absint.HDict(d, True)))
            return O(st, Sym("call", "dict", src, *[Sym("kw", k, v) for k, v in sorted(kw.items())]))
        items = I.items_of(src, st)
        if items is None:
            rec = st.heap.get(src) if src.op == "ref" else None
            if isinstance(rec, absint.HSeq):
                if kind == "tuple":
                    return O(st, Sym("call", "tuple", src))
                return O(st, I.alloc(st, node, absint.HSeq(kind, rec.items, False, origin=rec.origin)))
            if kind in ("set", "frozenset"):
                return O(st, Sym("call", "set", I.iterkey(src, st)))
            if kind == "list":
                return O(st, I.alloc(st, node, absint.HSeq("list", (Sym("elem", I.iterkey(src, st)), ), False, origin=I.iterkey(src, st))))
            return O(st, Sym("call", kind, src))
        if kind == "tuple":
            return O(st, Sym("tuple", *items))
        if kind in ("set", "frozenset"):
            items = list(dict.fromkeys(items))
        return O(st, I.alloc(st, node, absint.HSeq(kind, items, True)))
    return f


def keyed_sort(I, items, kw, st, node):
    """(state, sorted items) when every key is a known constant, else None."""
    if set(kw) - {"key", "reverse"} or not is_const(kw.get("reverse", FALSE)):
        return None
    keys = []
    for x in items:
        k = x
        if kw.get("key", NONE) is not NONE:
            outs = I.call_value(kw["key"], [x], {}, st, node)
            if len(outs) != 1 or outs[0].k != "v":
                return None
            st, k = outs[0].st, outs[0].v
        if is_const(k):
            k = k.args[0]
        elif k.op == "tuple" and all(is_const(y) for y in k.args):
            k = tuple(y.args[0] for y in k.args)
        else:
            return None
        keys.append(k)
    try:
        order = sorted(range(len(items)), key=lambda i: keys[i], reverse=bool(kw.get("reverse", FALSE).args[0]))
    except TypeError:
        return None
    return st, [items[i] for i in order]


def b_sorted(I, args, kw, st, node):
    items = I.items_of(args[0], st)
    if items is not None and kw:
        r = keyed_sort(I, items, kw, st, node)
        if r is not None:
            return O(r[0], I.alloc(r[0], node, absint.HSeq("list", r[1], True)))
    rec = st.heap.get(args[0]) if args[0].op == "ref" else None
    if items is not None and all(is_const(i) for i in items) and not kw:
        try:
            return O(st, I.alloc(st, node, absint.HSeq("list", [C(x) for x in sorted(i.args[0] for i in items)], True)))
        except TypeError:
            pass
    if items is not None:
        return O(st, I.alloc(st, node, absint.HSeq("list", items, len(items) < 2 or bool(I.cfg.listing) and len(items) <= I.cfg.listing)))
    if isinstance(rec, absint.HSeq):
        return O(st, I.alloc(st, node, absint.HSeq("list", rec.items, False, origin=Sym("call", "sorted", I.iterkey(args[0], st)))))
    return O(st, Sym("call", "sorted", I.iterkey(args[0], st)))


def b_reversed(I, args, kw, st, node):
    items = I.items_of(args[0], st)
    if items is not None:
        return O(st, I.alloc(st, node, absint.HSeq("list", items[::-1], True)))
    return O(st, Sym("call", "reversed", args[0]))


def b_zip(I, args, kw, st, node):
    lists = [I.items_of(a, st) for a in args]
    if all(x is not None for x in lists) and lists:
        return O(st, I.alloc(st, node, absint.HSeq("list", [Sym("tuple", *t) for t in zip(*lists)], True)))
    keys = []
    for a, l in zip(args, lists):
        keys.append(I.iterkey(a, st))
    n = [len(x) for x in lists if x is not None]
    el = []
    for a, l, k in zip(args, lists, keys):
        rec = st.heap.get(a) if a.op == "ref" else None
        if isinstance(rec, absint.HSeq) and rec.items:
            el.append(rec.items[0])
        elif l is not None and l:
            el.append(l[0])
        else:
            el.append(Sym("elem", k))
    if n and min(n) == 0:
        return O(st, I.alloc(st, node, absint.HSeq("list", (), True)))
    key = Sym("call", "zip", *keys)
    if n and any(x is not None for x in lists):
        m = min(n)
        rows = []
        for i in range(m):
            row = []
            for a, l, k in zip(args, lists, keys):
                rec = st.heap.get(a) if a.op == "ref" else None
                if l is not None:
                    row.append(l[i])
                elif isinstance(rec, absint.HSeq) and len(rec.items) > i:
                    row.append(rec.items[i])
                else:
                    row.append(Sym("elem", k) if i == 0 else Sym("elem", k, i))
            rows.append(Sym("tuple", *row))
        return O(st, I.alloc(st, node, absint.HSeq("list", rows, False, origin=key)))
    return O(st, I.alloc(st, node, absint.HSeq("list", (Sym("tuple", *el), ), False, origin=key)))


def b_enumerate(I, args, kw, st, node):
    start = args[1] if len(args) > 1 else kw.get("start", C(0))
    items = I.items_of(args[0], st)
    if items is not None and is_const(start):
        return O(st, I.alloc(st, node, absint.HSeq("list", [Sym("tuple", C(i + start.args[0]), x) for i, x in enumerate(items)], True)))
    k = I.iterkey(args[0], st)
    rec = st.heap.get(args[0]) if args[0].op == "ref" else None
    el = rec.items[0] if isinstance(rec, absint.HSeq) and rec.items else Sym("elem", k)
    return O(st, I.alloc(st, node, absint.HSeq("list", (Sym("tuple", Sym("index", k, start), el), ), False,
                                               origin=Sym("call", "enumerate", k, start))))


def b_range(I, args, kw, st, node):
    if all(is_const(a) for a in args):
        try:
            return O(st, C(range(*[a.args[0] for a in args])))
        except Exception:
            return None
    return O(st, Sym("call", "range", *args))


def b_minmax(nm):
    def f(I, args, kw, st, node):
        if len(args) == 1:
            items = I.items_of(args[0], st)
            if items is None:
                return None
            args = items
        if args and all(is_const(a) for a in args) and not kw:
            try:
                return O(st, C((min if nm == "min" else max)(a.args[0] for a in args)))
            except TypeError:
                return None
        return O(st, Sym("call", nm, *sorted(args, key=repr)))
    return f


def foldb(fn, nm):
    def f(I, args, kw, st, node):
        if args and all(is_const(a) for a in args) and not kw:
            r = fold(st, I, node, fn, *[a.args[0] for a in args])
            if r is not None:
                return O(st, r)
        return None
    return f


def b_str(I, args, kw, st, node):
    if not args:
        return O(st, C(""))
    v = args[0]
    if is_const(v):
        return O(st, C(str(v.args[0])))
    if v.op == "path":
        return O(st, C(v.args[0]))
    if v.op == "concat":
        return O(st, v)
    rec = st.heap.get(v) if v.op == "ref" else None
    if rec is None and v.op in ("param", "div"):
        return O(st, v)
    return None


def b_bool(I, args, kw, st, node):
    if not args:
        return O(st, FALSE)
    return [absint.Out("v", s, C(b)) for s, b in I.branch(st, args[0])]


def b_path(I, args, kw, st, node):
    v = args[0] if args else C(".")
    if len(args) > 1:
        t = v
        for a in args[1:]:
            t = I.div(t, a)
        return O(st, t)
    if is_const(v) and isinstance(v.args[0], str) and v.args[0].startswith(I.root):
        return O(st, Sym("path", v.args[0]))
    return O(st, v)


def b_pathfold(nm):
    fn = getattr(os.path, nm)

    def f(I, args, kw, st, node):
        vals = [a.args[0] if (is_const(a) or a.op == "path") else None for a in args]
        if args and all(isinstance(v, str) for v in vals):
            r = fold(st, I, node, fn, *vals)
            return O(st, r) if r is not None else None
        if nm == "join" and args:
            t = args[0]
            for a in args[1:]:
                t = I.div(t, a)
            return O(st, t)
        return None
    return f


def b_hash(alg):
    def f(I, args, kw, st, node):
        return O(st, I.alloc(st, node, absint.HSeq("hash:" + alg, tuple(args), True)))
    return f


def b_hashnew(I, args, kw, st, node):
    if is_const(args[0]):
        return O(st, I.alloc(st, node, absint.HSeq("hash:" + args[0].args[0], tuple(args[1:]), True)))
    return None


def b_partial(I, args, kw, st, node):
    return O(st, Sym("partial", args[0], tuple(args[1:]), tuple(sorted(kw.items()))))


def b_closing(I, args, kw, st, node):
    return O(st, Sym("closing", args[0]))


def b_suppress(I, args, kw, st, node):
    return O(st, Sym("suppress", *args))


def b_iter(I, args, kw, st, node):
    if len(args) == 2:
        # iter(callable, sentinel): a stream of call results
        return O(st, Sym("call", "iter", args[0], args[1]))
    return O(st, args[0])


def b_super(I, args, kw, st, node):
    if len(args) == 2:
        return O(st, Sym("super", args[0], args[1]))
    return None


def b_type(I, args, kw, st, node):
    rec = st.heap.get(args[0]) if args[0].op == "ref" else None
    if isinstance(rec, absint.HInst) and len(args) == 1:
        return O(st, rec.cls)
    if args[0].op == "exc":
        return O(st, Sym("call", "type", args[0]))
    if is_const(args[0]) and len(args) == 1:
        return O(st, Sym("ext", "builtins." + type(args[0].args[0]).__name__))
    return None


def b_map(I, args, kw, st, node):
    items = I.items_of(args[1], st) if len(args) == 2 else None
    if items is None:
        k = I.iterkey(args[1], st)
        outs = I.call_value(args[0], [Sym("elem", k)], {}, st, node)
        return [absint.Out("v", o.st, I.alloc(o.st, node, absint.HSeq("list", (o.v, ), False, origin=Sym("compr", k, Sym("yield", o.v)))))
                if o.k == "v" else o for o in outs]
    cur = [absint.Out("v", st, ())]
    for it in items:
        nxt = []
        for c in cur:
            if c.k != "v":
                nxt.append(c)
                continue
            for o in I.call_value(args[0], [it], {}, c.st, node):
                nxt.append(absint.Out("v", o.st, c.v + (o.v, )) if o.k == "v" else o)
        cur = nxt
    return [absint.Out("v", o.st, I.alloc(o.st, node, absint.HSeq("list", o.v, True))) if o.k == "v" else o for o in cur]


def b_filter(I, args, kw, st, node):
    items = I.items_of(args[1], st)
    if items is None:
        return None
    cur = [absint.Out("v", st, ())]
    for it in items:
        nxt = []
        for c in cur:
            if c.k != "v":
                nxt.append(c)
                continue
            outs = [absint.Out("v", c.st, it)] if args[0] is NONE else I.call_value(args[0], [it], {}, c.st, node)
            for o in outs:
                if o.k != "v":
                    nxt.append(o)
                    continue
                for s, b in I.branch(o.st, o.v):
                    nxt.append(absint.Out("v", s, c.v + (it, ) if b else c.v))
        cur = nxt
    return [absint.Out("v", o.st, I.alloc(o.st, node, absint.HSeq("list", o.v, True))) if o.k == "v" else o for o in cur]


def b_anyall(stop):
    def f(I, args, kw, st, node):
        items = I.items_of(args[0], st)
        if items is None:
            return O(st, Sym("call", "any" if stop else "all", I.iterkey(args[0], st)))
        live, res = [st], []
        for it in items:
            nxt = []
            for s in live:
                for s2, b in I.branch(s, it):
                    if b == stop:
                        res.append(absint.Out("v", s2, C(stop)))
                    else:
                        nxt.append(s2)
            live = nxt
        return res + [absint.Out("v", s, C(not stop)) for s in live]
    return f


def b_heappush(I, args, kw, st, node):
    I.emit(st, "heapq.heappush", args, kw, None, node, getattr(st.heap.get(args[0]), "owner", "opaque"))
    rec = st.heap.get(args[0])
    if isinstance(rec, absint.HSeq):
        st.heap[args[0]] = rec.replace(items=rec.items + (args[1], ), exact=rec.exact)
    return O(st, NONE)


def b_heappop(I, args, kw, st, node):
    rec = st.heap.get(args[0])
    res = []
    if isinstance(rec, absint.HSeq) and rec.items:
        for i, it in enumerate(rec.items):
            s = st.clone() if i < len(rec.items) - 1 else st
            s.heap[args[0]] = rec.replace(items=rec.items[:i] + rec.items[i + 1:])
            I.emit(s, "heapq.heappop", args, kw, it, node, rec.owner)
            res.append(absint.Out("v", s, it))
        return res
    r = I.result(st, "heapq.heappop", node)
    I.emit(st, "heapq.heappop", args, kw, r, node)
    return O(st, r)


def b_reduce(I, args, kw, st, node):
    items = I.items_of(args[1], st)
    if items is None:
        return None
    if len(args) > 2:
        items = [args[2]] + items
    if not items:
        return None
    cur = [absint.Out("v", st, items[0])]
    for it in items[1:]:
        nxt = []
        for c in cur:
            if c.k != "v":
                nxt.append(c)
            else:
                nxt.extend(I.call_value(args[0], [c.v, it], {}, c.st, node))
        cur = nxt
    return cur


def b_maketrans(I, args, kw, st, node):
    rec = st.heap.get(args[0]) if len(args) == 1 else None
    pairs = None
    if isinstance(rec, absint.HDict) and rec.exact:
        pairs = list(rec.items.items())
    elif len(args) >= 2 and all(is_const(a) and isinstance(a.args[0], str) for a in args):
        return O(st, Sym("strmap", *sorted(str.maketrans(*[a.args[0] for a in args]).items())))
    if pairs is None or not all(is_const(k) and is_const(v) and isinstance(k.args[0], (str, int)) for k, v in pairs):
        return O(st, Sym("call", "str.maketrans", *args))
    return O(st, Sym("strmap", *sorted(str.maketrans({k.args[0]: v.args[0] for k, v in pairs}).items())))


def b_resub(I, args, kw, st, node):
    if len(args) == 3 and not kw and all(is_const(a) and isinstance(a.args[0], str) for a in args):
        try:
            return O(st, C(re.sub(*[a.args[0] for a in args])))
        except (re.error, IndexError):
            pass
    return None


BUILTIN = {
    "builtins.str.maketrans": b_maketrans, "re.sub": b_resub,
    "builtins.len": b_len, "builtins.isinstance": b_isinstance, "builtins.getattr": b_getattr, "builtins.hasattr": b_hasattr,
    "builtins.setattr": b_setattr, "builtins.object.__setattr__": b_objsetattr, "builtins.list": mkcol("list"),
    "builtins.tuple": mkcol("tuple"), "builtins.set": mkcol("set"), "builtins.frozenset": mkcol("frozenset"),
    "builtins.dict": mkcol("dict"), "collections.OrderedDict": mkcol("dict"), "collections.deque": mkcol("list"),
    "builtins.sorted": b_sorted, "builtins.reversed": b_reversed, "builtins.zip": b_zip, "builtins.enumerate": b_enumerate,
    "builtins.range": b_range, "builtins.min": b_minmax("min"), "builtins.max": b_minmax("max"),
    "builtins.int": foldb(int, "int"), "builtins.float": foldb(float, "float"), "builtins.chr": foldb(chr, "chr"),
    "builtins.ord": foldb(ord, "ord"), "builtins.abs": foldb(abs, "abs"), "builtins.repr": foldb(repr, "repr"),
    "builtins.str": b_str, "builtins.bool": b_bool, "pathlib.Path": b_path, "os.path.join": b_pathfold("join"),
    "os.path.dirname": b_pathfold("dirname"), "os.path.abspath": b_pathfold("abspath"), "os.path.realpath": b_pathfold("abspath"),
    "os.path.basename": b_pathfold("basename"), "os.path.normpath": b_pathfold("normpath"),
    "functools.partial": b_partial, "contextlib.closing": b_closing, "contextlib.suppress": b_suppress, "builtins.iter": b_iter,
    "builtins.super": b_super, "builtins.type": b_type, "builtins.map": b_map, "builtins.filter": b_filter,
    "builtins.any": b_anyall(True), "builtins.all": b_anyall(False), "heapq.heappush": b_heappush, "heapq.heappop": b_heappop,
    "functools.reduce": b_reduce, "hashlib.new": b_hashnew, "itertools.chain.from_iterable": None, "itertools.chain": None,
}


def b_chain(I, args, kw, st, node):
    lists = [I.items_of(a, st) for a in args]
    if all(x is not None for x in lists):
        return O(st, I.alloc(st, node, absint.HSeq("list", [y for x in lists for y in x], True)))
    return None


def b_chainfrom(I, args, kw, st, node):
    outer = I.items_of(args[0], st)
    if outer is not None:
        return b_chain(I, outer, kw, st, node)
    return None


BUILTIN["itertools.chain"] = b_chain
BUILTIN["itertools.chain.from_iterable"] = b_chainfrom
for _a in ("sha256", "sha1", "md5", "sha512", "blake2b", "sha224", "sha384"):
    BUILTIN["hashlib." + _a] = b_hash(_a)


def b_product(I, args, kw, st, node):
    import itertools
    lists = [I.items_of(a, st) for a in args]
    if all(x is not None for x in lists):
        return O(st, I.alloc(st, node, absint.HSeq("list", [Sym("tuple", *t) for t in itertools.product(*lists)], True)))
    return None


BUILTIN["itertools.product"] = b_product


# ----------------------------------------------------------------- methods

MUT_LIST = {".append", ".extend", ".insert", ".pop", ".remove", ".clear", ".sort", ".reverse", ".appendleft", ".popleft"}
MUT_SET = {".add", ".discard", ".update", ".remove", ".clear", ".pop"}
MUT_DICT = {".update", ".setdefault", ".pop", ".popitem", ".clear"}


def method(I, name, args, kw, st, node):
    base = args[0]
    rest = args[1:]
    mn = name[1:]
    if is_const(base):
        v = base.args[0]
        if mn == "format" and isinstance(v, str):
            return O(st, fmt(I, v, rest, kw))
        if mn == "join" and isinstance(v, str):
            items = I.items_of(rest[0], st)
            if items is not None:
                parts = []
                for i, x in enumerate(items):
                    if i:
                        parts.append(base)
                    parts.append(x)
                return O(st, I.concat(parts) if parts else C(""))
            return O(st, Sym("call", ".join", base, I.iterkey(rest[0], st)))
        if mn == "translate" and isinstance(v, str) and len(rest) == 1 and rest[0].op == "strmap":
            return O(st, C(v.translate(dict(rest[0].args))))
        if mn in STRMETHODS and all(is_const(a) or a.op == "tuple" and all(is_const(x) for x in a.args) for a in rest) and not kw:
            vals = [a.args[0] if is_const(a) else tuple(x.args[0] for x in a.args) for a in rest]
            r = fold(st, I, node, getattr(v, mn, None), *vals) if hasattr(v, mn) else None
            if r is not None:
                return O(st, r)
    if base.op == "path":
        p = base.args[0]
        if mn in ("resolve", "absolute", "expanduser"):
            return O(st, Sym("path", os.path.normpath(p)))
        if mn == "relative_to" and rest and rest[0].op == "path":
            if os.path.commonpath([p, rest[0].args[0]]) == rest[0].args[0]:
                return O(st, Sym("path", os.path.relpath(p, rest[0].args[0])))
            return [absint.Out("r", st, I.mkexc("ValueError"))]
        if mn in ("joinpath", ):
            t = base
            for a in rest:
                t = I.div(t, a)
            return O(st, t)
        if mn == "as_posix":
            return O(st, C(p))
    if mn == "joinpath":
        t = base
        for a in rest:
            t = I.div(t, a)
        return O(st, t)
    if mn == "iterdir" and not rest:
        outs = I.raise_outs(st, name, OSE, args, kw, node)
        r = I.result(st, name, node)
        I.emit(st, name, args, kw, r, node)
        items = [I.div(base, Sym("entry", r, i)) for i in range(2)]
        return outs + O(st, I.alloc(st, node, absint.HSeq("list", items, False, origin=r)))
    if mn == "relative_to" and len(rest) == 1:
        b, r = base, rest[0]
        bs = (b.args if b.op == "div" else (b, ))
        rs = (r.args if r.op == "div" else (r, ))
        if bs[:len(rs)] == rs:
            return O(st, Sym("relpath", *bs[len(rs):]))
    if mn == "with_name" and base.op == "div" and len(rest) == 1:
        return O(st, Sym("div", *(base.args[:-1] + (rest[0], ))))
    rec = st.heap.get(base) if base.op == "ref" else None
    if isinstance(rec, absint.HSeq):
        if rec.kind.startswith("hash:"):
            if mn == "update":
                st.heap[base] = rec.replace(items=rec.items + tuple(rest))
                I.emit(st, ".update", args, kw, None, node, rec.owner)
                return O(st, NONE)
            if mn in ("hexdigest", "digest"):
                I.emit(st, name, args, kw, None, node, (rec.kind, rec.items))
                return O(st, Sym("call", name, C(rec.kind[5:]), *rec.items))
            if mn == "copy":
                return O(st, I.alloc(st, node, absint.HSeq(rec.kind, rec.items, True)))
        if rec.kind in ("list", "set", "frozenset", "deque"):
            return seq_method(I, mn, base, rec, rest, kw, st, node)
    if isinstance(rec, absint.HDict):
        return dict_method(I, mn, base, rec, rest, kw, st, node)
    if mn == "get" and len(rest) == 2 and rest[1] is NONE:
        return O(st, Sym("call", ".get", base, rest[0]))
    if mn in ("items", "keys", "values") and not rest:
        return O(st, Sym("call", name, base))
    if mn == "replace" and len(rest) == 1:
        return call(I, ".replace_path", args, kw, st, node)
    if mn == "update" or mn in ("append", "add", "extend", "pop", "remove", "setdefault", "insert", "clear", "discard", "popitem", "sort"):
        I.emit(st, "mutate" + name, args, kw, None, node, "opaque")
        r = I.result(st, name, node) if mn in ("pop", "popitem", "setdefault") else NONE
        return O(st, r)
    return None


def fmt(I, v, rest, kw):
    import string
    parts = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(v):
            parts.append(C(lit))
            if field is None:
                continue
            if field == "":
                a = rest[auto]
                auto += 1
            elif field.isdigit():
                a = rest[int(field)]
            elif field in kw:
                a = kw[field]
            else:
                a = Sym("call", "fmtfield", C(field), *rest)
            parts.append(I.tostr(a, ord(conv) if conv else -1, spec or ""))
    except (IndexError, ValueError):
        return Sym("call", ".format", C(v), *rest)
    return I.concat(parts)


def seq_method(I, mn, base, rec, rest, kw, st, node):
    H = absint.HSeq

    def put(**k):
        st.heap[base] = rec.replace(**k)

    if "." + mn in MUT_LIST or (rec.kind in ("set", "frozenset") and "." + mn in MUT_SET):
        I.emit(st, "mutate." + mn, [base] + rest, kw, None, node, rec.owner)
    if mn in ("append", ):
        put(items=rec.items + (rest[0], ))
        return O(st, NONE)
    if mn == "appendleft":
        put(items=(rest[0], ) + rec.items)
        return O(st, NONE)
    if mn == "insert":
        if is_const(rest[0]) and rec.exact:
            its = list(rec.items)
            its.insert(rest[0].args[0], rest[1])
            put(items=tuple(its))
        else:
            put(items=rec.items + (rest[1], ), exact=False)
        return O(st, NONE)
    if mn in ("extend", ) or (mn == "update" and rec.kind == "set"):
        cur_items, exact = rec.items, rec.exact
        for r in rest:
            items = I.items_of(r, st)
            if items is None:
                rr = st.heap.get(r) if r.op == "ref" else None
                items = list(rr.items) if isinstance(rr, H) else [Sym("elem", I.iterkey(r, st))]
                exact = False
            cur_items = cur_items + tuple(items)
        if rec.kind == "set":
            cur_items = tuple(dict.fromkeys(cur_items))
        put(items=cur_items, exact=exact)
        return O(st, NONE)
    if mn == "add":
        if rest[0] not in rec.items:
            put(items=rec.items + (rest[0], ))
        return O(st, NONE)
    if mn in ("remove", "discard"):
        outs = []
        if rest[0] in rec.items:
            its = list(rec.items)
            its.remove(rest[0])
            put(items=tuple(its))
        return O(st, NONE)
    if mn == "clear":
        put(items=(), exact=True)
        return O(st, NONE)
    if mn in ("sort", "reverse"):
        if mn == "reverse" and rec.exact:
            put(items=rec.items[::-1])
        elif rec.exact and not rest and (r := keyed_sort(I, list(rec.items), kw, st, node)) is not None:
            st = r[0]
            st.heap[base] = st.heap[base].replace(items=tuple(r[1]))
        else:
            put(exact=rec.exact and (len(rec.items) < 2 or len(rec.items) <= I.cfg.listing))
        return O(st, NONE)
    if mn in ("pop", "popleft"):
        i = 0 if mn == "popleft" else (rest[0].args[0] if rest and is_const(rest[0]) else -1)
        if rec.items and rec.exact:
            its = list(rec.items)
            try:
                v = its.pop(i)
            except IndexError:
                return [absint.Out("r", st, I.mkexc("IndexError"))]
            put(items=tuple(its))
            return O(st, v)
        if rec.items:
            return O(st, rec.items[i] if -len(rec.items) <= i < len(rec.items) else rec.items[0])
        if rec.exact:
            return [absint.Out("r", st, I.mkexc("IndexError"))]
        return O(st, I.result(st, ".pop", node))
    if mn == "copy":
        return O(st, I.alloc(st, node, H(rec.kind, rec.items, rec.exact, origin=rec.origin)))
    if mn in ("index", "count", "issubset", "issuperset", "isdisjoint"):
        if mn in ("issubset", "issuperset"):
            return O(st, Sym("call", "." + mn, I.freeze(base, st), I.freeze(rest[0], st)))
        if mn == "index" and rec.exact and rest[0] in rec.items:
            return O(st, C(rec.items.index(rest[0])))
        return O(st, Sym("call", "." + mn, base, *rest))
    if mn in ("union", "difference", "intersection", "symmetric_difference"):
        return O(st, Sym("call", "." + mn, I.freeze(base, st), *[I.freeze(r, st) for r in rest]))
    return None


def dict_method(I, mn, base, rec, rest, kw, st, node):
    if "." + mn in MUT_DICT:
        I.emit(st, "mutate." + mn, [base] + rest, kw, None, node, rec.owner)
    if mn == "get":
        k = rest[0]
        dflt = rest[1] if len(rest) > 1 else NONE
        if k in rec.items:
            return O(st, rec.items[k])
        if rec.exact and (not rec.items or ground(k) and all(ground(x) for x in rec.items)):
            return O(st, dflt)
        # either a known key or the default
        return O(st, Sym("call", ".get", base, k, dflt))
    if mn in ("keys", "values", "items"):
        if rec.exact:
            return O(st, Sym("dictview", mn, base))
        return O(st, Sym("call", "." + mn, base))
    if mn == "copy":
        return O(st, I.alloc(st, node, absint.HDict(rec.items, rec.exact)))
    if mn == "update":
        d, exact = dict(rec.items), rec.exact
        for r in rest:
            rr = st.heap.get(r) if r.op == "ref" else None
            if isinstance(rr, absint.HDict):
                d.update(rr.items)
                exact = exact and rr.exact
            else:
                exact = False
        d.update({C(k): v for k, v in kw.items()})
        st.heap[base] = absint.HDict(d, exact, rec.owner)
        return O(st, NONE)
    if mn == "setdefault":
        if rest[0] in rec.items:
            return O(st, rec.items[rest[0]])
        v = rest[1] if len(rest) > 1 else NONE
        st.heap[base] = rec.with_item(rest[0], v)
        return O(st, v)
    if mn == "pop":
        if rest[0] in rec.items:
            d = dict(rec.items)
            v = d.pop(rest[0])
            st.heap[base] = absint.HDict(d, rec.exact, rec.owner)
            return O(st, v)
        if len(rest) > 1:
            return O(st, rest[1])
        return [absint.Out("r", st, I.mkexc("KeyError"))] if rec.exact else O(st, I.result(st, ".pop", node))
    if mn == "clear":
        st.heap[base] = absint.HDict({}, True, rec.owner)
        return O(st, NONE)
    return None
