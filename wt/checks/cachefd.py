"""C05: descriptor and file-object typestate over every public cache operation."""
import ast

from ..absint import AnalysisError, HInst, Out
from ..query import strip
from ..terms import C, FALSE, Sym, is_const, show
from .cache import CLS, FAKE, P, bundle, interp, method

OPEN_FD = {"os.open", "os.dup", "os.openat", "os.memfd_create", "os.open_osfhandle"}
OPEN_FILE = {"open", "io.open", ".open", "os.fdopen", "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "socket.socket"}
CLOSE = {"os.close", ".close", ".__exit__"}


def entries(I, st, ref, name=CLS):
    """Public operations of a class: every method a caller can invoke from outside."""
    cls = st.heap[ref].cls
    out = []
    for k in reversed(I.mro(cls)):
        if k.op != "class":
            continue
        for n, node in I.classes[k].members.items():
            if isinstance(node, ast.FunctionDef) and not n.startswith("_") and n not in out:
                if "property" in [getattr(d, "id", "") for d in node.decorator_list]:
                    continue
                out.append(n)
    return out


def get(st):
    return dict((r, (s, own)) for r, s, own in st.aux.get("fd", ()))


def put(st, d):
    st.aux["fd"] = tuple(sorted(((r, s, own) for r, (s, own) in d.items()), key=repr))


class Typestate:
    def __init__(self, ck, label):
        self.ck, self.label = ck, label
        self.opened = set()

    def __call__(self, I, st, e):
        n = e.name
        if n.startswith("raised ") or n in ("new", "iter", "while"):
            return
        d = get(st)
        here = e.stack[-1].split(":")[-1] if e.stack else "<module>"
        kw = dict(e.kw)
        ck = self.ck
        if n in CLOSE and e.args:
            x = strip(e.args[0])
            if x in d:
                s, own = d[x]
                isfile = x.op == "res" and x.args[0] in OPEN_FILE
                if s == "closed" and not isfile:
                    ck.ob("once", "%s:%s:%s" % (self.label, here, x.args[0] if x.op == "res" else "descriptor"), False, "closed twice on a path")
                if s == "open":
                    d[x] = ("closed", own)
                    if own is not None and own in d:
                        if d[own][0] == "closed":
                            ck.ob("once", "%s:%s:fdopen" % (self.label, here), False, "the descriptor behind a file object is closed twice")
                        d[own] = ("closed", None)
                put(st, d)
            return
        # uses
        for a in list(e.args) + list(kw.values()):
            a = strip(a)
            if a in d and d[a][0] == "closed":
                ck.ob("use", "%s:%s:%s" % (self.label, here, n), False, "a descriptor is passed to %s after it was closed" % n)
            elif a in d:
                ck.ob("use", "%s:%s:%s" % (self.label, here, n), True)
        if n in OPEN_FD and e.res is not None:
            d[e.res] = ("open", None)
            self.opened.add(e.site)
            put(st, d)
        elif n == "tempfile.mkstemp" and e.res is not None:
            d[Sym("sub", e.res, C(0))] = ("open", None)
            self.opened.add(e.site)
            put(st, d)
        elif n in OPEN_FILE and e.res is not None:
            src = strip(e.args[0]) if e.args else None
            cf = kw.get("closefd", e.args[6] if n == "open" and len(e.args) > 6 else None)
            if src is not None and src in d:
                d[e.res] = ("open", None if cf is FALSE else src)
            elif src is not None and src.op in ("sub", "res", "param", "attr") and n == "os.fdopen":
                d[e.res] = ("open", None)
            else:
                d[e.res] = ("open", None)
            self.opened.add(e.site)
            put(st, d)


def leaks(st):
    d = get(st)
    owned = {own for s, own in d.values() if own is not None and s == "open"}
    out = []
    for x, (s, own) in d.items():
        if s == "open" and x not in owned:
            if x.op == "res" and x.args[0] in OPEN_FILE and own is None and any(
                    y.op == "res" and y.args[0] in OPEN_FD for y in [x]):
                continue
            out.append(x)
    return out


def judge(ck, label, outs):
    for o in outs:
        for x in leaks(o.st):
            site = x.args[1] if x.op == "res" else show(x)
            fn = str(site).split(":")[1] if x.op == "res" else label
            how = "raising %s" % (o.v.args[0] if isinstance(o.v, Sym) and o.v.op == "exc" else "an error") if o.k == "r" else "returning"
            ck.ob("closed", "%s:%s:%s" % (label, fn, x.args[0] if x.op == "res" else "descriptor"), False, "left open when %s" % how, site)
        ck.ob("closed", "%s:exit-%s" % (label, "error" if o.k == "r" else "normal"), True)


def body_outs(v, st):
    s2 = st.clone()
    return [Out("v", st, Sym("const", None)), Out("r", s2, Sym("exc", "Exception", True, frozenset(), (("call", "body"), )))]


def c05(ck):
    ck.rule("closed", "at every exit of the operation no descriptor or file object it opened is still open")
    ck.rule("once", "no descriptor is closed a second time on any path")
    ck.rule("use", "no descriptor is passed to a call after it was closed")
    total = 0
    for osname in ("posix", "nt"):
        probe = interp(ck, osname=osname)
        st, ref, attrs = bundle(probe)
        names = entries(probe, st, ref)
        if "load" not in names or "publish" not in names or "lock" not in names:
            raise AnalysisError("anchor lost: CacheBundle's public operations are %s" % names)
        for nm in names:
            label = nm if osname == "posix" else nm + "@nt"
            ts = Typestate(ck, label)
            I = interp(ck, monitor=ts, osname=osname)
            st, ref, attrs = bundle(I)
            m = I.find_member(st.heap[ref].cls, nm)
            fi = I.funcs[m]
            npos = len(fi.node.args.args) - len(fi.node.args.defaults) - 1
            args = [P(a.arg) for a in fi.node.args.args[1:1 + npos]]
            if nm == "lock":
                args = [P("timeout")]
            if "contextmanager" in I.decorators(fi):
                outs = I.call_func(m, [ref] + args, {}, st, FAKE, cm_body=body_outs)
            else:
                outs = I.call_func(m, [ref] + args, {}, st, FAKE)
            I.stats["paths"] += len(outs)
            judge(ck, label, outs)
            total += len(ts.opened)
            ck.interp(I)
    ts = Typestate(ck, "fingerprint")
    I = interp(ck, monitor=ts)
    outs = I.run("tn.cache:production_source_fingerprint", [])
    judge(ck, "fingerprint", outs)
    total += len(ts.opened)
    ck.interp(I)
    ck.note("open_sites", total)
    if total < 6:
        raise AnalysisError("only %d open sites were met: anchor lost" % total)
    ck.floor("closed", 12)
