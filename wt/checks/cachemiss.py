"""C08: damaged cache contents are a miss, never an error (escaping-exception analysis over unknown file contents)."""
from ..absint import AnalysisError
from ..models import SPEC
from ..terms import NONE, Sym, is_const, show, subterms
from .cache import FAKE, P, bundle, interp, method
from .cachebuild import PIPELINES, role_names, roles_of, setup, summaries

PARSERS = {"json.loads", "json.load", "pickle.loads", "ast.literal_eval", "marshal.loads"}
DERIVED_SAFE = {"isinstance", "len", "set", "frozenset", "str", "repr", "sorted", "list", "tuple", ".keys", ".items", ".values", "type", "bool"}
PATH_ERROR = "tn.cache.CachePathError"


def from_disk(t):
    """Terms derived from decoded cache content: their shape is whatever was on disk."""
    if t.op in ("cmp", "not", "and", "or") or t.op == "call" and t.args[0] in DERIVED_SAFE:
        return False
    return any(x.op in ("call", "res") and x.args and x.args[0] in PARSERS for x in subterms(t))


def origin(v):
    for p in v.args[3] if len(v.args) > 3 else ():
        if isinstance(p, tuple) and len(p) == 2 and p[0] == "call":
            return p[1]
    return "raise"


def place(v):
    for p in v.args[3] if len(v.args) > 3 else ():
        if isinstance(p, tuple) and len(p) == 2 and p[0] == "site":
            return str(p[1]).split(":")[1]
    return "?"


def modelled(name):
    return name in SPEC or "builtins." + name in SPEC or name in ("raise", "comparison", "containment", "arithmetic", "subscript")


def judge(ck, I, label, outs, missing_ok):
    """Every escaping exception must be CachePathError or an operating-system error (not 'file not found' unless missing_ok)."""
    for o in outs:
        if o.k != "r":
            ck.ob("miss", "%s:exit-normal" % label, True)
            continue
        v = o.v
        if not (isinstance(v, Sym) and v.op == "exc"):
            ck.ob("miss", "%s:raise" % label, False, "an unrecognised error %s escapes" % show(v, 3))
            continue
        name, upper, excluded = v.args[:3]
        src = origin(v)
        if not modelled(src):
            continue
        mro = I.name_mro(name)
        here = "%s:%s:%s" % (label, place(v), src)
        if PATH_ERROR in mro:
            ok, why = True, ""
        elif "OSError" in mro:
            missing = "FileNotFoundError" in mro or upper and "FileNotFoundError" in builtin_subs(name) and not any(
                x in I.name_mro("FileNotFoundError") for x in excluded)
            ok, why = missing_ok or not missing, "a missing file or directory makes it raise instead of reporting a miss"
        else:
            ok, why = False, "%s%s escapes for some file contents" % (name, " (or a subclass)" if upper else "")
        ck.ob("miss", here, ok, why)


def builtin_subs(name):
    return {"FileNotFoundError"} if name in ("OSError", "Exception", "BaseException", "FileNotFoundError") else set()


def c08(ck):
    ck.rule("miss", "no exception other than CachePathError and OSError (FileNotFoundError excluded) escapes a lookup, whatever the parsed bytes contain; "
            "recovery and quarantine likewise (there a vanished file may surface)")
    ck.rule("reported", "a lookup has an outcome that reports a miss (None) and one that returns graphs")
    ck.rule("rebuild", "in build_fst, every path on which the lookup under the lock misses goes on to build and publish, raising nothing of its own before the build")
    for osname in ("posix", "nt") if ck.thorough else ("posix", ):
        I = interp(ck, exceptions=True, osname=osname, tainted=from_disk)
        st, ref, attrs = bundle(I)
        outs = method(I, ref, "load", [], st)
        vals = {o.v is NONE for o in outs if o.k == "v"}
        ck.ob("reported", "load@%s" % osname, vals == {True, False}, "load only has %s outcomes" % ("missing" if vals == {True} else "hit"))
        judge(ck, I, "load", outs, False)
        raised = {e for e in I.stats["functions"]}
        ck.interp(I)
        for nm in ("recover_residuals", "remove_invalid"):
            I = interp(ck, exceptions=True, osname=osname, tainted=from_disk, disj=1, listing=1,
                       exc_filter=lambda n: n in (".decode", "pynini.Fst.read_from_string", "int", "float") or n in PARSERS)
            st, ref, attrs = bundle(I)
            if I.find_member(st.heap[ref].cls, nm) is None:
                continue
            outs = method(I, ref, nm, [], st)
            judge(ck, I, nm, outs, True)
            ck.interp(I)
    names = role_names(ck)
    sums = summaries(ck, "posix")

    def mon(I, st, e):
        if e.name == "BUILD":
            st.aux["built"] = True
        elif e.name == "BUNDLE.publish":
            st.aux["published"] = True
        elif e.name == "BUNDLE.load" and not st.aux.get("published"):
            st.aux["pre"] = st.aux.get("pre", 0) + 1
    for variant in PIPELINES:
        I, ref, outs = setup(ck, mon, variant, sums, roles_of(names), exceptions=True, disj=1, listing=1, exc_filter=lambda n: n == "BUILD")
        here = "build_fst[%s]" % variant.split(":")[0]
        rebuilt = False
        for o in outs:
            if o.k == "r":
                if o.st.aux.get("pre", 0) >= 2:
                    ck.ob("rebuild", here + ":error", o.st.aux.get("built") is True or origin(o.v) == "build",
                          "after the second lookup missed, construction raises %s before building" % o.v.args[0])
            elif o.st.aux.get("built") and o.st.aux.get("published"):
                rebuilt = True
        ck.ob("rebuild", here, rebuilt, "no path rebuilds and publishes after a miss")
    for r in ("miss", "reported", "rebuild"):
        ck.floor(r, 1)
