"""G04: building one rule never alters a graph another rule uses.

Two views of the same construction code: an ownership analysis at every in-place graph operation and attribute store
(who else can reach the object now?), and history independence (the graphs of a pipeline built after any other pipeline in
the same process are, as expressions, the graphs it has when built alone).
"""
import ast

from ..absint import AnalysisError, Config, HDict, HFrame, HInst, HSeq, Out, State
from ..fstmodel import HFst
from ..grammar import Grammar, GrammarInterp, construct
from ..terms import C, NONE, Sym, is_const
from .cachebuild import PIPELINES
from .wirecheck import chosen, label, spread, variants


def frame_self(fr):
    """(function, receiver) of a live frame; receiver None for functions and static methods."""
    node = fr.func.node
    if fr.func.cls is None or isinstance(node, ast.Lambda) or not node.args.args:
        return fr.func, None
    for d in node.decorator_list:
        if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod"):
            return fr.func, None
    return fr.func, fr.vars.get(node.args.args[0].arg)


class Ownership:
    def __init__(self):
        self.bad = {}        # construct -> message
        self.ops = 0
        self.stores = 0

    def __call__(self, I, st, e):
        if e.name == "fst:mutate":
            how, preserving = e.extra[0], e.extra[1]
            if not preserving:
                self.ops += 1
                self.judge(I, st, e, e.args[0], "%s is applied in place to a graph" % how)
        elif e.name == "store_attr" and e.args[0].op == "ref":
            rec = st.heap.get(e.args[0])
            if isinstance(rec, HInst):
                self.stores += 1
                self.store(I, st, e)

    def context(self, I, st):
        """(receiver of the running function, instances under construction)."""
        under, top = set(), None
        for n, f in enumerate(I.frames):
            fr = st.heap.get(f)
            if not isinstance(fr, HFrame) or fr.func is None:
                continue
            info, me = frame_self(fr)
            if n == len(I.frames) - 1:
                top = me
                p = fr
                while me is None and p.parent is not None and isinstance(st.heap.get(p.parent), HFrame):
                    p = st.heap[p.parent]
                    if p.func is None:
                        break
                    me = top = frame_self(p)[1]
            if me is not None and info.name == "__init__":
                under.add(me)
        return top, under

    def reach(self, I, st):
        """Live instances and module names, with what they hold directly or through containers."""
        seen, todo, inst = set(), [], []
        for f in I.frames:
            rec = st.heap.get(f)
            if rec is not None:
                todo += [v for v in rec.children() if isinstance(v, Sym)]
        for held in I.inflight:
            todo += [v for v in held if isinstance(v, Sym)]
        glob = [(k, v) for k, v in st.aux.items() if isinstance(k, Sym) and isinstance(v, Sym)]
        todo += [v for _, v in glob]
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            rec = st.heap.get(v)
            if isinstance(rec, HInst):
                inst.append((v, rec))
            if rec is not None:
                todo += [x for x in rec.children() if isinstance(x, Sym)]
            elif v.op in ("tuple", "bound"):
                todo += [x for x in v.args if isinstance(x, Sym)]
        return glob, inst

    def holds(self, st, v, ref):
        todo, seen = [v], set()
        while todo:
            x = todo.pop()
            if x is ref:
                return True
            if x in seen or not isinstance(x, Sym):
                continue
            seen.add(x)
            rec = st.heap.get(x)
            if isinstance(rec, (HSeq, HDict)):
                todo += list(rec.children())
            elif rec is None and x.op == "tuple":
                todo += list(x.args)
        return False

    def judge(self, I, st, e, ref, what):
        where = e.stack[-1] if e.stack else e.site
        if ref.op != "ref":
            self.bad[where] = "%s defined in a module or library" % what
            return
        if isinstance(e.extra[2], str) and e.extra[2].startswith("module"):
            self.bad[where] = "%s defined at module level" % what
            return
        top, under = self.context(I, st)
        glob, inst = self.reach(I, st)
        names = [k for k, v in glob if self.holds(st, v, ref)]
        if names and (I.frames or len({k.args[0] for k in names}) > 1):
            for k in names[:1]:
                self.bad[where] = "%s held by the module name %s" % (what, k.args[-1])
        for r, rec in inst:
            for a, v in rec.attrs.items():
                if self.holds(st, v, ref) and not (r is top and r in under):
                    who = rec.cls.args[-1] if rec.cls.op == "class" else "?"
                    self.bad[where] = "%s that is %s.%s%s" % (what, who, a, "" if r is not top else ", after construction")

    def store(self, I, st, e):
        base = e.args[0]
        top, under = self.context(I, st)
        if base is top or base in under:
            return
        fr = st.heap.get(I.frames[-1]) if I.frames else None
        glob, inst = self.reach(I, st)
        who = st.heap[base].cls
        m = I.find_member(who, "build_tagger") or I.find_member(who, "add_tokens")
        if m is None:
            return
        for r, rec in inst:
            if r is not base and any(self.holds(st, v, base) for v in rec.attrs.values()):
                self.bad[e.stack[-1] if e.stack else e.site] = "the attribute %s of a finished %s is replaced" % (e.args[1].args[0], who.args[-1])


def built(I, pipeline, options, st):
    return construct(I, pipeline, options, st)


def g04_job(repo, pipeline, options, others):
    own = Ownership()
    I = GrammarInterp(repo, Config(exceptions=False, unroll=2, interest=lambda n: False, monitor=own))
    g = construct(I, pipeline, options, State())
    out = []
    for q, o in others:
        try:
            J = GrammarInterp(repo, Config(exceptions=False, unroll=2, interest=lambda n: False))
            first = construct(J, q, o, State())
            again = construct(J, pipeline, options, first.st.clone())
            same = again.tagger is g.tagger and again.verbalizer is g.verbalizer
            out.append((label(q) + chosen(o), same))
        except AnalysisError as e:
            raise AnalysisError("%s after %s: %s" % (pipeline, q, e))
    return {"bad": own.bad, "ops": own.ops, "stores": own.stores, "history": out, "functions": len(I.stats["functions"])}


def g04(ck):
    ck.rule("owned", "an in-place graph operation is applied only to an object no other instance, table or module name can reach at that point; "
            "a rule's own attributes only while that rule is being constructed, by its own methods")
    ck.rule("history", "a pipeline built after another one in the same process has exactly the graph expressions it has when built alone")
    vs = variants(ck)
    jobs = []
    for p, o in vs:
        if not o:
            others = [(q, {}) for q in PIPELINES] + [(p, x) for q, x in vs if q == p and x]
            if not ck.thorough:
                others += one_flips(ck, p)
        else:
            others = [(p, {})]
        jobs.append((ck.repo, p, o, others))
    for (_, p, opts, _), r in spread(g04_job, jobs):
        at = label(p)
        ck.note("in_place_operations", r["ops"])
        ck.note("attribute_stores", r["stores"])
        ck.note("functions_entered", r["functions"])
        ck.note("histories", len(r["history"]))
        for where, msg in sorted(r["bad"].items()):
            ck.ob("owned", where, False, msg + chosen(opts))
        ck.ob("owned", at + ":all other operations", True)
        for q, same in r["history"]:
            ck.ob("history", "%s after %s" % (at, q), same, "building %s first changes the graphs of %s%s" % (q, at, chosen(opts)))
    if ck.analysed.get("in_place_operations", 0) < 10:
        raise AnalysisError("anchor lost: %d in-place graph operations met" % ck.analysed.get("in_place_operations", 0))
    ck.floor("history", 36)


def one_flips(ck, p):
    from ..grammar import pipeline_init
    return [(p, {k: not v}) for k, v in sorted(pipeline_init(ck.repo, p).items()) if isinstance(v, bool)]
