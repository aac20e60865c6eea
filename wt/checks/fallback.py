"""G03: every text has a reading, the last-resort rule reads any character and gives it back, and it is the dearest rule."""
from ..absint import AnalysisError, HInst
from ..fstlang import CS, Clo, Det, Set, broken_identity, missing
from ..fstmodel import F, HFst
from ..terms import NONE, Sym, is_const
from .wirecheck import Job, chosen, label, spread, variants

SOLID = CS(" \t\n\r\x0b\x0c\xa0\0", True)
ANY = CS("\0", True)


def taggers(g):
    """Tagger expression -> (rule name, verbalizer expression) of the rule instances built for this pipeline."""
    out = {}
    for r, i in g.st.heap.items():
        if isinstance(i, HInst) and r != g.ref and is_const(i.attrs.get("name", NONE)):
            t, v = g.st.heap.get(i.attrs.get("tagger")), g.st.heap.get(i.attrs.get("verbalizer"))
            if isinstance(t, HFst):
                out[t.expr] = (i.attrs["name"].args[0], v.expr if isinstance(v, HFst) else None)
    return out


def weighted(root, rules):
    """[(rule tagger, sum of the weights put on it)] for the outermost rule taggers of the classifier."""
    out, todo, seen = [], [(root, ())], set()
    while todo:
        e, ws = todo.pop()
        if (e, ws) in seen:
            continue
        seen.add((e, ws))
        if e in rules:
            out.append((e, ws))
            continue
        if e.op == "F" and e.args[0] == "w":
            ws = ws + (e.args[2], )
        elif e.op == "w":
            ws = ws + (e.args[1], )
        todo.extend((a, ws) for a in e.args if isinstance(a, Sym))
    return out


def inner(e, rules):
    out, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "w":
            out.add(x.args[1])
        todo.extend(a for a in x.args if isinstance(a, Sym))
    return out


def number(w):
    return w.args[0] if is_const(w) and isinstance(w.args[0], (int, float)) and not isinstance(w.args[0], bool) else None


def g03_job(repo, pipeline, options):
    j = Job(repo, pipeline, options)
    D = Det(j.L.dom(j.g.tagger))
    obs = []
    w = missing(Clo(Set(ANY), 1, None), D)
    obs.append(("total", "", w is None, "no reading for the text %r" % w))
    rules = taggers(j.g)
    found = weighted(j.g.tagger, rules)
    if len(found) < 5:
        raise AnalysisError("anchor lost: %d weighted rules in the classifier" % len(found))
    cost, last = {}, set()
    for e, ws in found:
        name = rules[e][0]
        ns = [number(x) for x in ws]
        obs.append(("fixed", name, all(n is not None and n >= 0 for n in ns), "the cost %s is not a fixed non-negative number" % (ws, )))
        cost.setdefault(e, []).append(sum(n for n in ns if n is not None))
        if missing(Set(SOLID), Det(j.L.dom(e))) is None:
            last.add(e)
    obs.append(("last", "", bool(last), "no rule reads every character"))
    for e in sorted(last, key=str):
        name, v = rules[e]
        bad = "it has no verbalizer" if v is None else broken_identity(j.L.rel(F("comp", e, v)))
        obs.append(("returned", name, bad is None, "the last-resort rule does not give its text back: %s" % bad))
        neg = [n for n in map(number, inner(e, rules)) if n is None or n < 0]
        obs.append(("fixed", name + ":inner", not neg, "a weight inside the last-resort rule is negative or not fixed"))
    floor = min([c for e in last for c in cost[e]], default=None)
    if floor is not None:
        for e, cs in cost.items():
            if e in last:
                continue
            name = rules[e][0]
            obs.append(("dearer", name, max(cs) < floor, "rule %s costs %g, the last-resort rule %g" % (name, max(cs), floor)))
            pos = [n for n in map(number, inner(e, rules)) if n is not None]
            obs.append(("dearer", name + ":inner", max(cs) + max(pos, default=0) < floor,
                        "a weight inside rule %s makes it as dear as the last-resort rule" % name))
    j.stats["reader_states"] = len(D.sets)
    j.stats["weighted_rules"] = len(found)
    return {"obs": obs, "stats": j.stats}


def g03(ck):
    ck.rule("total", "the tagger reads every text of one or more characters (inclusion of the universal language in the classifier's domain; U+0000 excepted)")
    ck.rule("last", "some rule's tagger reads every single character that is not white space")
    ck.rule("returned", "tagging with a last-resort rule and verbalizing gives the text back (the composed relation is the identity)")
    ck.rule("fixed", "every cost put on a rule is a constant non-negative number, and nothing inside the last-resort rule lowers it")
    ck.rule("dearer", "every last-resort rule costs more than every other rule, and no single weight inside another rule makes up the difference")
    for (_, p, opts), r in spread(g03_job, [(ck.repo, p, o) for p, o in variants(ck)]):
        at = label(p)
        for k, n in r["stats"].items():
            ck.note(k, n)
        ck.note("pipelines_and_options", 1)
        for rule, name, ok, msg in r["obs"]:
            ck.ob(rule, "%s%s" % (at, ":" + name if name else ""), ok, msg + chosen(opts))
    ck.floor("total", 6)
    ck.floor("dearer", 40)
    ck.floor("fixed", 50)
