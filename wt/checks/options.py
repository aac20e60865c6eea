"""G05: every constructor option reaches the stage that implements it, with that stage's data, and no other option moves it."""
import itertools

from ..absint import AnalysisError
from ..fstlang import Comp, Lang
from ..fstmodel import F
from ..grammar import extract, pipeline_init
from ..terms import C, NONE, Sym, is_const
from .cachebuild import PIPELINES
from .wirecheck import chosen, label, spread

BUDGET = 8000


def oov(*texts):
    return list(texts) + ["<oov>%s</oov>" % t for t in texts]


def started(name):
    """Any tagged text whose first token is called `name`."""
    return F("cat", F("acc", C(name + " {")), F("clo", F("set", "VALID_UTF8_CHAR"), C(0), C(None)))


# The documented meaning of every option: a text, what the pipeline may make of it, and exactly when (the other options do not matter).
# A string list is what the whole pipeline writes; a token name is what the tagger calls the text.
STAGES = {
    "tn/chinese": [
        ("体", oov("体"), {}),
        ("體", oov("体"), {"traditional_to_simple": True}), ("體", oov("體"), {"traditional_to_simple": False}),
        ("呃", [""], {"remove_interjections": True}), ("呃", oov("呃"), {"remove_interjections": False}),
        ("、", [""], {"remove_puncts": True}), ("、", oov("、"), {"remove_puncts": False}),
        ("Ａ", oov("A"), {"full_to_half": True}), ("Ａ", oov("Ａ"), {"full_to_half": False}),
        ("☃", ["<oov>☃</oov>"], {"tag_oov": True}), ("☃", ["☃"], {"tag_oov": False}),
        ("儿", [""], {"remove_erhua": True}),
    ],
    "tn/japanese": [
        (".com", ["ドットコム"], {"transliterate": True}),
        ("、", [""], {"remove_puncts": True}), ("、", oov("、"), {"remove_puncts": False}),
        ("Ａ", oov("A"), {"full_to_half": True}), ("Ａ", oov("Ａ"), {"full_to_half": False}),
        ("☃", ["<oov>☃</oov>"], {"tag_oov": True}), ("☃", ["☃"], {"tag_oov": False}),
    ],
    "itn/chinese": [
        ("呃", [""], {"remove_interjections": True}), ("呃", ["呃"], {"remove_interjections": False}),
        ("二十三", ["23"], {"enable_standalone_number": True}),
        ("三", ["3"], {"enable_standalone_number": True, "enable_0_to_9": True}),
        ("二百万", ["2000000"], {"enable_standalone_number": True, "enable_million": True}),
        ("二百万千克", ["2000000kg"], {"enable_million": True}),
        ("三十千克", ["30kg"], {}), ("三千克", ["3kg"], {"enable_0_to_9": True}),
        ("三十美元", "money", {}), ("三美元", "money", {"enable_0_to_9": True}),
    ],
    "itn/japanese": [
        ("ＡＢ", ["AB"], {"full_to_half": True}), ("ＡＢ", ["ＡＢ"], {"full_to_half": False}),
        ("二十三", ["23"], {"enable_standalone_number": True}),
        ("三", ["3"], {"enable_standalone_number": True, "enable_0_to_9": True}),
        ("二百万", ["2000000"], {"enable_standalone_number": True, "enable_million": True}),
        ("二百万キログラム", ["2000000kg"], {"enable_million": True}),
        ("三十キログラム", ["30kg"], {}), ("三キログラム", ["3kg"], {"enable_0_to_9": True}),
        ("三十ドル", "money", {}), ("三ドル", "money", {"enable_0_to_9": True}),
    ],
}

# the data set that belongs to a stage: part of the graphs exactly when the option is on
DATA = {
    "tn/chinese": {"traditional_to_simple": ["char/traditional_to_simple.tsv"], "remove_interjections": ["default/blacklist.tsv"],
                   "full_to_half": ["char/fullwidth_to_halfwidth.tsv"],
                   "tag_oov": ["char/charset_national_standard_2013_8105.tsv", "char/charset_extension.tsv"]},
    "tn/japanese": {"transliterate": ["pyopenjtalk/transliteration.tsv"], "remove_interjections": ["default/blacklist.tsv"],
                    "full_to_half": ["char/fullwidth_to_halfwidth.tsv"],
                    "tag_oov": ["char/hiragana_and_katakana.tsv", "char/common_chinese_char.tsv"]},
    "itn/chinese": {"remove_interjections": ["default/blacklist.tsv"]},
    "itn/japanese": {"full_to_half": ["char/fullwidth_to_halfwidth.tsv"]},
}


def booleans(repo, p):
    return {k: v for k, v in sorted(pipeline_init(repo, p).items()) if isinstance(v, bool)}


def settings(ck, p):
    """Every single change of the defaults and all of them together; with --thorough every combination."""
    base = booleans(ck.repo, p)
    if ck.thorough:
        return [dict(zip(base, v)) for v in itertools.product(*[(base[b], not base[b]) for b in base])]
    out = [dict(base)] + [dict(base, **{b: not base[b]}) for b in base]
    return out + [{b: not base[b] for b in base}] if len(base) > 1 else out


def reaches(L, parts):
    """Is there a path through the composition of these relations?"""
    m = L.rel(parts[0])
    for e in parts[1:]:
        m = Comp(m, L.rel(e))
    seen, todo = {m.start}, [m.start]
    while todo:
        s = todo.pop()
        if m.fin(s):
            return True
        for i, o, t in m.arcs(s):
            if t not in seen:
                seen.add(t)
                todo.append(t)
    return False


def files(*exprs):
    out, seen, todo = set(), set(), list(exprs)
    while todo:
        e = todo.pop()
        if e in seen:
            continue
        seen.add(e)
        if e.op == "F" and e.args[0] == "file" and is_const(e.args[1]):
            out.add(e.args[1].args[0])
        todo.extend(a for a in e.args if isinstance(a, Sym))
    return out


def g05_data(repo, pipeline, combos):
    """Per setting: the data files in the graphs, and whether changing one option changes the graphs."""
    out, graphs = [], {}
    for o in combos:
        g = extract(repo, pipeline, o)
        graphs[tuple(sorted(o.items()))] = (g.tagger, g.verbalizer)
        out.append((o, sorted(files(g.tagger, g.verbalizer))))
    same = []
    pairs = 0
    for o in combos:
        for k in o:
            q = tuple(sorted(dict(o, **{k: not o[k]}).items()))
            if o[k] and q in graphs:
                pairs += 1
                if graphs[q] == graphs[tuple(sorted(o.items()))]:
                    same.append((k, o))
    return {"files": out, "same": same, "pairs": pairs}


def g05_probe(repo, pipeline, combos, probes):
    L = Lang(BUDGET)
    out = []
    for o in combos:
        g = extract(repo, pipeline, o)
        got = []
        for text, want, when in probes:
            if isinstance(want, str):
                got.append(reaches(L, [F("acc", C(text)), g.tagger, started(want)]))
            else:
                got.append(any(reaches(L, [F("acc", C(text)), g.tagger, g.verbalizer, F("acc", C(w))]) for w in want))
        out.append((o, got))
    return out


def job(kind, repo, pipeline, *rest):
    return kind, (g05_data if kind == "data" else g05_probe)(repo, pipeline, *rest)


def g05(ck):
    ck.rule("effect", "turning an option on changes the tagger or the verbalizer that is built")
    ck.rule("stage", "what the option is documented to do to a text is a path of the pipeline's graphs exactly when the option is set that way, whatever the "
            "other options are")
    ck.rule("data", "the data set that belongs to a stage is part of the graphs exactly when its option is on")
    jobs, known = [], {}
    for p in PIPELINES:
        at, base = label(p), booleans(ck.repo, p)
        if not base:
            continue
        known[at] = base
        combos = settings(ck, p)
        stages = STAGES.get(at, [])
        gone = {k for _, _, w in stages for k in w} - set(base)
        if gone:
            raise AnalysisError("anchor lost: %s has no option %s" % (p, sorted(gone)))
        size = max(1, (len(combos) + 2) // 3)
        order = sorted(combos, key=lambda o: [o[k] for k in sorted(o)])
        jobs += [("probe", ck.repo, p, order[i:i + size], stages) for i in range(0, len(order), size)]
        jobs.append(("data", ck.repo, p, combos))
    for a, (kind, r) in spread(job, jobs):
        at = label(a[2])
        if kind == "data":
            for o, fs in r["files"]:
                for k, names in DATA.get(at, {}).items():
                    for n in names:
                        there = any(f.endswith("/" + at + "/data/" + n) for f in fs)
                        ck.ob("data", "%s:%s:%s" % (at, k, n), there == o[k],
                              "%s the graphs with %s=%s%s" % ("part of" if there else "missing from", k, o[k], others(o, [k], known[at])))
            bad = {(k, tuple(sorted(o.items()))) for k, o in r["same"]}
            ck.note("settings", len(r["files"]))
            for k in known[at]:
                l = [o for kk, o in r["same"] if kk == k]
                ck.ob("effect", "%s:%s" % (at, k), not l, "the option changes neither graph%s" % (others(l[0], [k], known[at]) if l else ""))
        else:
            for o, got in r:
                for (text, want, when), has in zip(a[4], got):
                    due = all(o[k] == v for k, v in when.items())
                    what = "is tagged as %s" % want if isinstance(want, str) else "becomes %r" % want[0]
                    ck.ob("stage", "%s:%s" % (at, ",".join(sorted(when)) or "always") + ":" + text, has == due,
                          "%r %s %s although %s%s" % (text, what, "" if has else "nowhere", ", ".join("%s=%s" % (k, o[k]) for k in sorted(when)) or "it always should",
                                                      others(o, when, known[at])))
    ck.floor("effect", 10)
    ck.floor("stage", 150)
    ck.floor("data", 40)


def others(o, keys, base):
    return chosen({k: v for k, v in o.items() if k not in keys and v != base[k]})
