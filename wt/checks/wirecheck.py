"""G01, G02, T03: what taggers write, what verbalizers read, over the whole language of each pipeline's grammar.

Each pipeline is one job: its grammar is extracted from the source as an expression, the expression is turned into lazy
machines over character classes, and the analyses of wire.py run on them to a fixpoint. Nothing is executed or sampled.
"""
import itertools
import multiprocessing
import multiprocessing.connection
import os
import resource
import sys
import traceback

from ..absint import AnalysisError, HInst
from ..fstlang import Det, Lang, broken_identity
from ..fstmodel import F, HFst
from ..grammar import extract, pipeline_init
from ..terms import C, NONE, Sym, is_const
from ..wire import Closed, Copying, Decoding, Protocol, Skeletons
from .cache import FAKE
from .cachebuild import PIPELINES

BUDGET = 8000


def variants(ck):
    """(pipeline, options): the defaults, and with --thorough every combination of the boolean options."""
    out = []
    for p in PIPELINES:
        base = pipeline_init(ck.repo, p)
        bools = [k for k, v in sorted(base.items()) if isinstance(v, bool)]
        out.append((p, {}))
        if ck.thorough:
            for vals in itertools.product(*[(base[b], not base[b]) for b in bools]):
                o = {b: v for b, v in zip(bools, vals) if v != base[b]}
                if o:
                    out.append((p, o))
    return out


def label(pipeline):
    a = pipeline.split(":")[0].split(".")
    return a[0] + "/" + a[1]


def guarded(job):
    fn, args = job
    sys.setrecursionlimit(200000)
    try:
        return args, fn(*args), None
    except AnalysisError as e:
        return args, None, "%s: %s" % (args[1], e)
    except MemoryError:
        return args, None, "%s: the analysis ran out of memory" % (args[1], )
    except Exception:
        return args, None, "%s: %s" % (args[1], traceback.format_exc())


def available():
    """Memory this machine can still give out, in bytes."""
    try:
        with open("/proc/meminfo", encoding="ascii") as f:
            return next(int(l.split()[1]) for l in f if l.startswith("MemAvailable")) * 1024
    except (OSError, StopIteration, ValueError):
        return 16 << 30


def worker(pipe, job, limit):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    except (OSError, ValueError):
        pass
    out = guarded(job)
    pipe.send(out)
    pipe.close()
    if os.environ.get("WT_PEAK"):
        sys.stderr.write("%s peak %d MB\n" % (job[1][1:3], resource.getrusage(resource.RUSAGE_SELF).ru_maxrss >> 10))


def spread(fn, jobs):
    """Runs jobs in parallel processes; yields (args, result) and raises the errors after all results."""
    n = max(1, min(len(jobs), os.cpu_count() or 1, available() // (3 << 30)))
    limit = 3 << 30
    fork = multiprocessing.get_context("fork")
    errors, todo, live = [], list(jobs)[::-1], {}
    try:
        while todo or live:
            while todo and len(live) < n:
                job = todo.pop()
                r, w = fork.Pipe(False)
                p = fork.Process(target=worker, args=(w, (fn, job), limit), daemon=True)
                p.start()
                w.close()
                live[r] = (p, job)
            for r in multiprocessing.connection.wait(list(live)):
                p, job = live.pop(r)
                try:
                    args, res, err = r.recv()
                except EOFError:
                    args, res, err = job, None, "%s: the analysis ended without a result (out of memory?)" % (job[1], )
                r.close()
                p.join()
                if err:
                    errors.append(err)
                else:
                    yield args, res
    finally:
        for p, job in live.values():
            p.kill()
    if errors:
        raise AnalysisError("; ".join(sorted(errors))[:3000])


class Job:
    """One pipeline under one choice of options."""

    def __init__(self, repo, pipeline, options):
        self.pipeline, self.options = pipeline, options
        self.g = extract(repo, pipeline, options)
        self.L = Lang(BUDGET)
        self.stats = {}
        self._A = self._sk = None
        self.faults = {}

    def skeletons(self):
        if self._sk is None:
            self._A = Closed(self.L.rng(self.g.tagger))
            self._sk = Skeletons(self._A, lambda kind, detail, where: self.faults.setdefault((kind, where), detail))
            self.stats["tagged_language_states"] = len(self._sk.starts) + len(self._sk.values)
            self.stats["token_forms"] = sum(len(set(f)) for f in self._sk.starts.values())
        return self._sk

    def protocol(self):
        misses = {}

        def miss(kind, token, keys, detail):
            if len(misses) < 400:
                misses.setdefault((kind, token, tuple(keys)), detail)
        sk = self.skeletons()
        P = Protocol(sk, Det(self.L.dom(self.g.verbalizer)), self.g.orders(), miss).run()
        self.stats["protocol_pairs"] = P.pairs
        self.stats["reordered_forms"] = P.forms
        self.stats["reader_states"] = len(P.D.sets)
        return sk, P, misses

    def rules(self):
        """Token name -> reading relations of the rules of that name that are part of this pipeline's verbalizer."""
        subs, todo = set(), [self.g.verbalizer]
        while todo:
            e = todo.pop()
            if e not in subs:
                subs.add(e)
                todo.extend(a for a in e.args if isinstance(a, Sym))
        out = {}
        for r, i in self.g.st.heap.items():
            if isinstance(i, HInst) and "verbalizer" in i.attrs and is_const(i.attrs.get("name", NONE)):
                h = self.g.st.heap.get(i.attrs["verbalizer"])
                if isinstance(h, HFst) and h.expr in subs and h.expr is not self.g.verbalizer:
                    out.setdefault(i.attrs["name"].args[0], {})[h.expr] = (r, i)
        return out


# ------------------------------------------------------------------ G01
def g01_job(repo, pipeline, options):
    j = Job(repo, pipeline, options)
    faults = {}
    c = Copying(j.L.rel(j.g.tagger), lambda kind, name, key, detail: faults.setdefault((kind, name, key), detail))
    j.stats["writing_states"] = c.states
    return {"faults": faults, "copied": sorted(c.copied), "dropped": len(c.dropped), "markers": {k: len(v) for k, v in c.markers.items()}, "stats": j.stats}


RULE_OF = {"stand-in": "marker", "rewrite": "copied", "drop": "kept"}


def g01(ck):
    ck.rule("copied", "every character a tagger writes into a field is a character it read there, copied; text is never written in place of other text "
            "(explored over every path of the composed tagging transducer)")
    ck.rule("marker", "a field written without reading anything is a fixed marker: nothing of the text was dropped for it")
    ck.rule("kept", "nothing but white space and delimiters (punctuation) is read by a tagger without being written")
    for (_, p, opts), r in spread(g01_job, [(ck.repo, p, o) for p, o in variants(ck)]):
        at = label(p)
        for k, n in r["stats"].items():
            ck.note(k, n)
        ck.note("pipelines_and_options", 1)
        bad = {}
        for (kind, name, key), detail in r["faults"].items():
            bad.setdefault((RULE_OF[kind], name, key), detail)
        ck.ob("kept", at, not any(k[0] == "drop" for k in r["faults"]), "the tagger loses text")
        for name, key in r["copied"]:
            if ("copied", name, key) not in bad:
                ck.ob("copied", "%s:%s.%s" % (at, name, key), True)
        for (name, key), n in r["markers"].items():
            if ("marker", name, key) not in bad:
                ck.ob("marker", "%s:%s.%s" % (at, name, key), True)
        for (rule, name, key), detail in sorted(bad.items()):
            ck.ob(rule, "%s:%s.%s" % (at, name, key), False, "the tagger does not keep the text: %s%s" % (detail, chosen(opts)))
    ck.floor("copied", 60)


def chosen(opts):
    return "" if not opts else " (with %s)" % ", ".join("%s=%s" % kv for kv in sorted(opts.items()))


# ------------------------------------------------------------------ G02
KINDS = {"end": "the verbalizer cannot stop here", "token": "token", "field": "field", "value": "value", "close": "close"}


def g02_job(repo, pipeline, options):
    j = Job(repo, pipeline, options)
    sk, P, misses = j.protocol()
    forms = sorted((n, sorted(o)) for n, o in sk.orders_seen.items())
    return {"misses": misses, "forms": forms, "twice": [k for k in j.faults if k[0] == "duplicate"], "stats": j.stats}


def g02(ck):
    ck.rule("read", "every token form the tagger can write, its fields reordered as the pipeline's own parser reorders them, with every value the tagger "
            "can put there, is read by the pipeline's verbalizer in every place the token can stand")
    ck.rule("once", "no token form repeats a field (the parser rejects it)")
    for (_, p, opts), r in spread(g02_job, [(ck.repo, p, o) for p, o in variants(ck)]):
        at = label(p)
        for k, n in r["stats"].items():
            ck.note(k, n)
        ck.note("pipelines_and_options", 1)
        bad = set()
        for (kind, name, keys), detail in sorted(r["misses"].items()):
            bad.add((name, frozenset(keys)))
            ck.ob("read", "%s:%s(%s)" % (at, name, ",".join(keys)), False, detail + chosen(opts))
        for kind, name in r["twice"]:
            ck.ob("once", "%s:%s" % (at, name), False, "a field is written twice" + chosen(opts))
        for name, layouts in r["forms"]:
            ck.ob("once", "%s:%s" % (at, name), True)
            for keys in layouts:
                if (name, frozenset(keys)) not in bad:
                    ck.ob("read", "%s:%s(%s)" % (at, name, ",".join(keys)), True)
    ck.floor("read", 100)


# ------------------------------------------------------------------ T03
def t03_job(repo, pipeline, options):
    j = Job(repo, pipeline, options)
    sk, P, misses = j.protocol()
    decode = {}
    D = Decoding(sk, lambda kind, name, key, detail: decode.setdefault((name, key), detail))
    forms = {}
    for p, l in sk.starts.items():
        for n, f, e in l:
            forms.setdefault(n, set()).add(f)
    rules = j.rules()
    escaped = []
    for n, fs in sorted(forms.items()):
        lays = sorted(f for f in fs if any(D.escapes(p, x) for _, p, x in f))
        if not lays:
            continue
        escaped += sorted({"%s.%s" % (n, k) for f in lays for k, p, x in f if D.escapes(p, x)})
        for v in rules.get(n) or {j.g.verbalizer: None}:
            D.rule(n, j.L.rel(v), lays)
    j.stats["decoded_forms"] = D.forms
    j.stats["decoding_states"] = D.nodes
    return {"faults": j.faults, "misses": misses, "decode": decode, "escaped": escaped, "names": sorted(sk.orders_seen), "keys": sorted(sk.keys),
            "helpers": helpers(j), "stats": j.stats}


def helpers(j):
    """Does verbalize_field undo tag_field, for any text?"""
    I, st, ref = j.g.I, j.g.st, j.g.ref
    cls = st.heap[ref].cls
    t, v = I.find_member(cls, "tag_field"), I.find_member(cls, "verbalize_field")
    if t is None or v is None:
        return None
    st = st.clone()
    g = I.newfst(st, FAKE, F("clo", F("set", "VALID_UTF8_CHAR"), C(0), C(None)))
    a = [o for o in I.call_func(t, [ref, C("field"), g], {}, st, FAKE) if o.k == "v"]
    if len(a) != 1:
        return None
    b = [o for o in I.call_func(v, [ref, C("field")], {}, a[0].st, FAKE) if o.k == "v"]
    if len(b) != 1:
        return None
    e = F("comp", b[0].st.heap[a[0].v].expr, b[0].st.heap[b[0].v].expr)
    return broken_identity(j.L.rel(e)) or ""


def t03(ck):
    ck.rule("written", "every text the tagger can write is a stream of tokens the parser accepts: names and fields of letters and underscores, the parser's own "
            "delimiters, values whose backslashes only escape a quote or a backslash")
    ck.rule("consumed", "the verbalizer consumes exactly the delimiters, names and escaped values the parser writes")
    ck.rule("decoded", "no rule reads an escaping backslash as text, for any field whose value can contain one")
    for (_, p, opts), r in spread(t03_job, [(ck.repo, p, o) for p, o in variants(ck)]):
        at = label(p)
        for k, n in r["stats"].items():
            ck.note(k, n)
        ck.note("pipelines_and_options", 1)
        for (kind, where), detail in sorted(r["faults"].items()):
            ck.ob("written", "%s:%s:%s" % (at, kind, where), False, detail + chosen(opts))
        bad = set()
        for (kind, name, keys), detail in sorted(r["misses"].items()):
            if kind != "value" or "\\" in detail:
                bad.add(name)
                ck.ob("consumed", "%s:%s(%s)" % (at, name, ",".join(keys)), False, detail + chosen(opts))
        for name, key in r["keys"]:
            ck.ob("written", "%s:%s.%s" % (at, name, key), True)
        for name in r["names"]:
            if name not in bad:
                ck.ob("consumed", "%s:%s" % (at, name), True)
        for (name, key), detail in sorted(r["decode"].items()):
            ck.ob("decoded", "%s:%s.%s" % (at, name, key), False, detail + chosen(opts))
        for k in r["escaped"]:
            if tuple(k.split(".", 1)) not in r["decode"]:
                ck.ob("decoded", "%s:%s" % (at, k), True)
        if r["helpers"] is not None:
            ck.ob("decoded", "%s:verbalize_field(tag_field)" % at, not r["helpers"], "reading a written field does not give its text back: %s" % r["helpers"])
    ck.floor("written", 60)
    ck.floor("decoded", 10)
