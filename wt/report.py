"""Obligation bookkeeping, known findings, evidence and the exit protocol shared by every check."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WT_REPO", "/repo")


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.repo = REPO
        self.obligations = {}      # rule -> [count, discharged]
        self.violations = []       # (rule, construct, message)
        self._seen = set()
        self.samples = {}
        self.analysed = {}
        self.assumptions = []
        self.rules = {}
        self.t0 = time.time()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rule(self, rid, text):
        self.rules[rid] = text
        self.obligations.setdefault(rid, [0, 0])

    def ob(self, rule, construct, ok, message="", where=None):
        """One obligation: `construct` names the program construct it is about (no line numbers)."""
        c = self.obligations.setdefault(rule, [0, 0])
        c[0] += 1
        if ok:
            c[1] += 1
            s = self.samples.setdefault(rule, [])
            if len(s) < 4 and construct not in s:
                s.append(construct)
        elif (rule, construct, message) not in self._seen:
            self._seen.add((rule, construct, message))
            self.violations.append((rule, construct, message, where))
        return ok

    def floor(self, rule, n):
        """The rule must have met at least n obligations, otherwise its anchor was lost."""
        got = self.obligations.get(rule, [0, 0])[0]
        if got < n:
            from .absint import AnalysisError
            raise AnalysisError("rule %s of %s matched %d constructs, expected at least %d: anchor lost" % (rule, self.pid, got, n))

    def note(self, what, n):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def interp(self, I):
        """Adds an interpreter's statistics to the evidence."""
        self.note("library_call_sites_evaluated", I.stats["libcalls"])
        self.note("paths", I.stats["paths"])
        self.analysed.setdefault("functions_analysed", set()).update(I.stats["functions"])
        self.analysed.setdefault("unmodelled", set()).update(I.stats["unknown"])


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p, encoding="utf-8") as f:
        return [k for k in json.load(f)["findings"] if k.get("status") == "known"]


def main(pid, func, tier):
    from .absint import AnalysisError
    ck = Check(pid, tier)
    err = None
    try:
        func(ck)
        if not ck.obligations or not sum(c[0] for c in ck.obligations.values()):
            raise AnalysisError("no obligations generated for %s" % pid)
    except AnalysisError as e:
        err = "analysis error: %s" % e
    except Exception:
        err = "internal error:\n" + traceback.format_exc()
    except RecursionError:
        err = "recursion limit"
    known = [k for k in known_findings() if k["property"] == pid]
    new, old = [], []
    for v in ck.violations:
        hit = [k for k in known if k["rule"] == v[0] and k["construct"] == v[1]]
        (old if hit else new).append((v, hit))
    total = sum(c[0] for c in ck.obligations.values())
    done = sum(c[1] for c in ck.obligations.values())
    evd = os.environ.get("WT_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    cov = {
        "explanation": "Static analysis of /repo's current source: every obligation below was generated from the source on this run "
                       "and decided by the named rule; nothing of /repo was imported or executed.",
        "obligations": total,
        "discharged": done,
        "rules": {r: {"rule": ck.rules.get(r, ""), "obligations": c[0], "discharged": c[1], "samples": ck.samples.get(r, [])}
                  for r, c in ck.obligations.items()},
        "known_findings": [[v[0][0], v[0][1]] for v in old],
    }
    for k, v in ck.analysed.items():
        if isinstance(v, set):
            cov[k] = len(v)
            cov[k + "_names"] = sorted(v)[:60]
        else:
            cov[k] = v
    if err:
        cov["error"] = err
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
        "assumptions": ck.assumptions, "wall_s": round(time.time() - ck.t0, 3), "violations": len(new),
    }
    with open(os.path.join(evd, pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, ensure_ascii=False, indent=1)
        f.write("\n")
    for v, hit in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, hit[0]["what"]))
    if new:
        replay = os.path.join(evd, pid + ".violations.json")
        with open(replay, "w", encoding="utf-8") as f:
            json.dump([{"rule": r, "rule_text": ck.rules.get(r, ""), "construct": c, "message": m, "where": w}
                       for (r, c, m, w), _ in new], f, ensure_ascii=False, indent=1)
        for (r, c, m, w), _ in new[:20]:
            print("  [%s] %s: %s%s" % (r, c, m, " (%s)" % w if w else ""))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        if err:
            print(err, file=sys.stderr)
        return 1
    if err:
        print(err, file=sys.stderr)
        return 3
    print("OK %s: %d obligations discharged in %.1fs (%s)" % (pid, done, time.time() - ck.t0, tier))
    return 0
