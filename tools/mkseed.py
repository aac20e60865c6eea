#!/usr/bin/env python3
"""Development helper: creates and confirms a planted change.
usage: mkseed.py SPEC.py [--notests]   SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source) or DEMO_SH."""
import json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def main():
    s = runpy.run_path(sys.argv[1])
    out = os.path.join(HERE, "seeded", s["ID"])
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    repo = os.path.join(d, "repo")
    try:
        subprocess.check_call(["cp", "-a", "/repo", repo])
        sh("git checkout -q -- . && git clean -fdq", cwd=repo)
        for f, old, new in s["EDITS"]:
            p = os.path.join(repo, f)
            t = open(p, encoding="utf-8").read()
            assert t.count(old) >= 1, "OLD not in %s: %r" % (f, old)
            open(p, "w", encoding="utf-8").write(t.replace(old, new, 1))
        diff = sh("git diff", cwd=repo).stdout
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w", encoding="utf-8").write(diff)
        if "DEMO" in s:
            open(os.path.join(out, "demo.py"), "w", encoding="utf-8").write(s["DEMO"].lstrip("\n"))
            demo = '#!/bin/bash\nset -e\ncd "${REPO_UNDER_TEST:-.}"\nPY=/opt/venv/bin/python\n[ -x "$PY" ] || PY=python3\nexec env PYTHONPATH="$PWD" "$PY" "$(dirname "$(readlink -f "$0")")/demo.py"\n'
            demo = '#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nPY=/opt/venv/bin/python\n[ -x "$PY" ] || PY=python3\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec "$PY" "$here/demo.py"\n'
        else:
            demo = s["DEMO_SH"].lstrip("\n")
        open(os.path.join(out, "demo.sh"), "w").write(demo)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        a = sh("bash %s/demo.sh" % out, cwd="/repo")
        b = sh("bash %s/demo.sh" % out, cwd=repo)
        print(s["ID"], "clean rc=%d" % a.returncode, "patched rc=%d" % b.returncode)
        if a.returncode:
            print("  CLEAN:", (a.stdout + a.stderr)[-600:])
        print("  PATCHED:", (b.stdout + b.stderr).strip()[-300:])
        r = sh("PYTHONHASHSEED=0 WT_REPO=%s WT_EVIDENCE=%s/ev python3 %s/check.py %s" % (repo, d, HERE, s["PROPERTY"]))
        print("  check rc=%d" % r.returncode, r.stdout[:300].replace("\n", " | "), r.stderr[-200:])
        if "--notests" not in sys.argv:
            t = sh("cd %s && sed 's#/repo#%s#g' /opt/vp/test.sh > %s/test.sh && bash %s/test.sh %s/out.json" % (repo, repo, d, d, d))
            try:
                base = json.load(open("/opt/vp/BASELINE.json"))
                got = json.load(open(d + "/out.json"))
                def names(x, k):
                    return set(x.get(k) or [])
                failed = got.get("failed") or []
                passed = set(got.get("passed") or [])
                want = set(base["stable"])
                print("  tests: passed %d failed %d; baseline missing %d" % (len(passed), len(failed), len(want - passed)), list(want - passed)[:5])
            except Exception as e:
                print("  tests: ?", e, t.stdout[-300:], t.stderr[-300:])
    finally:
        shutil.rmtree(d)
main()
