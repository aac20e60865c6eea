#!/usr/bin/env python3
"""Development helper: a batch of scratch-copy mutants. SPEC.py defines M = [(name, "R02=1,R03=0", [(file, old, new), ...]), ...]
(1: a violation is expected, 0: quiet). Prints every surprise."""
import concurrent.futures as cf, os, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1], encoding="utf-8").read(), ns)
only = sys.argv[2:] 


def one(m):
    name, exp, edits = m
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    out = []
    try:
        subprocess.check_call("cd /repo && git archive HEAD | tar -x -C %s" % d, shell=True)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p, encoding="utf-8").read()
            if old not in s:
                return name, ["  OLD not found in %s: %r" % (f, old[:60])]
            open(p, "w", encoding="utf-8").write(s.replace(old, new, 1))
        for e in exp.split(","):
            i, want = e.split("=")
            ev = tempfile.mkdtemp(prefix="ev.", dir=d)
            r = subprocess.run([sys.executable, "/verif/check.py", i], env=dict(os.environ, WT_REPO=d, WT_EVIDENCE=ev), capture_output=True, text=True, timeout=900)
            ok = "ok" if r.returncode == int(want) else "SURPRISE"
            txt = (r.stdout + r.stderr).strip()
            out.append("  %s %s rc=%d want=%s %s" % (ok, i, r.returncode, want, txt[:300 if ok == "ok" else 900].replace("\n", " | ")))
    finally:
        shutil.rmtree(d)
    return name, out


with cf.ThreadPoolExecutor(int(os.environ.get("J","6"))) as ex:
    for name, out in ex.map(one, [m for m in ns["M"] if not only or m[0] in only]):
        print(name)
        print("\n".join(x[:600] for x in out), flush=True)
