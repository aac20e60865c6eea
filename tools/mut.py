#!/usr/bin/env python3
"""Development helper: runs checks on a scratch copy of /repo after textual edits.
usage: mut.py C05[,C06] FILE OLD NEW [FILE OLD NEW ...]   (OLD must occur; first occurrence replaced)"""
import os, shutil, subprocess, sys, tempfile
ids = sys.argv[1].split(",")
d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
try:
    subprocess.check_call("cd /repo && git archive HEAD | tar -x -C %s" % d, shell=True)
    a = sys.argv[2:]
    for f, old, new in zip(a[0::3], a[1::3], a[2::3]):
        if f == "PATCH":
            subprocess.check_call(["git", "apply", "--directory", d.lstrip("/"), old], cwd="/") if False else subprocess.check_call("cd %s && patch -p1 -s < %s" % (d, old), shell=True)
            continue
        p = os.path.join(d, f)
        s = open(p, encoding="utf-8").read()
        old, new = old.encode().decode("unicode_escape").encode("latin1").decode("utf8"), new.encode().decode("unicode_escape").encode("latin1").decode("utf8")
        assert old in s, "OLD not found in " + f
        open(p, "w", encoding="utf-8").write(s.replace(old, new, 1))
    for i in ids:
        ev = tempfile.mkdtemp(prefix="ev.", dir=d)
        r = subprocess.run([sys.executable, "/verif/check.py", i], env=dict(os.environ, WT_REPO=d, WT_EVIDENCE=ev), capture_output=True, text=True)
        print(i, "rc=%d" % r.returncode, (r.stdout + r.stderr).strip()[-1500:])
finally:
    shutil.rmtree(d)
