#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]: decides one property of /repo's current source."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def run():
    from wt.checks import REGISTRY
    from wt.report import main
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod, fn = REGISTRY[pid]
    import importlib
    return main(pid, getattr(importlib.import_module("wt.checks." + mod), fn), tier)


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        # one fixed iteration order of sets: the same tree always gives the same answer and the same evidence
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
    import resource
    import threading
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))  # an analysis that explodes ends here, not with the machine
    threading.stack_size(512 * 1024 * 1024)
    code = []
    t = threading.Thread(target=lambda: code.append(run()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(code[0] if code else 4)
