#!/usr/bin/env python3
"""replay.py PID ARCH ENTRY FILE : run a recorded counterexample natively on the code in /repo."""
import sys, os
import check as C
C.TREE = C.tree_hash()
pid, arch, entry, path = sys.argv[1:5]
for u in C.P.PROPS[pid]["units"]:
    if ("ENTRY(" + entry.replace("check_", "")) in open(os.path.join(C.V, "harness", u["src"])).read() or True:
        for mode in ("rel", "asan"):
            exe = C.native(u, arch, mode)
            r = C.sh([exe, entry, path], timeout=120)
            if "no such entry" in r.stdout:
                break
            print("[%s] rc=%d\n%s" % (mode, r.returncode, r.stdout))
