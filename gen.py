#!/usr/bin/env python3
"""gen.py: writes properties.jsonl and MANIFEST.json from proptext.py (texts) and harness/props.py (checks)."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "harness"))
sys.path.insert(0, V)
import props as P
import proptext as T
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in T.TEXT:
        f.write(json.dumps(p) + "\n")
checks = []
for p in T.TEXT:
    pid = p["id"]
    if pid not in P.PROPS:
        continue
    checks.append(dict(property=pid, quick_cmd="python3 check.py %s" % pid, thorough_cmd="python3 check.py %s --thorough" % pid,
                       evidence_file="evidence/%s.json" % pid,
                       technique="bounded symbolic execution of the compiled code (LLVM IR) with z3 deciding every assertion",
                       level=P.LEVEL,
                       level_note="Within the bounds every input is decided by the solver: " + P.PROPS[pid]["bounds"] +
                                  (" Outside: " + P.PROPS[pid]["outside"] if P.PROPS[pid]["outside"] else "") +
                                  " Trusts clang's IR, the ksym engine, z3 and the harness oracle."))
na = [dict(property=k, reason=v) for k, v in T.NOT_APPLICABLE.items()]
ids = {p["id"] for p in T.TEXT}
assert set(P.PROPS) <= ids, set(P.PROPS) - ids
missing = ids - set(P.PROPS) - set(T.NOT_APPLICABLE)
assert not missing, missing
m = dict(version=1, setup_cmd="make -j8 -C engine OUT=/verif/.build", checks=checks, not_applicable=na,
         notes="ksym (engine/) executes the LLVM bitcode of /repo symbolically; check.py compiles the current tree, runs the harness entries of a property and replays counterexamples on native builds. See DESIGN.md.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
