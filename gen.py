#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions in props.py and checks.py."""
import json
from props import PROPS, NA
from checks import CHECKS
with open("properties.jsonl", "w") as f:
    for p in PROPS: f.write(json.dumps(p, ensure_ascii=False) + "\n")
ids = [p["id"] for p in PROPS]
assert set(CHECKS) | set(NA) == set(ids) and not set(CHECKS) & set(NA), (set(ids) ^ (set(CHECKS) | set(NA)))
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "BOMBA_VERIFY_GCC_PATH", "enable": "clang++ -DBOMBA_VERIFY_GCC_PATH -include cstdint -include algorithm (only the translation to LLVM bitcode; the native replay uses g++ without it)", "source_commits": ["b86b446"]},
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                 "technique": "symbolic execution of the LLVM bitcode of the real headers with SMT (Z3), counterexamples replayed natively under ASan", "level": "model_checking",
                 "level_note": ("All values within bounds: " + CHECKS[i]["bounds"] + "." + (" Outside: " + CHECKS[i]["outside"] + "." if CHECKS[i]["outside"] else "") + " Trusted: engine/symex.cpp, Clang's front end and LLVM's scalar passes, Z3, the libc/libstdc++ models in engine/rt." + ("" if not CHECKS[i]["assumptions"] else " Assumes: " + "; ".join(CHECKS[i]["assumptions"]) + "."))} for i in ids if i in CHECKS],
     "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA],
     "notes": "See DESIGN.md. Every check takes /repo's working tree as it is; build output goes to build/ (ignored) and temporary directories."}
with open("MANIFEST.json", "w") as f: json.dump(m, f, indent=1); f.write("\n")
import subprocess, sys
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for p in PROPS: jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
except ImportError: pass

# DESIGN.md
tab = []
for p in PROPS:
    i = p["id"]
    if i not in CHECKS: continue
    c = CHECKS[i]
    tab.append("### %s %s\n\n%s\n\nTests cannot settle it: %s.\n\nDecided by: %s. Bounds: %s.%s%s%s\n" % (i, p["title"], p["statement"], p["why_tests_cant"], ", ".join("%s/%s" % (r["module"], r["entry"]) for r in c["runs"]), c["bounds"], " Outside: " + c["outside"] + "." if c["outside"] else " Larger sizes lie outside.", " Assumes: " + "; ".join(c["assumptions"]) + "." if c["assumptions"] else "", " " + c["note"] if c["note"] else ""))
d = open("DESIGN.in.md").read().replace("@@TABLE@@", "\n".join(tab))
d = d.replace("@@NA@@", "\n".join("* %s (%s): %s" % (i, next(p["title"] for p in PROPS if p["id"] == i), r) for i, r in NA.items()))
d = d.replace("@@FIXED@@", "\n".join("* " + f[7:] for f in json.load(open("known_findings.json"))["fixed"]))
d = d.replace("@@SEEDS@@", open("SEEDS.md").read().strip())
open("DESIGN.md", "w").write(d)
