#!/usr/bin/env python3
"""Writes MANIFEST.json: the checks that exist, the rest as not applicable."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the LLVM IR of the real code + SMT (z3, cvc5)"
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
NA = {
    "C21": "The NEON kernels are inline assembly and NEON intrinsics for ARM; there is no ARM toolchain or semantics "
           "of their assembly here, so the real code can neither be executed symbolically nor replayed.",
}


def main():
    checks, na = [], []
    for l in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(l)["id"]
        if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")) and p in NOTES:
            n = NOTES[p]
            checks.append({
                "property": p,
                "quick_cmd": "python3-vt check.py %s quick" % p,
                "thorough_cmd": "python3-vt check.py %s thorough" % p,
                "evidence_file": "evidence/%s.json" % p,
                "technique": n.get("technique", TECH),
                "level": n.get("level", "model_checking"),
                "level_note": n["note"],
            })
        else:
            na.append({"property": p, "reason": NA.get(p, "No check built yet.")})
    m = {"version": 1, "setup_cmd": "python3-vt tools/selftest.py", "checks": checks, "not_applicable": na,
         "notes": "See DESIGN.md. No hooks in /repo: harnesses in /verif/harness are compiled together with /repo's "
                  "current sources on every run."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
