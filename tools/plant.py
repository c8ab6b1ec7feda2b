#!/usr/bin/env python3
"""Tries planted changes: tools/plant.py ID... [--checks C01,C02] [--no-test]

For each /verif/seeded/ID: apply to /repo, build, run the existing tests, run
the demonstration, run the checks, restore. Prints one summary line per change.
"""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, timeout=1800, **kw):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, errors="replace", **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -9, "timeout"


def main():
    args = sys.argv[1:]
    checks = None
    ids = []
    notest = "--no-test" in args
    for a in args:
        if a.startswith("--checks="):
            checks = a[9:].split(",")
        elif not a.startswith("--"):
            ids.append(a)
    assert sh("git -C /repo status --porcelain --untracked-files=no")[1].strip() == "", "dirty /repo"
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if os.path.exists("/opt/vp/BASELINE.json") else set()
    for i in ids:
        d = os.path.join(V, "seeded", i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        demo = os.path.join(d, "demo.sh")
        line = [i, meta["property"]]
        if not notest:
            sh("bash /opt/vp/build.sh")
            rc, out = sh("cd /repo && timeout 300 bash " + demo)
            line.append("demo-clean=%d" % rc)
        rc, out = sh("git -C /repo apply " + os.path.join(d, "patch.diff"))
        if rc:
            print(i, "does not apply", out)
            continue
        try:
            if not notest:
                rc, out = sh("bash /opt/vp/test.sh /tmp/plant_t.json")
                try:
                    j = json.load(open("/tmp/plant_t.json"))
                    miss = base - set(j["passed"])
                    line.append("tests=%d/%d%s" % (len(j["passed"]), len(base), (" MISSING %s" % sorted(miss)[:3]) if miss else ""))
                except Exception as e:
                    line.append("tests=ERR " + out[-500:])
                rc, out = sh("cd /repo && timeout 300 bash " + demo)
                line.append("demo-bug=%d" % rc)
            for c in checks or [meta["property"]]:
                rc, out = sh("cd %s && VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py %s" % (V, c), timeout=900)
                line.append("%s=%s" % (c, {0: "quiet", 1: "CAUGHT"}.get(rc, "ERROR(%d)" % rc)))
                if rc not in (0, 1) or "-v" in args:
                    print(out[-1500:])
        finally:
            sh("git -C /repo checkout -- .")
        print(" ".join(line), flush=True)
    if not notest:
        sh("bash /opt/vp/build.sh")


main()
