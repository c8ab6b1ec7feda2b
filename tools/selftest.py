#!/usr/bin/env python3
"""Setup: checks that the tools the framework needs are present and working."""
import os
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    import cvc5
    import z3
    from engine import build, llvmir
    s = z3.Solver()
    x = z3.BitVec("x", 8)
    s.add(x * x == 49, z3.ULT(x, 8))
    assert str(s.check()) == "sat" and s.model()[x].as_long() == 7
    assert cvc5.Solver() is not None
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "t.cc")
        open(p, "w").write('extern "C" int f(int x) { return x + 1; }\n')
        m = build.compile_bc(d, "t", [p])
        assert llvmir.Module(m) is not None
    for t in ("clang++", "llvm-link", "c++filt"):
        subprocess.run([t, "--version"], stdout=subprocess.DEVNULL, check=True)
    print("ok")


main()
