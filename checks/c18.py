import os

from engine.build import CORE

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = ["harness/c18.cc", "harness/cpuinfo_any.cc"] + CORE


def main(c):
    per = {"tune.cc": ["-include", os.path.join(HERE, "harness", "clock_hook.h")]}
    mod = c.bc("c18", SRC, ubsan=["c18.cc", "tune.cc", "cpuinfo.cc"], perfile=per)
    exe = c.native("c18", SRC, perfile=per)
    top = 4 if c.quick() else 6
    tasks = [dict(module=mod, entry="c18_history", cfg=dict(calls=n, context=x, base_s=b),
                  options=dict(timeout_ms=60000))
             for x in (0, 1) for b in (0, 5000000, 1 << 32) for n in range(1, top + 1 - (b > 0))]
    res = c.run(tasks)
    c.notes.append("histories of 1..%d calls at any non-decreasing times (nanoseconds, within 4 s from the start of the clock, from 58 days and from 136 years), the CPU and the explicit "
                   "setting being arbitrary at each call" % top)
    c.assumptions = ["the clock does not go backwards", "the expiry period is 250 ms"]
    c.process(res, exe)
    return c.finish(require_reach=["reach:end"])
