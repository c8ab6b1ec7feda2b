import os

from engine.build import CORE

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = ["harness/c11.cc", "harness/cpuinfo_any.cc"] + CORE


def main(c):
    per = {"ctx.cc": ["-include", os.path.join(HERE, "harness", "env_hook.h")]}
    mod = c.bc("c11", SRC, ubsan=["ctx.cc", "c11.cc"], perfile=per, flags=["-DVERIF_SYMBOLIC"])
    exe = c.native("c11", SRC, perfile=per)
    tasks = []
    top = 4 if c.quick() else 5
    for steps in range(1, top + 1):
        for first in (0, 1):
            tasks.append(dict(module=mod, entry="c11_history", cfg=dict(steps=steps, restrict_first=first),
                              options=dict(timeout_ms=60000)))
    for prefix in (0, 1):
        tasks.append(dict(module=mod, entry="c11_environment", cfg=dict(prefix=prefix), options=dict(timeout_ms=60000)))
    res = c.run(tasks)
    c.notes.append("histories of 1..%d selections; any CPU features, any restriction (or reset) before each, any set of "
                   "compiled paths containing the portable one; any one-byte environment override" % top)
    c.assumptions = ["the environment override, if set, is a hexadecimal number of paths of this platform"]
    c.process(res, exe)
    return c.finish(require_reach=["reach:end", "reach:end env"])
