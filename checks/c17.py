SRC = ["harness/c17.cc", "harness/cpuinfo_any.cc", "cpuinfo.cc"]


def main(c):
    mod = c.bc("c17", SRC, ubsan=["*"])
    exe = c.native("c17", SRC)
    tasks = []
    top = 3 if c.quick() else 4
    for n in range(1, top + 1):
        for first in (0, 1):
            tasks.append(dict(module=mod, entry="c17_caches", cfg=dict(processors=n, features_first=first),
                              options=dict(timeout_ms=60000)))
        tasks.append(dict(module=mod, entry="c17_any_sizes", cfg=dict(processors=n), options=dict(timeout_ms=60000)))
    res = c.run(tasks)
    c.notes.append("1..%d processors with any assignment to cores, any presence, size and extent of three cache levels, "
                   "any instruction-set flags, initialization succeeding or failing" % top)
    c.assumptions = ["cache sizes fit an int", "at least one processor is reported",
                     "exact values: sizes are positive and do not decrease with the level"]
    c.process(res, exe)
    return c.finish(require_reach=["reach:end"])
