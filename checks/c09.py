import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = ["harness/c09.cc", "prepacked_cache.cc", "system_aligned_alloc.cc"]


def main(c):
    inc = ["-include", os.path.join(HERE, "harness", "c08_sys.h")]
    per = {"prepacked_cache.cc": inc, "system_aligned_alloc.cc": inc}
    mod = c.bc("c09", SRC, ubsan=["*"], perfile=per)
    exe = c.native("c09", SRC, perfile=per)
    tasks = []

    def add(**cfg):
        cfg.setdefault("fail", 0)
        cfg.setdefault("log2addr", 14)
        cfg.setdefault("max_budget", 1023)
        cfg.setdefault("max_stride", 63)
        tasks.append(dict(module=mod, entry="c09_history", cfg=cfg,
                          options=dict(timeout_ms=60000, max_iter=100000,
                                       attrs=dict(raw_addresses=True, merge=False, no_rehash=True))))
    deep = 0 if c.quick() else 1
    for n in (1, 2):
        for types in range(1 << n):
            add(calls=n, types=types, vary=0x1ff, max_stride=63 if deep else 15, log2addr=14 if deep else 10)
    for types in (0, 7, 2):
        add(calls=3, types=types, vary=0x1 | 0x8)
        add(calls=3, types=types, vary=0x4 | 0x100)
    for types in (0, 15, 6)[:2 + deep]:
        add(calls=4, types=types, vary=0x8)
    if deep:
        add(calls=5, types=0, vary=0x1)
        add(calls=5, types=31, vary=0x8)
    res = c.run(tasks)
    c.notes.append("histories of 1..%d look-ups; every part of the key arbitrary for two look-ups, the parts listed in "
                   "each task for more; any budget" % (4 + deep))
    c.assumptions = ["the system allocator returns blocks disjoint from the live ones and does not fail",
                     "hash table with a single bucket (bucket choice does not affect the contents of a hash table)"]
    c.process(res, exe)
    return c.finish(require_reach=["reach:end", "reach:hit", "reach:eviction"])
