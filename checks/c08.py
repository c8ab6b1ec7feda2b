import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = ["harness/c08.cc", "allocator.cc", "system_aligned_alloc.cc"]


def kinds(*k):
    return sum(x << (2 * i) for i, x in enumerate(k))


def main(c):
    inc = ["-include", os.path.join(HERE, "harness", "c08_sys.h")]
    per = {"allocator.cc": inc, "system_aligned_alloc.cc": inc}
    mod = c.bc("c08", SRC, ubsan=["*"], perfile=per)
    exe = c.native("c08", SRC, perfile=per)
    tasks = []

    def add(**cfg):
        tasks.append(dict(module=mod, entry="c08_history", cfg=cfg, options=dict(timeout_ms=60000, max_iter=100000, attrs=dict(raw_addresses=True, merge=False))))
    deep = 0 if c.quick() else 1
    for n in range(1, 4 + deep):
        for k in sorted({0, kinds(*[1] * (3 * n)), kinds(*[2] * (3 * n)), kinds(*[i % 2 for i in range(3 * n)]),
                         kinds(*[(i + 1) % 3 for i in range(3 * n)])}):
            if n == 1:
                for rounds in (2, 3):
                    add(rounds=rounds, n=n, kinds=k, log2max=40, log2addr=47, fail=0)
                add(rounds=2, n=n, kinds=k, log2max=40, log2addr=47, fail=1)
                continue
            if n == 2:
                add(rounds=2, n=n, kinds=k, log2max=40, log2addr=47, fail=0)
                add(rounds=3, n=n, kinds=k, log2max=9, log2addr=14, fail=0)
                add(rounds=2, n=n, kinds=k, log2max=9, log2addr=14, fail=1)
            else:
                add(rounds=2, n=n, kinds=k, log2max=9, log2addr=14, fail=0)
    res = c.run(tasks)
    c.notes.append("histories of 2 and 3 release rounds with 1..%d requests per round; any request size (up to 2^40 bytes, "
                   "2^9 in the longer histories), any address returned by the system, any address to avoid; any system "
                   "allocation may fail" % (3 + deep))
    c.assumptions = ["the system allocator returns blocks disjoint from the live ones, below 2^47 (2^14 in the longer histories)"]
    c.process(res, exe)
    return c.finish(require_reach=["reach:end", "reach:repeated round"])
