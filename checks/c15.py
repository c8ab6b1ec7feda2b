from engine.build import CORE

SRC = ["harness/c15.cc", "harness/cpuinfo_stub.cc", "harness/clock_stub.cc"] + [
    s for s in CORE if s not in ("thread_pool.cc",)]


def main(c):
    mod = c.bc("c15", SRC, ubsan=["trmul.cc", "block_map.cc", "ctx.cc", "frontend.cc"])
    exe = c.native("c15", SRC)
    base = dict(clock=0, cpuinfo=0, l1=32768, l2=524288)
    tasks = []
    deep = not c.quick()

    def threads(kl, kr, rows, cols, depth, size=1, **kw):
        cfg = dict(base, kl=kl, kr=kr, rows_min=rows[0], rows_max=rows[-1], cols_min=cols[0], cols_max=cols[-1],
                   depth_min=depth[0], depth_max=depth[-1], size=size, limit=4, force=0)
        cfg.update(kw)
        tasks.append(dict(module=mod, entry="c15_threads", cfg=cfg,
                          options=dict(timeout_ms=60000, max_iter=100000, attrs=dict(merge=False))))
    def shapes(i, force, limit, every):
        kl, kr = ((8, 8), (4, 16), (1, 1))[i]
        size = (1, 4, 2)[i]
        # any depth
        for rows, cols in ((1, 1), (8, 5)) + (() if i == 2 else ((9, 17), (48, 32), (64, 3))):
            threads(kl, kr, (rows,), (cols,), (1, 1 << 30), size=size, force=force, limit=limit)
        # any number of rows, any number of columns
        for depth in (100, 1 << 24) if every else (4096,):
            threads(kl, kr, (1, 4 * kl), (33 % (8 * kr),), (depth,), size=size, force=force, limit=limit)
            threads(kl, kr, (17 % (8 * kl),), (1, 4 * kr), (depth,), size=size, force=force, limit=limit)
    for limit in (1, 2, 3, 4, 8):
        for i in range(3):
            for force in (0, 1):
                if deep or (limit + i + force) % 2 == 0:
                    shapes(i, force, limit, deep)

    def ranges(kl, kr, m, n, k, limit, force, l1, l2, size=1):
        tasks.append(dict(module=mod, entry="c15_ranges",
                          cfg=dict(base, kl=kl, kr=kr, rows=m, cols=n, depth=k, limit=limit, force=force, cpuinfo=1,
                                   l1=l1, l2=l2, size=size),
                          options=dict(timeout_ms=60000, max_iter=100000, attrs=dict(merge=False))))
    for kl, kr in ((8, 8), (4, 16), (1, 1), (16, 16)):
        for m, n, k in ((3, 5, 7), (32, 32, 32), (48, 17, 64), (5, 64, 512), (64, 1, 9)):
            for limit, force in ((1, 0), (2, 1), (3, 1), (4, 0)):
                for l1, l2 in ((64, 128), (1024, 4096), (32768, 524288)):
                    if kl == 1 and m * n > 64:
                        continue
                    ranges(kl, kr, m, n, k, limit, force, l1, l2)
    res = c.run(tasks)
    c.notes.append("thread counts and block ranges: any depth up to 2^30 with stated widths, any widths up to 4 kernel blocks with stated depths, "
                   "limits 1..8, three kernel shapes, forced and default tiling; block ranges for the stated shapes and cache sizes")
    c.assumptions = ["tasks of a batch run one after another starting from any of them (concurrency is C06)"]
    c.process(res, exe)
    return c.finish(require_reach=["reach:end", "reach:end ranges", "reach:blocked", "reach:simple", "reach:several blocks"])
