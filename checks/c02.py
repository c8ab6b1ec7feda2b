"""Floating-point products are the sum of the right terms on every path."""
from . import mulcommon as mc

SHAPES = ((1, 1, 1), (8, 1, 8), (9, 5, 17), (17, 3, 9), (16, 8, 16), (5, 33, 1), (17, 6, 1), (1, 9, 5), (3, 65, 2),
          (2, 2, 33), (25, 4, 7), (15, 1, 15), (4, 31, 6), (33, 16, 1), (7, 17, 24))
ALL = tuple((m, 1 + (5 * m + 3 * n) % 19, n) for m in range(1, 18) for n in range(1, 18))
MORE = ((8, 128, 8), (16, 70, 16), (33, 7, 31), (1, 200, 1), (40, 3, 40))


def main(c):
    mod = c.bc("mul", mc.SRC)
    exe = c.native("mul", mc.SRC)
    thorough = c.tier == "thorough"
    tasks = []

    def add(entry, path, m, k, n, **kw):
        tasks.append(mc.task(mod, entry, path=path, m=m, k=k, n=n, **kw))

    for pi, path in enumerate(mc.PATHS):
        for i, (m, k, n) in enumerate(SHAPES):
            for o in range(8) if i < 8 or thorough else (i % 8, (5 * i + 3) % 8):
                add("mul_f32", path, m, k, n, lo=o & 1, ro=o >> 1 & 1, do=o >> 2, bias=1, clamp=1)
            add("mul_f32", path, m, k, n, bias=0, clamp=0)
            add("mul_f32", path, m, k, n, bias=0, clamp=2 + i % 2, do=i >> 1 & 1)
        # every remainder of both tile dimensions
        for i, (m, k, n) in enumerate(ALL if thorough else ALL[pi % 2::2]):
            add("mul_f32", path, m, k, n, lo=i & 1, ro=i >> 1 & 1, do=i >> 2 & 1, bias=1, clamp=1, bycol=i % 5 == 0)
        # every depth
        for k in range(1, 68 if thorough else 36):
            add("mul_f32", path, 3, k, 2, lo=1, bias=1)
            add("mul_f32", path, 9, k, 1, lo=k & 1, bias=1)
        for m, k, n in SHAPES[:4]:
            add("mul_f64_f32", path, m, k, n, bias=1, clamp=1)
            add("mul_f64_f32", path, m, k, n, clamp=2 + m % 2)
        if thorough:
            for m, k, n in MORE:
                add("mul_f32", path, m, k, n, lo=1, bias=1, clamp=1)
        add("mul_f32", path, 34, 3, 35, bias=1, clamp=1, cpuinfo=1, l1=64, l2=128)
    res = mc.run(c, mod, tasks)
    c.notes.append("operand entries, bias and clamp bounds: all real numbers, both, one or no bound set; (rows, depth, columns): %s, every pair "
                   "of rows and columns up to 17 (%s), depths 1..%d with 3x2 and 9x1 destinations" % (
                       SHAPES, "on every path" if thorough else "half of them on each path", 67 if thorough else 35))
    c.assumptions = ["floating-point operations are interpreted over the reals: rounding, overflow, NaN and signed "
                     "zeros are outside the claim"]
    c.process(res, exe)
    return c.finish(require_reach=["destination entry equals the sum of products"])
