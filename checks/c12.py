"""Storage orders, strides and channel orientation do not change the product."""
from . import mulcommon as mc

FULL = dict(bias=1, clamp=1)


def main(c):
    mod = c.bc("mul", mc.SRC)
    exe = c.native("mul", mc.SRC)
    thorough = c.tier == "thorough"
    shapes = ((5, 3, 4), (9, 4, 10)) + (((1, 3, 6), (6, 2, 1), (17, 5, 18), (8, 8, 8)) if thorough else ())
    tasks = []
    for pi, path in enumerate(mc.PATHS):
        for o in range(8):
            for by_col in (0, 1):
                for si, (m, k, n) in enumerate(shapes):
                    for ti, t in enumerate(("mul_i8_i8_i8", "mul_f32", "mul_u8_u8_i16", "mul_i8_i16_i16")):
                        strided = (o + by_col + si + ti) % 2
                        kw = dict(lo=o & 1, ro=o >> 1 & 1, do=o >> 2, bycol=by_col, ls=2 * strided, rs=strided,
                                  ds=3 * strided, rounding=4 if ti == si % 4 else 1)
                        if t in ("mul_i8_i8_i8", "mul_u8_u8_i16"):
                            kw.update(lzp=1, rzp=1, dzp=1)
                        if "f32" not in t:
                            kw.update(perchannel=(o + ti + si) % 4 != 1, e=-4)
                        tasks.append(mc.task(mod, t, path=path, m=m, k=k, n=n, **kw, **FULL))
                # a single row or column: the kernels for vectors
                for t in ("mul_i8_i8_i8", "mul_f32"):
                    for m, n in ((9, 1), (1, 9), (1, 1)):
                        kw = dict(perchannel=1, e=-2, lzp=1, dzp=1) if t != "mul_f32" else {}
                        tasks.append(mc.task(mod, t, path=path, m=m, k=5, n=n, lo=o & 1, ro=o >> 1 & 1, do=o >> 2,
                                             bycol=by_col, **kw, **FULL))
    # blocked execution with tiny caches
    for path in mc.PATHS:
        for o in (0, 4):
            for by_col in (0, 1):
                tasks.append(mc.task(mod, "mul_f32", path=path, m=34, k=2, n=35, do=o >> 2, bycol=by_col, cpuinfo=1,
                                     l1=64, l2=128, **FULL))
    res = mc.run(c, mod, tasks)
    c.notes.append("8 storage-order combinations, both channel dimensions, with and without padded strides, per-channel "
                   "and common multipliers; (rows, depth, columns): %s and single rows and columns; all values" % (
                       shapes,))
    c.assumptions = ["accumulators and rescaled values fit as stated for C01", "floating-point over the reals"]
    c.process(res, exe)
    return c.finish(require_reach=["destination entry equals the formula",
                                   "destination entry equals the sum of products"])
