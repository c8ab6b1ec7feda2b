"""A multiplication stays within its operands and its own scratch memory."""
from . import mulcommon as mc

TYPES = ("mul_i8_i8_i8", "mul_u8_u8_u8", "mul_f32", "mul_u8_u8_i16", "mul_i8_i8_i32", "mul_i8_i16_i16",
         "mul_i16_i8_i16", "mul_f64_f32")
SHAPES = ((1, 1, 1), (3, 2, 5), (9, 5, 17), (17, 3, 9), (5, 33, 1), (17, 6, 1), (1, 9, 5), (7, 8, 3), (16, 4, 16),
          (2, 35, 10), (1, 70, 2))


def main(c):
    mod = c.bc("mul", mc.SRC)
    exe = c.native("mul", mc.SRC)
    thorough = c.tier == "thorough"
    tasks = []

    def add(entry, path, m, k, n, **kw):
        if entry == "mul_i8_i8_i32" or "f32" in entry:
            kw.update(perchannel=0, dzp=0)
        if "i16_i" in entry or "i16_i8" in entry:
            kw.update(lzp=0, rzp=0, dzp=0)
        tasks.append(mc.task(mod, entry, setup="setup_memory", path=path, m=m, k=k, n=n, e=-3, **kw))

    for pi, path in enumerate(mc.PATHS):
        for ti, t in enumerate(TYPES):
            for si, (m, k, n) in enumerate(SHAPES):
                for o in range(8):
                    if not thorough and (o + ti + si + pi) % 4:
                        continue
                    by_col = (o >> 1 ^ si) & 1
                    add(t, path, m, k, n, lo=o & 1, ro=o >> 1 & 1, do=o >> 2, ls=(si + o) % 3, rs=(si + ti) % 2,
                        ds=(o + pi) % 3, lzp=1, rzp=1, dzp=1, bias=1, perchannel=1, bycol=by_col,
                        rounding=(1, 4, 1, 16)[(si + o) % 4], clamp=0)
        # every number of rows and columns of a tile, for the per-channel buffers and the masked stores
        for d in range(1, 18):
            for t in ("mul_i8_i8_i8", "mul_f32"):
                for by_col in (0, 1):
                    m, n = (2, d) if by_col else (d, 2)
                    add(t, path, m, 3, n, do=d & 1, ds=1, bias=1, perchannel=1, bycol=by_col, lzp=1, rzp=1)
                    add(t, path, n, 3, m, lo=1, do=1 - d & 1, bias=1, perchannel=1, bycol=by_col)
        # every depth remainder of the packing
        for k in range(1, 68 if thorough else 36):
            t = ("mul_i8_i8_i8", "mul_f32", "mul_i8_i16_i16", "mul_u8_u8_u8")[(k + pi) % 4]
            add(t, path, 3, k, 2, lo=k >> 2 & 1, ro=k >> 3 & 1, ls=k % 3, rs=k % 2)
    for path in mc.PATHS[1:]:
        for t in ("mul_i8_i8_i8", "mul_f32"):
            add(t, path, 34, 3, 35, bias=1, perchannel=1, cpuinfo=1, l1=64, l2=128)
    res = mc.run(c, mod, tasks)
    c.notes.append("all operand values; operand, bias and multiplier buffers of exactly the declared size; (rows, "
                   "depth, columns): %s with %s storage orders, 1..17 rows or columns, depths 1..%d; strides with gaps "
                   "of 0..2 entries; declared rounding of per-channel buffers 1, 4 and 16" % (
                       SHAPES, "all" if thorough else "two of the eight", 67 if thorough else 35))
    c.assumptions = ["each access is checked against the object its address was computed from"]
    c.process(res, exe)
    return c.finish(require_reach=["gap of a strided matrix kept", "source operand unchanged"])
