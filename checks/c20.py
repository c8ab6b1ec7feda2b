"""Products of 8-bit and 16-bit operands equal the documented formula on every path."""
from . import mulcommon as mc

TYPES = ("mul_i8_i16_i16", "mul_i16_i8_i16", "mul_i16_i16_i16", "mul_i8_i16_i8", "mul_i8_i16_i32", "mul_i16_i8_i32")
SHAPES = ((1, 1, 1), (8, 4, 8), (9, 5, 17), (17, 3, 9), (16, 8, 16), (5, 33, 1), (17, 6, 1), (1, 9, 5), (3, 65, 2),
          (2, 2, 33), (25, 4, 7), (15, 1, 15), (4, 31, 6))
MORE = tuple((m, 1 + (5 * m + 3 * n) % 13, n) for m in range(1, 18) for n in range(1, 18))


def main(c):
    mod = c.bc("mul", mc.SRC)
    exe = c.native("mul", mc.SRC)
    thorough = c.tier == "thorough"
    tasks = []

    def add(entry, path, m, k, n, **kw):
        if entry.endswith("i32"):
            kw = dict(kw, clamp=0, perchannel=0, e=0)
        tasks.append(mc.task(mod, entry, path=path, m=m, k=k, n=n, bias=1, **kw))

    for pi, path in enumerate(mc.PATHS):
        for e in range(-31, 8):
            for i, entry in enumerate(TYPES[:4]):
                if thorough or (e + pi + i) % 2 == 0:
                    add(entry, path, 1, 2, 1 + e % 3, e=e, clamp=1)
        for i, (m, k, n) in enumerate(SHAPES + (MORE if thorough else MORE[pi::6])):
            for j, t in enumerate(TYPES):
                if j == 0 or (i + j) % 3 == 0 or thorough:
                    add(t, path, m, k, n, e=-9 + i % 8, perchannel=1, lo=i & 1, ro=i >> 1 & 1, do=i >> 2 & 1, clamp=1)
        for k in range(1, 68 if thorough else 36):
            add(TYPES[k % 2], path, 3, k, 2, lo=1, e=-7)
            add(TYPES[k % 2], path, 2, k, 1, ro=k & 1, e=-7)
    res = mc.run(c, mod, tasks)
    c.notes.append("operand entries, bias, multiplier mantissas and clamp bounds: all values; exponents -31..7; (rows, "
                   "depth, columns): %s%s, depths 1..%d" % (SHAPES, " and " + str(MORE) if thorough else
                                                            " and a sixth of the pairs up to 17x17", 67 if thorough else 35))
    c.assumptions = ["zero points are 0, as required for 16-bit operands",
                     "accumulators are compared modulo 2^32; shifted and rescaled values fit as stated for C01"]
    c.process(res, exe)
    return c.finish(require_reach=["destination entry equals the formula"])
