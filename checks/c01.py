"""Products of 8-bit operands equal the documented formula on every path."""
from . import mulcommon as mc

# all parameters symbolic and present
FULL = dict(lzp=1, rzp=1, dzp=1, bias=1, clamp=1)
TYPES = ("mul_i8_i8_i8", "mul_i8_i8_u8", "mul_u8_u8_u8", "mul_u8_u8_i16", "mul_i8_i8_i32", "mul_u8_i8_i16")
EXPONENTS = tuple(range(-31, 8))
# (rows, depth, columns): tiles of 8x8 or 16x16 with every kind of remainder,
# single columns, depths around the unrolling of the packing and the kernels
SHAPES = ((1, 1, 1), (8, 4, 8), (9, 5, 17), (17, 3, 9), (16, 8, 16), (5, 33, 1), (17, 6, 1), (1, 9, 5), (3, 65, 2),
          (2, 2, 33), (25, 4, 7), (15, 1, 15), (4, 31, 6))
MORE = tuple((m, 1 + (5 * m + 3 * n) % 13, n) for m in range(1, 18) for n in range(1, 18)) + (
    (8, 128, 8), (16, 70, 16), (33, 7, 31), (1, 200, 1), (40, 3, 40))


def main(c):
    mod = c.bc("mul", mc.SRC)
    exe = c.native("mul", mc.SRC)
    thorough = c.tier == "thorough"
    tasks = []

    def add(entry, path, m, k, n, **kw):
        if entry in ("mul_i8_i8_i32",):
            kw = dict(kw, dzp=0, clamp=0, perchannel=0, e=0)
        tasks.append(mc.task(mod, entry, path=path, m=m, k=k, n=n, **kw))

    for pi, path in enumerate(mc.PATHS):
        # every exponent; values, zero points, bias, multiplier and clamp symbolic
        for e in EXPONENTS:
            t = TYPES[(e + pi) % len(TYPES)] if not thorough else None
            for entry in TYPES if thorough else (t if t != "mul_i8_i8_i32" else TYPES[0],):
                add(entry, path, 1, 2, 1 + e % 3, e=e, **FULL)
        # every remainder
        for i, (m, k, n) in enumerate(SHAPES + (MORE if thorough else ())):
            t = TYPES[(i + pi) % len(TYPES)]
            add(t, path, m, k, n, e=-9 + i % 8, perchannel=1, lo=i & 1, ro=i >> 1 & 1, do=i >> 2 & 1, **FULL)
        # zero points absent on one or both sides, no bias
        for i, z in enumerate(((0, 0), (0, 1), (1, 0))):
            for n in (1, 3):
                add(TYPES[i], path, 9, 6, n, e=-2, lzp=z[0], rzp=z[1], bias=i & 1)
                # the unsigned values that count as absent
                add(TYPES[2 + i % 2], path, 9, 6, n, e=-2, lzp=2 - z[0], rzp=2 - z[1], bias=i & 1)
        for t in TYPES:
            add(t, path, 9, 7, 3, e=-4, lo=1, **FULL)
            add(t, path, 3, 4, 1, e=-1, **FULL)
    # blocked execution with tiny caches
    for path in mc.PATHS[1:]:
        add("mul_i8_i8_i8", path, 34, 3, 35, e=-3, cpuinfo=1, l1=64, l2=128, **FULL)
    res = mc.run(c, mod, tasks)
    c.notes.append("operand entries, zero points, bias, multiplier mantissas and clamp bounds: all values; exponents "
                   "-31..7 (one query each); (rows, depth, columns): " + str(SHAPES) +
                   (" and " + str(MORE) if thorough else ""))
    c.assumptions = [
        "the accumulator shifted left by a positive exponent, the rescaled value and its sum with the destination zero "
        "point fit in 32 bits",
        "on the SIMD paths a rescaled value may be rounded to nearest once or, as the x86 kernels do, in two steps"]
    c.process(res, exe)
    return c.finish(require_reach=["destination entry equals the formula"])
