SRC = ["harness/c03.cc", "apply_multiplier.cc"]


def main(c):
    mod = c.bc("c03", SRC, ubsan=["apply_multiplier.cc"])
    exe = c.native("c03", SRC)
    tasks = []
    for e in ("c03_uniform_i8", "c03_uniform_i16", "c03_perchannel_u8"):
        for lo in range(-31, 8, 5):
            tasks.append(dict(module=mod, entry=e, cfg={"elo": lo, "ehi": min(lo + 4, 7)},
                              options=dict(timeout_ms=60000)))
    tasks.append(dict(module=mod, entry="c03_raw", cfg={}))
    c.notes.append("every accumulator, every multiplier in [0, 2^31), every exponent in [-31, 7] (the documented range); results that do "
                   "not fit in 32 bits are excluded (documented precondition); uniform and per-channel parameters "
                   "(3 channels)")
    res = c.run(tasks)
    c.process(res, exe)
    return c.finish()
