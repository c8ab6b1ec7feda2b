"""Block map: the tiles partition the destination, for every shape within the bounds."""
SRC = ["harness/c05.cc", "block_map.cc"]

# (kernel rows, kernel cols, lhs scalar bytes, rhs scalar bytes): the layouts of
# the AVX-512, AVX2/AVX and portable kernels, and two that are not square.
LAYOUTS = ((16, 16, 1, 1), (8, 8, 4, 4), (1, 1, 2, 1), (8, 4, 1, 1), (4, 8, 1, 2))
# (log2 of row tiles, log2 of column tiles)
QUICK = {
    (16, 16, 1, 1): ((5, 5), (11, 3), (3, 3), (5, 3), (2, 8), (0, 9), (20, 0), (1, 2), (1, 1), (0, 0)),
    (8, 8, 4, 4): ((2, 6), (7, 1), (0, 5), (2, 0)),
    (1, 1, 2, 1): ((12, 1), (4, 4), (0, 3)),
    (8, 4, 1, 1): ((2, 3), (5, 1)),
    (4, 8, 1, 2): ((1, 4), (3, 2)),
}
THOROUGH = {
    (16, 16, 1, 1): ((9, 9), (7, 6), (4, 12), (10, 5), (6, 1), (2, 2), (4, 5), (0, 18)),
    (8, 8, 4, 4): ((6, 6), (2, 9), (3, 4), (9, 5), (1, 1)),
    (1, 1, 2, 1): ((9, 7), (3, 10), (7, 7), (2, 1), (1, 5)),
    (8, 4, 1, 1): ((5, 6), (8, 2)),
    (4, 8, 1, 2): ((5, 5), (1, 9)),
}


def main(c):
    mod = c.bc("c05", SRC, ubsan=["block_map.cc", "c05.cc"])
    exe = c.native("c05", SRC)
    tasks = []
    for lay in LAYOUTS:
        kr, kc, ls, rs = lay
        shapes = QUICK[lay] + (THOROUGH[lay] if c.tier == "thorough" else ())
        for a, b in shapes:
            tasks.append((a + b, dict(
                module=mod, entry="c05",
                cfg=dict(kr=kr, kc=kc, lsize=ls, rsize=rs, maxdim=(1 << 30) - 1, rlo=1 << a, rhi=(2 << a) - 1,
                         clo=1 << b, chi=(2 << b) - 1, maxthreads=1024),
                options=dict(timeout_ms=60000, attrs=dict(lazy=True, staged=5000)))))
    tasks.sort(key=lambda t: -t[0])
    res = c.run([t for _, t in tasks])
    c.process(res, exe)
    c.notes.append("tile counts per side in [2^a, 2^(a+1)) for the listed (a, b); every depth below 2^30, 1..1024 "
                   "threads, every pair of cache sizes up to 2^30; kernel layouts 16x16, 8x8, 1x1, 8x4, 4x8")
    return c.finish()
