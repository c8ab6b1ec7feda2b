"""A context reused for different multiplications behaves like a fresh one."""
from . import mulcommon as mc

# the kinds of multiplication a history is made of
KINDS = [
    dict(type=0, m=5, k=3, n=4, bias=1, clamp=1, lzp=1, dzp=1, perchannel=1, e=-3),
    dict(type=1, m=9, k=2, n=3, bias=1, clamp=1),
    dict(type=3, m=2, k=6, n=9, rzp=1),
    dict(type=0, m=8, k=4, n=8, bias=1, bycol=1, perchannel=1, e=-2, do=1),
    dict(type=1, m=1, k=5, n=1),
    dict(type=2, m=3, k=2, n=2, lzp=1, rzp=1, bias=1, e=-2),
    dict(type=4, m=3, k=5, n=2, bias=1, e=-1),
    dict(type=1, m=17, k=1, n=2, bias=1, bycol=1, lo=1, ro=1, do=1),
    dict(type=3, m=1, k=1, n=1),
]


def main(c):
    mod = c.bc("mul", mc.SRC)
    exe = c.native("mul", mc.SRC)
    tasks = []

    def add(paths, *kinds, repeat=1, small=False):
        cfg = dict(steps=len(kinds), repeat=repeat, clock=0, cpuinfo=0, l1=32768, l2=524288)
        if small:  # caches so small that everything is computed in blocks
            cfg.update(cpuinfo=1, l1=16, l2=32)
        w = 0
        for i, k in enumerate(kinds):
            d = dict(mc.BASE)
            d.update(KINDS[k])
            d["path"] = paths[i % len(paths)]
            w += d["m"] * d["k"] * d["n"] * repeat
            cfg.update({"%s%d" % (n, i): v for n, v in d.items()})
        tasks.append((w, dict(module=mod, entry="mul_history", cfg=cfg, setup=("checks.mulcommon", "setup"),
                              options=dict(timeout_ms=60000, max_iter=100000, real=True))))
    n = len(KINDS)
    deep = c.tier == "thorough"
    for pi, path in enumerate(mc.PATHS):
        for a in range(n):
            for b in range(n):
                if a != b and (deep or (a + b + pi) % 2 == 0):
                    add([path], a, b)
        for a in range(n):
            add([path], a, (a + 1) % n, repeat=3)
            if deep or (a + pi) % 2 == 0:
                add([path], a, (a + 1) % n, repeat=3, small=True)
    # the path changes between multiplications
    for i, p in enumerate(mc.PATHS):
        for q in mc.PATHS:
            if p != q:
                add([p, q], i, i)
                add([p, q], (2 * i + 3) % n, (2 * i + 4) % n, (2 * i + 3) % n)
    for i in range(n if deep else 4):
        add([mc.PATHS[i % 4]], i, (i + 2) % n, (i + 5) % n, (i + 7) % n)
    seen = sorted(tasks, key=lambda x: -x[0])
    res = c.run([t for _, t in seen])
    c.notes.append("histories of 2..4 multiplications out of %d kinds (types, shapes, per-channel parameters) on one context, "
                   "with and without changing the path, some repeated three times, in one pass and in blocks; all values" % n)
    c.assumptions = ["accumulators and rescaled values fit as stated for C01", "floating-point over the reals"]
    c.process(res, exe)
    return c.finish(require_reach=["reach:end history"])
