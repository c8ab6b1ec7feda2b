"""Tiles of large matrices: the same result as at the start of the matrices."""
from engine.build import CORE
from . import mulcommon as mc

SRC = ["harness/c22.cc", "harness/cpuinfo_stub.cc", "harness/clock_stub.cc"] + CORE
TILE = {mc.CPP: 1, mc.AVX: 8, mc.AVX2: 8, mc.AVX512: 16}


def main(c):
    mod = c.bc("c22", SRC, flags=["-DNDEBUG"])
    exe = c.native("c22", SRC, flags=["-DNDEBUG"])
    tasks = [dict(module=mod, entry="c22_entry", cfg=dict(row_major=o), options=dict(timeout_ms=60000)) for o in (0, 1)]

    def add(entry, path, **kw):
        cfg = dict(path=path, tile=TILE[path], depth=5, rows=1, cols=1, lo=0, ro=0, ls=0, rs=0, ds=0, last=1 << 20,
                   clock=0, cpuinfo=0, l1=32768, l2=524288)
        cfg.update(kw)
        tasks.append(dict(module=mod, entry=entry, cfg=cfg, options=dict(timeout_ms=60000, max_iter=1000, real=entry == "c22_f32")))
    for path in mc.PATHS:
        n = {1: 2}.get(TILE[path], TILE[path])
        for t in ("c22_i8", "c22_f32", "c22_u8", "c22_i16"):
            add(t, path)
            for used in ((n, n), (n - 1, 1), (1, n - 1)):
                add(t, path, rows=used[0], cols=used[1], ls=(1 << 24) - 3, rs=1 << 23, ds=1 << 22)
            add(t, path, rows=n, cols=n, ls=8, rs=8, ds=16, last=1 << 30)
            add(t, path, depth=12, rows=n, cols=n, ls=1 << 28, rs=1 << 28, ds=16, lo=1, ro=1)
    res = c.run(tasks)
    c.notes.append("a tile at any position: any of the strides up to 2^24 with positions up to 2^20 (and entries of one row and "
                   "column), strides 2^22 to 2^24 with whole and partial tiles, positions up to 2^30 with short strides, "
                   "row-major operands with strides of 2^28")
    c.assumptions = ["strides in bytes times the tile fit 32 bits"]
    c.process(res, exe)
    return c.finish(require_reach=["reach:tile computed", "reach:entry"])
