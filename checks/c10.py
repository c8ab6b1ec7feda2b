"""Caching of constant operands."""
import os

from engine.build import CORE
from . import mulcommon as mc

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = ["harness/c10.cc", "harness/cpuinfo_stub.cc", "harness/clock_stub.cc"] + CORE
PREP = ["harness/c10_prepare.cc", "harness/cpuinfo_stub.cc", "harness/clock_stub.cc"] + CORE
BASE = dict(clock=0, cpuinfo=0, l1=32768, l2=524288)


def main(c):
    inc = ["-include", os.path.join(HERE, "harness", "c08_sys.h")]
    per = {"prepacked_cache.cc": inc, "system_aligned_alloc.cc": inc}
    mod = c.bc("c10", SRC)
    exe = c.native("c10", SRC)
    prep = c.bc("c10p", PREP, ubsan=["prepacked_cache.cc", "prepare_packed_matrices.cc"], perfile=per)
    prep_exe = c.native("c10p", PREP, perfile=per)
    tasks = []

    def add(entry, *steps, **kw):
        cfg = dict(BASE, steps=len(steps), lhs_policy=2, rhs_policy=2, clear=0)
        cfg.update(kw)
        for i, s in enumerate(steps):
            d = dict(m=3, k=2, n=2, lhs=0, rhs=1, order=1, stride=0, zp=0, path=1)
            d.update(s)
            cfg.update({"%s%d" % (k, i): v for k, v in d.items()})
        tasks.append(dict(module=mod, entry=entry, cfg=cfg, setup=("checks.mulcommon", "setup"),
                          options=dict(timeout_ms=60000, max_iter=100000, real="f32" in entry,
                                       attrs=dict(merge=False, no_rehash=True))))
    for p in mc.PATHS:
        for e in ("c10_i8", "c10_f32"):
            # the same multiplication again
            add(e, dict(path=p), dict(path=p), clear=1)
            add(e, dict(path=p), dict(path=p, n=9), lhs_policy=1, rhs_policy=0)
            add(e, dict(path=p, m=9), dict(path=p), lhs_policy=0, rhs_policy=1)
            # other storage order, stride, size of the same data
            add(e, dict(path=p, m=2, k=2, order=1), dict(path=p, m=2, k=2, order=0))
            add(e, dict(path=p, m=3, k=3, stride=1), dict(path=p, m=3, k=3, stride=0))
            add(e, dict(path=p, m=5, k=4), dict(path=p, m=6, k=4))
            add(e, dict(path=p, m=3, k=3, stride=1), dict(path=p, m=3, k=4, stride=0))
            # as the other operand
            add(e, dict(path=p, m=3, k=2, n=3), dict(path=p, m=3, k=2, n=3, lhs=1, rhs=0))
            add(e, dict(path=p, m=2, k=2, n=2, lhs=0, rhs=0, order=1))
        add("c10_i8", dict(path=p, zp=1, m=2, k=1, n=1), dict(path=p, zp=1, m=2, k=1, n=1), lhs_policy=3, rhs_policy=0)
        add("c10_i8", dict(path=p, k=1, n=1), dict(path=p, zp=1, k=1, n=1), lhs_policy=3, rhs_policy=0)
    for p in mc.PATHS:
        for q in mc.PATHS:
            if p != q:
                add("c10_i8", dict(path=p, m=3, k=3), dict(path=q, m=3, k=3))
                add("c10_f32", dict(path=p, m=3, k=3), dict(path=q, m=3, k=3))
    prep_tasks = []
    deep = c.tier == "thorough"
    for calls, log2, kl, kr, fl in ((1, 26, 8, 8, 0), (1, 26, 4, 16, 1)) + (
            ((1, 26, 8, 8, 1), (1, 26, 4, 16, 0), (2, 20, 8, 8, 0), (2, 20, 4, 16, 1)) if deep else ()):
        prep_tasks.append(dict(module=prep, entry="c10_prepare",
                               cfg=dict(BASE, calls=calls, log2cols=log2, depth=8, kl=kl, kr=kr, fail=0, log2addr=40,
                                        **{"float": fl}),
                               options=dict(timeout_ms=60000, max_iter=100000,
                                            attrs=dict(merge=False, raw_addresses=True, no_rehash=True))))
    res = c.run(prep_tasks + tasks)
    c.notes.append("two multiplications sharing operand data on one context, results compared with a fresh context without "
                   "caching: all entries and zero points, cache policies of each operand, with and without clearing the cache; "
                   "same and other storage orders, strides, sizes, sides and paths of the shared data; plus obtaining the packed "
                   "operands of one multiplication with any widths up to 2^26 at depth 8, any policies, any allocator addresses")
    c.assumptions = ["the data of a cached operand does not change until the cache is cleared (documented)",
                     "the same data pointer is used with one element type (documented)",
                     "floating-point over the reals", "system allocator succeeds"]
    c.process([r for r in res if r.task["entry"] != "c10_prepare"], exe)
    c.process([r for r in res if r.task["entry"] == "c10_prepare"], prep_exe)
    return c.finish(require_reach=["reach:end", "reach:end prepare", "reach:cached"])
