from engine.build import CORE
from . import c07, mulcommon as mc

SRC = ["harness/c13.cc", "harness/cpuinfo_stub.cc", "harness/clock_stub.cc"] + CORE
WORKER = ["harness/c13_worker.cc"] + c07.SRC[1:]


def main(c):
    per = {s.split("/")[-1]: c07.HOOK for s in WORKER}
    wmod = c.bc("c13worker", WORKER, flags=["-DNDEBUG"], perfile=per)
    wexe = c07.native(c, "c13worker", ["-DNDEBUG"], WORKER)
    mod = c.bc("c13", SRC)
    exe = c.native("c13", SRC)
    base = dict(clock=0, cpuinfo=0, l1=32768, l2=524288)
    tasks = []
    for n in (1, 2, 3):
        for rows, cols, depth in ((8, 8, 4), (1, 1, 1), (64, 64, 16)):
            for small in (0, 1):
                cfg = dict(base, n=n, rows=rows, cols=cols, depth=depth, cpuinfo=small)
                if small:
                    cfg.update(l1=64, l2=128)
                tasks.append(dict(module=mod, entry="c13_multiplications", cfg=cfg, options=dict(timeout_ms=60000)))
    for path in mc.PATHS:
        for rows, cols, depth in ((3, 2, 4), (9, 1, 2), (1, 17, 1)):
            for policy in (0, 3):
                tasks.append(dict(module=mod, entry="c13_mul",
                                  cfg=dict(base, rows=rows, cols=cols, depth=depth, path=path, policy=policy),
                                  options=dict(timeout_ms=60000, real=True)))
    for first, again in ((2, 0), (2, 1), (3, 0)):
        tasks.append(dict(module=wmod, entry="c13_worker", name="worker", setup=("checks.c07", "setup"),
                          cfg=dict(first=first, again=again, unroll=2, outer=2 + again),
                          options=dict(timeout_ms=60000, max_iter=100000)))
    res = c.run(tasks)
    c.notes.append("any control state with exceptions masked before each of 1..3 multiplications, simple and blocked; the "
                   "public entry point on the four paths")
    c.notes.append("1 or 2 worker threads of a pool, one or two batches, any schedule")
    c.assumptions = ["floating-point exceptions are masked", "a new thread starts with the control state of its creator"]
    c.process([r for r in res if r.task.get("name") != "worker"], exe)
    c.process([r for r in res if r.task.get("name") == "worker"], wexe)
    return c.finish(require_reach=["reach:end", "reach:end mul", "reach:blocked", "reach:all threads finish"])
