SRC = ["harness/c19.cc", "profiler/instrumentation.cc", "profiler/treeview.cc"]


def main(c):
    fl = ["-DRUY_PROFILER"]
    mod = c.bc("c19", SRC, ubsan=["*"], flags=fl + ["-DVERIF_SYMBOLIC"])
    exe = c.native("c19", SRC, flags=fl)
    tasks = []

    def add(entry, **cfg):
        tasks.append(dict(module=mod, entry=entry, cfg=cfg,
                          options=dict(timeout_ms=60000, max_iter=100000, attrs=dict(merge=False))))
    add("c19_serialize", samples=1, depth=3, formats=4, ids=1)
    add("c19_serialize", samples=2, depth=1, formats=4, ids=1)
    for cf in range(3):
        for cd in range(3):
            add("c19_tree", samples=1, depth=3, formats=3, ids=1, twice=cf == cd, collapse_format=cf, collapse_depth=cd)
    for cf, cd in ((0, 0), (1, 1), (2, 0)):
        add("c19_tree", samples=2, depth=2, formats=3, ids=1, twice=0, collapse_format=cf, collapse_depth=cd)
        add("c19_tree", samples=3, depth=2, formats=2, ids=0, twice=0, collapse_format=cf, collapse_depth=cd)
    add("c19_tree", samples=3, depth=1, formats=2, ids=1, twice=1, collapse_format=1, collapse_depth=0)
    res = c.run(tasks)
    c.notes.append("any stacks of up to 3 labels, up to 3 samples, out of up to 4 formats with any arguments, any thread "
                   "identifiers; collapsing by any of 3 labels at depths 0..2")
    c.assumptions = ["printing of the tree and the sampling thread are outside"]
    c.process(res, exe)
    return c.finish(require_reach=["reach:end serialize", "reach:end tree"])
