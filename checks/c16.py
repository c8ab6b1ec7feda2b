ENTRIES = ["c16_logs32", "c16_logs64", "c16_pot32", "c16_pot64", "c16_potu32", "c16_round32", "c16_round64",
           "c16_roundmixed", "c16_roundptr"]


def main(c):
    mod = c.bc("c16", ["harness/c16.cc"], ubsan=["c16.cc"])
    exe = c.native("c16", ["harness/c16.cc"])
    tasks = [dict(module=mod, entry=e, cfg={}, options=dict(timeout_ms=60000)) for e in ENTRIES]
    c.notes.append("all 32-bit and 64-bit argument values; no bound")
    res = c.run(tasks)
    c.process(res, exe)
    return c.finish()
