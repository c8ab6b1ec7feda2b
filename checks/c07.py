import os
import time

import z3

from engine import threads as th
from engine.machine import Finding, Inconclusive, PathEnd

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = ["harness/c07.cc", "harness/sync_std.cc", "thread_pool.cc", "blocking_counter.cc", "wait.cc", "denormal.cc"]
HOOK = ["-include", os.path.join(HERE, "harness", "sync_hook.h")]


# Models are looked up once per call site, so they find the recorder through the
# machine.
def parallel(m, st, args, ins):
    m.rec.begin = st.clone(m)
    m.completed += 1
    raise PathEnd()


def spawn(m, st, args, ins):
    return m.rec.spawn(st, st.mem[m.toptr(st, args[0]).obj].name, [args[1]], ins)


def join(m, st, args, ins):
    m.rec.join(st, m.concretize(st, args[0], 32), ins)


def lock(m, st, args, ins):
    m.rec.lock(st, args[0], ins)
    return 0


def unlock(m, st, args, ins):
    m.rec.unlock(st, args[0], ins)
    return 0


def wait(m, st, args, ins):
    m.rec.wait(st, args[0], args[1], ins)


def notify(m, st, args, ins):
    m.rec.notify(st, args[0], m.concretize(st, args[1], 1), ins)


def clock(m, st, args, ins):
    return m.rec.clock(st, ins)


def destroy(m, st, args, ins):
    return 0


MODELS = {"pthread_cond_destroy": destroy, "verif_parallel": parallel, "verif_spawn": spawn, "verif_join": join, "verif_mutex_lock": lock,
          "verif_mutex_unlock": unlock, "verif_cond_wait": wait, "verif_cond_notify": notify, "verif_clock": clock}


def setup(m, task):
    cfg = task["cfg"]
    rec = m.rec = m.hooks = th.Program(m, cfg["unroll"], cfg["outer"])
    rec.begin = None
    for k in [k for k in m.models if "condition_variable" in k]:
        del m.models[k]  # the harness has them
    m.models.update(MODELS)
    m.finish = lambda m, r: finish(m, r, rec, cfg)


def finish(m, r, rec, cfg):
    if m.findings:
        return
    t0 = time.time()
    ts = rec.run(rec.begin, "verif_thread", [0])
    if cfg.get("debug"):
        print("executed %.1fs" % (time.time() - t0), "shared", {m.objinfo[o][0] + "#%d" % o: x for o, x in rec.marked.items()}, flush=True)
        for t in ts:
            print(t.tid, len(t.events), "cut", len(t.cut), "blocked", len(t.blocked), "bad", len(t.bad), "frees", len(t.frees), flush=True)
    decide(m, r, rec, cfg, ts)


def queries(m, rec, ts, c):
    bad = {}
    for t in ts:
        for kind, msg, seq, g, loc in t.bad:
            bad.setdefault((kind, msg), []).append(g)
    for k, gs in bad.items():
        yield k, [z3.Or(*[c.b(g) for g in gs])]
    cons, blocked = c.waits()
    yield ("hang", "a thread waits forever"), cons + [z3.Or(*blocked)] + [
        z3.Or(d, b, z3.Not(c.b(t.start))) for t, d, b in zip(ts, c.done, blocked)]
    # conflicting plain accesses
    byloc = {}
    for e in c.ev:
        for l, cond in e.alts:
            if type(l[0]) is int:
                byloc.setdefault(l, []).append(e)
    for l, es in sorted(byloc.items()):
        cons, alts = [], []
        for x in es:
            ys = [y for y in es if y.tid != x.tid and (x.plain or y.plain) and "R" != x.kind + y.kind and
                  (x.kind != "R" or y.kind != "R") and rec.after_spawn(x.tid, x.seq, y.tid)]
            if not ys:
                continue
            k, at = c.knowledge("race%d" % x.id, {(x.tid, x.seq): c.G[x.id]})
            cons += k
            alts.append(z3.And(c.G[x.id], z3.Or(*[z3.And(c.G[y.id], c.S[x.id, y.id], c.before(x, y),
                                                          z3.Not(at(y.tid, y.seq))) for y in ys])))
        if alts:
            yield ("race", "conflicting accesses of %s+%d race" % (m.objinfo[l[0]][0] or "memory", l[1])), cons + [
                z3.Or(*alts)]
    # memory given back while another thread may still use it
    n = 0
    for t in ts:
        for q, g, o in t.frees:
            for u in ts:
                l = u.touched.get(o) if u is not t else None
                if not l:
                    continue
                l = sorted(l, key=lambda x: x[0])
                gs = [c.b(x) for _, x in l]
                src = {}
                later = z3.BoolVal(False)
                for (s, _), x in zip(reversed(l), reversed(gs)):
                    src[u.tid, s] = z3.And(x, z3.Not(later))
                    later = z3.Or(later, x)
                n += 1
                k, at = c.knowledge("free%d" % n, src)
                yield ("race", "%s is freed while another thread may use it" % m.objinfo[o][0]), k + [
                    c.b(g), later, z3.Not(at(t.tid, q))]


def model_of(c, mod, races):
    sched = c.schedule(mod)
    d = {"sched_%d" % i: t for i, t in enumerate(sched)}
    d["sched_count"] = len(sched)
    d["check_races"] = races
    for name, (t, w) in c.m.inputs.items():
        d[name] = mod.eval(c.tr.bv(t, w), model_completion=True).as_long()
    for t, l in c.clocks(mod).items():
        for i, v in enumerate(l):
            d["clock_%d_%d" % (t, i)] = v
        d["clocks_%d" % t] = len(l)
    return d


def decide(m, r, rec, cfg, ts):
    debug = cfg.get("debug")
    c = th.Schedule(m, rec, rec.begin, ts)
    r.extra["events"] = [len(t.events) for t in ts]
    t0 = time.time()
    if debug:
        print("constraints", len(c.cons), flush=True)
    res, mod = c.check(c.done)
    if debug:
        print("done: %s %.1fs" % (res, time.time() - t0), flush=True)
    m.witnesses = []
    if res == "sat":
        m.reached["reach:all threads finish"] = 1
        m.witnesses.append((model_of(c, mod, 0), {"followed#0": 1}))
    for (kind, text), cons in queries(m, rec, ts, c):
        t0 = time.time()
        m.asserts += 1
        m.reached[text] = m.reached.get(text, 0) + 1
        res, mod = c.check(cons)
        if debug:
            print("%s %s: %s %.1fs" % (kind, text, res, time.time() - t0), flush=True)
        if res == "unsat":
            continue
        if res == "unknown":
            raise Inconclusive("%s: %s" % (kind, text))
        if kind == "bound":
            raise Inconclusive(text)
        if debug:
            print(c.trace(mod), flush=True)
        f = Finding()
        f.kind, f.msg, f.loc, f.stack = kind, text, None, []
        f.model = model_of(c, mod, int(kind == "race"))
        m.findings.append(f)
        if len(m.findings) >= 2:
            return


def native(c, name, flags, src=SRC):
    plain = ["-fno-sanitize=thread"]
    per = {s.split("/")[-1]: HOOK for s in src}
    per.update({"concurrent_native.cc": plain, "verif_native.cc": plain})
    return c.native(name, src + ["harness/concurrent_native.cc"], sanitize=False, flags=["-fsanitize=thread"] + flags,
                    perfile=per)


def main(c):
    builds = {"release": ["-DNDEBUG"], "debug": []}
    per = {s.split("/")[-1]: HOOK for s in SRC}
    mods = {k: c.bc("c07" + k, SRC, flags=v, perfile=per) for k, v in builds.items()}
    exes = {k: native(c, "c07" + k, v) for k, v in builds.items()}
    tasks = []

    def add(build="release", **kw):
        cfg = dict(first=2, second=0, spin=0, unroll=2, outer=3)
        cfg.update(kw)
        tasks.append(dict(module=mods[build], entry="c07", name=build, setup=("checks.c07", "setup"), cfg=cfg,
                          options=dict(timeout_ms=60000, max_iter=100000)))
    # the slow ones first
    add(second=3)
    add(first=3, second=2)
    add(second=2, spin=1)
    add("debug", second=2, spin=1)
    add(spin=1)
    add(first=3, outer=2)
    add(second=2)
    add("debug", second=2)
    add(second=1)
    add(first=1, second=2)
    add()
    add("debug")
    if not c.quick():
        add("debug", first=3, second=2)
        add("debug", spin=1)
        add(spin=1, unroll=3)
        add(second=2, unroll=3, outer=4)
    res = c.run(tasks)
    c.notes.append("the caller and 1 or 2 workers; one or two batches of 1 to 3 tasks, then destruction; release and debug "
                   "builds; spinning for 0 or 1 ms with any clock; each waiting loop goes round at most 2 times without "
                   "an answer, each outer loop 3 times")
    c.assumptions = ["the interleavings are sequentially consistent; that every conflicting pair of plain accesses is ordered "
                     "by happens-before is decided with the real orders of the atomic accesses",
                     "a condition variable may wake any waiter at any time; timed waits and fences are not supported",
                     "starting a thread and allocating memory succeed"]
    c.notes.append("events per thread: %s" % [r.extra.get("events") for r in res])
    for k in builds:
        c.process([r for r in res if r.task["name"] == k], exes[k])
    return c.finish(require_reach=["reach:all threads finish"])
