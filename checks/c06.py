import z3

from engine import terms as tm
from engine import threads as th
from engine.build import CORE
from engine.machine import Finding, Inconclusive, PathEnd

SRC = ["harness/c06.cc", "harness/cpuinfo_stub.cc", "harness/clock_stub.cc"] + [
    s for s in CORE if s not in ("thread_pool.cc",)]


# Models are looked up once per call site, so they find the recorder through the
# machine.
def parallel(m, st, args, ins):
    m.rec.count = m.concretize(st, args[0], 32)
    m.rec.start = st.clone(m)
    m.completed += 1
    raise PathEnd()


def event(m, st, args, ins):
    m.rec.event(st, "X", None, 0, ins, args=args)
    return None


def domain(m, st, args, ins):
    m.rec.domain[args[0]] = (args[1], args[2])
    return None


def setup(m, task):
    cfg = task["cfg"]
    rec = m.rec = m.hooks = th.Recorder(m, cfg["unroll"])
    rec.domain = {}
    rec.start = None
    m.models.update({"verif_parallel": parallel, "verif_event": event, "verif_domain": domain})
    m.finish = lambda m, r: finish(m, r, rec, cfg)


def finish(m, r, rec, cfg):
    if m.findings:
        return
    if rec.start is None:
        m.reached["reach:single thread"] = 1
        return
    rec.bounds = (0, 4 * cfg["threads"] + 8)
    ts = th.run_threads(m, rec, rec.start, [("verif_thread", [i]) for i in range(rec.count)])
    decide(m, r, rec, cfg, ts)


def covers(c, lo, hi):
    return z3.And(z3.ULE(lo, c), z3.ULT(c, hi))


def model_of(sched, races):
    d = {"sched_%d" % i: t for i, t in enumerate(sched)}
    d["sched_count"] = len(sched)
    d["check_races"] = races
    return d


class Queries:
    def __init__(self, m, rec, ts, sc):
        self.c = c = th.Composition(m, rec.start, ts, sc)
        self.m, self.rec, self.ts = m, rec, ts
        tr = c.tr
        self.X = [(e, tr.b(e.guard), [tr.bv(a, 32) for a in e.args]) for t in ts for e in t.events if e.kind == "X"]
        self.cells = [z3.BitVec("cell%d" % s, 32) for s in range(2)]
        self.dom = [z3.ULT(self.cells[s], rec.domain[s][0]) for s in range(2)]

    def kernels(self):
        return [(e, z3.And(g, covers(self.cells[0], a[1], a[2]), covers(self.cells[1], a[3], a[4])))
                for e, g, a in self.X if type(e.args[0]) is int and e.args[0] == 2]

    def packs(self, s):
        return [(e, z3.And(g, covers(self.cells[s], a[1], a[2]))) for e, g, a in self.X
                if type(e.args[0]) is int and e.args[0] == s]

    def twice(self, l):
        return z3.Or(*[z3.And(x, y) for i, (_, x) in enumerate(l) for _, y in l[i + 1:]])

    def all(self):
        """(message, constraints)"""
        c, ts = self.c, self.ts
        ks = self.kernels()
        yield "a block is computed at most once", self.dom + [self.twice(ks)]
        yield "every block is computed", self.dom + c.done + [z3.Not(z3.Or(*[x for _, x in ks]))]
        for s in range(2):
            side = ("left", "right")[s]
            ps = self.packs(s)
            if self.rec.domain[s][1]:
                yield "a pre-packed %s operand is not packed" % side, [z3.Or(*[x for _, x in ps])] if ps else [
                    z3.BoolVal(False)]
                continue
            yield "a %s block is packed at most once" % side, [self.dom[s], self.twice(ps)]
            cons, at = c.knowledge("pack%d" % s, {(e.tid, e.seq): x for e, x in ps})
            a = 1 + 2 * s
            yield "packing of the %s block happens before its use" % side, cons + [self.dom[s], z3.Or(*[
                z3.And(g, covers(self.cells[s], x[a], x[a + 1]), z3.Not(at(e.tid, e.seq)))
                for e, g, x in self.X if e.args[0] == 2])]
        bad = {}
        for t in ts:
            for kind, msg, seq, g, loc in t.bad:
                bad.setdefault((kind, msg), []).append(g)
        for (kind, msg), gs in bad.items():
            yield (kind, msg), [z3.Or(*[c.b(g) for g in gs])]
        # conflicting plain accesses
        for i, (a, b) in enumerate(self.conflicts()):
            (t1, q1, g1), (t2, q2, g2), what = a, b[:3], b[3]
            k1, at1 = c.knowledge("ra%d" % i, {(t1, q1): c.b(g1)})
            k2, at2 = c.knowledge("rb%d" % i, {(t2, q2): c.b(g2)})
            yield ("race", "conflicting accesses of %s race" % what), k1 + k2 + [
                c.b(g1), c.b(g2), z3.Not(at1(t2, q2)), z3.Not(at2(t1, q1))]
        # waiting for something that no longer changes
        stuck = [c.stuck(t) for t in ts]
        yield ("hang", "a thread waits forever"), [z3.Or(*stuck),
                                                   z3.And(*[z3.Or(d, s) for d, s in zip(c.done, stuck)])]

    def witness(self, mod):
        """A schedule and what it makes each thread do."""
        outs = {"followed#0": 1}
        for t in self.ts:
            n = [0, 0, 0]
            for e, g, a in self.X:
                if e.tid == t.tid and z3.is_true(mod.eval(g, model_completion=True)):
                    n[e.args[0]] += 1
            outs["packs_%d#0" % t.tid] = n[0] + n[1]
            outs["kernels_%d#0" % t.tid] = n[2]
        return model_of(self.c.schedule(mod), 0), outs

    def conflicts(self):
        byb = {}
        for t in self.ts:
            for (o, off, n, w), l in t.plain.items():
                for j in range(n):
                    byb.setdefault((o, off + j), []).append((t.tid, w, (o, off, n, w)))
            for e in t.events:
                if e.kind in "RWU":
                    for (o, off, n), cnd in e.alts:
                        for j in range(n):
                            byb.setdefault((o, off + j), []).append((t.tid, e.kind != "R", e))
        seen = set()
        for (o, off), l in byb.items():
            for i, (t1, w1, k1) in enumerate(l):
                for t2, w2, k2 in l[i + 1:]:
                    if t1 == t2 or not (w1 or w2) or (isinstance(k1, th.Event) and isinstance(k2, th.Event)):
                        continue
                    key = (t1, k1 if isinstance(k1, tuple) else k1.seq, t2, k2 if isinstance(k2, tuple) else k2.seq)
                    if key in seen:
                        continue
                    seen.add(key)
                    for q1, g1 in self.points(t1, k1):
                        for q2, g2 in self.points(t2, k2):
                            name = self.m.objinfo[o][0] or "memory"
                            yield (t1, q1, g1), (t2, q2, g2, "%s+%d" % (name, off))

    def points(self, tid, k):
        if isinstance(k, th.Event):
            return [(k.seq, k.guard)]
        return [(q, tm.band(c, *pc)) for q, pc, c in self.ts[tid].plain[k]][:4]


def decide(m, r, rec, cfg, ts):
    import time
    q = Queries(m, rec, ts, False)
    r.extra["events"] = [len(t.events) for t in ts]
    if cfg.get("debug"):
        print("events", [len(t.events) for t in ts], "rf", sum(len(l) for l in q.c.rf.values()), "cons", len(q.c.cons),
              "done", [len(t.done) for t in ts], "cut", [len(t.cut) for t in ts], flush=True)
    t0 = time.time()
    res, _ = q.c.check(q.c.done)
    if res == "sat":
        m.reached["reach:all threads finish"] = 1
    if cfg.get("debug"):
        print("done: %s %.1fs" % (res, time.time() - t0), flush=True)
    m.witnesses = []
    scq = Queries(m, rec, ts, True)
    res, mod = scq.c.check(scq.c.done)
    if res == "sat":
        m.witnesses.append(scq.witness(mod))
    for msg, cons in q.all():
        t0 = time.time()
        kind, text = msg if isinstance(msg, tuple) else ("assert", msg)
        m.asserts += 1
        m.reached[text] = m.reached.get(text, 0) + 1
        res, mod = q.c.check(cons)
        if cfg.get("debug"):
            print("%s %s: %s %.1fs" % (kind, text, res, time.time() - t0), flush=True)
        if res == "unsat":
            continue
        if res == "unknown":
            raise Inconclusive("%s: %s" % (kind, text))
        if kind == "bound":
            raise Inconclusive(text)
        for msg2, cons2 in scq.all():
            if msg2 != msg:
                continue
            res, mod = scq.c.check(cons2)
            if res == "sat":
                break
        if res != "sat":
            raise Inconclusive("%s: %s: only with weaker ordering than any schedule" % (kind, text))
        f = Finding()
        f.kind, f.msg, f.loc, f.stack = kind, text, None, []
        f.model = model_of(scq.c.schedule(mod), int(kind == "race"))
        m.findings.append(f)
        if len(m.findings) >= 2:
            return


def native(c, name, flags):
    plain = ["-fno-sanitize=thread"]
    return c.native(name, SRC + ["harness/concurrent_native.cc"], sanitize=False,
                    flags=["-fsanitize=thread"] + flags,
                    perfile={"concurrent_native.cc": plain, "verif_native.cc": plain})


def main(c):
    # as released, and with the debug assertions
    builds = {"release": ["-DNDEBUG"], "debug": []}
    mods = {k: c.bc("c06" + k, SRC, flags=v) for k, v in builds.items()}
    exes = {k: native(c, "c06" + k, v) for k, v in builds.items()}
    tasks = []
    base = dict(clock=0, kl=8, kr=8, rows=16, cols=16, depth=1, size=1, cpuinfo=0, l1=32768, l2=524288, prepacked=0)

    def add(threads, unroll, debug=False, **kw):
        cfg = dict(base, threads=threads, unroll=unroll)
        cfg.update(kw)
        k = "debug" if debug else "release"
        tasks.append(dict(module=mods[k], entry="c06", name=k, setup=("checks.c06", "setup"), cfg=cfg,
                          options=dict(timeout_ms=60000, max_iter=100000)))
    add(2, 3)
    add(4, 2)
    add(3, 2)
    add(2, 5, rows=64, cols=16)
    add(2, 5, rows=16, cols=64)
    add(2, 3, debug=True)
    add(3, 2, debug=True)
    small = dict(cpuinfo=1, l1=64, l2=128, depth=64)
    add(3, 2, **small)
    add(2, 3, rows=24, prepacked=2, **small)
    for prepacked in (1, 2, 3):
        add(2, 3, prepacked=prepacked)
        add(3, 3, prepacked=prepacked)
    if not c.quick():
        add(3, 3)
        add(2, 3, **small)
        add(2, 3, cpuinfo=1, l1=1024, l2=4096, depth=64)
        add(2, 8, rows=64, cols=16)
        add(2, 4)
        add(4, 2, rows=32, cols=16)
        for prepacked in (1, 2):
            add(4, 3, prepacked=prepacked)
    res = c.run(tasks)
    c.notes.append("2, 3 and 4 threads over grids of 2x2, 2x1 and 1x2 blocks in different traversal orders, every combination of pre-packed sides; loops around "
                   "shared accesses unrolled 2 to 5 times (a waiting thread looks that often at a block in progress)")
    c.notes.append("events per thread: %s" % [r.extra.get("events") for r in res])
    c.assumptions = ["the pool runs the tasks of a batch concurrently, the start of the batch happens before them (C07)",
                     "packing and computation routines are stand-ins that report the ranges they are given",
                     "reads take values from writes in the C++ model of relaxed, acquire and release accesses; "
                     "fences are not supported"]
    for k in builds:
        c.process([r for r in res if r.task["name"] == k], exes[k])
    return c.finish(require_reach=["reach:all threads finish"])
