"""Executions of several threads as one formula.

Every thread is executed symbolically on its own from the common start state.
A read of an atomic location returns a free symbol; the reads, writes and
read-modify-writes of a thread are collected as guarded events in program
order. The formula then ties the symbols together: every executed read takes
its value from some write (reads-from), the accesses of one location have a
total order that agrees with program order and with what is read (coherence,
atomicity of read-modify-write), and reads-from together with program order has
no cycle. That is the C++ memory model for acquire/release and relaxed
accesses, a little weaker than the standard (so that nothing is missed). With
`sc` the accesses of all locations have one total order, which makes the
execution a schedule that can be replayed."""
import time

import z3

from . import terms as tm
from .machine import Inconclusive, PathEnd, Ptr, PIte
from .smt import STATS, Translator, Unsupported
from .terms import T

GLOBAL = 1 << 40
ACQ = ("acq", "acq_rel", "sc")
REL = ("rel", "acq_rel", "sc")


class Event:
    __slots__ = ("tid", "seq", "kind", "alts", "guard", "rval", "wval", "wcond", "acq", "rel", "w", "args", "loc",
                 "id", "iters", "inc", "plain", "sync")


class Thread:
    def __init__(self, tid):
        self.tid = tid
        self.events = []  # in an order compatible with program order
        self.plain = {}  # (obj, off, n, write) -> [(seq, pc)]
        self.bad = []  # (kind, msg, seq, guard, loc)
        self.done = []
        self.cut = []
        self.start = 1  # condition under which the thread exists
        self.blocked = []  # (guard, kind, location, more): stopped at an operation that waits
        self.touched = {}  # obj -> [(seq, pc)]
        self.frees = []  # (seq, guard, obj)


class Recorder:
    """Collects the events of one thread while the machine executes it."""

    def __init__(self, m, limit, outer=None):
        self.m = m
        self.limit = limit  # iterations of an innermost loop
        self.outer = outer or limit  # and of the loops around it
        self.nests = set()  # loops seen around others
        self.cur = None
        self.seq = 0
        self.base = None  # objects of the start state
        self.n = 0

    def pc(self, st):
        return tm.band(*st.pc)

    def tick(self):
        self.seq += 1
        return self.seq

    def cut_here(self, st):
        """Loops around shared accesses whose end depends on what is read are
        unrolled a bounded number of times."""
        it = self.iterations(st)
        if len(it) > 1:
            self.nests.update(sorted(it)[:-1])
        for d, fr in enumerate(st.frames):
            for h, (last, n) in (fr.open or {}).items():
                key = (d, fr.fn.name, h)
                if it[key] > last and n >= (self.outer if key in self.nests else self.limit):
                    if self.m.solver.check(st.pc) != "unsat":
                        self.cur.cut.append((self.tick(), self.pc(st), key, it[key]))
                    raise PathEnd()
        return it

    def iterations(self, st):
        return {(d, fr.fn.name, h): k for d, fr in enumerate(st.frames) for h, k in fr.iters.items()}

    def alternatives(self, st, p, n):
        """[(location, condition)] for a pointer."""
        m = self.m
        if type(p) is T:
            p = m.toptr(st, p)
        if type(p) is PIte:
            out = []
            for c, q in ((p.c, p.p), (tm.bnot(p.c), p.q)):
                if m.solver.check(st.pc + [c]) == "unsat":
                    continue
                save = list(st.pc), set(st.pcset)
                m.assume(st, c)
                out += [(l, tm.band(c, d)) for l, d in self.alternatives(st, q, n)]
                st.pc, st.pcset = save
            return out
        o = m.check_access(st, p, n, "atomic access")
        if type(p.off) is int:
            return [((p.obj, p.off, n), 1)]
        out = []
        for c in m.offsets(st, o, p.off, n):
            k = tm.eq(p.off, c, 64)
            if m.quick(st, k) != 0 and m.solver.check(st.pc + [k]) != "unsat":
                out.append(((p.obj, c, n), k))
        return out

    def event(self, st, kind, p, n, ins, rval=None, wval=None, wcond=1, acq=0, rel=0, args=None):
        it = self.cut_here(st)
        e = Event()
        e.iters = it
        e.inc = None
        e.plain = False
        e.sync = None
        e.tid = self.cur.tid
        e.kind = kind
        e.alts = () if p is None else [(p, 1)] if type(p) is tuple else self.alternatives(st, p, n)
        e.guard = self.pc(st)
        e.seq = self.tick()
        e.rval, e.wval, e.wcond, e.acq, e.rel, e.w, e.args = rval, wval, wcond, acq, rel, n * 8, args
        e.loc = ins
        self.cur.events.append(e)
        return e

    def fresh(self, w):
        self.n += 1
        return tm.var("rd_%d_%d" % (self.cur.tid, self.n), w)

    def private(self, p):
        return type(p) is Ptr and not self.shared(p.obj)

    def shared(self, obj):
        # globals are created on demand
        return self.base is None or obj in self.base or obj >= GLOBAL

    # -- hooks of the machine
    def atomic_load(self, m, st, p, ty, order, ins):
        if self.cur is None or self.private(p):
            return m.load(st, p, ty)
        if ty.k != "i":
            raise Unsupported("atomic load of " + ty.s)
        v = self.fresh(ty.w)
        self.event(st, "R", p, ty.w // 8, ins, rval=v, acq=int(order in ACQ))
        return v

    def atomic_store(self, m, st, p, ty, v, order, ins):
        if self.cur is None or self.private(p):
            return m.store(st, p, ty, v)
        self.event(st, "W", p, ty.w // 8, ins, wval=m.toint(v), rel=int(order in REL))

    def atomic_rmw(self, m, st, p, ty, op, v, order, ins):
        from .intrinsics import rmw
        if self.cur is None or self.private(p):
            old = m.load(st, p, ty)
            m.store(st, p, ty, rmw(op, old, v, ty.w))
            return old
        old = self.fresh(ty.w)
        e = self.event(st, "U", p, ty.w // 8, ins, rval=old, wval=rmw(op, old, v, ty.w), acq=int(order in ACQ),
                       rel=int(order in REL))
        if op == "add" and type(v) is int and 0 < v < 256:
            e.inc = v
        # values a counter can take: the start value plus what all threads add
        if self.bounds is not None and ty.w == 32:
            lo, hi = self.bounds
            ok = tm.band(tm.sle(lo, old, 32), tm.sle(old, hi, 32))
            self.cur.bad.append(("bound", "counter outside the explored range", self.tick(),
                                 tm.band(self.pc(st), tm.bnot(ok)), None))
            m.assume(st, ok)
        return old

    bounds = None

    def atomic_cmpxchg(self, m, st, p, ty, e, n, orders, ins):
        if self.cur is None or self.private(p):
            old = m.load(st, p, ty)
            ok = m.icmp1("eq", old, e, ty)
            m.store(st, p, ty, m.mergety(ok, n, old, ty))
            return (old, ok)
        old = self.fresh(ty.w)
        ok = tm.eq(old, e, ty.w)
        s, f = orders
        acq = tm.ite(ok, int(s in ACQ), int(f in ACQ), 1)
        self.event(st, "U", p, ty.w // 8, ins, rval=old, wval=n, wcond=ok, acq=acq, rel=int(s in REL))
        return (old, ok)

    def fence(self, m, st, order, ins):
        if self.cur is not None:
            raise Unsupported("fence in a thread")

    def on_load(self, st, p, n, o):
        self.access(st, p, n, o, False)
        return None

    def on_store(self, st, p, n, o, v):
        self.access(st, p, n, o, True)
        return False

    def access(self, st, p, n, o, write):
        if self.cur is None or not self.shared(o.id) or o.ro:
            return
        offs = [p.off] if type(p.off) is int else self.m.offsets(st, o, p.off, n)
        for c in offs:
            l = self.cur.plain.setdefault((o.id, c, n, write), [])
            if len(l) < 40:
                l.append((self.tick(), list(st.pc), 1 if type(p.off) is int else tm.eq(p.off, c, 64)))

    def violation(self, st, kind, msg, cond=1, ins=None):
        c = tm.band(cond)
        if type(c) is int and not c:
            return False
        if self.m.quick(st, c) == 0 or self.m.solver.check(st.pc + [c]) == "unsat":
            return False
        fr = st.frames[-1]
        from .machine import srcloc
        b = fr.fn.blocks[fr.b]
        if ins is None and fr.i < len(b.ins):
            ins = b.ins[fr.i]
        self.cur.bad.append((kind, msg, self.tick(), tm.band(self.pc(st), c), srcloc(ins) if ins is not None else None))
        return True


def run_threads(m, rec, start, names_args):
    """Executes each thread from the start state; returns the threads."""
    out = []
    saved = m.violation, m.keep_final, m.findings, m.stop_on_finding
    m.violation = rec.violation
    m.stop_on_finding = False
    m.on_load, m.on_store = rec.on_load, rec.on_store
    rec.base = set(start.mem)
    for tid, (fname, args) in enumerate(names_args):
        t = Thread(tid)
        rec.cur = t
        rec.seq = 0
        st = start.clone(m)
        st.frames = []
        m.push(st, fname, args, -1)

        def cont(m_, s, v, t=t):
            t.done.append((rec.tick(), rec.pc(s)))
        st.frames[0].cont = cont
        m.run(st)
        out.append(t)
    rec.cur = None
    m.on_load = m.on_store = None
    m.violation, m.keep_final, m.findings, m.stop_on_finding = saved
    return out


class Program(Recorder):
    """Threads that are created by the code itself, with mutexes, condition
    variables and plain shared memory.

    Which plain locations are shared is found out by executing all threads,
    comparing their accesses, and executing them again with the accesses of
    those locations as events, until nothing new turns up."""

    def __init__(self, m, limit, outer):
        Recorder.__init__(self, m, limit, outer)
        self.marked = {}  # obj -> {offset: size}
        self.values = {}  # location -> pointers stored there
        self.stale = False

    def run(self, start, fname, args):
        m = self.m
        oid = m._oid
        saved = m.violation, m.findings, m.stop_on_finding
        m.violation = self.violation
        m.stop_on_finding = False
        m.on_load, m.on_store, m.on_free = self.on_load, self.on_store, self.on_free
        self.first = start
        try:
            for rnd in range(8):
                m._oid = oid
                m.addr_index = [x for x in m.addr_index if x[2] <= oid or x[2] >= GLOBAL]
                m._basecache = {}
                self.stale = False
                self.spawned = [(start, fname, args, None, 0)]
                self.threads = []
                while len(self.threads) < len(self.spawned):
                    self.one(len(self.threads))
                if not self.discover() and not self.stale:
                    return self.threads
            raise Inconclusive("shared locations do not settle")
        finally:
            self.cur = None
            m.on_load = m.on_store = m.on_free = None
            m.violation, m.findings, m.stop_on_finding = saved

    def one(self, tid):
        m = self.m
        st0, fname, args, parent, seq = self.spawned[tid]
        t = Thread(tid)
        self.threads.append(t)
        self.cur = t
        self.seq = self.n = 0
        self.base = set(st0.mem) if tid else None
        st = st0.clone(m)
        st.frames = []
        if tid:
            m._oid = (1 << 20) * tid
            t.start = self.pc(st)
            v = self.fresh(8)
            m.assume(st, tm.eq(v, 1, 8))
            self.event(st, "R", (("spawn", tid), 0, 1), 1, None, rval=v, acq=1)
        m.push(st, fname, args, -1)

        def cont(m_, s, v, t=t):
            if t.tid:
                self.event(s, "W", (("end", t.tid), 0, 1), 1, None, wval=1, rel=1)
            t.done.append((self.tick(), self.pc(s)))
        st.frames[0].cont = cont
        m.run(st)

    # -- plain accesses
    def leaves(self, v):
        if type(v) is PIte:
            return self.leaves(v.p) + self.leaves(v.q)
        return [v]

    def note(self, loc, v):
        if type(v) in (Ptr, PIte) or loc in self.values:
            l = self.values.setdefault(loc, [0])
            for x in self.leaves(v):
                if x not in l:
                    if type(x) is T:
                        raise Unsupported("number in a pointer location")
                    l.append(x)
                    self.stale = True

    def index(self, loc, v):
        if type(v) is PIte:
            return tm.ite(v.c, self.index(loc, v.p), self.index(loc, v.q), 8)
        return self.values[loc].index(v)

    def on_load(self, st, p, n, o):
        if self.cur is None or o.ro or o.kind in ("func", "reg"):
            return None
        ms = self.marked.get(o.id)
        if ms and self.shared(o.id):
            offs = [p.off] if type(p.off) is int else self.m.offsets(st, o, p.off, n)
            if any(a < c + n and c < a + k for c in offs for a, k in ms.items()):
                if type(p.off) is not int or any(a < p.off < a + k or a < p.off + n < a + k for a, k in ms.items()):
                    raise Unsupported("shared location read in part")
                if ms.get(p.off) != n:
                    return (self.pieces(st, p.off, n, o, ms),)
                loc = (o.id, p.off, n)
                l = self.values.get(loc)
                v = self.fresh(8 if l else n * 8)
                e = self.event(st, "R", loc, 1 if l else n, None, rval=v)
                e.plain = True
                if not l:
                    return (v,)
                r = l[-1]
                for i in range(len(l) - 2, -1, -1):
                    c = tm.eq(v, i, 8)
                    r = PIte(c, l[i], r) if type(l[i]) is Ptr or type(r) in (Ptr, PIte) else tm.ite(c, l[i], r, 64)
                return (r,)
        self.access(st, p, n, o, False)
        return None

    def pieces(self, st, off, n, o, ms):
        """A read of several shared locations at once."""
        parts, at = [], off
        while at < off + n:
            k = ms.get(at)
            if k is None:
                k = min([a for a in ms if a > at] + [off + n]) - at
                x = self.m.toint(self.m.obj_load(o, at, k))
            else:
                if (o.id, at, k) in self.values:
                    raise Unsupported("shared pointer read with its neighbours")
                x = self.fresh(k * 8)
                self.event(st, "R", (o.id, at, k), k, None, rval=x).plain = True
            parts.insert(0, (x, k * 8))
            at += k
        return tm.cat(parts)

    def on_store(self, st, p, n, o, v):
        if self.cur is None:
            return False
        ms = self.marked.get(o.id)
        if type(p.off) is int:
            self.note((o.id, p.off, n), v)
        hit = False
        if ms and self.shared(o.id):
            offs = [p.off] if type(p.off) is int else self.m.offsets(st, o, p.off, n)
            for a, k in sorted(ms.items()):
                if not any(a < c + n and c < a + k for c in offs):
                    continue
                if type(p.off) is not int or a < p.off or a + k > p.off + n:
                    raise Unsupported("shared location %s+%d (%d) written in part at %s (%d)" % (o.name, a, k, p.off, n))
                hit = True
                loc = (o.id, a, k)
                x = v
                if k != n:
                    x = tm.ext(self.m.toint(v), n * 8, (a - p.off) * 8, k * 8) if type(v) is not int else \
                        (v >> ((a - p.off) * 8)) & tm.mask(k * 8)
                    self.note(loc, x)
                ptr = loc in self.values
                e = self.event(st, "W", loc, 1 if ptr else k, None,
                               wval=self.index(loc, x) if ptr else self.m.toint(x))
                e.plain = True
        if not hit:
            self.access(st, p, n, o, True)
        return False

    def access(self, st, p, n, o, write):
        if not self.shared(o.id):
            return
        offs = [p.off] if type(p.off) is int else self.m.offsets(st, o, p.off, n)
        q = self.tick()
        for c in offs:
            self.cur.plain.setdefault((o.id, c, n, write), []).append((q, self.pc(st)))
        self.touch(st, o.id, q)

    def touch(self, st, obj, q):
        self.cur.touched.setdefault(obj, []).append((q, self.pc(st)))

    def event(self, st, kind, p, n, ins, **kw):
        e = Recorder.event(self, st, kind, p, n, ins, **kw)
        for l, c in e.alts:
            o = l[0][1] if type(l[0]) is tuple else l[0]
            if type(o) is int:
                self.cur.touched.setdefault(o, []).append((e.seq, e.guard))
        return e

    def on_free(self, st, p, o):
        if self.cur is None or not self.shared(o.id):
            return
        self.cur.frees.append((self.tick(), self.pc(st), o.id))

    def after_spawn(self, a, q, b):
        """Whether the access at seq q of thread a may run next to thread b."""
        parent, s = self.spawned[b][3:]
        while parent is not None:
            if parent == a:
                return q > s
            parent, s = self.spawned[parent][3:]
        return True

    def discover(self):
        new = False

        def mark(o, off, n):
            nonlocal new
            ms = self.marked.setdefault(o, {})
            near = [(a, k) for a, k in ms.items() if a < off + n and off < a + k]
            cuts = sorted({x for a, k in near + [(off, n)] for x in (a, a + k)})
            parts = [(a, b - a) for a, b in zip(cuts, cuts[1:])]
            if sorted(near) != parts:
                # accesses of different sizes: the pieces they have in common
                for a, k in near:
                    del ms[a]
                    if (o, a, k) in self.values and (a, k) not in parts:
                        raise Unsupported("parts of a shared pointer")
                ms.update(parts)
                new = True
        for t in self.threads:
            for e in t.events:
                if e.kind in "RWU" and not e.plain:
                    for l, _ in e.alts:
                        if type(l[0]) is int:
                            mark(*l)
        byobj = {}
        for t in self.threads:
            for (o, off, n, w), l in t.plain.items():
                byobj.setdefault(o, []).append((off, n, w, t.tid, l[0][0], l[-1][0]))
        for o, l in byobj.items():
            for i, (f1, n1, w1, t1, _, q1) in enumerate(l):
                for f2, n2, w2, t2, _, q2 in l[i + 1:]:
                    if t1 != t2 and (w1 or w2) and f1 < f2 + n2 and f2 < f1 + n1 and \
                            self.after_spawn(t1, q1, t2) and self.after_spawn(t2, q2, t1):
                        mark(o, f1, n1)
                        mark(o, f2, n2)
        return new

    # -- synchronization
    def sync_loc(self, st, kind, p):
        m = self.m
        p = m.toptr(st, p)
        if type(p) is PIte:
            p = m.fork_ptr(st, p)
        m.check_access(st, p, 1, kind)
        if type(p.off) is not int:
            raise Unsupported("symbolic address of a " + kind)
        return ((kind, p.obj), p.off, 1)

    def may_block(self, st, kind, loc, more=None):
        self.n += 1
        s = tm.var("stop_%d_%d" % (self.cur.tid, self.n), 1)
        self.cur.blocked.append((tm.band(self.pc(st), s), kind, loc, more))
        self.m.assume(st, tm.bnot(s))

    def acquire(self, st, loc, ins):
        v = self.fresh(8)
        self.m.assume(st, tm.eq(v, 0, 8))
        return self.event(st, "U", loc, 1, ins, rval=v, wval=1, acq=1)

    def lock(self, st, p, ins):
        loc = self.sync_loc(st, "mutex", p)
        self.cut_here(st)
        self.may_block(st, "lock", loc)
        self.acquire(st, loc, ins)

    def unlock(self, st, p, ins):
        self.event(st, "W", self.sync_loc(st, "mutex", p), 1, ins, wval=0, rel=1)

    def wait(self, st, cv, mutex, ins):
        c = self.sync_loc(st, "condition", cv)
        loc = self.sync_loc(st, "mutex", mutex)
        e = self.event(st, "W", loc, 1, ins, wval=0, rel=1)
        e.sync = ("wait", c)
        self.may_block(st, "wait", loc, e)
        u = self.acquire(st, loc, ins)
        u.sync = ("wake", c, e)

    def notify(self, st, cv, every, ins):
        c = self.sync_loc(st, "condition", cv)
        e = self.event(st, "N", None, 0, ins)
        self.touch(st, c[0][1], e.seq)
        e.sync = ("all" if every else "one", c)

    def spawn(self, st, fname, args, ins):
        k = len(self.spawned)
        e = self.event(st, "W", (("spawn", k), 0, 1), 1, ins, wval=1, rel=1)
        self.spawned.append((st.clone(self.m), fname, args, self.cur.tid, e.seq))
        return k

    def join(self, st, k, ins):
        loc = (("end", k), 0, 1)
        self.may_block(st, "join", loc)
        v = self.fresh(8)
        self.m.assume(st, tm.eq(v, 1, 8))
        self.event(st, "R", loc, 1, ins, rval=v, acq=1)

    def clock(self, st, ins):
        v = self.fresh(64)
        self.m.assume(st, tm.ult(v, 1 << 60, 64))
        self.event(st, "C", None, 0, ins, rval=v)
        return v


class Composition:
    def __init__(self, m, start, threads, sc=False, clock_bits=9):
        self.m = m
        self.threads = threads
        self.sc = sc
        self.tr = Translator()
        self.cb = clock_bits
        self.cons = []
        self.start = start
        self._build()

    solver = None

    def b(self, t):
        return self.tr.b(t)

    def _build(self):
        tr, cons = self.tr, self.cons
        ev = self.ev = [e for t in self.threads for e in t.events if e.kind in "RWUN"]
        locs = {}
        for i, e in enumerate(ev):
            e.id = i
            for l, c in e.alts:
                locs.setdefault(l, []).append((e, c))
        sizes = {}
        for (o, off, n) in locs:
            for j in range(n):
                if sizes.setdefault((o, off + j), (off, n)) != (off, n):
                    raise Unsupported("overlapping atomic accesses of different size")
        n = len(ev)
        if n + 4 >= 1 << self.cb:
            self.cb = (n + 4).bit_length()
        cb = self.cb
        lt = z3.ULT
        G = self.G = [self.b(e.guard) for e in ev]
        W = self.W = [z3.And(G[e.id], self.b(e.wcond)) if e.kind in "WU" else None for e in ev]
        clk = self.clk = [z3.BitVec("clk_%d" % i, cb) for i in range(n)]
        if self.sc:
            po = self.po = clk
        else:
            po = self.po = [z3.BitVec("po_%d" % i, cb) for i in range(n)]
        for i in range(n):
            cons.append(clk[i] != 0)
        # program order
        for t in self.threads:
            es = [e for e in t.events if e.kind in "RWUN"]
            for a, b_ in zip(es, es[1:]):
                cons.append(lt(po[a.id], po[b_.id]))
        alt = [dict(e.alts) for e in ev]

        def same(a, b_):
            r = []
            for l, c in a.alts:
                d = alt[b_.id].get(l)
                if d is not None:
                    x = tm.band(c, d)
                    if not (type(x) is int and not x):
                        r.append(x)
            return tm.bor(*r) if r else 0
        S = {}
        for i, a in enumerate(ev):
            for b_ in ev[i + 1:]:
                s = same(a, b_)
                if not (type(s) is int and not s):
                    S[a.id, b_.id] = S[b_.id, a.id] = self.b(s)
        self.S = S
        if not self.sc:
            for t in self.threads:
                es = [e for e in t.events if e.kind in "RWU"]
                for i, a in enumerate(es):
                    for b_ in es[i + 1:]:
                        s = S.get((a.id, b_.id))
                        if s is not None:
                            cons.append(z3.Or(z3.Not(s), lt(clk[a.id], clk[b_.id])))
        writes = [e for e in ev if e.kind in "WU"]
        self.rf = {}
        for i, a in enumerate(writes):
            for b_ in writes[i + 1:]:
                if (a.id, b_.id) in S and (a.tid != b_.tid):
                    cons.append(clk[a.id] != clk[b_.id])
        for r in ev:
            if r.kind not in "RU":
                continue
            pc = z3.BitVec("from_%d" % r.id, cb)
            some = []
            rv = tr.bv(r.rval, r.w)
            # the start value
            for l, c in r.alts:
                iv = self.initial(l, r)
                x = z3.Bool("rf_init_%d_%d" % (r.id, len(some)))
                self.rf.setdefault(r.id, []).append((None, x))
                some.append(x)
                cons.append(z3.Implies(x, z3.And(self.b(c), rv == tr.bv(iv, r.w) if iv is not None else z3.BoolVal(True),
                                                 pc == 0)))
            for w in writes:
                s = S.get((w.id, r.id))
                if w is r or s is None or (w.tid == r.tid and w.seq > r.seq):
                    continue
                x = z3.Bool("rf_%d_%d" % (w.id, r.id))
                self.rf.setdefault(r.id, []).append((w, x))
                some.append(x)
                cons.append(z3.Implies(x, z3.And(W[w.id], s, rv == tr.bv(w.wval, w.w), pc == clk[w.id],
                                                 lt(clk[w.id], clk[r.id]),
                                                 z3.BoolVal(True) if self.sc else lt(po[w.id], po[r.id]))))
            cons.append(z3.Implies(G[r.id], z3.Or(*some) if some else z3.BoolVal(False)))
            # nothing in between
            for w in writes:
                s = S.get((w.id, r.id))
                if w is r or s is None:
                    continue
                cons.append(z3.Or(z3.Not(G[r.id]), z3.Not(W[w.id]), z3.Not(s), z3.ULE(clk[w.id], pc),
                                  lt(clk[r.id], clk[w.id])))
            cons.append(lt(pc, clk[r.id]))
        # Redundant: a location that is only ever incremented takes values in
        # the order of the increments (they are bounded far below a wrap).
        for l, es in locs.items():
            us = [e for e, c in es if e.kind in "WU"]
            if us and all(e.inc is not None and len(e.alts) == 1 for e in us):
                for i, a in enumerate(us):
                    for b_ in us[i + 1:]:
                        va, vb = tr.bv(a.rval, a.w), tr.bv(b_.rval, b_.w)
                        cons.append(z3.Implies(z3.And(G[a.id], G[b_.id]), lt(clk[a.id], clk[b_.id]) == (va < vb)))
                        cons.append(z3.Implies(z3.And(G[a.id], G[b_.id]), va != vb))
        # what is not executed reads nothing (two sources for one read are
        # excluded by the order of the writes)
        for r, l in self.rf.items():
            for w, x in l:
                cons.append(z3.Implies(x, G[r]))
        self.done = [self.b(tm.bor(*[g for _, g in t.done])) for t in self.threads]
        self.cutg = [self.b(tm.bor(*[x[1] for x in t.cut])) for t in self.threads]

    def before(self, a, b):
        return z3.ULT(self.clk[a.id], self.clk[b.id])

    def initial(self, l, r):
        if type(l[0]) is tuple:
            return 0
        o = self.start.mem.get(l[0]) or self.m.pristine.get(l[0])
        if o is None or r.w != l[2] * 8:
            return None  # anything
        return self.m.toint(self.m.obj_load(o, l[1], l[2]))

    def knowledge(self, name, sources):
        """Happens-before from a set of source points: sources[(tid, seq)] is
        the condition under which that point is a source. Returns a function
        (tid, seq) -> condition that some source happens-before that point."""
        K = {}
        R = {}
        cons = []
        for e in self.ev:
            if e.kind in "WU":
                R[e.id] = z3.Bool("%s_rel_%d" % (name, e.id))
        table = {}
        for t in self.threads:
            pts = [(e.seq, e) for e in t.events if e.kind in "RWU"]
            pts += [(q, c) for (tid, q), c in sources.items() if tid == t.tid]
            pts.sort(key=lambda x: x[0])
            cur = z3.BoolVal(False)
            row = table[t.tid] = []
            for q, e in pts:
                before = cur
                if isinstance(e, Event):
                    if e.kind in "RU" and not (type(e.acq) is int and not e.acq):
                        gain = [z3.And(x, R[w.id]) for w, x in self.rf.get(e.id, ()) if w is not None]
                        if gain:
                            v = z3.Bool("%s_k_%d" % (name, e.id))
                            cons.append(v == z3.Or(before, z3.And(self.b(e.acq), z3.Or(*gain))))
                            cur = v
                    if e.kind in "WU":
                        alts = []
                        if not (type(e.rel) is int and not e.rel):
                            alts.append(z3.And(self.b(e.rel), cur))
                        if e.kind == "U":
                            alts += [z3.And(x, R[w.id]) for w, x in self.rf.get(e.id, ()) if w is not None]
                        cons.append(R[e.id] == (z3.And(self.W[e.id], z3.Or(*alts)) if alts else z3.BoolVal(False)))
                else:
                    v = z3.Bool("%s_s_%d_%d" % (name, t.tid, q))
                    cons.append(v == z3.Or(before, e))
                    cur = v
                row.append((q, before, cur))

        def at(tid, seq):
            r = z3.BoolVal(False)
            for q, bef, aft in table[tid]:
                if q < seq:
                    r = aft
                else:
                    break
            return r
        return cons, at

    def stuck(self, t):
        """The thread is in a loop whose last complete iteration only observed
        values that never change again."""
        out = []
        for q, g, key, k in t.cut:
            es = [e for e in t.events if e.kind in "RWU" and e.seq < q and e.iters.get(key) == k - 1]
            if not es:
                continue
            ok = [self.b(g), z3.Or(*[self.G[e.id] for e in es])]
            # a loop that looks at the clock ends by itself
            ok += [z3.Not(self.b(e.guard)) for e in t.events if e.kind == "C" and e.iters.get(key) == k - 1]
            for e in es:
                if e.kind == "W":
                    ok.append(z3.Not(self.G[e.id]))
                    continue
                fin = [z3.Or(z3.Not(self.W[w.id]), z3.Not(self.S[w.id, e.id]), self.before(w, e))
                       for w in self.ev if w.kind in "WU" and (w.id, e.id) in self.S]
                if e.kind == "U":
                    fin.append(z3.Not(self.W[e.id]))
                ok.append(z3.Implies(self.G[e.id], z3.And(*fin)))
            out.append(z3.And(*ok))
        return z3.Or(*out) if out else z3.BoolVal(False)

    def waits(self):
        """Constraints, and for each thread the condition that it waits for
        something that never comes."""
        G, lt = self.G, self.before
        cons, out = [], []
        conds = {}
        for e in self.ev:
            if e.sync is not None:
                conds.setdefault(e.sync[1], []).append(e)
        # a wake-up takes at most one notification of those that wake one thread
        claim = {}
        for l in conds.values():
            for e in l:
                if e.sync[0] == "wake":
                    ns = [n for n in l if n.sync[0] == "one" and n.tid != e.tid]
                    for i, n in enumerate(ns):
                        claim[e.id, n.id] = z3.Bool("claim_%d_%d" % (e.id, n.id))
                        cons += [z3.Or(z3.Not(claim[e.id, n.id]), z3.Not(claim[e.id, x.id])) for x in ns[:i]]
        for t in self.threads:
            alts = []
            for g, kind, loc, more in t.blocked:
                ws = [e for e in self.ev if e.kind in "WU" and e.alts[0][0] == loc]
                if kind == "join":
                    ok = z3.Not(z3.Or(*[self.W[w.id] for w in ws]))
                else:
                    held = z3.Or(*[z3.And(self.W[w.id], self.tr.bv(w.wval, w.w) == 1, *[
                        z3.Or(z3.Not(self.W[x.id]), lt(x, w)) for x in ws if x is not w]) for w in ws])
                    ok = held
                if kind == "wait":
                    c = more.sync[1]
                    miss = []
                    for n in conds[c]:
                        if n.kind != "N":
                            continue
                        x = [z3.Not(G[n.id]), lt(n, more)]
                        if n.sync[0] == "one":
                            x += [z3.And(G[u.id], claim[u.id, n.id], lt(u.sync[2], n), lt(n, u))
                                  for u in conds[c] if u.sync[0] == "wake" and u.tid not in (t.tid, n.tid)]
                        miss.append(z3.Or(*x))
                    ok = z3.Or(held, z3.And(*miss))
                alts.append(z3.And(self.b(g), ok))
            out.append(z3.Or(self.stuck(t), *alts))
        return cons, out

    def clocks(self, model):
        """What the clock shows each thread, in order."""
        return {t.tid: [model.eval(self.tr.bv(e.rval, 64), model_completion=True).as_long() for e in t.events
                        if e.kind == "C" and z3.is_true(model.eval(self.b(e.guard), model_completion=True))]
                for t in self.threads}

    def check(self, extra, timeout_ms=120000):
        t0 = time.time()
        if self.solver is None:
            self.solver = z3.SolverFor("QF_BV")
            self.solver.add(*self.cons)
        s = self.solver
        s.set("timeout", timeout_ms)
        s.push()
        s.add(*extra)
        r = str(s.check())
        model = s.model() if r == "sat" else None
        s.pop()
        STATS.queries += 1
        STATS.time += time.time() - t0
        if r == "sat":
            STATS.sat += 1
            return r, model
        if r == "unsat":
            STATS.unsat += 1
        else:
            STATS.unknown += 1
        return r, None

    def ranks(self, model):
        return [model.eval(x, model_completion=True).as_long() for x in self.po]

    def trace(self, model):
        """The execution of a model, for debugging."""
        from .machine import srcloc
        l = []
        rank = self.ranks(model)
        for e in self.ev:
            if z3.is_true(model.eval(self.G[e.id], model_completion=True)):
                v = ["%s=%s" % (n, model.eval(self.tr.bv(x, e.w), model_completion=True))
                     for n, x in (("r", e.rval), ("w", e.wval)) if x is not None]
                l.append((rank[e.id], e.tid, e.seq, e.kind,
                          e.alts[0][0] if e.alts else "", " ".join(v), e.sync[0] if e.sync else "",
                          srcloc(e.loc) if e.loc is not None else ""))
        l.sort()
        return "\n".join(" ".join(str(y) for y in x) for x in l)

    def schedule(self, model):
        """Thread ids in the order of the accesses of the model."""
        l = []
        rank = self.ranks(model)
        for e in self.ev:
            if not e.plain and z3.is_true(model.eval(self.G[e.id], model_completion=True)):
                l.append((rank[e.id], e.tid))
        l.sort()
        return [t for _, t in l]


class Schedule(Composition):
    """Executions with one total order of all events, given by a truth value
    for every pair of events of different threads."""

    def __init__(self, m, program, start, threads):
        self.program = program
        Composition.__init__(self, m, start, threads, True)

    def before(self, a, b):
        if a.tid == b.tid:
            return z3.BoolVal(a.seq < b.seq)
        if a.tid > b.tid:
            return z3.Not(self.before(b, a))
        x = self.order.get((a.id, b.id))
        if x is None:
            if not self.program.after_spawn(a.tid, a.seq, b.tid):
                x = z3.BoolVal(True)
            elif not self.program.after_spawn(b.tid, b.seq, a.tid):
                x = z3.BoolVal(False)
            else:
                x = z3.Bool("o_%d_%d" % (a.id, b.id))
            self.order[a.id, b.id] = x
        return x

    def _build(self):
        tr, cons, lt = self.tr, self.cons, self.before
        self.order = {}
        ev = self.ev = [e for t in self.threads for e in t.events if e.kind in "RWUN"]
        for i, e in enumerate(ev):
            e.id = i
        G = self.G = [self.b(e.guard) for e in ev]
        W = self.W = [z3.And(G[e.id], self.b(e.wcond)) if e.kind in "WU" else None for e in ev]
        rows = [[e for e in ev if e.tid == t.tid] for t in self.threads]
        # the order is consistent with program order, and transitive
        for i, x in enumerate(rows):
            for y in rows[i + 1:]:
                for a, b_ in zip(x, x[1:]):
                    for e in y:
                        cons.append(z3.Or(z3.Not(lt(b_, e)), lt(a, e)))
                for a, b_ in zip(y, y[1:]):
                    for e in x:
                        cons.append(z3.Or(z3.Not(lt(e, a)), lt(e, b_)))
                for z in rows:
                    if z is x or z is y or z[0].tid < y[0].tid:
                        continue
                    for a in x:
                        for b_ in y:
                            ab = lt(a, b_)
                            for c in z:
                                bc, ac = lt(b_, c), lt(a, c)
                                if z3.is_true(ab) and z3.is_true(ac):
                                    continue
                                cons.append(z3.Or(z3.Not(ab), z3.Not(bc), ac))
                                cons.append(z3.Or(ab, bc, z3.Not(ac)))
        S = self.S = {}
        locs = {}
        for e in ev:
            for l, c in e.alts:
                locs.setdefault(l, []).append((e, c))
        sizes = {}
        for (o, off, n) in locs:
            for j in range(n):
                if sizes.setdefault((o, off + j), (off, n)) != (off, n):
                    raise Unsupported("overlapping atomic accesses of different size")
        for l, es in locs.items():
            for i, (a, c) in enumerate(es):
                for b_, d in es[i + 1:]:
                    S.setdefault((a.id, b_.id), []).append(tm.band(c, d))
        for (i, j), l in list(S.items()):
            S[i, j] = S[j, i] = self.b(tm.bor(*l))
        self.rf = {}
        for r in ev:
            if r.kind not in "RU":
                continue
            rv = tr.bv(r.rval, r.w)
            ws = [w for w in ev if w.kind in "WU" and w is not r and (w.id, r.id) in S]
            some = []
            for l, c in r.alts:
                iv = self.initial(l, r)
                x = z3.Bool("rf_init_%d_%d" % (r.id, len(some)))
                some.append((None, x))
                cons.append(z3.Implies(x, z3.And(G[r.id], self.b(c))))
                if iv is not None:
                    cons.append(z3.Implies(x, rv == tr.bv(iv, r.w)))
                for w in ws:
                    cons.append(z3.Or(z3.Not(x), z3.Not(W[w.id]), z3.Not(S[w.id, r.id]), lt(r, w)))
            for w in ws:
                before = lt(w, r)
                if z3.is_false(before):
                    continue
                x = z3.Bool("rf_%d_%d" % (w.id, r.id))
                some.append((w, x))
                cons += [z3.Implies(x, G[r.id]), z3.Implies(x, W[w.id]), z3.Implies(x, S[w.id, r.id]),
                         z3.Implies(x, before), z3.Implies(x, rv == tr.bv(w.wval, w.w))]
                for v in ws:
                    if v is not w:
                        cons.append(z3.Or(z3.Not(x), z3.Not(W[v.id]), z3.Not(S[v.id, r.id]), lt(v, w), lt(r, v)))
            self.rf[r.id] = some
            cons.append(z3.Or(z3.Not(G[r.id]), *[x for _, x in some]))
        self.done = [self.b(tm.bor(*[g for _, g in t.done])) for t in self.threads]
        self.cutg = [self.b(tm.bor(*[x[1] for x in t.cut])) for t in self.threads]

    def ranks(self, model):
        import functools
        val = {k: z3.is_true(model.eval(x, model_completion=True)) for k, x in self.order.items()}

        def cmp(a, b):
            if a is b:
                return 0
            if a.tid == b.tid:
                return -1 if a.seq < b.seq else 1
            if a.tid < b.tid:
                return -1 if val[a.id, b.id] else 1
            return 1 if val[b.id, a.id] else -1
        r = [0] * len(self.ev)
        for i, e in enumerate(sorted(self.ev, key=functools.cmp_to_key(cmp))):
            r[e.id] = i
        return r
