"""Symbolic executor for LLVM IR with state merging at control-flow joins."""
import heapq
import time

from . import terms as tm
from .terms import T
from .llvmir import Undef, GRef, CE, Agg, Zero, srcloc
from .smt import Solver, Unsupported, STATS


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __eq__(self, o):
        return type(o) is Ptr and o.obj == self.obj and (o.off is self.off or (type(o.off) is int and o.off == self.off))

    def __hash__(self):
        return hash((self.obj, self.off if type(self.off) is int else self.off.id))

    def __repr__(self):
        return "&%s+%s" % (self.obj, self.off)


class PIte:
    __slots__ = ("c", "p", "q")

    def __init__(self, c, p, q):
        self.c = c
        self.p = p
        self.q = q

    def __repr__(self):
        return "pite(%r,%r,%r)" % (self.c, self.p, self.q)


def same(a, b):
    if a is b:
        return True
    ta = type(a)
    if ta is not type(b):
        return False
    if ta is int:
        return a == b
    if ta is Ptr:
        return a == b
    if ta is tuple:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if ta is PIte:
        return a.c is b.c and same(a.p, b.p) and same(a.q, b.q)
    if ta is list:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


def pite(c, p, q):
    if type(c) is int:
        return p if c else q
    if same(p, q):
        return p
    if type(p) is Ptr and type(q) is Ptr and p.obj == q.obj:
        return Ptr(p.obj, tm.ite(c, p.off, q.off, 64))
    if c.op == "not":
        return PIte(c.a[0], q, p)
    if type(p) is PIte and p.c is c:
        p = p.p
    if type(q) is PIte and q.c is c:
        q = q.q
    if type(q) is PIte and same(q.p, p):
        return pite(tm.bor(c, q.c), p, q.q)
    if type(p) is PIte and same(p.q, q):
        return pite(tm.band(c, p.c), p.p, q)
    return PIte(c, p, q)


class Obj:
    __slots__ = ("id", "size", "data", "fill", "alive", "kind", "name", "base", "align", "tok", "ro", "bv")

    def clone(self, tok):
        o = Obj()
        o.id = self.id
        o.size = self.size
        o.data = dict(self.data)
        o.fill = self.fill
        o.alive = self.alive
        o.kind = self.kind
        o.name = self.name
        o.base = self.base
        o.align = self.align
        o.ro = self.ro
        o.bv = self.bv
        o.tok = tok
        return o


class Frame:
    __slots__ = ("fn", "regs", "b", "i", "prev", "iters", "ret", "allocas", "cont", "open")

    def clone(self):
        f = Frame()
        f.fn = self.fn
        f.regs = list(self.regs)
        f.b = self.b
        f.i = self.i
        f.prev = self.prev
        f.iters = dict(self.iters)
        f.open = dict(self.open) if self.open else None
        f.ret = self.ret
        f.allocas = list(self.allocas)
        f.cont = self.cont
        return f


class State:
    __slots__ = ("frames", "mem", "pc", "pcset", "tok", "conc", "fork", "names", "key", "steps", "tl", "alt", "heavy")

    def clone(self, m):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.pcset = set(self.pcset)
        s.tok = m.newtok()
        self.tok = m.newtok()
        s.conc = dict(self.conc)
        s.fork = self.fork
        s.names = dict(self.names)
        s.key = None
        s.steps = self.steps
        s.tl = dict(self.tl)
        s.alt = dict(self.alt)
        s.heavy = self.heavy
        return s


class Violation(Exception):
    def __init__(self, kind, msg, cond=1):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = msg
        self.cond = cond  # additional condition (on top of the path condition)


class PathEnd(Exception):
    pass


class Refork(Exception):
    """Re-execute the current instruction in these states."""

    def __init__(self, states):
        self.states = states


class Inconclusive(Exception):
    pass


class Finding:
    __slots__ = ("kind", "msg", "pc", "cond", "loc", "stack", "model", "names", "where")


class Machine:
    def __init__(self, mod, cfg=None, merge=True, max_iter=64, timeout_ms=60000, real=False, check_feasible=True,
                 uninit="sym"):
        self.mod = mod
        self.cfg = cfg or {}
        self.merge = merge
        self.max_iter = max_iter
        self.solver = Solver(timeout_ms, real)
        self.real = real
        self.findings = []
        self.asserts = 0
        self.assert_queries = []
        self.reached = {}
        self.inputs = {}
        self._tok = 0
        self._oid = 0
        self._gid = 1 << 40  # globals are created on demand and keep their identity
        self._next_addr = 0x10000000
        self.gobj = {}
        self.pristine = {}
        self._regtys = {}
        self._basecache = {}
        self.addr_index = []
        self.funcs_run = set()
        self.instr_count = 0
        self.models = {}
        self.max_steps = 50_000_000
        self.deadline = None
        self.completed = 0
        self.stop_on_finding = True
        self.defer_asserts = False
        self.uninit = uninit
        self.fbits_names = set()
        self.ranges = {}
        self.outs = {}
        self.witnesses = []
        self.max_witnesses = 1
        self.abstracted = {}
        self.on_load = None
        self.on_store = None
        self.hooks = None
        self.final_states = []
        self.keep_final = False
        self.retval = None
        self.unwind_hits = []
        self.objinfo = {}
        self.sym_base = False
        self.assumed_unwind = False
        from . import intrinsics
        intrinsics.install(self)

    # ------------------------------------------------------------ objects
    def newtok(self):
        self._tok += 1
        return self._tok

    def alloc(self, st, size, kind, name="", align=16, fill=None, base=None):
        if kind == "global" or kind == "func":
            self._gid += 1
            oid = self._gid
        else:
            self._oid += 1
            oid = self._oid
        o = Obj()
        o.id = oid
        o.size = size
        o.data = {}
        o.fill = fill
        o.alive = 1
        o.kind = kind
        o.name = name
        o.align = align
        o.ro = False
        o.bv = None
        o.tok = st.tok
        if base is None:
            al = max(align, 16)
            a = (self._next_addr + al - 1) // al * al
            o.base = a
            mx = size if type(size) is int else min(tm.urange(size, 64)[1], 1 << 40)
            self._next_addr = a + mx + 32
            self.addr_index.append((a, mx, o.id))
        else:
            o.base = base
        st.mem[o.id] = o
        self.objinfo[o.id] = (name, kind)
        return Ptr(o.id, 0)

    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            raise Violation("memory", "access to an object that does not exist on this path")
        return o

    def wobj(self, st, oid):
        o = st.mem[oid]
        if o.tok != st.tok:
            o = o.clone(st.tok)
            st.mem[oid] = o
        return o

    def global_ptr(self, st, name):
        oid = self.gobj.get(name)
        if oid is not None and oid in st.mem:
            return Ptr(oid, 0)
        mod = self.mod
        if name in mod.aliases:
            return self.cval(st, mod.aliases[name])
        if name in mod.globals:
            g = mod.globals[name]
            size = g.ty.size
            p = self._galloc(st, name, size, "global", max(g.align, 16))
            o = st.mem[p.obj]
            if not g.decl:
                init = mod.global_init(g)
                if init is not None:
                    o.fill = 0 if isinstance(init, Zero) else None
                    if not isinstance(init, Zero):
                        self.store_const(st, o, 0, g.ty, init)
                o.ro = g.const
            else:
                o.fill = None
                ext = self.models.get("@" + name)
                if ext:
                    ext(self, st, o)
            self.pristine[p.obj] = o.clone(None)
            return p
        if name in mod.funcs:
            p = self._galloc(st, name, 16, "func", 16)
            return p
        raise Unsupported("global " + name)

    def _galloc(self, st, name, size, kind, align):
        oid = self.gobj.get(name)
        if oid is None:
            p = self.alloc(st, size, kind, name, align)
            self.gobj[name] = p.obj
            return p
        # the object exists in another state only: re-create with same identity
        info = self.objinfo[oid]
        o = Obj()
        o.id = oid
        o.size = size
        o.data = {}
        o.fill = None
        o.alive = 1
        o.kind = kind
        o.name = name
        o.align = align
        o.ro = False
        o.bv = None
        o.tok = st.tok
        for a, mx, i in self.addr_index:
            if i == oid:
                o.base = a
        st.mem[oid] = o
        return Ptr(oid, 0)

    def store_const(self, st, o, off, ty, c):
        if isinstance(c, Undef):
            return
        if isinstance(c, Zero):
            for i in range(ty.size):
                o.data[off + i] = (1, 0)
            return
        if isinstance(c, Agg):
            if ty.k == "a":
                for i, e in enumerate(c.elts):
                    self.store_const(st, o, off + i * ty.e.size, ty.e, e)
            else:
                for i, e in enumerate(c.elts):
                    self.store_const(st, o, off + ty.offs[i], ty.es[i], e)
            return
        v = self.cval(st, c)
        self._put(o, off, ty, v)

    def _put(self, o, off, ty, v):
        if ty.k == "v":
            if ty.e.w % 8:
                # i1 vectors: pack
                bits = tm.cat([(x, 1) for x in reversed(v)])
                n = (ty.n + 7) // 8
                self.obj_store(o, off, n, tm.zext(bits, ty.n, n * 8))
                return
            s = ty.e.size
            for i, x in enumerate(v):
                self.obj_store(o, off + i * s, s, x)
        elif ty.k == "s":
            for i, x in enumerate(v):
                self._put(o, off + ty.offs[i], ty.es[i], x)
        elif ty.k == "a":
            for i, x in enumerate(v):
                self._put(o, off + i * ty.e.size, ty.e, x)
        else:
            w = ty.w
            n = (w + 7) // 8
            if ty.k == "i" and w % 8 and type(v) is not Ptr:
                v = tm.zext(v, w, n * 8)
            self.obj_store(o, off, n, v)

    # ------------------------------------------------------------ byte store
    def obj_store(self, o, off, n, v):
        d = o.data
        e = d.get(off)
        if e is not None and e[0] == n:
            d[off] = (n, v)
            return
        # split / remove overlaps
        for k in range(off - 15, off + n):
            e = d.get(k)
            if e is None:
                continue
            en = e[0]
            if k + en <= off:
                continue
            del d[k]
            if k >= off and k + en <= off + n:
                continue
            ev = self.toint(e[1])
            for j in range(en):
                if not (off <= k + j < off + n):
                    d[k + j] = (1, tm.ext(ev, en * 8, j * 8, 8))
        d[off] = (n, v)

    def obj_load(self, o, off, n):
        d = o.data
        e = d.get(off)
        if e is not None and e[0] == n:
            return e[1]
        parts = []
        j = off
        end = off + n
        while j < end:
            e = d.get(j)
            if e is not None and e[0] <= end - j:
                parts.append((self.toint(e[1]), e[0] * 8))
                j += e[0]
                continue
            if e is None:
                for k in range(j - 1, j - 16, -1):
                    e = d.get(k)
                    if e is not None:
                        if k + e[0] <= j:
                            e = None
                        break
                else:
                    e = None
                if e is None:
                    if o.fill is not None:
                        parts.append((o.fill, 8))
                    else:
                        v = tm.fresh("uninit_%s_%d" % (o.name or o.id, j), 8)
                        d[j] = (1, v)
                        parts.append((v, 8))
                    j += 1
                    continue
                lo = j - k
                m = min(e[0] - lo, end - j)
                parts.append((tm.ext(self.toint(e[1]), e[0] * 8, lo * 8, m * 8), m * 8))
                j += m
                continue
            # entry longer than what we need
            m = end - j
            parts.append((tm.ext(self.toint(e[1]), e[0] * 8, 0, m * 8), m * 8))
            j += m
        if len(parts) == 1:
            return parts[0][0]
        parts.reverse()
        return tm.cat(parts)

    # ------------------------------------------------------------ pointers
    def base_of(self, oid):
        b = self._basecache.get(oid)
        if b is None:
            for a, mx, i in reversed(self.addr_index):
                self._basecache[i] = a
            b = self._basecache[oid]
        return b

    def toint(self, v):
        """Integer view of a value that may be a pointer (64 bits)."""
        if type(v) is Ptr:
            b = self.symbase.get(v.obj) if self.symbase else None
            if b is None:
                b = self.base_of(v.obj)
            return tm.add(v.off, b, 64)
        if type(v) is PIte:
            return tm.ite(v.c, self.toint(v.p), self.toint(v.q), 64)
        return v

    symbase = None
    lazy = False
    staged = 0

    def toptr(self, st, v):
        if type(v) is Ptr or type(v) is PIte:
            return v
        if type(v) is int:
            if v == 0:
                return 0
            return self.addr2ptr(v)
        if v.op == "ite":
            x, y = self.toptr(st, v.a[1]), self.toptr(st, v.a[2])
            return v if type(x) is T or type(y) is T else pite(v.a[0], x, y)
        if self.symbase:
            c, ts = tm._terms(v)
            for m, k in ts:
                if len(m) == 1 and k == 1 and m[0] in self.symbase_rev:
                    oid = self.symbase_rev[m[0]]
                    return Ptr(oid, tm.sub(v, m[0], 64))
        cl = tm.const_leaves(v, 64)
        if cl is not None:
            r = 0
            for k in sorted(cl):
                r = pite(tm.eq(v, k, 64), self.toptr(st, k), r)
            return r
        # address = concrete base + bounded symbolic offset
        c, ts = tm._terms(v)
        lo, hi = tm.urange(v, 64)
        p = self.addr2ptr(lo)
        if type(p) is Ptr:
            b = self.base_of(p.obj)
            if hi < b + (1 << 40):
                return Ptr(p.obj, tm.sub(v, b, 64))
        if self.raw_addresses:
            return v
        vals = self.enumerate_values(st, v, 64, 64)
        r = 0
        for k in vals:
            r = pite(tm.eq(v, k, 64), self.toptr(st, k), r)
        return r

    symbase_rev = None
    raw_addresses = False  # pointers may be plain symbolic numbers that are never dereferenced

    def addr2ptr(self, a):
        for b, mx, oid in reversed(self.addr_index):
            if b <= a <= b + mx:
                return Ptr(oid, a - b)
        return a

    def padd(self, p, off):
        if off == 0 and type(off) is int:
            return p
        if type(p) is Ptr:
            return Ptr(p.obj, tm.add(p.off, off, 64))
        if type(p) is PIte:
            return PIte(p.c, self.padd(p.p, off), self.padd(p.q, off))
        return tm.add(p, off, 64)

    def fork_ptr(self, st, p):
        """Reduce a conditional pointer to one whose guard is decided; refork if both feasible."""
        while type(p) is PIte:
            c = p.c
            k = self.decide(st, c)
            if k is None:
                s1, s2 = st, st.clone(self)
                self.assume(s1, c)
                s1.fork = s1.fork + (0,)
                self.assume(s2, tm.bnot(c))
                s2.fork = s2.fork + (1,)
                raise Refork([s1, s2])
            p = p.p if k else p.q
        return p

    # ------------------------------------------------------------ path conditions
    def assume(self, st, c):
        if type(c) is int:
            if not c:
                raise PathEnd()
            return
        if c.op == "band":
            for x in c.a:
                if x not in st.pcset:
                    st.pc.append(x)
                    st.pcset.add(x)
        elif c not in st.pcset:
            st.pc.append(c)
            st.pcset.add(c)

    def quick(self, st, c):
        """Syntactic decision of c under the path condition; None if unknown."""
        if type(c) is int:
            return c
        s = st.pcset
        if c in s:
            return 1
        n = tm.bnot(c)
        if n in s:
            return 0
        if c.op == "band":
            if all((x in s) for x in c.a):
                return 1
            for x in c.a:
                if tm.bnot(x) in s:
                    return 0
        elif c.op == "bor":
            for x in c.a:
                if x in s:
                    return 1
        elif c.op == "not" and c.a[0].op == "bor":
            for x in c.a[0].a:
                if x in s:
                    return 0
        return None

    def decide(self, st, c):
        """1/0 if c is implied/refuted by the path condition, else None."""
        q = self.quick(st, c)
        if q is not None:
            return q
        r = self.solver.check(st.pc + [c])
        if r == "unsat":
            return 0
        r2 = self.solver.check(st.pc + [tm.bnot(c)])
        if r2 == "unsat":
            return 1
        return None

    def enumerate_values(self, st, t, w, limit):
        cl = tm.const_leaves(t, w, limit * 4)
        if cl is not None and len(cl) <= limit:
            out = [v for v in sorted(cl) if self.solver.check(st.pc + [tm.eq(t, v, w)]) != "unsat"]
            return out
        out = []
        cons = list(st.pc)
        while True:
            r, m = self.solver.check(cons, model=True)
            if r == "unsat":
                return out
            if r == "unknown":
                raise Inconclusive("value enumeration")
            v = self.solver.model_value(m, t)
            out.append(v)
            if len(out) > limit:
                raise Inconclusive("too many values for %r" % (t,))
            cons.append(tm.ne(t, v, w))

    def concretize(self, st, t, w, limit=256):
        if type(t) is int:
            return t
        v = st.conc.get(t)
        if v is not None:
            return v
        vals = self.enumerate_values(st, t, w, limit)
        if not vals:
            raise PathEnd()
        out = []
        base_fork = st.fork
        for i, v in enumerate(vals):
            s = st if i == len(vals) - 1 else st.clone(self)
            if len(vals) > 1:
                self.assume(s, tm.eq(t, v, w))
                s.fork = base_fork + (i,)
            s.conc[t] = v
            out.append(s)
        if len(out) == 1:
            return vals[0]
        raise Refork(out)

    def facts(self, st):
        d = {}
        for x in st.pc:
            if x.op == "not":
                d[x.a[0]] = 0
            else:
                d[x] = 1
        return d

    def simplify_object(self, st, p, n):
        """Simplifies the fields of an object under the path condition."""
        facts = self.facts(st)
        memo = {}
        o = self.wobj(st, p.obj)
        for k in sorted(o.data):
            sz, v = o.data[k]
            if p.off <= k < p.off + n and type(v) is T:
                o.data[k] = (sz, tm.subst(v, facts, memo))

    def generalize(self, st, p, n, names):
        """Forgets how an object depends on the named inputs: comparisons that
        involve them become free booleans, and path-condition conjuncts that
        involve them are set aside. Exploration goes on with the weaker
        condition (more paths, never fewer); a violation is reported only if
        the definitions and the conjuncts set aside admit it."""
        names = set(names)
        ment = {}

        def drop(x):
            wt = tm.weight(x)
            return (wt[0] > 40 or wt[1]) and tm.mentions(x, names, ment)
        heavy = [x for x in st.pc if drop(x)]
        st.pc = [x for x in st.pc if not drop(x)]
        st.pcset = set(st.pc)
        o = self.wobj(st, p.obj)
        seen, ats = set(), []
        ks = [k for k in sorted(o.data) if p.off <= k < p.off + n and type(o.data[k][1]) is T]
        for k in ks:
            tm.atoms(o.data[k][1], seen, ats)
        sub = {}
        for x in ats:
            if drop(x):
                b = tm.var("abs%d" % len(self.abstracted), 1)
                b = self.abstracted.setdefault(x, b)
                sub[x] = b
                heavy.append(tm.bnot(tm.bxor(x, b)))
        memo = {}
        for k in ks:
            sz, v = o.data[k]
            o.data[k] = (sz, tm.subst(v, sub, memo))
        st.heavy = st.heavy + tuple(x for x in heavy if type(x) is T)

    # ------------------------------------------------------------ checks
    def violation(self, st, kind, msg, cond=1, ins=None):
        """Records a violation if feasible. Returns True if recorded."""
        c = tm.band(cond)
        if type(c) is int and not c:
            return False
        q = self.quick(st, c)
        if q == 0:
            return False
        f = Finding()
        f.kind = kind
        f.msg = msg
        f.pc = list(st.pc)
        f.cond = c
        f.names = dict(st.names)
        f.stack = [fr.fn.name for fr in st.frames]
        f.loc = None
        if ins is None and st.frames:
            fr = st.frames[-1]
            b = fr.fn.blocks[fr.b]
            if fr.i < len(b.ins):
                ins = b.ins[fr.i]
        if ins is not None:
            f.loc = srcloc(ins)
        f.where = None
        if self.staged:
            light = []
            for x in f.pc:
                wt = tm.weight(x)
                if (wt[0] < 120 and not wt[1]) or x is f.pc[-1]:
                    light.append(x)
            if len(light) < len(f.pc) and self.solver.check(light + [c], timeout_ms=self.staged) == "unsat":
                return False
        if st.heavy:
            if self.solver.check(f.pc + [c]) == "unsat":
                return False
            f.pc += list(st.heavy)
        r, m = self.solver.check(f.pc + [c], model=True)
        if r == "unsat":
            return False
        if r == "unknown":
            r, m = self.solver.fresh_check(f.pc + [c], timeout_ms=self.solver.timeout * 2)
            if r == "unsat":
                return False
            if r == "unknown":
                raise Inconclusive("%s: %s" % (kind, msg))
        if self.solver.tr.real and self.solver.tr.prods:
            m = self.solver.product_model(f.pc, c) or m
        f.model = self.extract_model(m, st.alt)
        self.findings.append(f)
        return True

    def extract_model(self, m, alt):
        out = {}
        for name, (t, w) in self.inputs.items():
            t = alt.get(name, t)
            try:
                if name in self.fbits_names and self.real:
                    import z3
                    v = m.eval(z3.Real(name), model_completion=True)
                    out[name] = str(v)
                    continue
                out[name] = self.solver.model_value(m, t)
            except Exception:
                out[name] = 0
        return out

    def witness(self, st):
        """Keeps the inputs of one execution and the outputs predicted for it."""
        r, m = self.solver.check(st.pc + list(st.heavy), timeout_ms=5000, model=True)
        if r != "sat":
            return
        outs = {}
        if not self.real:
            for n in self.outs:
                if n in st.alt:
                    outs[n] = self.solver.model_value(m, st.alt[n])
        self.witnesses.append((self.extract_model(m, st.alt), outs))

    def require(self, st, kind, msg, cond):
        """cond must hold; records a violation otherwise and assumes it afterwards."""
        if type(cond) is int:
            if cond:
                return
            self.violation(st, kind, msg, 1)
            raise PathEnd()
        q = self.quick(st, cond)
        if q == 1:
            return
        if self.violation(st, kind, msg, tm.bnot(cond)):
            if self.stop_on_finding:
                raise PathEnd()
        self.assume(st, cond)

    # ------------------------------------------------------------ memory access
    def check_access(self, st, p, n, what):
        """p must be a plain Ptr; validates bounds and liveness; returns Obj"""
        if type(p) is not Ptr:
            if type(p) is T:
                pp = self.toptr(st, p)
                if type(pp) is Ptr:
                    p = pp
            if type(p) is not Ptr:
                self.violation(st, "memory", "%s through invalid pointer %r" % (what, p), 1)
                raise PathEnd()
        o = st.mem.get(p.obj)
        if o is None:
            self.violation(st, "memory", "%s of an object not live on this path" % what, 1)
            raise PathEnd()
        if o.alive != 1 or type(o.alive) is T:
            self.require(st, "memory", "%s after free of %s" % (what, o.name), o.alive)
        if o.kind == "func":
            self.violation(st, "memory", "%s of code" % what)
            raise PathEnd()
        off = p.off
        if type(off) is int and type(o.size) is int:
            if off + n > o.size or off < 0:
                self.violation(st, "memory", "%s of %d bytes at offset %d outside %s (%d bytes)" % (
                    what, n, tm.tosigned(off, 64), o.name, o.size), 1)
                raise PathEnd()
        else:
            ok = tm.band(tm.ule(tm.add(off, n, 64), o.size, 64) if True else 1,
                         tm.ule(off, tm.mask(62), 64))
            self.require(st, "memory", "%s of %d bytes outside %s" % (what, n, o.name), ok)
        return o

    def offsets(self, st, o, off, n):
        """Candidate concrete offsets for a symbolic offset."""
        cl = tm.const_leaves(off, 64, 256)
        if cl is not None:
            sz = o.size if type(o.size) is int else 1 << 40
            return [v for v in sorted(cl) if v + n <= sz]
        # aligned candidates implied by stride and size
        if type(o.size) is int and o.size // max(n, 1) <= 512:
            kz = tm.knownzero(off, 64)
            step = 1
            while (kz & step) and step < 64:
                step <<= 1
            step = step if step >= 1 else 1
            cand = list(range(0, o.size - n + 1, step))
            if len(cand) <= 512:
                lo, hi = tm.urange(off, 64)
                return [c for c in cand if lo <= c <= hi]
        return self.enumerate_values(st, off, 64, 256)

    def load_raw(self, st, p, n):
        if type(p) is PIte:
            k = self.quick(st, p.c)
            if k is not None:
                return self.load_raw(st, p.p if k else p.q, n)
            # guarded loads on both sides
            p = self.fork_ptr(st, p) if not self.merge else p
            if type(p) is PIte:
                return self._load_pite(st, p, n)
        o = self.check_access(st, p, n, "read")
        if self.on_load is not None:
            r = self.on_load(st, p, n, o)
            if r is not None:
                return r[0]
        off = p.off
        if type(off) is int:
            return self.obj_load(o, off, n)
        cand = self.offsets(st, o, off, n)
        if not cand:
            raise PathEnd()
        if o.tok != st.tok:
            o = self.wobj(st, p.obj)
        vals = [(c, self.obj_load(o, c, n)) for c in cand]
        r = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            r = self.mergeval(tm.eq(off, c, 64), v, r, n * 8)
        return r

    def _load_pite(self, st, p, n):
        k = self.decide(st, p.c)
        if k is not None:
            return self.load_raw(st, p.p if k else p.q, n)
        save = list(st.pc), set(st.pcset)
        self.assume(st, p.c)
        a = self.load_raw(st, p.p, n)
        st.pc, st.pcset = list(save[0]), set(save[1])
        self.assume(st, tm.bnot(p.c))
        b = self.load_raw(st, p.q, n)
        st.pc, st.pcset = save
        return self.mergeval(p.c, a, b, n * 8)

    def store_raw(self, st, p, n, v):
        if type(p) is PIte:
            k = self.decide(st, p.c)
            if k is not None:
                return self.store_raw(st, p.p if k else p.q, n, v)
            if not self.merge:
                p = self.fork_ptr(st, p)
            else:
                save = list(st.pc), set(st.pcset)
                self.assume(st, p.c)
                self._store_guarded(st, p.p, n, v, p.c)
                st.pc, st.pcset = list(save[0]), set(save[1])
                self.assume(st, tm.bnot(p.c))
                self._store_guarded(st, p.q, n, v, tm.bnot(p.c))
                st.pc, st.pcset = save
                return
        o = self.check_access(st, p, n, "write")
        if o.ro:
            self.violation(st, "memory", "write to constant %s" % o.name)
            raise PathEnd()
        if self.on_store is not None:
            if self.on_store(st, p, n, o, v):
                return
        o = self.wobj(st, p.obj)
        off = p.off
        if type(off) is int:
            self.obj_store(o, off, n, v)
            return
        cand = self.offsets(st, o, off, n)
        if not cand:
            raise PathEnd()
        for c in cand:
            old = self.obj_load(o, c, n)
            self.obj_store(o, c, n, self.mergeval(tm.eq(off, c, 64), v, old, n * 8))

    def _store_guarded(self, st, p, n, v, g):
        if type(p) is PIte:
            self._store_guarded(st, p.p, n, v, tm.band(g, p.c))
            self._store_guarded(st, p.q, n, v, tm.band(g, tm.bnot(p.c)))
            return
        if self.solver.check(st.pc + [g]) == "unsat":
            return
        o = self.check_access(st, p, n, "write")
        if self.on_store is not None:
            if self.on_store(st, p, n, o, v):
                return
        o = self.wobj(st, p.obj)
        off = p.off
        cand = [off] if type(off) is int else self.offsets(st, o, off, n)
        for c in cand:
            old = self.obj_load(o, c, n)
            gg = g if type(off) is int else tm.band(g, tm.eq(off, c, 64))
            self.obj_store(o, c, n, self.mergeval(gg, v, old, n * 8))

    def mergeval(self, c, a, b, w):
        if same(a, b):
            return a
        ta, tb = type(a), type(b)
        if ta is tuple:
            return tuple(self.mergeval(c, x, y, w) for x, y in zip(a, b))
        if ta in (Ptr, PIte) or tb in (Ptr, PIte):
            if ta not in (Ptr, PIte):
                a = self.toptr(None, a) if ta is int else a
            if tb not in (Ptr, PIte):
                b = self.toptr(None, b) if tb is int else b
            if type(a) is T or type(b) is T:
                return tm.ite(c, self.toint(a), self.toint(b), 64)
            return pite(c, a, b)
        return tm.ite(c, a, b, w)

    def load(self, st, p, ty):
        k = ty.k
        if k == "i":
            n = (ty.w + 7) // 8
            v = self.toint(self.load_raw(st, p, n))
            if ty.w % 8:
                v = tm.ext(v, n * 8, 0, ty.w)
            return v
        if k == "f":
            return self.toint(self.load_raw(st, p, ty.w // 8))
        if k == "p":
            return self.toptr(st, self.load_raw(st, p, 8))
        if k == "v":
            if ty.e.w % 8:
                n = (ty.n + 7) // 8
                v = self.load_raw(st, p, n)
                return tuple(tm.ext(v, n * 8, i, 1) for i in range(ty.n))
            s = ty.e.size
            return tuple(self.load(st, self.padd(p, i * s), ty.e) for i in range(ty.n))
        if k == "s":
            return tuple(self.load(st, self.padd(p, ty.offs[i]), ty.es[i]) for i in range(ty.n))
        if k == "a":
            return tuple(self.load(st, self.padd(p, i * ty.e.size), ty.e) for i in range(ty.n))
        raise Unsupported("load of " + ty.s)

    def store(self, st, p, ty, v):
        k = ty.k
        if k == "i":
            n = (ty.w + 7) // 8
            if ty.w % 8:
                v = tm.zext(v, ty.w, n * 8)
            self.store_raw(st, p, n, v)
        elif k == "f":
            self.store_raw(st, p, ty.w // 8, v)
        elif k == "p":
            self.store_raw(st, p, 8, v)
        elif k == "v":
            if ty.e.w % 8:
                n = (ty.n + 7) // 8
                bits = tm.cat([(x, 1) for x in reversed(v)])
                self.store_raw(st, p, n, tm.zext(bits, ty.n, n * 8))
                return
            s = ty.e.size
            for i, x in enumerate(v):
                self.store(st, self.padd(p, i * s), ty.e, x)
        elif k == "s":
            for i, x in enumerate(v):
                self.store(st, self.padd(p, ty.offs[i]), ty.es[i], x)
        elif k == "a":
            for i, x in enumerate(v):
                self.store(st, self.padd(p, i * ty.e.size), ty.e, x)
        else:
            raise Unsupported("store of " + ty.s)

    # ------------------------------------------------------------ constants
    def cval(self, st, c):
        t = type(c)
        if t is int:
            return c
        if t is tuple:
            if c and c[0] == "asm":
                return c
            return tuple(self.cval(st, x) for x in c)
        if t is GRef:
            return self.global_ptr(st, c.name)
        if t is Undef:
            return self.undef(c.ty)
        if t is Zero:
            return self.zerov(c.ty)
        if t is Agg:
            return tuple(self.cval(st, x) for x in c.elts)
        if t is CE:
            ops = [self.cval(st, x) for x in c.ops]
            if c.op == "gep":
                ty, its = c.extra
                return self.gep(st, ops[0], ty, ops[1:], its)
            if c.op == "ptrtoint":
                return self.toint(ops[0])
            if c.op == "inttoptr":
                return self.toptr(st, ops[0])
            if c.op in ("bitcast", "addrspacecast"):
                return ops[0]
            if c.op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr"):
                f = BIN[c.op]
                return f(self.toint(ops[0]), self.toint(ops[1]), c.ty.w)
            if c.op == "trunc":
                return tm.trunc(self.toint(ops[0]), c.extra[0].w, c.ty.w)
            if c.op == "icmp":
                return self.icmp1(c.extra[0], ops[0], ops[1], c.extra[1])
            raise Unsupported("constant expression " + c.op)
        raise Unsupported("constant %r" % (c,))

    def undef(self, ty):
        if ty.k == "v":
            return tuple(self.undef(ty.e) for _ in range(ty.n))
        if ty.k == "s":
            return tuple(self.undef(e) for e in ty.es)
        if ty.k == "a":
            return tuple(self.undef(ty.e) for _ in range(ty.n))
        if ty.k == "p":
            return 0
        return tm.fresh("undef", ty.w)

    def zerov(self, ty):
        if ty.k == "v":
            return tuple(self.zerov(ty.e) for _ in range(ty.n))
        if ty.k == "s":
            return tuple(self.zerov(e) for e in ty.es)
        if ty.k == "a":
            return tuple(self.zerov(ty.e) for _ in range(ty.n))
        return 0

    def gep(self, st, base, ty, idx, itys):
        if type(base) is tuple or any(type(i) is tuple for i in idx):
            n = len(base) if type(base) is tuple else max(len(i) for i in idx if type(i) is tuple)
            out = []
            for k in range(n):
                b = base[k] if type(base) is tuple else base
                ix = [i[k] if type(i) is tuple else i for i in idx]
                it = [t.e if t.k == "v" else t for t in itys]
                out.append(self.gep(st, b, ty, ix, it))
            return tuple(out)
        off = 0
        first = True
        for i, it in zip(idx, itys):
            if first:
                scale = ty.size
                first = False
                off = tm.add(off, tm.mul(tm.sext(self.toint(i), it.w, 64), scale, 64), 64)
                continue
            if ty.k == "s":
                off = tm.add(off, ty.offs[i], 64)
                ty = ty.es[i]
            else:
                ty = ty.e
                off = tm.add(off, tm.mul(tm.sext(self.toint(i), it.w, 64), ty.size, 64), 64)
        return self.padd(base, off)

    # ------------------------------------------------------------ compare
    def icmp1(self, pred, a, b, ty):
        w = ty.w
        ta, tb = type(a), type(b)
        if ta in (Ptr, PIte) or tb in (Ptr, PIte):
            return self.pcmp(pred, a, b)
        if pred == "eq":
            return tm.eq(a, b, w)
        if pred == "ne":
            return tm.ne(a, b, w)
        if pred == "ult":
            return tm.ult(a, b, w)
        if pred == "ugt":
            return tm.ult(b, a, w)
        if pred == "ule":
            return tm.ule(a, b, w)
        if pred == "uge":
            return tm.ule(b, a, w)
        if pred == "slt":
            return tm.slt(a, b, w)
        if pred == "sgt":
            return tm.slt(b, a, w)
        if pred == "sle":
            return tm.sle(a, b, w)
        return tm.sle(b, a, w)

    def pcmp(self, pred, a, b):
        if type(a) is PIte:
            return tm.ite(a.c, self.pcmp(pred, a.p, b), self.pcmp(pred, a.q, b), 1)
        if type(b) is PIte:
            return tm.ite(b.c, self.pcmp(pred, a, b.p), self.pcmp(pred, a, b.q), 1)
        if type(a) is Ptr and type(b) is Ptr:
            if a.obj == b.obj:
                x, y = a.off, b.off
                return self.icmp1(pred, x, y, I64)
            if pred == "eq":
                return 0
            if pred == "ne":
                return 1
        elif pred in ("eq", "ne") and (type(a) is Ptr or type(b) is Ptr):
            other = b if type(a) is Ptr else a
            if type(other) is int and other == 0:
                return 0 if pred == "eq" else 1
        return self.icmp1(pred, self.toint(a), self.toint(b), I64)

    # ------------------------------------------------------------ running
    def start(self, fname, args=()):
        st = State()
        st.frames = []
        st.mem = {}
        st.pc = []
        st.pcset = set()
        st.tok = self.newtok()
        st.conc = {}
        st.fork = ()
        st.names = {}
        st.key = None
        st.steps = 0
        st.tl = {}
        st.alt = {}
        st.heavy = ()
        for f in self.at_start:
            f(self, st)
        self.push(st, fname, list(args), -1)
        return st

    at_start = ()

    def push(self, st, fname, args, ret):
        fn = self.mod.func(fname)
        self.funcs_run.add(fname)
        fr = Frame()
        fr.fn = fn
        fr.regs = [None] * fn.nregs
        fr.b = 0
        fr.i = 0
        fr.prev = -1
        fr.iters = {}
        fr.open = None  # loop header -> (iteration, iterations whose end was not decided), with hooks only
        fr.ret = ret
        fr.allocas = []
        fr.cont = None
        for r, v in zip(fn.params, args):
            fr.regs[r] = v
        if fn.blocks[0].loops:
            for h in fn.blocks[0].loops:
                fr.iters[h] = 0
        st.frames.append(fr)

    def poskey(self, st):
        out = []
        for fr in st.frames:
            b = fr.fn.blocks[fr.b]
            blocks = fr.fn.blocks
            for h in b.loops:
                out.append(blocks[h].pos)
                out.append(fr.iters.get(h, 0))
            out.append(b.pos)
            out.append(fr.i)
        return tuple(out)

    def run(self, st):
        """Explore all paths from st."""
        queue = []
        waiting = {}
        cnt = 0

        def put(s):
            nonlocal cnt
            k = self.poskey(s)
            # states forked by concretization are explored depth first, apart
            fk = s.fork
            key = (fk, k)
            l = waiting.get(key)
            if l is None:
                waiting[key] = [s]
                cnt += 1
                heapq.heappush(queue, (fk, k, cnt))
            else:
                l.append(s)

        put(st)
        while queue:
            fk, k, _ = heapq.heappop(queue)
            l = waiting.pop((fk, k))
            if len(l) > 1 and self.merge:
                s = l[0]
                for o in l[1:]:
                    s = self.merge_states(s, o)
                l = [s]
            for s in l:
                if self.deadline and time.time() > self.deadline:
                    raise Inconclusive("time budget exhausted")
                if self.findings and self.stop_on_finding:
                    return
                alone = not queue and len(l) == 1
                self.exec_until_branch(s, put, alone, waiting)

    def merge_states(self, a, b):
        # path condition: common prefix + disjunction of the rest
        common = [x for x in a.pc if x in b.pcset]
        cs = set(common)
        ra = tm.band(*[x for x in a.pc if x not in cs])
        rb = tm.band(*[x for x in b.pc if x not in cs])
        sel = ra
        # a simpler selector when the two are complementary on one literal
        if type(ra) is T:
            la = ra.a if ra.op == "band" else (ra,)
            lb = set(rb.a if type(rb) is T and rb.op == "band" else (rb,))
            for x in la:
                if tm.bnot(x) in lb:
                    sel = x
                    break
        pc = common
        d = tm.bor(ra, rb)
        if type(d) is T:
            if d.op == "band":
                pc = common + [x for x in d.a if x not in cs]
            else:
                pc = common + [d]
        a.pc = list(pc)
        a.pcset = set(pc)
        for fa, fb in zip(a.frames, b.frames):
            ra_, rb_ = fa.regs, fb.regs
            tys = self.regtys(fa.fn)
            for i in range(len(ra_)):
                x, y = ra_[i], rb_[i]
                if x is y:
                    continue
                if x is None:
                    ra_[i] = y
                elif y is None:
                    continue
                elif not same(x, y):
                    ra_[i] = self.mergety(sel, x, y, tys[i])
            if fa.prev != fb.prev:
                fa.prev = -2
            if fb.open and fa.open != fb.open:
                fa.open = dict(fa.open or {})
                for h, x in fb.open.items():
                    fa.open[h] = max(fa.open.get(h, x), x)
            for x in fb.allocas:
                if x not in fa.allocas:
                    fa.allocas.append(x)
        # memory
        a.tok = self.newtok()
        for oid, ob in b.mem.items():
            oa = a.mem.get(oid)
            if oa is ob:
                continue
            if oa is None:
                oa = self.pristine.get(oid)  # a global not touched on the other side
                if oa is None or oa.ro:
                    a.mem[oid] = ob
                    continue
            self.merge_obj(a, sel, oa, ob)
        for oid in [o for o in self.pristine if o in a.mem and o not in b.mem and not self.pristine[o].ro]:
            self.merge_obj(a, sel, a.mem[oid], self.pristine[oid])
        for n, v in b.names.items():
            a.names[n] = max(v, a.names.get(n, 0))
        for n, v in b.tl.items():
            if n not in a.tl:
                a.tl[n] = v
        if a.heavy != b.heavy:
            hs = set(b.heavy)
            ch = [x for x in a.heavy if x in hs]
            cc = set(ch)
            a.heavy = tuple(ch + [x for x in [tm.bor(
                tm.band(ra, *[x for x in a.heavy if x not in cc]),
                tm.band(rb, *[x for x in b.heavy if x not in cc]))] if type(x) is T])
        for n, v in b.alt.items():
            if n not in a.alt:
                a.alt[n] = v
            elif a.alt[n] is not v and a.alt[n] != v:
                a.alt[n] = tm.ite(sel, a.alt[n], v, self.outs[n] if n in self.outs else self.inputs[n][1])
        a.steps = max(a.steps, b.steps)
        a.conc = {k: v for k, v in a.conc.items() if b.conc.get(k) == v}
        return a

    def regtys(self, fn):
        t = getattr(fn, "wto", None) if False else self._regtys.get(fn.name)
        if t is None:
            t = [None] * fn.nregs
            for r, ty in zip(fn.params, fn.ptypes):
                t[r] = ty
            for b in fn.blocks:
                for i in b.phis + b.ins:
                    if i.dst >= 0:
                        t[i.dst] = i.ty
            self._regtys[fn.name] = t
        return t

    def mergety(self, c, x, y, ty):
        if ty.k in ("i", "f"):
            return tm.ite(c, self.toint(x), self.toint(y), ty.w)
        if ty.k == "p":
            return self.mergeval(c, x, y, 64)
        if ty.k == "v" or ty.k == "a":
            return tuple(self.mergety(c, p, q, ty.e) for p, q in zip(x, y))
        if ty.k == "s":
            return tuple(self.mergety(c, p, q, e) for p, q, e in zip(x, y, ty.es))
        raise Unsupported("merge of " + ty.s)

    def merge_obj(self, st, c, oa, ob):
        o = oa.clone(st.tok)
        st.mem[o.id] = o
        if not same(oa.alive, ob.alive):
            o.alive = tm.ite(c, oa.alive, ob.alive, 1)
        if not same(oa.size, ob.size):
            o.size = tm.ite(c, oa.size, ob.size, 64)
        da, db = oa.data, ob.data
        if oa.fill != ob.fill:
            raise Unsupported("merge of differently filled objects")
        keys = set(da)
        keys.update(db)
        for k in sorted(keys):
            x, y = da.get(k), db.get(k)
            if x is y:
                continue
            if x is not None and y is not None and x[0] == y[0]:
                if not same(x[1], y[1]):
                    o.data[k] = (x[0], self.mergeval(c, x[1], y[1], x[0] * 8))
                continue
            if x is None or y is None:
                # one side still holds the initial contents
                n = (x or y)[0]
                od = db if x else da
                if all(q not in od and q not in (da if x else db) for q in range(k + 1, k + n)) and \
                        not any(q in od and od[q][0] > k - q for q in range(max(k - 63, 0), k)):
                    va, vb = self.obj_load(oa, k, n), self.obj_load(ob, k, n)
                    self.obj_store(o, k, n, self.mergeval(c, va, vb, n * 8))
                    continue
            n = min(x[0] if x else 99, y[0] if y else 99)
            # differing granularity: rebuild bytewise
            for j in range(n):
                va = self.obj_load(oa, k + j, 1)
                vb = self.obj_load(ob, k + j, 1)
                self.obj_store(o, k + j, 1, self.mergeval(c, va, vb, 8))

    def enter_block(self, fr, b):
        """Move the frame to block b (from fr.b), evaluating phis."""
        fn = fr.fn
        src = fr.b
        blk = fn.blocks[b]
        sblk = fn.blocks[src]
        # loop iteration counters
        if blk.loops or sblk.loops:
            it = {}
            for h in blk.loops:
                if h in sblk.loops:
                    n = fr.iters.get(h, 0)
                    if h == b:
                        n += 1
                        if n > self.max_iter_for(fn, h):
                            return False
                    it[h] = n
                else:
                    it[h] = 0
            fr.iters = it
            if fr.open:
                fr.open = {h: x for h, x in fr.open.items() if h in it and x[0] <= it[h]}
        fr.prev = src
        fr.b = b
        fr.i = 0
        return True

    def undecided(self, fr, targets):
        """A branch that may or may not leave a loop."""
        blocks = fr.fn.blocks
        live = [t for t in targets if not (blocks[t].ins and blocks[t].ins[-1].op == "unreachable")]
        for h in blocks[fr.b].loops:
            inside = [h in blocks[t].loops for t in live]
            if any(inside) and not all(inside):
                k = fr.iters.get(h, 0)
                if fr.open is None:
                    fr.open = {}
                last, n = fr.open.get(h, (-1, 0))
                if last != k:
                    fr.open[h] = (k, n + 1)

    def max_iter_for(self, fn, h):
        return self.max_iter

    def do_phis(self, st, fr):
        blk = fr.fn.blocks[fr.b]
        if blk.phis:
            src = fr.prev
            regs = fr.regs
            vals = []
            for p in blk.phis:
                isr, v = p.x[src]
                vals.append(regs[v] if isr else self.cval(st, v))
            for p, v in zip(blk.phis, vals):
                regs[p.dst] = v

    def jump(self, st, b):
        fr = st.frames[-1]
        if not self.enter_block(fr, b):
            # unwinding bound reached: is it feasible?
            if self.solver.check(st.pc) == "unsat":
                raise PathEnd()
            if self.assumed_unwind:
                self.unwind_hits.append((fr.fn.name, b))
                raise PathEnd()
            raise Inconclusive("loop bound %d reached in %s block %d" % (self.max_iter, fr.fn.name, b))
        self.do_phis(st, fr)

    def exec_until_branch(self, st, put, alone, waiting):
        """Run st until it has to be queued again (join point) or ends."""
        from .intrinsics import OPS
        try:
            while True:
                fr = st.frames[-1]
                blk = fr.fn.blocks[fr.b]
                ins_list = blk.ins
                n = len(ins_list)
                regs = fr.regs
                switched = False
                while fr.i < n:
                    ins = ins_list[fr.i]
                    op = ins.op
                    self.instr_count += 1
                    h = OPS.get(op)
                    if h is not None:
                        v = h(self, st, fr, ins)
                        if ins.dst >= 0:
                            regs[ins.dst] = v
                        fr.i += 1
                        continue
                    if op == "call" or op == "invoke":
                        r = self.do_call(st, fr, ins)
                        if r is CALLED:
                            switched = True
                            break
                        if ins.dst >= 0:
                            regs[ins.dst] = r
                        if op == "invoke":
                            self.jump(st, blk.succ[0])
                            switched = True
                            break
                        fr.i += 1
                        continue
                    if op == "br":
                        if not ins.ops:
                            self.jump(st, ins.x[0])
                            if (alone and not waiting) or not self.merge:
                                switched = True
                                break
                            put(st)
                            return
                        isr, v = ins.ops[0]
                        c = regs[v] if isr else self.cval(st, v)
                        if type(c) is not int:
                            c = self.branch_cond(st, c, ins)
                        if type(c) is int:
                            self.jump(st, ins.x[0] if c else ins.x[1])
                            if (alone and not waiting) or not self.merge:
                                switched = True
                                break
                            put(st)
                            return
                        if self.hooks is not None:
                            self.undecided(fr, ins.x)
                        s2 = st.clone(self)
                        for s, cc, tgt in ((st, c, ins.x[0]), (s2, tm.bnot(c), ins.x[1])):
                            try:
                                if not self.merge:
                                    s.fork = s.fork + ((0,) if s is st else (1,))
                                self.assume(s, cc)
                                self.jump(s, tgt)
                                put(s)
                            except PathEnd:
                                pass
                        return
                    if op == "switch":
                        isr, v = ins.ops[0]
                        x = regs[v] if isr else self.cval(st, v)
                        x = self.toint(x)
                        if type(x) is int:
                            tgt = ins.x
                            for cv, bb in ins.y:
                                if cv == x:
                                    tgt = bb
                                    break
                            self.jump(st, tgt)
                            if (alone and not waiting) or not self.merge:
                                switched = True
                                break
                            put(st)
                            return
                        w = ins.z.w
                        bytgt = {}
                        conds = []
                        for cv, bb in ins.y:
                            e = tm.eq(x, cv, w)
                            conds.append(e)
                            bytgt.setdefault(bb, []).append(e)
                        bytgt.setdefault(ins.x, []).append(tm.band(*[tm.bnot(e) for e in conds]))
                        first = True
                        idx = 0
                        items = list(bytgt.items())
                        if self.hooks is not None:
                            self.undecided(fr, list(bytgt))
                        for bb, cs in items:
                            c = tm.bor(*cs)
                            idx += 1
                            q = self.quick(st, c)
                            if q == 0:
                                continue
                            if q is None and self.solver.check(st.pc + [c]) == "unsat":
                                continue
                            s = st.clone(self)
                            if not self.merge:
                                s.fork = s.fork + (idx,)
                            try:
                                self.assume(s, c)
                                self.jump(s, bb)
                                put(s)
                            except PathEnd:
                                pass
                        return
                    if op == "ret":
                        v = None
                        if ins.ops:
                            isr, v = ins.ops[0]
                            v = regs[v] if isr else self.cval(st, v)
                        if self.do_ret(st, v):
                            return
                        if (alone and not waiting) or not self.merge:
                            switched = True
                            break
                        put(st)
                        return
                    if op == "unreachable":
                        self.violation(st, "ub", "unreachable code reached", 1, ins)
                        raise PathEnd()
                    raise Unsupported("opcode " + op)
                if switched:
                    if self.deadline and (self.instr_count & 0xFFF) < 50 and time.time() > self.deadline:
                        raise Inconclusive("time budget exhausted")
                    continue
                raise Unsupported("fell off block")
        except PathEnd:
            return
        except Violation as v:
            self.violation(st, v.kind, v.msg, v.cond)
            return
        except Refork as r:
            for s in r.states:
                put(s)
            return

    def branch_cond(self, st, c, ins=None):
        q = self.quick(st, c)
        if q is not None:
            return q
        if self.lazy and ins is not None:
            fr = st.frames[-1]
            bl = fr.fn.blocks
            if bl[ins.x[0]].loops == bl[ins.x[1]].loops and fr.b not in ():
                return c
        r = self.solver.check(st.pc + [c])
        if r == "unsat":
            return 0
        r2 = self.solver.check(st.pc + [tm.bnot(c)])
        if r2 == "unsat":
            return 1
        return c

    def do_ret(self, st, v):
        fr = st.frames.pop()
        for oid in fr.allocas:
            o = st.mem.get(oid)
            if o is not None:
                del st.mem[oid]
        if not st.frames:
            self.completed += 1
            if len(self.witnesses) < self.max_witnesses:
                self.witness(st)
            if fr.cont is not None:
                fr.cont(self, st, v)
            if self.keep_final:
                self.final_states.append((st, v))
            return True
        caller = st.frames[-1]
        if fr.cont is not None:
            r = fr.cont(self, st, v)
            if r is CALLED:
                return False
            if r is not NOVALUE:
                v = r
        if fr.ret >= 0:
            caller.regs[fr.ret] = v
        blk = caller.fn.blocks[caller.b]
        ins = blk.ins[caller.i]
        if ins.op == "invoke":
            self.jump(st, blk.succ[0])
        else:
            caller.i += 1
        return False

    # ------------------------------------------------------------ calls
    def do_call(self, st, fr, ins):
        name = ins.x
        regs = fr.regs
        args = [regs[v] if isr else self.cval(st, v) for isr, v in ins.ops]
        if name is None:
            isr, v = ins.y
            f = regs[v] if isr else self.cval(st, v)
            if type(f) is PIte:
                f = self.fork_ptr(st, f)
            f = self.toptr(st, f)
            if type(f) is not Ptr or st.mem[f.obj].kind != "func":
                self.violation(st, "memory", "indirect call through invalid pointer %r" % (f,))
                raise PathEnd()
            name = st.mem[f.obj].name
        elif type(name) is tuple:
            return self.inline_asm(st, fr, ins, name[1], args)
        return self.call_named(st, fr, ins, name, args)

    def call_named(self, st, fr, ins, name, args):
        h = ins.cache if ins.x is not None else None
        if h is None:
            h = self.find_model(name)
            if ins.x is not None:
                ins.cache = h
        if h != 0:
            return h(self, st, args, ins)
        fn = self.mod.funcs.get(name)
        if fn is None or fn.decl:
            al = self.mod.aliases.get(name)
            if isinstance(al, GRef):
                return self.call_named(st, fr, ins, al.name, args)
            raise Unsupported("external function " + name)
        self.push(st, name, args, ins.dst)
        if len(st.frames) > 400:
            raise Inconclusive("call depth")
        return CALLED

    def find_model(self, name):
        h = self.models.get(name)
        if h is not None:
            return h
        if name.startswith("llvm."):
            from .intrinsics import find_llvm
            h = find_llvm(name)
            if h is None:
                raise Unsupported("intrinsic " + name)
            return h
        for pre, f in self.prefix_models:
            if name.startswith(pre):
                return f
        return 0

    prefix_models = ()

    def inline_asm(self, st, fr, ins, text, args):
        if text.count('""') or 'asm sideeffect ""' in text or "pause" in text:
            return None
        raise Unsupported("inline asm " + text)

    # ------------------------------------------------------------ inputs
    def sym(self, st, name, w, lo=None, hi=None, isfloat=False):
        k = st.names.get(name, 0)
        st.names[name] = k + 1
        full = name if k == 0 else "%s#%d" % (name, k)
        # Declared ranges belong to a variable: another range on another path
        # is another variable, and `alt` remembers which one this path uses.
        vname = full
        if self.ranges.setdefault(full, (lo, hi)) != (lo, hi):
            vname = "%s@%s:%s" % (full, lo, hi)
        t = tm.var(vname, w)
        self.inputs.setdefault(full, (t, w))
        if isfloat:
            self.fbits_names.add(full)
        if lo is not None:
            if lo == hi:
                st.alt[full] = lo & tm.mask(w)
                return lo & tm.mask(w)
            tm.set_var_range(vname, lo, hi)
            t = tm.var(vname, w)
            t.rng = (lo, hi)
            st.alt[full] = t
            full_lo, full_hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            # the declared range must be visible to the solver as well
            rng_c = []
            if lo > full_lo:
                rng_c.append(tm.bnot(tm.mk("slt", 1, (t, lo & tm.mask(w)))))
            if hi < full_hi:
                rng_c.append(tm.bnot(tm.mk("slt", 1, (hi & tm.mask(w), t))))
            for c in rng_c:
                self.assume(st, c)
        return t


CALLED = object()
NOVALUE = object()


class _I64:
    w = 64
    k = "i"


I64 = _I64()
BIN = {"add": tm.add, "sub": tm.sub, "mul": tm.mul, "and": tm.and_, "or": tm.or_, "xor": tm.xor, "shl": tm.shl,
       "lshr": tm.lshr, "ashr": tm.ashr, "udiv": tm.udiv, "sdiv": tm.sdiv, "urem": tm.urem, "srem": tm.srem}
