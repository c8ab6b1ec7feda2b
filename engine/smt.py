"""Translation of terms to z3 and solver wrappers with accounting."""
import time
from fractions import Fraction

import cvc5
import z3

from . import terms as tm
from .terms import T


class Unsupported(Exception):
    pass


class SolverTimeout(Exception):
    pass


class Translator:
    """Bit-precise translation. Float operators become uninterpreted functions
    over bit patterns unless `real` is set, in which case float values are
    translated to real arithmetic (rounding, NaN and infinity abstracted)."""

    def __init__(self, real=False):
        self.memo = {}
        self.rmemo = {}
        self.real = real
        self.pmemo = {}
        self.atoms = {}
        self.amemo = {}
        self.prods = {}
        self.uf = {}
        self.vars = {}

    def bv(self, x, w):
        if type(x) is int:
            if w == 1:
                return z3.BoolVal(bool(x))
            return z3.BitVecVal(x, w)
        return self._go(x)

    def b(self, x):
        return self.bv(x, 1)

    def _kids(self, t):
        if t.op == "poly":
            return [m for mono, _ in t.a[1] for m in mono]
        if t.op == "cat":
            return [v for v, _ in t.a if type(v) is T]
        return [v for v in t.a if type(v) is T]

    def _go(self, root):
        memo = self.memo
        r = memo.get(root.id)
        if r is not None:
            return r
        st = [root]
        while st:
            t = st[-1]
            if t.id in memo:
                st.pop()
                continue
            if self.real and t.op == "fcmp":
                memo[t.id] = self._fcmp_real(t)
                st.pop()
                continue
            if self.real and t.op == "feq":
                memo[t.id] = self.r(t.a[0], t.a[2]) == self.r(t.a[1], t.a[2])
                st.pop()
                continue
            todo = [k for k in self._kids(t) if k.id not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[t.id] = self._tr(t)
            st.pop()
        return memo[root.id]

    def _v(self, x, w):
        if type(x) is int:
            return z3.BoolVal(bool(x)) if w == 1 else z3.BitVecVal(x, w)
        return self.memo[x.id]

    def _tr(self, t):
        op, w, a = t.op, t.w, t.a
        v = self._v
        if op == "var":
            e = z3.Bool(a[0]) if w == 1 else z3.BitVec(a[0], w)
            self.vars[a[0]] = (e, w)
            return e
        if op == "poly":
            c, ts = a
            parts = []
            for m, k in ts:
                e = self.memo[m[0].id]
                for x in m[1:]:
                    e = e * self.memo[x.id]
                if k == tm.mask(w):
                    parts.append((True, e))
                elif k == 1:
                    parts.append((False, e))
                else:
                    ks = tm.tosigned(k, w)
                    if ks < 0:
                        parts.append((True, e * z3.BitVecVal(-ks, w)))
                    else:
                        parts.append((False, e * z3.BitVecVal(k, w)))
            acc = None
            for neg, e in parts:
                if not neg:
                    acc = e if acc is None else acc + e
            if c:
                k = z3.BitVecVal(c, w)
                acc = k if acc is None else acc + k
            for neg, e in parts:
                if neg:
                    acc = -e if acc is None else acc - e
            return acc
        if op == "mul":
            return v(a[0], w) * v(a[1], w)
        if op == "not":
            return z3.Not(v(a[0], 1))
        if op == "band":
            return z3.And(*[v(x, 1) for x in a])
        if op == "bor":
            return z3.Or(*[v(x, 1) for x in a])
        if op == "bxor":
            return z3.Xor(v(a[0], 1), v(a[1], 1))
        if op == "zext":
            i = a[0]
            if i.w == 1:
                return z3.If(v(i, 1), z3.BitVecVal(1, w), z3.BitVecVal(0, w))
            return z3.ZeroExt(w - i.w, v(i, i.w))
        if op == "sext":
            i = a[0]
            return z3.SignExt(w - i.w, v(i, i.w))
        if op == "ext":
            x, lo = a
            if w == 1:
                return z3.Extract(lo, lo, v(x, x.w)) == z3.BitVecVal(1, 1)
            return z3.Extract(lo + w - 1, lo, v(x, x.w))
        if op == "cat":
            ps = []
            for x, pw in a:
                e = v(x, pw)
                if pw == 1:
                    e = z3.If(e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
                ps.append(e)
            return z3.Concat(*ps)
        if op == "and":
            return v(a[0], w) & v(a[1], w)
        if op == "or":
            return v(a[0], w) | v(a[1], w)
        if op == "xor":
            return v(a[0], w) ^ v(a[1], w)
        if op == "shl":
            return v(a[0], w) << v(a[1], w)
        if op == "lshr":
            return z3.LShR(v(a[0], w), v(a[1], w))
        if op == "ashr":
            return v(a[0], w) >> v(a[1], w)
        if op == "udiv":
            return z3.UDiv(v(a[0], w), v(a[1], w))
        if op == "urem":
            return z3.URem(v(a[0], w), v(a[1], w))
        if op == "sdiv":
            return v(a[0], w) / v(a[1], w)
        if op == "srem":
            return z3.SRem(v(a[0], w), v(a[1], w))
        if op == "eq":
            ww = a[0].w if type(a[0]) is T else a[1].w
            return v(a[0], ww) == v(a[1], ww)
        if op == "ult":
            ww = a[0].w if type(a[0]) is T else a[1].w
            return z3.ULT(v(a[0], ww), v(a[1], ww))
        if op == "slt":
            ww = a[0].w if type(a[0]) is T else a[1].w
            return v(a[0], ww) < v(a[1], ww)
        if op == "ite":
            return z3.If(v(a[0], 1), v(a[1], w), v(a[2], w))
        if op == "ctlz":
            x = v(a[0], w)
            r = z3.BitVecVal(w, w)
            for i in range(w):
                r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i, w), r)
            return r
        if op == "cttz":
            x = v(a[0], w)
            r = z3.BitVecVal(w, w)
            for i in reversed(range(w)):
                r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i, w), r)
            return r
        if op == "ctpop":
            x = v(a[0], w)
            r = z3.BitVecVal(0, w)
            for i in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
            return r
        if op == "feq":
            return v(a[0], a[2]) == v(a[1], a[2])
        if op == "fcmp":
            pred, x, y, ww = a
            f = self._uf("fcmp_%s_%d" % (pred, ww), [ww, ww], 1)
            return f(v(x, ww), v(y, ww))
        # float operators as uninterpreted functions
        ws = []
        args = []
        ex = []
        for x in a:
            if type(x) is T:
                ws.append(x.w)
                args.append(v(x, x.w))
            elif type(x) is int:
                ws.append(w)
                args.append(v(x, w))
            else:
                ex.append(str(x))
        f = self._uf("_".join([op, str(w)] + ex), ws, w)
        return f(*args)

    def _uf(self, name, ws, w):
        key = (name, tuple(ws), w)
        f = self.uf.get(key)
        if f is None:
            so = lambda n: z3.BoolSort() if n == 1 else z3.BitVecSort(n)
            f = z3.Function(name + "@" + "_".join(map(str, ws)), *([so(n) for n in ws] + [so(w)]))
            self.uf[key] = f
        return f

    # ---- reals
    # Float expressions are read as polynomials over the reals whose atoms are
    # inputs and conditional values; a product of atoms becomes one real
    # variable. Equal polynomials are thus syntactically equal, and queries
    # stay in linear real arithmetic.
    def rpoly(self, x, w):
        if type(x) is int:
            f = tm.bits2f(x, w)
            if f != f or f in (float("inf"), float("-inf")):
                raise Unsupported("non-finite constant")
            return {(): Fraction(f)} if f else {}
        m = self.pmemo.get(x.id)
        if m is not None:
            return m
        st = [x]
        while st:
            t = st[-1]
            if t.id in self.pmemo:
                st.pop()
                continue
            ks = t.a if t.op in ("fadd", "fsub", "fmul", "fneg", "fma") else \
                t.a[:1] if t.op in ("fpext", "fptrunc") else ()
            todo = [k for k in ks if type(k) is T and k.id not in self.pmemo]
            if todo:
                st.extend(todo)
                continue
            self.pmemo[t.id] = self._rp(t)
            st.pop()
        return self.pmemo[x.id]

    def _rp(self, t):
        op, w, a = t.op, t.w, t.a
        p = self.rpoly
        if op == "fadd" or op == "fsub":
            r = dict(p(a[0], w))
            s = 1 if op == "fadd" else -1
            for m, k in p(a[1], w).items():
                v = r.get(m, 0) + s * k
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
            return r
        if op == "fneg":
            return {m: -k for m, k in p(a[0], w).items()}
        if op in ("fmul", "fma"):
            r = {}
            for m, k in p(a[0], w).items():
                for n, l in p(a[1], w).items():
                    mn = tuple(sorted(m + n))
                    v = r.get(mn, 0) + k * l
                    if v:
                        r[mn] = v
                    else:
                        r.pop(mn, None)
            if op == "fma":
                for m, k in p(a[2], w).items():
                    v = r.get(m, 0) + k
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
            return r
        if op in ("fpext", "fptrunc"):
            return p(a[0], a[1])
        self.atoms[t.id] = t
        return {(t.id,): Fraction(1)}

    def r(self, x, w):
        """Real value of a float-typed term."""
        if type(x) is T:
            m = self.rmemo.get(x.id)
            if m is not None:
                return m
        acc = None
        for mono, k in sorted(self.rpoly(x, w).items()):
            e = self.ratom(mono)
            if e is None:
                e = z3.RealVal(str(k))
            elif k != 1:
                e = z3.RealVal(str(k)) * e
            acc = e if acc is None else acc + e
        if acc is None:
            acc = z3.RealVal(0)
        if type(x) is T:
            self.rmemo[x.id] = acc
        return acc

    def ratom(self, mono):
        if not mono:
            return None
        e = self.amemo.get(mono)
        if e is not None:
            return e
        if len(mono) == 1:
            t = self.atoms[mono[0]]
            if t.op == "ite":
                c = self.b(t.a[0])
                e = z3.If(c, self.r(t.a[1], t.w), self.r(t.a[2], t.w))
            elif t.op == "var":
                e = z3.Real(t.a[0])
            else:
                e = z3.Real("opaque_%d" % t.id)
        else:
            e = z3.Real("prod_" + "_".join(map(str, mono)))
            self.prods[mono] = e
        self.amemo[mono] = e
        return e

    def _fcmp_real(self, t):
        pred, x, y, w = t.a

        def inf(v):
            if type(v) is int:
                f = tm.bits2f(v, w)
                if f == float("inf"):
                    return 1
                if f == float("-inf"):
                    return -1
            return 0
        ix, iy = inf(x), inf(y)
        p = pred[1:] if pred not in ("ord", "uno", "true", "false") else pred
        if p == "ord" or p == "true":
            return z3.BoolVal(True)
        if p == "uno" or p == "false":
            return z3.BoolVal(False)
        if ix or iy:
            # the other side is finite
            d = ix - iy
            return z3.BoolVal({"lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0, "eq": d == 0, "ne": d != 0}[p])
        a, b = self.r(x, w), self.r(y, w)
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[p]


def cvc5_check(text, tr, ms):
    """Decides an SMT-LIB script with cvc5; values of the input variables if sat."""
    if tr.real:
        return "unknown", None
    slv = cvc5.Solver()
    slv.setOption("tlimit-per", str(ms))
    slv.setOption("produce-models", "true")
    slv.setLogic("QF_UFBV" if tr.uf else "QF_BV")
    ps = cvc5.InputParser(slv)
    ps.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text.replace("(check-sat)", ""), "q")
    sm = ps.getSymbolManager()
    try:
        while True:
            c = ps.nextCommand()
            if c.isNull():
                break
            if c.getCommandName() in ("set-logic", "set-info"):
                continue
            c.invoke(slv, sm)
        r = slv.checkSat()
        if r.isUnsat():
            return "unsat", None
        if not r.isSat():
            return "unknown", None
        vals = {}
        for t in sm.getDeclaredTerms():
            name = t.getSymbol()
            if name in tr.vars:
                v = slv.getValue(t)
                vals[name] = int(v.getBooleanValue()) if v.isBooleanValue() else int(v.getBitVectorValue(10))
        return "sat", vals
    except RuntimeError:
        return "unknown", None


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0
        self.trivial = 0

    def add(self, o):
        for k in self.__dict__:
            setattr(self, k, getattr(self, k) + getattr(o, k))


STATS = Stats()


class Solver:
    """Incremental solver used for path feasibility and assertion queries."""

    def __init__(self, timeout_ms=60000, real=False):
        self.tr = Translator(real)
        self.timeout = timeout_ms
        self.s = z3.SolverFor("QF_BV") if False else z3.Solver()
        self.s.set("timeout", min(timeout_ms, 2000))
        self.cache = {}

    def check(self, conj, timeout_ms=None, model=False):
        """conj: list of boolean terms. Returns 'sat'/'unsat'/'unknown' (and model)."""
        lits = []
        for c in conj:
            if type(c) is int:
                if not c:
                    STATS.trivial += 1
                    return ("unsat", None) if model else "unsat"
                continue
            lits.append(c)
        if not lits:
            STATS.trivial += 1
            if not model:
                return "sat"
        ids = frozenset(x.id for x in lits)
        if not model:
            r = self.cache.get(ids)
            if r is not None:
                return r
        t0 = time.time()
        s = self.s
        s.push()
        try:
            for x in lits:
                s.add(self.tr.b(x))
            r = str(s.check())
            m = s.model() if (model and r == "sat") else None
        finally:
            s.pop()
        if r == "unknown":
            # the incremental core gave up quickly: dedicated solver
            r, m = self.dedicated([self.tr.b(x) for x in lits], timeout_ms or self.timeout)
        STATS.time += time.time() - t0
        STATS.queries += 1
        if r == "sat":
            STATS.sat += 1
        elif r == "unsat":
            STATS.unsat += 1
        else:
            STATS.unknown += 1
        if r != "unknown":
            self.cache[ids] = r
        if model:
            return r, m
        return r

    def fresh_check(self, conj, timeout_ms=None, tactic=None):
        """One-shot check with a dedicated solver; returns (result, model, translator)."""
        t0 = time.time()
        lits = []
        for c in conj:
            if type(c) is int:
                if not c:
                    STATS.trivial += 1
                    return "unsat", None
                continue
            lits.append(c)
        r, m = self.dedicated([self.tr.b(x) for x in lits], timeout_ms or self.timeout)
        STATS.time += time.time() - t0
        STATS.queries += 1
        if r == "sat":
            STATS.sat += 1
        elif r == "unsat":
            STATS.unsat += 1
        else:
            STATS.unknown += 1
        return r, m

    def dedicated(self, lits, budget):
        """One query, from scratch: z3 for a moment, then cvc5, then z3 again."""
        def run(ms):
            f = z3.Solver() if (self.tr.real or self.tr.uf) else z3.SolverFor("QF_BV")
            f.set("timeout", ms)
            f.add(*lits)
            r = str(f.check())
            return r, (f.model() if r == "sat" else None)
        r, m = run(min(budget, 3000))
        if r != "unknown" or budget <= 3000:
            return r, m
        g = z3.Solver()
        g.add(*lits)
        r, vals = cvc5_check(g.to_smt2(), self.tr, budget - 3000)
        if r == "unsat":
            return r, None
        if r == "sat":
            # z3 evaluates the assignment found by cvc5
            g = z3.Solver()
            g.set("timeout", 20000)
            g.add(*lits)
            for name, v in vals.items():
                e, w = self.tr.vars[name]
                g.add(e == (z3.BoolVal(bool(v)) if w == 1 else z3.BitVecVal(v, w)))
            if str(g.check()) == "sat":
                return "sat", g.model()
        return run(budget)

    def product_model(self, conj, cond):
        """A model in which products have the values of their factors: the
        factors are fixed to small numbers, the other inputs stay free."""
        tr = self.tr
        lits = [tr.b(x) for x in conj + [cond] if type(x) is T]
        far = []
        if type(cond) is T:
            x = cond.a[0] if cond.op == "not" else cond
            if type(x) is T and x.op == "feq":
                a, b = tr.r(x.a[0], x.a[2]), tr.r(x.a[1], x.a[2])
                far = [z3.Or(a - b >= 1, b - a >= 1)]
        if any(tr.atoms[i].op != "var" for mono in tr.prods for i in mono):
            return None
        for n in range(4):
            fixed, val = [], {}
            for mono, e in tr.prods.items():
                p = 1
                for i in mono:
                    if i not in val:
                        val[i] = (len(val) * (3 + 2 * n) + n) % 11 - 5 or 6
                        fixed.append(tr.ratom((i,)) == val[i])
                    p *= val[i]
                fixed.append(e == p)
            for extra in (far, []) if far else ([],):
                s = z3.Solver()
                s.set("timeout", 5000)
                s.add(*lits, *fixed, *extra)
                if s.check() == z3.sat:
                    return s.model()
        return None

    def model_value(self, m, t, w=None):
        if type(t) is int:
            return t
        e = m.eval(self.tr.b(t) if t.w == 1 else self.tr.bv(t, t.w), model_completion=True)
        if t.w == 1:
            return 1 if z3.is_true(e) else 0
        return e.as_long()
