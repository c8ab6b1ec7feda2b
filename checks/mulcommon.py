"""Shared by the checks that run a whole multiplication symbolically."""
from engine import build
from engine import terms as tm
from engine.terms import T

SRC = ["harness/mul.cc", "harness/cpuinfo_stub.cc", "harness/clock_stub.cc"] + build.CORE
CPP, AVX, AVX2, AVX512 = 0x1, 0x10, 0x20, 0x40
PATHS = (CPP, AVX, AVX2, AVX512)
BASE = dict(m=1, k=1, n=1, lo=0, ro=0, do=0, ls=0, rs=0, ds=0, lzp=0, rzp=0, dzp=0, bias=0, perchannel=0, bycol=0,
            rounding=1, clamp=0, e=0, path=1, clock=0, cpuinfo=0, l1=32768, l2=524288)


def is_data(name):
    return name.split("#")[0].split("@")[0] in ("l", "r", "b", "lzp", "rzp")


class Abstractor:
    """Replaces every 32-bit accumulator polynomial over the operand entries by
    a free variable. The weakened query is valid for every accumulator value,
    hence for the one the operands produce."""

    def __init__(self, products):
        self.memo = {}
        self.vars = {}
        self.data = {}
        self.products = products
        self.prods = {}

    def only_data(self, t):
        r = self.data.get(t)
        if r is None:
            r = is_data(t.a[0]) if t.op == "var" else all(self.only_data(x) for x in tm.kids(t))
            self.data[t] = r
        return r

    def go(self, t):
        if type(t) is not T:
            return t
        r = self.memo.get(t)
        if r is not None:
            return r
        if t.w == 32 and t.op in ("poly", "var", "sext", "zext") and self.only_data(t):
            r = self.vars.get(t)
            if r is None:
                r = self.vars[t] = tm.var("acc%d" % len(self.vars), 32)
        elif t.op == "var":
            r = t
        elif t.op == "zext" and t.a[0].op == "var" and tm.srange(t.a[0], t.a[0].w)[0] >= 0:
            r = tm.sext(t.a[0], t.a[0].w, t.w)
        elif t.op == "poly" and any(len(mono) > 1 for mono, _ in t.a[1]):
            # products: only their range matters
            c, ts = t.a
            r = c
            for mono, k in ts:
                x = 1
                lo, hi = 1, 1
                for f in mono:
                    f = self.go(f)
                    x = tm.mul(x, f, t.w)
                    p, q = tm.srange(f, t.w)
                    v = (lo * p, lo * q, hi * p, hi * q)
                    lo, hi = min(v), max(v)
                if len(mono) > 1 and type(x) is T and self.products:
                    y = self.prods.get(x)
                    if y is None:
                        n = "prod%d" % len(self.prods)
                        if lo > -(1 << (t.w - 1)) and hi < (1 << (t.w - 1)):
                            tm.set_var_range(n, lo, hi)
                            y = tm.var(n, t.w)
                            y.rng = (lo, hi)
                        else:
                            y = tm.var(n, t.w)
                        self.prods[x] = y
                    x = y
                r = tm.add(r, tm.mul(x, k, t.w), t.w)
        else:
            r = tm.rebuild(t, [self.go(x) for x in tm.kids(t)])
        self.memo[t] = r
        return r


def variables(t, memo):
    """Variables of t in order of first occurrence."""
    r = memo.get(t)
    if r is None:
        if t.op == "var":
            r = (t,)
        else:
            d = {}
            for k in tm.kids(t):
                for v in variables(k, memo):
                    d[v] = 1
            r = tuple(d)
        memo[t] = r
    return r


class Prover:
    def __init__(self):
        # first with the products of accumulator and multiplier as free values
        # of their range, then exactly
        self.stages = (Abstractor(True), Abstractor(False))
        self.vars = {}
        self.proved = set()
        self.pc, self.memo = None, {}
        self.reused = 0

    def canonical(self, c, facts):
        """Renames variables in order of occurrence, and states their ranges."""
        order = {}
        ranges = []
        for t in [c] + facts:
            for v in variables(t, self.vars):
                if v not in order:
                    lo, hi = v.rng if v.rng else (None, None)
                    n = "q%d_%d" % (len(order), v.w)
                    if lo is not None and (lo, hi) != (-(1 << (v.w - 1)), (1 << (v.w - 1)) - 1):
                        n += "@%d:%d" % (lo, hi)
                        tm.set_var_range(n, lo, hi)
                        q = tm.var(n, v.w)
                        q.rng = v.rng
                        # built without simplification: the range would make them trivial
                        ranges.append(tm.bnot(tm.mk("slt", 1, (q, lo & tm.mask(v.w)))))
                        ranges.append(tm.bnot(tm.mk("slt", 1, (hi & tm.mask(v.w), q))))
                    order[v] = tm.var(n, v.w)
        memo = {}
        facts = [tm.subst(x, order, memo) for x in facts]
        return tm.subst(c, order, memo), ranges + [x for x in facts if type(x) is T]

    def __call__(self, m, st, c, msg):
        """True if the assertion is proved for all accumulator values."""
        if st.heavy:
            return False
        if self.pc != st.pc:
            self.pc, self.memo = list(st.pc), {}
        c = tm.subst(c, m.facts(st), self.memo)
        if type(c) is int:
            return bool(c)
        return any(self.prove(m, st, c, a) for a in self.stages)

    def prove(self, m, st, c, a):
        q = a.go(c)
        if type(q) is int:
            return bool(q)
        vs = set(variables(q, self.vars))
        facts = []
        rest = [a.go(x) for x in st.pc]
        changed = True
        while changed:
            changed = False
            left = []
            for y in rest:
                if type(y) is T and vs & set(variables(y, self.vars)):
                    facts.append(y)
                    vs |= set(variables(y, self.vars))
                    changed = True
                elif type(y) is T:
                    left.append(y)
            rest = left
        q, facts = self.canonical(q, facts)
        if type(q) is int:
            return bool(q)
        key = (q, frozenset(facts))
        if key in self.proved:
            self.reused += 1
            return True
        if m.solver.check(facts + [tm.bnot(q)]) == "unsat":
            self.proved.add(key)
            return True
        return False


class Decider:
    """Asks the solver about conditions that involve only the zero points."""

    def __init__(self):
        self.vars = {}
        self.known = {}

    def __call__(self, m, st, c):
        vs = variables(c, self.vars)
        if not vs or not all(v.a[0].split("#")[0].split("@")[0] in ("lzp", "rzp") for v in vs):
            return None
        if c not in self.known:
            r = None
            if m.solver.check(st.pc + [c]) == "unsat":
                r = 0
            elif m.solver.check(st.pc + [tm.bnot(c)]) == "unsat":
                r = 1
            self.known[c] = r
        return self.known[c]


def setup(m, task):
    tm.KEEP_SEXT64[0] = True
    m.select_hook = Decider()
    m.assert_handler = Prover()


def setup_memory(m, task):
    """Only memory accesses are of interest: values are not compared."""
    setup(m, task)
    m.assert_handler = lambda m, st, c, msg: "equals" in msg or None


def task(mod, entry, weight=0, setup="setup", **cfg):
    c = dict(BASE)
    for k in cfg:
        assert k in c, k
    c.update(cfg)
    w = c["m"] * c["k"] * c["n"]
    return (weight or w + 40, dict(
        module=mod, entry=entry, cfg=c, setup=("checks.mulcommon", setup),
        options=dict(timeout_ms=60000, max_iter=100000, real="f32" in entry)))


def run(c, mod, tasks):
    """Longest first."""
    seen = {}
    for w, t in tasks:
        seen.setdefault((t["entry"], tuple(sorted(t["cfg"].items()))), (w, t))
    return c.run([t for _, t in sorted(seen.values(), key=lambda x: -x[0])])
