"""Instruction semantics, LLVM/x86 intrinsics and models of the C/C++ runtime."""
from . import terms as tm
from .terms import T
from .smt import Unsupported
from .machine import (Machine, Ptr, PIte, pite, BIN, I64, CALLED, NOVALUE, PathEnd, Violation, Inconclusive, same)

OPS = {}


def op(*names):
    def d(f):
        for n in names:
            OPS[n] = f
        return f
    return d


def val(m, st, fr, o):
    isr, v = o
    if isr:
        return fr.regs[v]
    if type(v) is int:
        return v
    return m.cval(st, v)


def lanes2(f, a, b):
    return tuple(f(x, y) for x, y in zip(a, b))


# ------------------------------------------------------------------ integers
def _mkbin(name, f):
    def h(m, st, fr, ins):
        a = val(m, st, fr, ins.ops[0])
        b = val(m, st, fr, ins.ops[1])
        ty = ins.ty
        if ty.k == "v":
            w = ty.e.w
            return tuple(f(x, y, w) for x, y in zip(a, b))
        if type(a) is not int:
            a = m.toint(a)
        if type(b) is not int:
            b = m.toint(b)
        return f(a, b, ty.w)
    OPS[name] = h


for _n in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr"):
    _mkbin(_n, BIN[_n])


def _mkdiv(name, f):
    def h(m, st, fr, ins):
        a = val(m, st, fr, ins.ops[0])
        b = val(m, st, fr, ins.ops[1])
        ty = ins.ty
        if ty.k == "v":
            w = ty.e.w
            return tuple(f(x, y, w) for x, y in zip(a, b))
        a, b = m.toint(a), m.toint(b)
        m.require(st, "ub", "division by zero", tm.ne(b, 0, ty.w))
        if type(b) is T and b.op == "ite" and tm._constleaf(b):
            def go(x):
                if type(x) is int:
                    return f(a, x, ty.w) if x else 0
                return tm.ite(x.a[0], go(x.a[1]), go(x.a[2]), ty.w)
            return go(b)
        return f(a, b, ty.w)
    OPS[name] = h


for _n in ("udiv", "sdiv", "urem", "srem"):
    _mkdiv(_n, BIN[_n])


@op("icmp")
def _icmp(m, st, fr, ins):
    a = val(m, st, fr, ins.ops[0])
    b = val(m, st, fr, ins.ops[1])
    ty = ins.z
    if ty.k == "v":
        return tuple(m.icmp1(ins.x, x, y, ty.e) for x, y in zip(a, b))
    return m.icmp1(ins.x, a, b, ty)


@op("select")
def _select(m, st, fr, ins):
    c = val(m, st, fr, ins.ops[0])
    a = val(m, st, fr, ins.ops[1])
    b = val(m, st, fr, ins.ops[2])
    ty = ins.ty
    if type(c) is tuple:
        return tuple(m.mergety(x, p, q, ty.e) for x, p, q in zip(c, a, b))
    if type(c) is int:
        return a if c else b
    q = m.quick(st, c)
    if q is None and m.select_hook:
        q = m.select_hook(m, st, c)
    if q is not None:
        return a if q else b
    return m.mergety(c, a, b, ty)


def _cast(f):
    def h(m, st, fr, ins):
        a = val(m, st, fr, ins.ops[0])
        if ins.ty.k == "v":
            w, W = ins.z.e.w, ins.ty.e.w
            return tuple(f(x, w, W) for x in a)
        return f(m.toint(a), ins.z.w, ins.ty.w)
    return h


OPS["zext"] = _cast(tm.zext)
OPS["sext"] = _cast(tm.sext)
OPS["trunc"] = _cast(tm.trunc)


@op("ptrtoint")
def _p2i(m, st, fr, ins):
    v = m.toint(val(m, st, fr, ins.ops[0]))
    return tm.trunc(v, 64, ins.ty.w) if ins.ty.w < 64 else v


@op("inttoptr")
def _i2p(m, st, fr, ins):
    return m.toptr(st, val(m, st, fr, ins.ops[0]))


@op("freeze")
def _freeze(m, st, fr, ins):
    return val(m, st, fr, ins.ops[0])


def to_bits(m, v, ty):
    """list of (value,width), least significant first"""
    if ty.k == "v":
        return [(x, ty.e.w) for x in v]
    return [(m.toint(v), ty.w)]


def recast(parts, w, n):
    """regroup LSB-first parts into n pieces of width w"""
    if all(p[1] == w for p in parts):
        return [p[0] for p in parts]
    if len(parts) * parts[0][1] == w * n and all(p[1] == parts[0][1] for p in parts):
        pw = parts[0][1]
        if pw > w and pw % w == 0:
            out = []
            for v, _ in parts:
                for j in range(pw // w):
                    out.append(tm.ext(v, pw, j * w, w))
            return out
        if w > pw and w % pw == 0:
            g = w // pw
            return [tm.cat([parts[i * g + j] for j in reversed(range(g))]) for i in range(n)]
    raise Unsupported("bitcast")


@op("bitcast", "addrspacecast")
def _bitcast(m, st, fr, ins):
    v = val(m, st, fr, ins.ops[0])
    a, b = ins.z, ins.ty
    if a.k == "p" or b.k == "p":
        return v
    parts = to_bits(m, v, a)
    if b.k == "v":
        return tuple(recast(parts, b.e.w, b.n))
    return recast(parts, b.w, 1)[0]


@op("extractelement")
def _ee(m, st, fr, ins):
    v = val(m, st, fr, ins.ops[0])
    i = val(m, st, fr, ins.ops[1])
    if type(i) is int:
        return v[i]
    r = v[0]
    for k in range(1, len(v)):
        r = m.mergety(tm.eq(i, k, ins.y.w), v[k], r, ins.ty)
    return r


@op("insertelement")
def _ie(m, st, fr, ins):
    v = val(m, st, fr, ins.ops[0])
    x = val(m, st, fr, ins.ops[1])
    i = val(m, st, fr, ins.ops[2])
    if type(i) is int:
        return v[:i] + (x,) + v[i + 1:]
    return tuple(m.mergety(tm.eq(i, k, ins.y.w), x, v[k], ins.ty.e) for k in range(len(v)))


@op("shufflevector")
def _sv(m, st, fr, ins):
    a = val(m, st, fr, ins.ops[0])
    isr, bv = ins.ops[1]
    n = len(a)
    b = None
    out = []
    for k in ins.x:
        if k < 0:
            out.append(tm.fresh("undef", ins.ty.e.w))
        elif k < n:
            out.append(a[k])
        else:
            if b is None:
                b = val(m, st, fr, ins.ops[1])
            out.append(b[k - n])
    return tuple(out)


@op("extractvalue")
def _ev(m, st, fr, ins):
    v = val(m, st, fr, ins.ops[0])
    for i in ins.x:
        v = v[i]
    return v


def _insv(v, idx, x):
    if not idx:
        return x
    i = idx[0]
    return v[:i] + (_insv(v[i], idx[1:], x),) + v[i + 1:]


@op("insertvalue")
def _iv(m, st, fr, ins):
    v = val(m, st, fr, ins.ops[0])
    x = val(m, st, fr, ins.ops[1])
    return _insv(v, ins.x, x)


# ------------------------------------------------------------------ memory
@op("alloca")
def _alloca(m, st, fr, ins):
    n = val(m, st, fr, ins.ops[0]) if ins.ops else 1
    if type(n) is not int:
        raise Unsupported("variable sized alloca")
    p = m.alloc(st, ins.x.size * n, "stack", "stack of " + fr.fn.name, max(ins.y or 1, 16))
    fr.allocas.append(p.obj)
    return p


@op("gep")
def _gep(m, st, fr, ins):
    ops = ins.ops
    base = val(m, st, fr, ops[0])
    if len(ops) == 2:
        isr, v = ops[1]
        i = fr.regs[v] if isr else v
        if type(i) is int and type(base) is Ptr and type(base.off) is int:
            w = ins.y[1].w
            if i >> (w - 1):
                i -= 1 << w
            return Ptr(base.obj, (base.off + i * ins.x.size) & 0xFFFFFFFFFFFFFFFF)
    return m.gep(st, base, ins.x, [val(m, st, fr, o) for o in ops[1:]], ins.y[1:])


@op("load")
def _load(m, st, fr, ins):
    p = val(m, st, fr, ins.ops[0])
    if ins.x is not None and m.hooks is not None:
        return m.hooks.atomic_load(m, st, p, ins.ty, ins.x, ins)
    return m.load(st, p, ins.ty)


@op("store")
def _store(m, st, fr, ins):
    v = val(m, st, fr, ins.ops[0])
    p = val(m, st, fr, ins.ops[1])
    if ins.x is not None and m.hooks is not None:
        m.hooks.atomic_store(m, st, p, ins.z, v, ins.x, ins)
        return None
    m.store(st, p, ins.z, v)


def rmw(opn, old, v, w):
    if opn == "xchg":
        return v
    if opn == "add":
        return tm.add(old, v, w)
    if opn == "sub":
        return tm.sub(old, v, w)
    if opn == "and":
        return tm.and_(old, v, w)
    if opn == "or":
        return tm.or_(old, v, w)
    if opn == "xor":
        return tm.xor(old, v, w)
    if opn == "max":
        return tm.smax(old, v, w)
    if opn == "min":
        return tm.smin(old, v, w)
    raise Unsupported("rmw " + opn)


@op("atomicrmw")
def _rmw(m, st, fr, ins):
    p = val(m, st, fr, ins.ops[0])
    v = val(m, st, fr, ins.ops[1])
    if m.hooks is not None:
        return m.hooks.atomic_rmw(m, st, p, ins.ty, ins.x, v, ins.y, ins)
    old = m.load(st, p, ins.ty)
    m.store(st, p, ins.ty, rmw(ins.x, old, v, ins.ty.w))
    return old


@op("cmpxchg")
def _cx(m, st, fr, ins):
    p = val(m, st, fr, ins.ops[0])
    e = val(m, st, fr, ins.ops[1])
    n = val(m, st, fr, ins.ops[2])
    if m.hooks is not None:
        return m.hooks.atomic_cmpxchg(m, st, p, ins.y, e, n, ins.x, ins)
    old = m.load(st, p, ins.y)
    ok = m.icmp1("eq", old, e, ins.y)
    m.store(st, p, ins.y, m.mergety(ok, n, old, ins.y))
    return (old, ok)


@op("fence")
def _fence(m, st, fr, ins):
    if m.hooks is not None:
        m.hooks.fence(m, st, ins.x, ins)
    return None


# ------------------------------------------------------------------ floats
def _fbin(name):
    def h(m, st, fr, ins):
        a = val(m, st, fr, ins.ops[0])
        b = val(m, st, fr, ins.ops[1])
        if ins.ty.k == "v":
            return tuple(tm.fop(name, ins.ty.e.w, x, y) for x, y in zip(a, b))
        return tm.fop(name, ins.ty.w, a, b)
    OPS[name] = h


for _n in ("fadd", "fsub", "fmul", "fdiv"):
    _fbin(_n)


@op("fneg")
def _fneg(m, st, fr, ins):
    a = val(m, st, fr, ins.ops[0])
    if ins.ty.k == "v":
        return tuple(tm.fop("fneg", ins.ty.e.w, x) for x in a)
    return tm.fop("fneg", ins.ty.w, a)


@op("fcmp")
def _fcmp(m, st, fr, ins):
    a = val(m, st, fr, ins.ops[0])
    b = val(m, st, fr, ins.ops[1])
    if ins.z.k == "v":
        return tuple(tm.fcmp(ins.x, x, y, ins.z.e.w) for x, y in zip(a, b))
    return tm.fcmp(ins.x, a, b, ins.z.w)


@op("fpext", "fptrunc")
def _fpx(m, st, fr, ins):
    def f(x, w, W):
        if type(x) is int:
            return tm.f2bits(tm.bits2f(x, w), W)
        return tm.mk(ins.op, W, (x, w))
    a = val(m, st, fr, ins.ops[0])
    if ins.ty.k == "v":
        return tuple(f(x, ins.z.e.w, ins.ty.e.w) for x in a)
    return f(a, ins.z.w, ins.ty.w)


@op("sitofp", "uitofp")
def _i2f(m, st, fr, ins):
    def f(x, w, W):
        if type(x) is int:
            v = tm.tosigned(x, w) if ins.op == "sitofp" else x
            return tm.f2bits(float(v), W)
        return tm.mk(ins.op, W, (x, w))
    a = val(m, st, fr, ins.ops[0])
    if ins.ty.k == "v":
        return tuple(f(x, ins.z.e.w, ins.ty.e.w) for x in a)
    return f(a, ins.z.w, ins.ty.w)


@op("fptosi", "fptoui")
def _f2i(m, st, fr, ins):
    def f(x, w, W):
        if type(x) is int:
            return int(tm.bits2f(x, w)) & tm.mask(W)
        return tm.mk(ins.op, W, (x, w))
    a = val(m, st, fr, ins.ops[0])
    if ins.ty.k == "v":
        return tuple(f(x, ins.z.e.w, ins.ty.e.w) for x in a)
    return f(a, ins.z.w, ins.ty.w)


# ------------------------------------------------------------------ llvm intrinsics
def find_llvm(name):
    for pre, f in LLVM:
        if name.startswith(pre):
            return f
    return None


def nop(m, st, args, ins):
    return None


def lanewise2(f):
    def h(m, st, args, ins):
        a, b = args[0], args[1]
        if type(a) is tuple:
            w = ins.ty.e.w
            return tuple(f(x, y, w) for x, y in zip(a, b))
        return f(a, b, ins.ty.w)
    return h


def i_abs(m, st, args, ins):
    f = lambda x, w: tm.ite(tm.slt(x, 0, w), tm.neg(x, w), x, w)
    if type(args[0]) is tuple:
        return tuple(f(x, ins.ty.e.w) for x in args[0])
    return f(args[0], ins.ty.w)


def i_un(opn):
    def h(m, st, args, ins):
        if type(args[0]) is tuple:
            return tuple(tm.un(opn, x, ins.ty.e.w) for x in args[0])
        return tm.un(opn, args[0], ins.ty.w)
    return h


def i_assume(m, st, args, ins):
    return None


def i_expect(m, st, args, ins):
    return args[0]


def i_fma(m, st, args, ins):
    a, b, c = args[:3]
    if type(a) is tuple:
        return tuple(tm.fop("fma", ins.ty.e.w, x, y, z) for x, y, z in zip(a, b, c))
    return tm.fop("fma", ins.ty.w, a, b, c)


def i_fabs(m, st, args, ins):
    if type(args[0]) is tuple:
        return tuple(tm.fop("fabs", ins.ty.e.w, x) for x in args[0])
    return tm.fop("fabs", ins.ty.w, args[0])


def _copy(m, st, dst, src, n):
    """byte copy of a concrete number of bytes"""
    if n == 0:
        return
    dst = m.fork_ptr(st, dst) if type(dst) is PIte else dst
    src = m.fork_ptr(st, src) if type(src) is PIte else src
    so = m.check_access(st, src, n, "read")
    m.check_access(st, dst, n, "write")
    if type(src.off) is int and type(dst.off) is int and m.on_load is None:
        # entry-wise copy
        ents = []
        j = src.off
        end = src.off + n
        while j < end:
            e = so.data.get(j)
            if e is not None and j + e[0] <= end:
                ents.append((j, e[0], e[1]))
                j += e[0]
                continue
            if e is None and so.fill is None:
                # skip uninitialised
                covered = False
                for k in range(j - 1, j - 16, -1):
                    e2 = so.data.get(k)
                    if e2 is not None:
                        covered = k + e2[0] > j
                        break
                if not covered:
                    ents.append((j, 1, None))
                    j += 1
                    continue
            ents.append((j, 1, m.obj_load(so, j, 1)))
            j += 1
        do = m.wobj(st, dst.obj)
        if do.ro:
            raise Violation("memory", "write to constant")
        d = dst.off - src.off
        for j, sz, v in ents:
            if v is None:
                v = tm.fresh("uninit", sz * 8)
            m.obj_store(do, j + d, sz, v)
        return
    k = 0
    while k < n:
        sz = 8 if (n - k) >= 8 else 4 if (n - k) >= 4 else 2 if n - k >= 2 else 1
        v = m.load_raw(st, m.padd(src, k), sz)
        m.store_raw(st, m.padd(dst, k), sz, v)
        k += sz


def i_memcpy(m, st, args, ins):
    dst, src, n = args[:3]
    n = m.concretize(st, n, 64)
    if n == 0:
        return None
    # memmove semantics: read everything first when overlapping
    if type(dst) is Ptr and type(src) is Ptr and dst.obj == src.obj and type(dst.off) is int and type(src.off) is int:
        m.check_access(st, src, n, "read")
        m.check_access(st, dst, n, "write")
        o = m.wobj(st, dst.obj)
        bs = [m.obj_load(o, src.off + i, 1) for i in range(n)]
        step = 8 if n % 8 == 0 and src.off % 8 == 0 and dst.off % 8 == 0 else 1
        if step == 8:
            vs = [m.obj_load(o, src.off + i, 8) for i in range(0, n, 8)]
            for i, v in enumerate(vs):
                m.obj_store(o, dst.off + 8 * i, 8, v)
        else:
            for i, v in enumerate(bs):
                m.obj_store(o, dst.off + i, 1, v)
        return None
    _copy(m, st, dst, src, n)
    return None


def i_memset(m, st, args, ins):
    dst, v, n = args[:3]
    n = m.concretize(st, n, 64)
    if n == 0:
        return None
    if type(dst) is PIte:
        dst = m.fork_ptr(st, dst)
    o = m.check_access(st, dst, n, "write")
    off = m.concretize(st, dst.off, 64)
    if m.hooks is not None and m.on_store is not None:
        k = 0
        while k < n:
            sz = next(z for z in (8, 4, 2, 1) if (off + k) % z == 0 and n - k >= z)
            m.store_raw(st, Ptr(dst.obj, off + k), sz, tm.cat([(v, 8)] * sz) if sz > 1 else v)
            k += sz
        return None
    if m.on_store is not None and m.on_store(st, dst, n, o, v):
        return None
    o = m.wobj(st, dst.obj)
    if n > 4096 and off == 0 and n == o.size and type(v) is int:
        o.data = {}
        o.fill = v
        return None
    v8 = tm.cat([(v, 8)] * 8) if n >= 8 else None
    k = 0
    while k < n:
        if (off + k) % 8 == 0 and n - k >= 8:
            m.obj_store(o, off + k, 8, v8)
            k += 8
        else:
            m.obj_store(o, off + k, 1, v)
            k += 1
    return None


def i_trap(m, st, args, ins):
    m.violation(st, "ub", "undefined behaviour trap", 1, ins)
    raise PathEnd()


def i_masked_load(m, st, args, ins):
    p, _, mask, pas = args
    out = []
    s = ins.ty.e.size
    for i, (c, z) in enumerate(zip(mask, pas)):
        if type(c) is not int:
            k = m.quick(st, c)
            if k is None:
                k = m.concretize(st, c, 1)
            c = k
        out.append(m.load(st, m.padd(p, i * s), ins.ty.e) if c else z)
    return tuple(out)


def i_masked_store(m, st, args, ins):
    v, p, _, mask = args
    ty = ins.z[0]
    s = ty.e.size
    for i, (c, x) in enumerate(zip(mask, v)):
        if type(c) is not int:
            k = m.quick(st, c)
            if k is None:
                k = m.concretize(st, c, 1)
            c = k
        if c:
            m.store(st, m.padd(p, i * s), ty.e, x)
    return None


def i_overflow(kind, signed):
    def h(m, st, args, ins):
        a, b = m.toint(args[0]), m.toint(args[1])
        w = ins.z[0].w
        f = {"add": tm.add, "sub": tm.sub, "mul": tm.mul}[kind]
        W = w + 1 if kind != "mul" else 2 * w
        e = tm.sext if signed else tm.zext
        r = f(a, b, w)
        if not signed and kind == "sub":
            return (r, tm.ult(a, b, w))
        if signed:
            ra, rb = tm.srange(a, w), tm.srange(b, w)
            if kind == "add":
                lo, hi = ra[0] + rb[0], ra[1] + rb[1]
            elif kind == "sub":
                lo, hi = ra[0] - rb[1], ra[1] - rb[0]
            else:
                v = (ra[0] * rb[0], ra[0] * rb[1], ra[1] * rb[0], ra[1] * rb[1])
                lo, hi = min(v), max(v)
            if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
                return (r, 0)
        else:
            ra, rb = tm.urange(a, w), tm.urange(b, w)
            hi = ra[1] + rb[1] if kind == "add" else ra[1] * rb[1]
            if hi <= tm.mask(w):
                return (r, 0)
        wide = f(e(a, w, W), e(b, w, W), W)
        ov = tm.ne(wide, e(r, w, W), W)
        return (r, ov)
    return h


def sat(kind, signed):
    def f(a, b, w):
        W = w + 2
        e = tm.sext if signed else tm.zext
        x = (tm.add if kind == "add" else tm.sub)(e(a, w, W), e(b, w, W), W)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, tm.mask(w))
        return tm.trunc(tm.smin(tm.smax(x, lo & tm.mask(W), W), hi, W), W, w)
    return f


def i_fshl(left):
    def h(m, st, args, ins):
        def f(a, b, s, w):
            if type(s) is not int:
                raise Unsupported("fsh")
            s %= w
            if s == 0:
                return a if left else b
            if left:
                return tm.or_(tm.shl(a, s, w), tm.lshr(b, w - s, w), w)
            return tm.or_(tm.shl(a, w - s, w), tm.lshr(b, s, w), w)
        if type(args[0]) is tuple:
            return tuple(f(x, y, z, ins.ty.e.w) for x, y, z in zip(*args))
        return f(args[0], args[1], args[2], ins.ty.w)
    return h


def i_reduce(f):
    def h(m, st, args, ins):
        v = args[0]
        r = v[0]
        for x in v[1:]:
            r = f(r, x, ins.ty.w)
        return r
    return h


def i_bswap(m, st, args, ins):
    w = ins.ty.w
    n = w // 8
    return tm.cat([(tm.ext(args[0], w, i * 8, 8), 8) for i in range(n)])


def i_is_constant(m, st, args, ins):
    return 0


def i_objsize(m, st, args, ins):
    return tm.mask(ins.ty.w) if not args[1] else 0


# x86
def x_shift_imm(f):
    def h(m, st, args, ins):
        w = ins.ty.e.w
        s = args[1]
        return tuple(f(x, s, w) for x in args[0])
    return h


def x_shift_imm_logical(f):
    def h(m, st, args, ins):
        w = ins.ty.e.w
        # count in low 64 bits of an xmm operand
        cty = ins.z[1]
        c = args[1]
        if type(c) is tuple:
            cw = cty.e.w
            n = 64 // cw
            c = tm.cat([(c[i], cw) for i in reversed(range(n))])
            cw = 64
        else:
            cw = cty.w
        if type(c) is not int:
            big = tm.ule(w, c, cw)
            cc = tm.trunc(c, cw, w) if cw > w else tm.zext(c, cw, w)
            return tuple(tm.ite(big, f(x, w if f is not tm.ashr else w - 1, w), f(x, cc, w), w) for x in args[0])
        return tuple(f(x, c, w) for x in args[0])
    return h


def x_shift_var(f):
    def h(m, st, args, ins):
        w = ins.ty.e.w

        def g(x, s):
            if type(s) is int:
                return f(x, s, w)
            if f is tm.ashr:
                r = f(x, s, w)
                # counts >= w: SMT-LIB ashr already yields the sign fill
                return r
            return f(x, s, w)
        return tuple(g(x, s) for x, s in zip(args[0], args[1]))
    return h


def x_pmaddwd(m, st, args, ins):
    a, b = args
    out = []
    for i in range(len(a) // 2):
        p = tm.mul(tm.sext(a[2 * i], 16, 32), tm.sext(b[2 * i], 16, 32), 32)
        q = tm.mul(tm.sext(a[2 * i + 1], 16, 32), tm.sext(b[2 * i + 1], 16, 32), 32)
        out.append(tm.add(p, q, 32))
    return tuple(out)


def x_pmaddubsw(m, st, args, ins):
    a, b = args
    f = sat("add", True)
    out = []
    for i in range(len(a) // 2):
        p = tm.mul(tm.zext(a[2 * i], 8, 16), tm.sext(b[2 * i], 8, 16), 16)
        q = tm.mul(tm.zext(a[2 * i + 1], 8, 16), tm.sext(b[2 * i + 1], 8, 16), 16)
        out.append(f(p, q, 16))
    return tuple(out)


def x_pmulhrsw(m, st, args, ins):
    out = []
    for a, b in zip(*args[:2]):
        p = tm.mul(tm.sext(a, 16, 32), tm.sext(b, 16, 32), 32)
        p = tm.add(tm.ashr(p, 14, 32), 1, 32)
        out.append(tm.ext(p, 32, 1, 16))
    return tuple(out)


def x_minmax(lt):
    def h(m, st, args, ins):
        w = ins.ty.e.w
        p = "olt" if lt else "ogt"
        return tuple(tm.ite(tm.fcmp(p, a, b, w), a, b, w) for a, b in zip(args[0], args[1]))
    return h


def x_maskload(m, st, args, ins):
    p, mask = args
    out = []
    s = ins.ty.e.size
    w = ins.z[1].e.w
    for i, c in enumerate(mask):
        c = tm.ext(c, w, w - 1, 1)
        if type(c) is not int:
            c = m.concretize(st, c, 1)
        out.append(m.load(st, m.padd(p, i * s), ins.ty.e) if c else 0)
    return tuple(out)


def x_maskstore(m, st, args, ins):
    p, mask, v = args
    w = ins.z[1].e.w
    ety = ins.z[2].e
    for i, c in enumerate(mask):
        c = tm.ext(c, w, w - 1, 1)
        if type(c) is not int:
            c = m.concretize(st, c, 1)
        if c:
            m.store(st, m.padd(p, i * ety.size), ety, v[i])
    return None


def x_blendv(m, st, args, ins):
    a, b, k = args
    w = ins.ty.e.w
    return tuple(tm.ite(tm.ext(c, w, w - 1, 1), y, x, w) for x, y, c in zip(a, b, k))


def x_ldu(m, st, args, ins):
    return m.load(st, args[0], ins.ty)


def x_pack(signed_out):
    def h(m, st, args, ins):
        a, b = args
        w = ins.z[0].e.w
        W = ins.ty.e.w
        lo, hi = (-(1 << (W - 1)), (1 << (W - 1)) - 1) if signed_out else (0, tm.mask(W))
        f = lambda x: tm.trunc(tm.smin(tm.smax(x, lo & tm.mask(w), w), hi, w), w, W)
        # per 128-bit lane interleave
        per = 128 // w
        out = []
        for k in range(0, len(a), per):
            out += [f(x) for x in a[k:k + per]]
            out += [f(x) for x in b[k:k + per]]
        return tuple(out)
    return h


def x_pshufb(m, st, args, ins):
    a, k = args
    out = []
    for i, s in enumerate(k):
        if type(s) is not int:
            raise Unsupported("pshufb with symbolic control")
        base = i // 16 * 16
        out.append(0 if s & 0x80 else a[base + (s & 15)])
    return tuple(out)


def x_movmsk(m, st, args, ins):
    v = args[0]
    w = ins.z[0].e.w
    return tm.zext(tm.cat([(tm.ext(x, w, w - 1, 1), 1) for x in reversed(v)]), len(v), ins.ty.w)


def x_permd(m, st, args, ins):
    a, k = args
    n = len(a)
    if any(type(s) is not int for s in k):
        raise Unsupported("permute with symbolic control")
    return tuple(a[s % n] for s in k)


def x_hadd(m, st, args, ins):
    a, b = args
    w = ins.ty.e.w
    per = 128 // w
    out = []
    f = (lambda x, y: tm.add(x, y, w)) if ins.ty.e.k == "i" else (lambda x, y: tm.fop("fadd", w, x, y))
    for k in range(0, len(a), per):
        for v in (a, b):
            for j in range(0, per, 2):
                out.append(f(v[k + j], v[k + j + 1]))
    return tuple(out)


def x_cvtps2dq(m, st, args, ins):
    out = []
    for x in args[0]:
        if type(x) is int:
            f = tm.bits2f(x, 32)
            out.append(int(round(f)) & 0xFFFFFFFF if abs(f) < 2**31 else 0x80000000)
        else:
            out.append(tm.mk("cvtps2dq", 32, (x, 32)))
    return tuple(out)


def x_stmxcsr(m, st, args, ins):
    o = mxcsr(m, st)
    m.store_raw(st, args[0], 4, m.obj_load(o, 0, 4))
    return None


def x_ldmxcsr(m, st, args, ins):
    v = m.load_raw(st, args[0], 4)
    o = m.wobj(st, mxcsr(m, st).id)
    m.obj_store(o, 0, 4, v)
    return None


def mxcsr(m, st):
    oid = st.tl.get("mxcsr")
    if oid is None:
        p = m.alloc(st, 4, "reg", "mxcsr")
        st.tl["mxcsr"] = oid = p.obj
        o = m.wobj(st, oid)
        o.data[0] = (4, 0x1F80)
    return st.mem[oid]


def f_errno(m, st, args, ins):
    oid = st.tl.get("errno")
    return Ptr(oid, 0)


def errno_object(m, st):
    p = m.alloc(st, 4, "reg", "errno")
    st.tl["errno"] = p.obj
    m.wobj(st, p.obj).data[0] = (4, 0)


Machine.at_start += (errno_object,)

LLVM = [
    ("llvm.dbg.", nop), ("llvm.lifetime", nop), ("llvm.experimental.noalias", nop), ("llvm.donothing", nop),
    ("llvm.assume", i_assume), ("llvm.expect", i_expect), ("llvm.prefetch", nop), ("llvm.invariant", nop),
    ("llvm.memcpy", i_memcpy), ("llvm.memmove", i_memcpy), ("llvm.memset", i_memset),
    ("llvm.smax", lanewise2(tm.smax)), ("llvm.smin", lanewise2(tm.smin)), ("llvm.umax", lanewise2(tm.umax)),
    ("llvm.umin", lanewise2(tm.umin)), ("llvm.abs", i_abs), ("llvm.ctlz", i_un("ctlz")), ("llvm.cttz", i_un("cttz")),
    ("llvm.ctpop", i_un("ctpop")), ("llvm.fmuladd", i_fma), ("llvm.fma", i_fma), ("llvm.fabs", i_fabs),
    ("llvm.trap", i_trap), ("llvm.ubsantrap", i_trap), ("llvm.masked.load", i_masked_load),
    ("llvm.masked.store", i_masked_store),
    ("llvm.sadd.with", i_overflow("add", True)), ("llvm.ssub.with", i_overflow("sub", True)),
    ("llvm.smul.with", i_overflow("mul", True)), ("llvm.uadd.with", i_overflow("add", False)),
    ("llvm.usub.with", i_overflow("sub", False)), ("llvm.umul.with", i_overflow("mul", False)),
    ("llvm.sadd.sat", lanewise2(sat("add", True))), ("llvm.ssub.sat", lanewise2(sat("sub", True))),
    ("llvm.uadd.sat", lanewise2(sat("add", False))), ("llvm.usub.sat", lanewise2(sat("sub", False))),
    ("llvm.fshl", i_fshl(True)), ("llvm.fshr", i_fshl(False)), ("llvm.bswap", i_bswap),
    ("llvm.vector.reduce.add", i_reduce(tm.add)), ("llvm.vector.reduce.or", i_reduce(tm.or_)),
    ("llvm.vector.reduce.and", i_reduce(tm.and_)), ("llvm.vector.reduce.smax", i_reduce(tm.smax)),
    ("llvm.vector.reduce.smin", i_reduce(tm.smin)),
    ("llvm.is.constant", i_is_constant), ("llvm.objectsize", i_objsize),
    ("llvm.x86.sse.stmxcsr", x_stmxcsr), ("llvm.x86.sse.ldmxcsr", x_ldmxcsr),
    ("llvm.x86.sse2.pause", nop),
    ("llvm.x86.avx512.psrav", x_shift_var(tm.ashr)), ("llvm.x86.avx512.psllv", x_shift_var(tm.shl)),
    ("llvm.x86.avx512.psrlv", x_shift_var(tm.lshr)), ("llvm.x86.avx2.psrav", x_shift_var(tm.ashr)),
    ("llvm.x86.avx2.psllv", x_shift_var(tm.shl)), ("llvm.x86.avx2.psrlv", x_shift_var(tm.lshr)),
    ("llvm.x86.avx512.pmaddw.d", x_pmaddwd), ("llvm.x86.avx2.pmadd.wd", x_pmaddwd),
    ("llvm.x86.sse2.pmadd.wd", x_pmaddwd), ("llvm.x86.avx2.pmadd.ub.sw", x_pmaddubsw),
    ("llvm.x86.ssse3.pmadd.ub.sw.128", x_pmaddubsw), ("llvm.x86.avx512.pmaddubs.w", x_pmaddubsw),
    ("llvm.x86.ssse3.pmul.hr.sw", x_pmulhrsw), ("llvm.x86.avx2.pmul.hr.sw", x_pmulhrsw),
    ("llvm.x86.avx512.min.ps", x_minmax(True)), ("llvm.x86.avx512.max.ps", x_minmax(False)),
    ("llvm.x86.avx.min.ps", x_minmax(True)), ("llvm.x86.avx.max.ps", x_minmax(False)),
    ("llvm.x86.sse.min.ps", x_minmax(True)), ("llvm.x86.sse.max.ps", x_minmax(False)),
    ("llvm.x86.avx.maskload", x_maskload), ("llvm.x86.avx2.maskload", x_maskload),
    ("llvm.x86.avx.maskstore", x_maskstore), ("llvm.x86.avx2.maskstore", x_maskstore),
    ("llvm.x86.avx.blendv", x_blendv), ("llvm.x86.sse41.blendv", x_blendv), ("llvm.x86.sse41.pblendvb", x_blendv),
    ("llvm.x86.avx2.pblendvb", x_blendv),
    ("llvm.x86.avx.ldu", x_ldu), ("llvm.x86.sse3.ldu", x_ldu),
    ("llvm.x86.sse2.psll.", x_shift_imm_logical(tm.shl)), ("llvm.x86.sse2.psrl.", x_shift_imm_logical(tm.lshr)),
    ("llvm.x86.sse2.psra.", x_shift_imm_logical(tm.ashr)), ("llvm.x86.sse2.pslli.", x_shift_imm_logical(tm.shl)),
    ("llvm.x86.sse2.psrli.", x_shift_imm_logical(tm.lshr)), ("llvm.x86.sse2.psrai.", x_shift_imm_logical(tm.ashr)),
    ("llvm.x86.avx2.psll.", x_shift_imm_logical(tm.shl)), ("llvm.x86.avx2.psrl.", x_shift_imm_logical(tm.lshr)),
    ("llvm.x86.avx2.psra.", x_shift_imm_logical(tm.ashr)), ("llvm.x86.avx2.pslli.", x_shift_imm_logical(tm.shl)),
    ("llvm.x86.avx2.psrli.", x_shift_imm_logical(tm.lshr)), ("llvm.x86.avx2.psrai.", x_shift_imm_logical(tm.ashr)),
    ("llvm.x86.avx512.psll.", x_shift_imm_logical(tm.shl)), ("llvm.x86.avx512.psrl.", x_shift_imm_logical(tm.lshr)),
    ("llvm.x86.avx512.psra.", x_shift_imm_logical(tm.ashr)), ("llvm.x86.avx512.pslli.", x_shift_imm_logical(tm.shl)),
    ("llvm.x86.avx512.psrli.", x_shift_imm_logical(tm.lshr)),
    ("llvm.x86.avx512.psrai.", x_shift_imm_logical(tm.ashr)),
    ("llvm.x86.sse2.packsswb", x_pack(True)), ("llvm.x86.sse2.packssdw", x_pack(True)),
    ("llvm.x86.avx2.packsswb", x_pack(True)), ("llvm.x86.avx2.packssdw", x_pack(True)),
    ("llvm.x86.sse2.packuswb", x_pack(False)), ("llvm.x86.sse41.packusdw", x_pack(False)),
    ("llvm.x86.avx2.packuswb", x_pack(False)), ("llvm.x86.avx2.packusdw", x_pack(False)),
    ("llvm.x86.ssse3.pshuf.b", x_pshufb), ("llvm.x86.avx2.pshuf.b", x_pshufb),
    ("llvm.x86.avx512.pshuf.b", x_pshufb), ("llvm.x86.sse2.pmovmskb", x_movmsk),
    ("llvm.x86.avx2.pmovmskb", x_movmsk), ("llvm.x86.sse.movmsk", x_movmsk), ("llvm.x86.avx.movmsk", x_movmsk),
    ("llvm.x86.avx2.permd", x_permd), ("llvm.x86.avx2.permps", x_permd),
    ("llvm.x86.ssse3.phadd", x_hadd), ("llvm.x86.avx2.phadd", x_hadd), ("llvm.x86.avx.hadd", x_hadd),
    ("llvm.x86.sse3.hadd", x_hadd), ("llvm.x86.avx.cvt.ps2dq", x_cvtps2dq), ("llvm.x86.sse2.cvtps2dq", x_cvtps2dq),
    ("llvm.x86.avx512.mask.cvtps2dq.512", x_cvtps2dq),
    ("llvm.x86.avx.vzero", nop),
]


# ------------------------------------------------------------------ runtime models
def cstring(m, st, p):
    out = []
    o = m.obj(st, p.obj)
    k = p.off
    while True:
        b = m.obj_load(o, k, 1)
        if type(b) is not int:
            return "".join(out) + "?"
        if b == 0:
            return "".join(out)
        out.append(chr(b))
        k += 1


def heap_counter(m, st):
    oid = st.tl.get("heap")
    if oid is None:
        p = m.alloc(st, 16, "reg", "heap counters")
        st.tl["heap"] = oid = p.obj
        o = m.wobj(st, oid)
        o.data[0] = (8, 0)
        o.data[8] = (8, 0)
    return oid


def heap_add(m, st, dn, db):
    oid = heap_counter(m, st)
    o = m.wobj(st, oid)
    o.data[0] = (8, tm.add(o.data[0][1], dn if type(dn) is T else dn & tm.mask(64), 64))
    o.data[8] = (8, tm.add(o.data[8][1], db if type(db) is T else db & tm.mask(64), 64))


def heap_alloc(m, st, size, align, name, may_fail=True):
    if m.alloc_filter is not None:
        r = m.alloc_filter(m, st, size, align, name)
        if r is not None:
            return r
    if type(size) is T and not m.symbolic_sizes:
        size = m.concretize(st, size, 64)
    if type(align) is T:
        align = m.concretize(st, align, 64)
    fail = 0
    if may_fail and m.alloc_fail:
        k = st.names.get("allocfail", 0)
        if k < m.alloc_fail:
            fail = m.sym(st, "allocfail", 1)
    p = m.alloc(st, size, "heap", name, max(align, 16))
    heap_add(m, st, tm.ite(fail, 0, 1, 64), tm.ite(fail, 0, size, 64))
    if fail == 0:
        return p
    o = m.wobj(st, p.obj)
    o.alive = tm.bnot(fail)
    return pite(fail, 0, p)


Machine.at_start += (heap_counter, mxcsr)
Machine.alloc_filter = None
Machine.symbolic_sizes = False
Machine.alloc_fail = 0


def f_new(m, st, args, ins):
    return heap_alloc(m, st, args[0], 16, "heap block (new)", may_fail=False)


def f_new_aligned(m, st, args, ins):
    return heap_alloc(m, st, args[0], args[1], "heap block (new)", may_fail=False)


def f_malloc(m, st, args, ins):
    return heap_alloc(m, st, args[0], 16, "heap block (malloc)")


def f_calloc(m, st, args, ins):
    p = heap_alloc(m, st, tm.mul(args[0], args[1], 64), 16, "heap block (calloc)", may_fail=False)
    m.wobj(st, p.obj).fill = 0
    return p


def f_posix_memalign(m, st, args, ins):
    p = heap_alloc(m, st, args[2], args[1], "heap block (posix_memalign)")
    isnull = m.pcmp("eq", p, 0)
    if isnull == 0:
        m.store_raw(st, args[0], 8, p)
        return 0
    # on failure *memptr keeps its previous value
    old = m.load_raw(st, args[0], 8)
    m.store_raw(st, args[0], 8, m.mergeval(isnull, old, p, 64))
    return tm.ite(isnull, 12, 0, 32)


def f_aligned_alloc(m, st, args, ins):
    return heap_alloc(m, st, args[1], args[0], "heap block (aligned_alloc)")


def f_free(m, st, args, ins):
    _free(m, st, args[0], 1)
    return None


def _free(m, st, p, g):
    if type(p) is PIte:
        k = m.quick(st, p.c)
        if k is not None:
            return _free(m, st, p.p if k else p.q, g)
        _free(m, st, p.p, tm.band(g, p.c))
        _free(m, st, p.q, tm.band(g, tm.bnot(p.c)))
        return
    if type(p) is int and p == 0:
        return
    if type(p) is not Ptr:
        m.require(st, "memory", "free of invalid pointer %r" % (p,), tm.bnot(g))
        return
    o = st.mem.get(p.obj)
    if o is None or o.kind != "heap":
        m.require(st, "memory", "free of non-heap memory", tm.bnot(g))
        return
    m.require(st, "memory", "free of interior pointer", tm.bor(tm.bnot(g), tm.eq(p.off, 0, 64)))
    m.require(st, "memory", "double free of " + o.name, tm.bor(tm.bnot(g), o.alive))
    o = m.wobj(st, p.obj)
    if m.on_free is not None:
        m.on_free(st, p, o)
    heap_add(m, st, tm.ite(g, tm.mask(64), 0, 64), tm.ite(g, tm.neg(o.size, 64), 0, 64))
    o.alive = tm.band(o.alive, tm.bnot(g))


Machine.on_free = None


def f_abort(m, st, args, ins):
    m.violation(st, "abort", "abort() called", 1, ins)
    raise PathEnd()


def f_exit(m, st, args, ins):
    raise PathEnd()


def f_zero(m, st, args, ins):
    return 0


def f_getenv(m, st, args, ins):
    name = cstring(m, st, args[0])
    v = m.env.get(name)
    if v is None:
        return 0
    return v(m, st)


Machine.env = {}


def f_strtol(m, st, args, ins):
    p, end, base = args
    if type(p) is Ptr and p.obj in m.strvals:
        return m.strvals[p.obj]
    raise Unsupported("strtol")


Machine.strvals = {}


def f_memcmp(m, st, args, ins):
    a, b, n = args
    n = m.concretize(st, n, 64)
    r = 0
    for i in reversed(range(n)):
        x = m.load_raw(st, m.padd(a, i), 1)
        y = m.load_raw(st, m.padd(b, i), 1)
        r = tm.ite(tm.eq(x, y, 8), r, tm.ite(tm.ult(x, y, 8), 0xFFFFFFFF, 1, 32), 32)
    return r


def f_strlen(m, st, args, ins):
    p = args[0]
    if type(p) is PIte:
        p = m.fork_ptr(st, p)
    n = 0
    while True:
        b = m.load_raw(st, m.padd(p, n), 1)
        if type(b) is T:
            k = m.decide(st, tm.eq(b, 0, 8))
            if k is None:
                b = m.concretize(st, b, 8)
            else:
                b = 0 if k else 1
        if b == 0:
            return n
        n += 1


def f_strcmp(m, st, args, ins):
    a, b = cstring(m, st, args[0]), cstring(m, st, args[1])
    if "?" in a or "?" in b:
        raise Unsupported("strcmp of symbolic strings")
    return 0 if a == b else (1 if a > b else 0xFFFFFFFF)


def f_guard_acquire(m, st, args, ins):
    v = m.load_raw(st, args[0], 1)
    if type(v) is not int:
        v = m.concretize(st, v, 8)
    return 0 if v else 1


def f_guard_release(m, st, args, ins):
    m.store_raw(st, args[0], 1, 1)
    return None


# std::__detail::_Prime_rehash_policy (unordered_map): any bucket count is
# semantically valid; primes as libstdc++ would choose for small tables.
_PR = [2, 5, 11, 23, 47, 97, 199, 409, 823]


def f_next_bkt(m, st, args, ins):
    n = m.concretize(st, args[1], 64)
    for p in _PR:
        if p >= n:
            break
    # _M_next_resize at offset 8 of the policy
    m.store_raw(st, m.padd(args[0], 8), 8, p)
    return p


def f_need_rehash(m, st, args, ins):
    if getattr(m, "no_rehash", False):
        return (0, 0)
    pol, nb, ne, ni = args
    nb, ne, ni = (m.concretize(st, x, 64) for x in (nb, ne, ni))
    nxt = m.concretize(st, m.load_raw(st, m.padd(pol, 8), 8), 64)
    if ne + ni > nxt:
        want = max(ne + ni, 0 if nxt else 11)
        if want >= nb:
            n = max(want + 1, nb * 2)
            for p in _PR:
                if p >= n:
                    break
            m.store_raw(st, m.padd(pol, 8), 8, p)
            return (1, p)
        m.store_raw(st, m.padd(pol, 8), 8, nb)
    return (0, 0)


# ---- harness API
def _name(m, st, p):
    return cstring(m, st, p)


def v_sym(w, isfloat=False):
    def h(m, st, args, ins):
        return m.sym(st, _name(m, st, args[0]), w, isfloat=isfloat)
    return h


def v_range(w):
    def h(m, st, args, ins):
        lo, hi = args[1], args[2]
        if type(lo) is not int or type(hi) is not int:
            t = m.sym(st, _name(m, st, args[0]), w)
            m.assume(st, tm.sle(lo, t, w))
            m.assume(st, tm.sle(t, hi, w))
            if m.solver.check(st.pc) == "unsat":
                raise PathEnd()
            return t
        return m.sym(st, _name(m, st, args[0]), w, tm.tosigned(lo, w), tm.tosigned(hi, w))
    return h


def v_bool(m, st, args, ins):
    return m.sym(st, _name(m, st, args[0]), 1)


def v_assume(m, st, args, ins):
    m.assume(st, args[0])
    if type(args[0]) is T:
        if m.solver.check(st.pc) == "unsat":
            raise PathEnd()
    return None


def v_assert(m, st, args, ins):
    c, msg = args[0], _name(m, st, args[1])
    m.asserts += 1
    m.reached[msg] = m.reached.get(msg, 0) + 1
    m.assertion(st, c, msg)
    return None


def v_reach(m, st, args, ins):
    msg = "reach:" + _name(m, st, args[0])
    m.reached[msg] = m.reached.get(msg, 0) + 1
    return None


def assertion(m, st, c, msg):
    if type(c) is int and c == 1:
        m.trivial_asserts += 1
        return
    if m.assert_handler is not None:
        r = m.assert_handler(m, st, c, msg)
        if r is True:
            return
    m.require(st, "assert", msg, c)


Machine.assertion = assertion
Machine.trivial_asserts = 0
Machine.assert_handler = None
Machine.select_hook = None  # decides the condition of a select, if it can


def v_assert_feq(m, st, args, ins):
    a, b, msg = args[0], args[1], _name(m, st, args[2])
    m.asserts += 1
    m.reached[msg] = m.reached.get(msg, 0) + 1
    if same(a, b):
        m.trivial_asserts += 1
        return None
    m.assertion(st, tm.mk("feq", 1, (a, b, 32)), msg)
    return None


def v_cfg(m, st, args, ins):
    n = _name(m, st, args[0])
    if n not in m.cfg:
        raise Unsupported("configuration value " + n)
    return m.cfg[n] & tm.mask(64)


def v_fork(m, st, args, ins):
    return m.concretize(st, args[0], ins.ty.w)


def v_heap_live(m, st, args, ins):
    oid = heap_counter(m, st)
    return st.mem[oid].data[0][1]


def v_heap_bytes(m, st, args, ins):
    oid = heap_counter(m, st)
    return st.mem[oid].data[8][1]


def v_is_live(m, st, args, ins):
    """Is [p, p+n) inside a live object?"""
    p, n = args
    p = m.toptr(st, p)

    def go(p):
        if type(p) is PIte:
            return tm.ite(p.c, go(p.p), go(p.q), 1)
        if type(p) is not Ptr:
            return 0
        o = st.mem.get(p.obj)
        if o is None:
            return 0
        return tm.band(o.alive, tm.ule(tm.add(p.off, n, 64), o.size, 64), tm.ule(p.off, tm.mask(62), 64))
    return go(p)


def v_bytes(m, st, args, ins):
    p, n, name = args
    name = _name(m, st, name)
    n = m.concretize(st, n, 64)
    m.check_access(st, p, n, "write")
    o = m.wobj(st, p.obj)
    for i in range(n):
        m.obj_store(o, p.off + i, 1, m.sym(st, "%s_%d" % (name, i), 8))
    return None


def v_uninit(m, st, args, ins):
    """Allocation with exact size used for operand buffers."""
    return heap_alloc(m, st, args[0], 64, "operand " + _name(m, st, args[1]), may_fail=False)


def v_simplify(m, st, args, ins):
    m.simplify_object(st, args[0], args[1])
    return None


def v_out(m, st, args, ins):
    n = _name(m, st, args[0])
    k = st.names.get("out:" + n, 0)
    st.names["out:" + n] = k + 1
    n = "%s#%d" % (n, k)
    v = args[1] if type(args[1]) in (int, T) else m.toint(args[1])
    m.outs[n] = 64
    st.alt[n] = v
    return None


def v_generalize(m, st, args, ins):
    m.generalize(st, args[0], args[1], cstring(m, st, args[2]).split(","))
    return None


def v_symbolic(m, st, args, ins):
    return 1


def install(m):
    m.models.update({
        "_Znwm": f_new, "_Znam": f_new, "_ZdlPv": f_free, "_ZdaPv": f_free, "_ZdlPvm": f_free, "_ZdaPvm": f_free,
        "_ZnwmSt11align_val_t": f_new_aligned, "_ZdlPvSt11align_val_t": f_free, "_ZdlPvmSt11align_val_t": f_free,
        "__errno_location": f_errno, "malloc": f_malloc, "calloc": f_calloc, "posix_memalign": f_posix_memalign, "aligned_alloc": f_aligned_alloc,
        "free": f_free, "abort": f_abort, "exit": f_exit, "_exit": f_exit, "_ZSt9terminatev": f_abort,
        "fprintf": f_zero, "printf": f_zero, "puts": f_zero, "fflush": f_zero, "fputs": f_zero, "fwrite": f_zero,
        "fputc": f_zero, "putchar": f_zero,
        "snprintf": f_zero, "vfprintf": f_zero, "getenv": f_getenv,
        "memcpy": i_memcpy_ret, "memmove": i_memcpy_ret, "memset": i_memset_ret,
        "memcmp": f_memcmp, "bcmp": f_memcmp, "strlen": f_strlen, "strcmp": f_strcmp,
        "__cxa_atexit": f_zero, "__cxa_guard_acquire": f_guard_acquire, "__cxa_guard_release": f_guard_release,
        "__cxa_pure_virtual": f_abort,
        "_ZNSt18condition_variableC1Ev": f_zero, "_ZNSt18condition_variableD1Ev": f_zero,
        "_ZNSt18condition_variable10notify_allEv": f_zero, "_ZNSt18condition_variable10notify_oneEv": f_zero,
        "pthread_mutex_lock": f_zero, "pthread_mutex_unlock": f_zero,
        "_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm": f_next_bkt,
        "_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm": f_need_rehash,
        "_ZSt20__throw_length_errorPKc": f_abort, "_ZSt17__throw_bad_allocv": f_abort,
        "_ZSt28__throw_bad_array_new_lengthv": f_abort, "_ZSt24__throw_out_of_range_fmtPKcz": f_abort,
        "_ZSt20__throw_out_of_rangePKc": f_abort, "_ZSt19__throw_logic_errorPKc": f_abort,
        "_ZSt20__throw_system_errori": f_abort, "_ZSt25__throw_bad_function_callv": f_abort,
        "verif_i8": v_sym(8), "verif_i16": v_sym(16), "verif_i32": v_sym(32), "verif_i64": v_sym(64),
        "verif_f32": v_sym(32, True), "verif_f64": v_sym(64, True), "verif_bool": v_bool,
        "verif_range32": v_range(32), "verif_range64": v_range(64),
        "verif_assume": v_assume, "verif_assert": v_assert, "verif_assert_feq": v_assert_feq, "verif_reach": v_reach,
        "verif_cfg": v_cfg, "verif_fork": v_fork, "verif_fork64": v_fork, "verif_heap_live": v_heap_live,
        "verif_heap_bytes": v_heap_bytes, "verif_is_live": v_is_live, "verif_bytes": v_bytes,
        "verif_alloc": v_uninit, "verif_free": f_free, "verif_symbolic": v_symbolic, "verif_simplify": v_simplify,
        "verif_generalize": v_generalize, "verif_out": v_out,
        "@stderr": lambda m, st, o: o.data.__setitem__(0, (8, 0)),
        "@stdout": lambda m, st, o: o.data.__setitem__(0, (8, 0)),
    })


def i_memcpy_ret(m, st, args, ins):
    i_memcpy(m, st, args, ins)
    return args[0]


def i_memset_ret(m, st, args, ins):
    i_memset(m, st, [args[0], tm.trunc(args[1], 32, 8), args[2]], ins)
    return args[0]
