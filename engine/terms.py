"""Hash-consed bit-vector terms with eager simplification.

A value of width w is either a Python int (concrete, unsigned, already masked)
or a T node.  Width-1 values are booleans (0/1 or T of width 1).

Arithmetic (add/sub/mul/shl-by-constant/neg) is kept in a polynomial normal
form over Z/2^w, so that two differently associated sums of the same products
are the same node.  Everything else is a plain operator node.  The solver
back-end (smt.py) translates nodes to z3.
"""
import struct
from fractions import Fraction


class T:
    __slots__ = ("op", "w", "a", "id", "rng", "knz", "__weakref__")

    def __init__(self, op, w, a, i):
        self.op = op
        self.w = w
        self.a = a
        self.id = i
        self.rng = None
        self.knz = None

    def __repr__(self):
        return show(self, 4)


def show(t, depth=3):
    if not isinstance(t, T):
        return str(t)
    if t.op == "var":
        return t.a[0]
    if depth == 0:
        return "#%d" % t.id
    if t.op == "poly":
        c, ts = t.a
        parts = []
        for m, k in ts[:8]:
            kk = k - (1 << t.w) if k >> (t.w - 1) else k
            parts.append(("%d*" % kk if kk != 1 else "") + "*".join(show(x, depth - 1) for x in m))
        if len(ts) > 8:
            parts.append("...(%d)" % len(ts))
        if c:
            parts.append(str(c - (1 << t.w) if c >> (t.w - 1) else c))
        return "(" + " + ".join(parts) + "):%d" % t.w
    return "%s%d(%s)" % (t.op, t.w, ", ".join(
        show(x, depth - 1) if isinstance(x, (T, int)) else str(x) for x in t.a))


_tab = {}
_cnt = [0]


def reset():
    _tab.clear()
    _weights.clear()
    _cnt[0] = 0


def mk(op, w, a):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        _cnt[0] += 1
        t = T(op, w, a, _cnt[0])
        _tab[k] = t
    return t


def var(name, w):
    return mk("var", w, (name,))


_fresh = [0]


def fresh(prefix, w):
    _fresh[0] += 1
    return mk("var", w, ("%s!%d" % (prefix, _fresh[0]),))


def mask(w):
    return (1 << w) - 1


def tosigned(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def is_c(x):
    return type(x) is int


# ---------------------------------------------------------------- ranges
def srange(x, w):
    """Signed interval of a value (over-approximation)."""
    if type(x) is int:
        v = tosigned(x, w)
        return (v, v)
    r = x.rng
    if r is not None:
        return r
    full = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    op = x.op
    r = full
    if op == "sext":
        i = x.a[0]
        r = srange(i, i.w)
    elif op == "zext":
        i = x.a[0]
        if i.w == 1:
            r = (0, 1)
        else:
            r = urange(i, i.w)
    elif op == "ext":
        u = urange(x, w)
        if u[1] < (1 << (w - 1)):
            r = u
    elif op == "poly":
        c, ts = x.a
        lo = hi = tosigned(c, w)
        for m, k in ts:
            kk = tosigned(k, w)
            a, b = 1, 1
            for at in m:
                p, q = srange(at, w)
                v = (a * p, a * q, b * p, b * q)
                a, b = min(v), max(v)
            v = (a * kk, b * kk)
            lo += min(v)
            hi += max(v)
        if lo >= full[0] and hi <= full[1]:
            r = (lo, hi)
    elif op == "ite":
        p = srange(x.a[1], w)
        q = srange(x.a[2], w)
        r = (min(p[0], q[0]), max(p[1], q[1]))
    elif op == "cat":
        # leading constant part gives sign
        v, pw = x.a[0]
        if type(v) is int and pw < w:
            if v == 0:
                r = (0, (1 << (w - pw)) - 1)
    elif op == "and":
        a, b = x.a
        if type(b) is int and not (b >> (w - 1)):
            r = (0, b)
    elif op == "lshr":
        if type(x.a[1]) is int and x.a[1] > 0:
            r = (0, mask(w) >> x.a[1])
    elif op in ("urem",):
        if type(x.a[1]) is int and x.a[1] > 0 and x.a[1] < (1 << (w - 1)):
            r = (0, x.a[1] - 1)
    elif op == "srem":
        if type(x.a[1]) is int and 0 < x.a[1] < (1 << (w - 1)):
            r0 = srange(x.a[0], w)
            r = (0 if r0[0] >= 0 else -(x.a[1] - 1), x.a[1] - 1)
    elif op == "sdiv":
        if type(x.a[1]) is int and 0 < x.a[1] < (1 << (w - 1)):
            d = x.a[1]
            r0 = srange(x.a[0], w)
            f = lambda v: -((-v) // d) if v < 0 else v // d
            r = (f(r0[0]), f(r0[1]))
    elif op == "udiv":
        if type(x.a[1]) is int and x.a[1] > 1:
            r = (0, mask(w) // x.a[1])
    elif op == "ashr":
        if type(x.a[1]) is int and x.a[1] < w:
            r0 = srange(x.a[0], w)
            r = (r0[0] >> x.a[1], r0[1] >> x.a[1])
    elif op == "ctlz":
        u = urange(x.a[0], w)
        r = (w - u[1].bit_length(), w - u[0].bit_length())
    elif op in ("cttz", "ctpop"):
        r = (0, w)
    elif op == "var":
        r = _var_ranges.get(x.a[0], full)
    x.rng = r
    return r


_var_ranges = {}


def set_var_range(name, lo, hi):
    """Declares a signed range for a variable (must also be asserted)."""
    _var_ranges[name] = (lo, hi)


def clear_var_ranges():
    _var_ranges.clear()


def urange(x, w):
    if type(x) is int:
        return (x, x)
    if x.op == "ext":
        b, lo = x.a
        u = urange(b, b.w)
        if lo + w == b.w or (u[1] >> lo) <= mask(w):
            return (u[0] >> lo, u[1] >> lo)
        return (0, mask(w))
    s = srange(x, w)
    if s[0] >= 0:
        return s
    if s[1] < 0:
        return (s[0] + (1 << w), s[1] + (1 << w))
    return (0, mask(w))


def knownzero(x, w):
    """Mask of bits known to be zero."""
    if type(x) is int:
        return mask(w) & ~x
    if x.knz is not None:
        return x.knz
    op = x.op
    r = 0
    if op == "zext":
        i = x.a[0]
        r = (mask(w) & ~mask(i.w)) | knownzero(i, i.w)
    elif op == "poly":
        c, ts = x.a
        # common trailing zeros
        tz = 0
        m = c
        for _, k in ts:
            m |= k
        while tz < w and not (m >> tz) & 1:
            tz += 1
        r = mask(tz)
        if c == 0 and len(ts) == 1 and ts[0][1] & (ts[0][1] - 1) == 0 and len(ts[0][0]) == 1:
            sh = ts[0][1].bit_length() - 1
            r = ((knownzero(ts[0][0][0], w) << sh) & mask(w)) | mask(sh)
        s = srange(x, w)
        if s[0] >= 0:
            r |= mask(w) & ~mask(s[1].bit_length())
    elif op == "cat":
        pos = 0
        for v, pw in reversed(x.a):
            r |= knownzero(v, pw) << pos
            pos += pw
    elif op == "and":
        r = knownzero(x.a[0], w) | knownzero(x.a[1], w)
    elif op == "or":
        r = knownzero(x.a[0], w) & knownzero(x.a[1], w)
    elif op == "ite":
        r = knownzero(x.a[1], w) & knownzero(x.a[2], w)
    else:
        s = srange(x, w)
        if s[0] >= 0:
            r = mask(w) & ~mask(s[1].bit_length())
    x.knz = r
    return r


# ---------------------------------------------------------------- booleans
TRUE = 1
FALSE = 0


def bnot(x):
    if type(x) is int:
        return x ^ 1
    if x.op == "not":
        return x.a[0]
    return mk("not", 1, (x,))


def _flat(op, xs, out):
    for x in xs:
        if type(x) is T and x.op == op and x.w == 1:
            out.update(dict.fromkeys(x.a))
        else:
            out[x] = None


def band(*xs):
    s = {}
    _flat("band", xs, s)
    if 0 in s:
        return 0
    s.pop(1, None)
    for x in s:
        if x.op == "not" and x.a[0] in s:
            return 0
    if not s:
        return 1
    # absorption: and(a, or(a, b)) = a ; and(a, or(!a, b)) = and(a,b)
    if len(s) > 1:
        changed = False
        items = list(s)
        for i, x in enumerate(items):
            if x.op == "bor":
                drop = False
                keep = []
                for y in x.a:
                    if y in s and y is not x:
                        drop = True
                        break
                    if bnot(y) in s:
                        changed = True
                        continue
                    keep.append(y)
                if drop:
                    items[i] = 1
                    changed = True
                elif len(keep) != len(x.a):
                    items[i] = bor(*keep)
        if changed:
            return band(*items)
    l = sorted(s, key=lambda t: t.id)
    if len(l) == 1:
        return l[0]
    return mk("band", 1, tuple(l))


def bor(*xs):
    s = {}
    _flat("bor", xs, s)
    if 1 in s:
        return 1
    s.pop(0, None)
    for x in s:
        if x.op == "not" and x.a[0] in s:
            return 1
    if not s:
        return 0
    if len(s) > 1:
        changed = False
        items = list(s)
        for i, x in enumerate(items):
            if x.op == "band":
                drop = False
                keep = []
                for y in x.a:
                    if y in s and y is not x:
                        drop = True
                        break
                    if bnot(y) in s:
                        changed = True
                        continue
                    keep.append(y)
                if drop:
                    items[i] = 0
                    changed = True
                elif len(keep) != len(x.a):
                    items[i] = band(*keep)
        if changed:
            return bor(*items)
        # not(a&b&..) complement: or(and(..A), not(and(..A)))
    l = sorted(s, key=lambda t: t.id)
    if len(l) == 1:
        return l[0]
    # factor the common conjuncts of a small disjunction
    if len(l) <= 4:
        cs = [set(x.a) if x.op == "band" else {x} for x in l]
        common = set.intersection(*cs)
        if common:
            rest = [band(*(c - common)) for c in cs]
            return band(bor(*rest), *common)
        # a pair differing only in one complementary literal
        if len(l) == 2:
            d1 = cs[0] - cs[1]
            d2 = cs[1] - cs[0]
            if len(d1) == 1 and len(d2) == 1:
                a, = d1
                b, = d2
                if bnot(a) is b:
                    return band(*(cs[0] & cs[1]))
    return mk("bor", 1, tuple(l))


def bxor(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    if a == 1:
        return bnot(b)
    if b == 1:
        return bnot(a)
    if a is b:
        return 0
    if bnot(a) is b:
        return 1
    if a.op == "not":
        return bnot(bxor(a.a[0], b))
    if b.op == "not":
        return bnot(bxor(a, b.a[0]))
    if a.id > b.id:
        a, b = b, a
    return mk("bxor", 1, (a, b))


def implies(a, b):
    return bor(bnot(a), b)


# ---------------------------------------------------------------- polynomials
def _poly(w, c, d):
    m = mask(w)
    c &= m
    ts = []
    for mono, k in d.items():
        k &= m
        if k:
            ts.append((mono, k))
    if not ts:
        return c
    if len(ts) == 1:
        mono, k = ts[0]
        if c == 0 and k == 1 and len(mono) == 1:
            return mono[0]
        return mk("poly", w, (c, (ts[0],)))
    ts.sort(key=_mkey)
    return mk("poly", w, (c, tuple(ts)))


def _mkey(t):
    return tuple([x.id for x in t[0]])


def _terms(x):
    """(const, [(mono, coef)]) of a T"""
    if x.op == "poly":
        return x.a
    return 0, (((x,), 1),)


def add(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return (a + b) & mask(w)
        a, b = b, a
    if w == 1:
        return bxor(a, b)
    if type(b) is int:
        if b == 0:
            return a
        c, ts = _terms(a)
        c = (c + b) & mask(w)
        if c == 0 and len(ts) == 1 and ts[0][1] == 1 and len(ts[0][0]) == 1:
            return ts[0][0][0]
        return mk("poly", w, (c, ts))
    ca, ta = _terms(a)
    cb, tb = _terms(b)
    d = dict(ta)
    for m, k in tb:
        d[m] = d.get(m, 0) + k
    return _poly(w, ca + cb, d)


def neg(a, w):
    return mulc(a, mask(w), w)


def sub(a, b, w):
    if type(b) is int:
        return add(a, (-b) & mask(w), w)
    if a is b:
        return 0
    if w == 1:
        return bxor(a, b)
    return add(a, neg(b, w), w)


def mulc(a, k, w):
    if type(a) is int:
        return (a * k) & mask(w)
    k &= mask(w)
    if k == 0:
        return 0
    if k == 1:
        return a
    c, ts = _terms(a)
    return _poly(w, c * k, {m: x * k for m, x in ts})


MUL_LIMIT = 4096


def mul(a, b, w):
    if type(a) is int:
        return mulc(b, a, w)
    if type(b) is int:
        return mulc(a, b, w)
    if w == 1:
        return band(a, b)
    # i1-extended multiplicands become ite
    ca, ta = _terms(a)
    cb, tb = _terms(b)
    if len(ta) * len(tb) > MUL_LIMIT:
        if a.id > b.id:
            a, b = b, a
        return mk("mul", w, (a, b))
    d = {}
    for m, k in ta:
        for n, l in tb:
            mn = m + n
            if len(mn) > 1:
                mn = tuple(sorted(mn, key=lambda t: t.id))
            d[mn] = d.get(mn, 0) + k * l
        if cb:
            d[m] = d.get(m, 0) + k * cb
    if ca:
        for n, l in tb:
            d[n] = d.get(n, 0) + l * ca
    return _poly(w, ca * cb, d)


# ---------------------------------------------------------------- structure
def zext(x, w, W):
    if W == w or type(x) is int:
        return x
    if x.op == "zext":
        return zext(x.a[0], x.a[0].w, W)
    if x.op == "poly" and srange(x, w)[0] >= 0 and _distr_ok(x, False):
        return _distribute(x, w, W)
    if x.op == "sext" and srange(x.a[0], x.a[0].w)[0] >= 0:
        return sext(x.a[0], x.a[0].w, W)
    if x.op == "ite" and (type(x.a[1]) is int or type(x.a[2]) is int):
        return ite(x.a[0], zext(x.a[1], w, W), zext(x.a[2], w, W), W)
    if x.op == "ext" and x.a[1] == 0 and x.a[0].op == "var":
        # the bits left out are zero
        b = x.a[0]
        lo, hi = srange(b, b.w)
        if lo >= 0 and hi <= mask(w):
            return sext(b, b.w, W) if W > b.w else ext(b, b.w, 0, W)
    return mk("zext", W, (x,))


def _distr_ok(x, signed):
    """All products fit so that extension distributes over the polynomial."""
    c, ts = x.a
    return len(ts) <= 256


def _distribute(x, w, W):
    # precondition: the signed value of the polynomial over the integers (with
    # coefficients read as signed) does not wrap at width w
    c, ts = x.a
    lo = hi = tosigned(c, w)
    d = {}
    for m, k in ts:
        kk = tosigned(k, w)
        a, b = 1, 1
        for at in m:
            p, q = srange(at, w)
            v = (a * p, a * q, b * p, b * q)
            a, b = min(v), max(v)
        v = (a * kk, b * kk)
        lo += min(v)
        hi += max(v)
    if lo < -(1 << (w - 1)) or hi > (1 << (w - 1)) - 1:
        return mk("sext", W, (x,))
    out = tosigned(c, w) & mask(W)
    for m, k in ts:
        t = tosigned(k, w) & mask(W)
        for at in m:
            t = mul(t, sext(at, w, W), W)
        out = add(out, t, W)
    return out


# keep the sign extension of a 32-bit sum to 64 bits as one node
KEEP_SEXT64 = [False]


def sext(x, w, W):
    if W == w:
        return x
    if type(x) is int:
        return tosigned(x, w) & mask(W)
    if w == 1:
        return ite(x, mask(W), 0, W)
    op = x.op
    if op == "sext":
        return sext(x.a[0], x.a[0].w, W)
    if op == "zext":
        return zext(x.a[0], x.a[0].w, W)
    if op == "poly":
        c, ts = x.a
        # sign-bit flip:  sext(y ^ 0x80..) = zext(y) - 2^(w-1)
        if c == 1 << (w - 1) and len(ts) == 1 and ts[0][1] == 1 and len(ts[0][0]) == 1:
            return add(zext(ts[0][0][0], w, W), (-(1 << (w - 1))) & mask(W), W)
        if W == 64 and w == 32 and KEEP_SEXT64[0]:
            return mk("sext", W, (x,))
        s = srange(x, w)
        if s != (-(1 << (w - 1)), (1 << (w - 1)) - 1) and _distr_ok(x, True):
            return _distribute(x, w, W)
    elif op == "ite" and (type(x.a[1]) is int or type(x.a[2]) is int):
        return ite(x.a[0], sext(x.a[1], w, W), sext(x.a[2], w, W), W)
    elif op == "cat":
        v, pw = x.a[0]
        if type(v) is int and not (v >> (pw - 1)):
            return zext(x, w, W)
    if srange(x, w)[0] >= 0 and op not in ("poly", "var", "ite"):
        return zext(x, w, W)
    return mk("sext", W, (x,))


def trunc(x, w, W):
    return ext(x, w, 0, W)


def ext(x, w, lo, n):
    """bits [lo, lo+n) of x (width w)"""
    if lo == 0 and n == w:
        return x
    if type(x) is int:
        return (x >> lo) & mask(n)
    op = x.op
    if op == "ext":
        return ext(x.a[0], x.a[0].w, x.a[1] + lo, n)
    if op == "cat":
        pos = 0
        parts = []
        for v, pw in reversed(x.a):
            s = max(lo, pos)
            e = min(lo + n, pos + pw)
            if s < e:
                parts.append((ext(v, pw, s - pos, e - s), e - s))
            pos += pw
        return cat([p for p in reversed(parts)])
    if op == "zext":
        i = x.a[0]
        if lo >= i.w:
            return 0
        if lo + n <= i.w:
            return ext(i, i.w, lo, n)
        return zext(ext(i, i.w, lo, i.w - lo), i.w - lo, n)
    if op == "sext":
        i = x.a[0]
        if lo + n <= i.w:
            return ext(i, i.w, lo, n)
        if lo < i.w:
            return sext(ext(i, i.w, lo, i.w - lo), i.w - lo, n)
        # pure sign region
        if lo > i.w - 1:
            return sext(ext(i, i.w, i.w - 1, 1), 1, n)
    if op == "poly" and lo == 0 and n > 1:
        c, ts = x.a
        out = c & mask(n)
        d = {}
        for m, k in ts:
            if not (k & mask(n)):
                continue
            t = k & mask(n)
            for at in m:
                t = mul(t, ext(at, w, 0, n), n)
            out = add(out, t, n)
        return out
    if op == "poly" and lo > 0:
        # drop whole low zero bits: 2^k * atom
        c, ts = x.a
        kz = knownzero(x, w)
        if (kz >> lo) & mask(n) == mask(n):
            return 0
        if c == 0 and len(ts) == 1 and len(ts[0][0]) == 1:
            k = ts[0][1]
            if k & (k - 1) == 0:
                sh = k.bit_length() - 1
                if lo >= sh:
                    return ext(ts[0][0][0], w, lo - sh, n)
        if n > 1 and len(ts) == 1 and len(ts[0][0]) == 1 and ts[0][1] & mask(lo) == 0:
            # no carry out of the low bits
            return ext(add(mulc(ts[0][0][0], ts[0][1] >> lo, w), c >> lo, w), w, 0, n)
    if op == "ite":
        a = ext(x.a[1], w, lo, n)
        b = ext(x.a[2], w, lo, n)
        if type(a) is int or type(b) is int or n == 1:
            return ite(x.a[0], a, b, n)
    if op in ("and", "or", "xor"):
        f = {"and": and_, "or": or_, "xor": xor}[op]
        if type(x.a[1]) is int:
            return f(ext(x.a[0], w, lo, n), ext(x.a[1], w, lo, n), n)
    return mk("ext", n, (x, lo))


def cat(parts):
    """parts: list of (value, width) most significant first"""
    out = []
    for v, pw in parts:
        if type(v) is T and v.op == "cat":
            sub_ = v.a
        else:
            sub_ = ((v, pw),)
        for v, pw in sub_:
            if out:
                u, uw = out[-1]
                if type(u) is int and type(v) is int:
                    out[-1] = ((u << pw) | v, uw + pw)
                    continue
                if type(u) is T and type(v) is T:
                    # adjacent slices of the same base
                    ub, ulo = (u.a if u.op == "ext" else (u, 0))
                    vb, vlo = (v.a if v.op == "ext" else (v, 0))
                    if ub is vb and u.op == "ext" and ulo == vlo + pw:
                        out[-1] = (ext(ub, ub.w, vlo, uw + pw), uw + pw)
                        continue
                    if u.op == "ext" and ub.op == "poly" and ulo >= pw and ext(ub, ub.w, ulo - pw, pw) is v:
                        out[-1] = (ext(ub, ub.w, ulo - pw, uw + pw), uw + pw)
                        continue
                    if (u.op == "ite" and v.op == "ite" and u.a[0] is v.a[0] and type(u.a[1]) is int
                            and type(u.a[2]) is int and type(v.a[1]) is int and type(v.a[2]) is int):
                        out[-1] = (ite(u.a[0], (u.a[1] << pw) | v.a[1], (u.a[2] << pw) | v.a[2], uw + pw), uw + pw)
                        continue
            out.append((v, pw))
    if len(out) == 1:
        return out[0][0]
    # sign/zero extension shapes
    w = sum(p for _, p in out)
    if type(out[0][0]) is int and out[0][0] == 0:
        inner = cat(out[1:]) if len(out) > 2 else out[1][0]
        return zext(inner, w - out[0][1], w)
    if (w in (32, 64) and len(out) == 2 and type(out[1][0]) is int and out[1][0] == 0 and out[0][0].op == "poly"
            and len(out[0][0].a[1]) == 1):
        # multiple of a power of two: the extension of the factor does not matter
        c, ((m, k),) = out[0][0].a
        t = k
        for at in m:
            t = mul(t, sext(at, out[0][1], w), w)
        return mulc(add(t, c, w), 1 << out[1][1], w)
    if (w in (32, 64) and len(out) == 2 and type(out[1][0]) is int and out[1][0] == 0 and out[0][0].op == "ext"
            and out[0][0].a[1] == 0 and out[0][0].a[0].op == "var" and out[0][0].a[0].w == w):
        return mulc(out[0][0].a[0], 1 << out[1][1], w)
    if len(out) == 2 and type(out[0][0]) is T and type(out[1][0]) is T:
        h, hw = out[0]
        l, lw = out[1]
        # high part = replicated sign bit of the low part
        if h.op == "ite" and h.a[1] == mask(hw) and h.a[2] == 0:
            s = h.a[0]
            if s is ext(l, lw, lw - 1, 1):
                return sext(l, lw, w)
        if h.op == "sext" or (h.op == "ext" and h.a[0].op == "sext"):
            base = h.a[0] if h.op == "ext" else h
            if h.op == "ext" and base.a[0] is l and h.a[1] == lw:
                return sext(l, lw, w)
    return mk("cat", w, tuple(out))


# ---------------------------------------------------------------- bitwise
def and_(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return a & b
        a, b = b, a
    if w == 1:
        return band(a, b)
    if type(b) is int:
        if b == 0:
            return 0
        if b == mask(w):
            return a
        kz = knownzero(a, w)
        if (mask(w) & ~kz) & ~b == 0:
            return a
        if (mask(w) & ~kz) & b == 0:
            return 0
        if b & (b + 1) == 0:
            n = b.bit_length()
            return zext(ext(a, w, 0, n), n, w)
        # contiguous mask
        lowz = (b & -b).bit_length() - 1
        h = b >> lowz
        if h & (h + 1) == 0:
            n = h.bit_length()
            parts = []
            if lowz + n < w:
                parts.append((0, w - lowz - n))
            parts.append((ext(a, w, lowz, n), n))
            if lowz:
                parts.append((0, lowz))
            return cat(parts)
        if a.op == "and" and type(a.a[1]) is int:
            return and_(a.a[0], a.a[1] & b, w)
        return mk("and", w, (a, b))
    if a is b:
        return a
    if a.op == "sext" and a.a[0].w == 1:
        return ite(a.a[0], b, 0, w)
    if a.op == "ite" and type(a.a[1]) is int and type(a.a[2]) is int:
        return ite(a.a[0], and_(b, a.a[1], w), and_(b, a.a[2], w), w)
    if b.op == "ite" and type(b.a[1]) is int and type(b.a[2]) is int:
        return ite(b.a[0], and_(a, b.a[1], w), and_(a, b.a[2], w), w)
    if a.id > b.id:
        a, b = b, a
    return mk("and", w, (a, b))


def or_(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return a | b
        a, b = b, a
    if w == 1:
        return bor(a, b)
    if type(b) is int:
        if b == 0:
            return a
        if b == mask(w):
            return b
        if knownzero(a, w) & b == b:
            return add(a, b, w)
        if a.op == "ite" and (type(a.a[1]) is int or type(a.a[2]) is int):
            return ite(a.a[0], or_(a.a[1], b, w), or_(a.a[2], b, w), w)
        return mk("or", w, (a, b))
    if a is b:
        return a
    ka, kb = knownzero(a, w), knownzero(b, w)
    if (ka | kb) == mask(w):
        return add(a, b, w)
    if a.op == "ite" and type(a.a[1]) is int and type(a.a[2]) is int:
        return ite(a.a[0], or_(b, a.a[1], w), or_(b, a.a[2], w), w)
    if b.op == "ite" and type(b.a[1]) is int and type(b.a[2]) is int:
        return ite(b.a[0], or_(a, b.a[1], w), or_(a, b.a[2], w), w)
    if a.id > b.id:
        a, b = b, a
    return mk("or", w, (a, b))


def xor(a, b, w):
    if type(a) is int:
        if type(b) is int:
            return a ^ b
        a, b = b, a
    if w == 1:
        return bxor(a, b)
    if type(b) is int:
        if b == 0:
            return a
        if b == 1 << (w - 1):
            return add(a, b, w)
        if b == mask(w):  # ~a = -a - 1
            return add(neg(a, w), mask(w), w)
        if a.op == "sext" and b >> (a.a[0].w - 1) == mask(w - a.a[0].w + 1) and not b & mask(a.a[0].w - 1):
            # flips the sign bit and its copies
            return add(zext(a.a[0], a.a[0].w, w), b, w)
        if a.op == "xor" and type(a.a[1]) is int:
            return xor(a.a[0], a.a[1] ^ b, w)
        if a.op == "ite" and (type(a.a[1]) is int or type(a.a[2]) is int):
            return ite(a.a[0], xor(a.a[1], b, w), xor(a.a[2], b, w), w)
        return mk("xor", w, (a, b))
    if a is b:
        return 0
    ka, kb = knownzero(a, w), knownzero(b, w)
    if (ka | kb) == mask(w):
        return add(a, b, w)
    if a.op == "ite" and type(a.a[1]) is int and type(a.a[2]) is int:
        return ite(a.a[0], xor(b, a.a[1], w), xor(b, a.a[2], w), w)
    if b.op == "ite" and type(b.a[1]) is int and type(b.a[2]) is int:
        return ite(b.a[0], xor(a, b.a[1], w), xor(a, b.a[2], w), w)
    if a.id > b.id:
        a, b = b, a
    return mk("xor", w, (a, b))


def shl(a, s, w):
    if type(s) is int:
        if s >= w:
            return 0
        if type(a) is int:
            return (a << s) & mask(w)
        return mulc(a, 1 << s, w)
    if a == 0:
        return 0
    if s.op == "ite":
        if _constleaf(s):
            return ite(s.a[0], shl(a, s.a[1], w), shl(a, s.a[2], w), w)
    return mk("shl", w, (a, s))


def _constleaf(s, n=8):
    """ite tree with constant leaves only, at most n leaves"""
    st = [s]
    c = 0
    while st:
        x = st.pop()
        if type(x) is int:
            c += 1
            if c > n:
                return False
        elif x.op == "ite":
            st.append(x.a[1])
            st.append(x.a[2])
        else:
            return False
    return True


def lshr(a, s, w):
    if type(s) is int:
        if s >= w:
            return 0
        if type(a) is int:
            return a >> s
        if s == 0:
            return a
        return zext(ext(a, w, s, w - s), w - s, w)
    if a == 0:
        return 0
    if s.op == "ite" and _constleaf(s):
        return ite(s.a[0], lshr(a, s.a[1], w), lshr(a, s.a[2], w), w)
    return mk("lshr", w, (a, s))


def ashr(a, s, w):
    if type(s) is int:
        if s >= w:
            s = w - 1
        if type(a) is int:
            return (tosigned(a, w) >> s) & mask(w)
        if s == 0:
            return a
        if srange(a, w)[0] >= 0:
            return lshr(a, s, w)
        return sext(ext(a, w, s, w - s), w - s, w)
    if a == 0:
        return 0
    if s.op == "ite" and _constleaf(s):
        return ite(s.a[0], ashr(a, s.a[1], w), ashr(a, s.a[2], w), w)
    return mk("ashr", w, (a, s))


def udiv(a, b, w):
    if type(b) is int and b:
        if type(a) is int:
            return a // b
        if b & (b - 1) == 0:
            return lshr(a, b.bit_length() - 1, w)
    return mk("udiv", w, (a, b))


def urem(a, b, w):
    if type(b) is int and b:
        if type(a) is int:
            return a % b
        if b & (b - 1) == 0:
            return and_(a, b - 1, w)
        if urange(a, w)[1] < b:
            return a
    return mk("urem", w, (a, b))


def sdiv(a, b, w):
    if type(b) is int and b:
        if type(a) is int:
            x, y = tosigned(a, w), tosigned(b, w)
            q = abs(x) // abs(y)
            return (q if (x < 0) == (y < 0) else -q) & mask(w)
        if srange(a, w)[0] >= 0 and tosigned(b, w) > 0:
            return udiv(a, b, w)
    return mk("sdiv", w, (a, b))


def srem(a, b, w):
    if type(b) is int and b:
        if type(a) is int:
            x, y = tosigned(a, w), tosigned(b, w)
            r = abs(x) % abs(y)
            return (r if x >= 0 else -r) & mask(w)
        if srange(a, w)[0] >= 0 and tosigned(b, w) > 0:
            return urem(a, b, w)
    return mk("srem", w, (a, b))


# ---------------------------------------------------------------- compare
def eq(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if a == b else 0
    if a is b:
        return 1
    if w == 1:
        return bnot(bxor(a, b))
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        s = urange(a, w)
        if b < s[0] or b > s[1]:
            if srange(a, w)[0] >= 0 or s != (0, mask(w)):
                return 0
        sr = srange(a, w)
        sb = tosigned(b, w)
        if sb < sr[0] or sb > sr[1]:
            return 0
        if knownzero(a, w) & b:
            return 0
        op = a.op
        if op == "zext":
            i = a.a[0]
            if b > mask(i.w):
                return 0
            return eq(i, b, i.w) if i.w > 1 else (i if b == 1 else bnot(i))
        if op == "sext":
            i = a.a[0]
            v = tosigned(b, w)
            if v < -(1 << (i.w - 1)) or v > (1 << (i.w - 1)) - 1:
                return 0
            return eq(i, v & mask(i.w), i.w)
        if op == "ite":
            c, x, y = a.a
            if type(x) is int or type(y) is int:
                ex, ey = eq(x, b, w), eq(y, b, w)
                return bor(band(c, ex), band(bnot(c), ey))
        if op == "poly":
            c, ts = a.a
            if c:
                return eq(add(a, (-c) & mask(w), w), (b - c) & mask(w), w)
            if len(ts) == 1 and ts[0][1] == mask(w) and len(ts[0][0]) == 1:
                return eq(ts[0][0][0], (-b) & mask(w), w)
            if len(ts) == 1 and len(ts[0][0]) == 1:
                k = ts[0][1]
                if k & 1:
                    inv = pow(k, -1, 1 << w)
                    return eq(ts[0][0][0], (b * inv) & mask(w), w)
                at = ts[0][0][0]
                r = srange(at, w)
                kk = tosigned(k, w)
                fullr = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
                if r != fullr and fullr[0] <= min(r[0] * kk, r[1] * kk) and max(r[0] * kk, r[1] * kk) <= fullr[1]:
                    sb = tosigned(b, w)
                    if sb % kk:
                        return 0
                    return eq(at, (sb // kk) & mask(w), w)
        if op == "cat":
            out = []
            pos = 0
            for v, pw in reversed(a.a):
                out.append(eq(v, (b >> pos) & mask(pw), pw))
                pos += pw
            return band(*out)
        return mk("eq", 1, (a, b))
    d = sub(a, b, w)
    if type(d) is int:
        return 1 if d == 0 else 0
    s = srange(d, w)
    if s[0] > 0 or s[1] < 0:
        return 0
    if a.op == "zext" and b.op == "zext" and a.a[0].w == b.a[0].w:
        return eq(a.a[0], b.a[0], a.a[0].w)
    if a.op == "ite" and b.op == "ite" and a.a[0] is b.a[0]:
        return bor(band(a.a[0], eq(a.a[1], b.a[1], w)), band(bnot(a.a[0]), eq(a.a[2], b.a[2], w)))
    if a.op == "sext" and b.op == "sext" and a.a[0].w == b.a[0].w:
        return eq(a.a[0], b.a[0], a.a[0].w)
    if a.op == "poly" or b.op == "poly":
        c, ts = _terms(d)
        if c == 0 and len(ts) == 2 and len(ts[0][0]) == 1 and len(ts[1][0]) == 1 and {ts[0][1], ts[1][1]} == {1, mask(w)}:
            a, b = ts[0][0][0], ts[1][0][0]
            if a.op != "poly" and b.op != "poly":
                return eq(a, b, w)
    if a.id > b.id:
        a, b = b, a
    return mk("eq", 1, (a, b))


def ne(a, b, w):
    return bnot(eq(a, b, w))


def ult(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if a < b else 0
    if a is b:
        return 0
    if w == 1:
        return band(bnot(a), b)
    if b == 0:
        return 0
    if type(a) is int and a == mask(w):
        return 0
    ra, rb = urange(a, w), urange(b, w)
    if ra[1] < rb[0]:
        return 1
    if ra[0] >= rb[1]:
        return 0
    if b == 1:
        return eq(a, 0, w)
    if type(a) is int and a == 0:
        return ne(b, 0, w)
    if type(b) is int and type(a) is T:
        if a.op == "zext":
            i = a.a[0]
            if b > mask(i.w):
                return 1
            return ult(i, b, i.w)
        if a.op == "ite" and (type(a.a[1]) is int or type(a.a[2]) is int):
            return ite(a.a[0], ult(a.a[1], b, w), ult(a.a[2], b, w), 1)
    if type(a) is int and type(b) is T:
        if b.op == "zext":
            i = b.a[0]
            if a >= mask(i.w):
                return 0
            return ult(a, i, i.w)
        if b.op == "ite" and (type(b.a[1]) is int or type(b.a[2]) is int):
            return ite(b.a[0], ult(a, b.a[1], w), ult(a, b.a[2], w), 1)
    return mk("ult", 1, (a, b))


def slt(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if tosigned(a, w) < tosigned(b, w) else 0
    if a is b:
        return 0
    if w == 1:
        return band(a, bnot(b))
    ra, rb = srange(a, w), srange(b, w)
    if ra[1] < rb[0]:
        return 1
    if ra[0] >= rb[1]:
        return 0
    if ra[0] >= 0 and rb[0] >= 0:
        return ult(a, b, w)
    if type(a) is T and a.op == "sext":
        i = a.a[0]
        if type(b) is int:
            v = tosigned(b, w)
            lim = 1 << (i.w - 1)
            if -lim <= v < lim:
                return slt(i, v & mask(i.w), i.w)
        elif b.op == "sext" and b.a[0].w == i.w:
            return slt(i, b.a[0], i.w)
    if type(b) is T and b.op == "sext" and type(a) is int:
        i = b.a[0]
        v = tosigned(a, w)
        lim = 1 << (i.w - 1)
        if -lim <= v < lim:
            return slt(v & mask(i.w), i, i.w)
    if type(a) is T and a.op == "ite" and type(b) is int and (type(a.a[1]) is int or type(a.a[2]) is int):
        return ite(a.a[0], slt(a.a[1], b, w), slt(a.a[2], b, w), 1)
    if type(b) is T and b.op == "ite" and type(a) is int and (type(b.a[1]) is int or type(b.a[2]) is int):
        return ite(b.a[0], slt(a, b.a[1], w), slt(a, b.a[2], w), 1)
    if b == 0 and type(a) is T and a.op != "poly":
        pass
    # x + c < y + c without wrap
    return mk("slt", 1, (a, b))


def ule(a, b, w):
    return bnot(ult(b, a, w))


def sle(a, b, w):
    return bnot(slt(b, a, w))


def ite(c, a, b, w):
    if type(c) is int:
        return a if c else b
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    if c.op == "not":
        c, a, b = c.a[0], b, a
    if w == 1:
        if type(a) is int:
            return bor(c, b) if a else band(bnot(c), b)
        if type(b) is int:
            return bor(bnot(c), a) if b else band(c, a)
        if a is c:
            return bor(c, b)
        if b is c:
            return band(c, a)
    if type(a) is T and a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if type(b) is T and b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    # ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
    if type(b) is T and b.op == "ite":
        if b.a[1] is a or (type(a) is int and type(b.a[1]) is int and a == b.a[1]):
            return ite(bor(c, b.a[0]), a, b.a[2], w)
        if b.a[2] is a or (type(a) is int and type(b.a[2]) is int and a == b.a[2]):
            return ite(bor(c, bnot(b.a[0])), a, b.a[1], w)
    if type(a) is T and a.op == "ite":
        if a.a[2] is b or (type(b) is int and type(a.a[2]) is int and b == a.a[2]):
            return ite(band(c, a.a[0]), a.a[1], b, w)
        if a.a[1] is b or (type(b) is int and type(a.a[1]) is int and b == a.a[1]):
            return ite(band(c, bnot(a.a[0])), a.a[2], b, w)
    # eq(x,k) ? k : x  ->  x
    if c.op == "eq":
        if (c.a[0] is a and c.a[1] is b) or (c.a[1] is a and c.a[0] is b):
            return b
        if type(a) is int and c.a[0] is b and type(c.a[1]) is int and c.a[1] == a:
            return b
        # p == q ? a : b  with  b - a = +-(p - q)  ->  b
        p, q = c.a
        if (p.w if type(p) is T else q.w) == w and w > 1 and (
                type(p) is T and p.op == "poly" or type(q) is T and q.op == "poly"):
            d = sub(b, a, w)
            if type(d) is T and (d is sub(p, q, w) or d is sub(q, p, w)):
                return b
    return mk("ite", w, (c, a, b))


def smax(a, b, w):
    if type(a) is int and type(b) is int:
        return a if tosigned(a, w) >= tosigned(b, w) else b
    return ite(slt(a, b, w), b, a, w)


def smin(a, b, w):
    if type(a) is int and type(b) is int:
        return a if tosigned(a, w) <= tosigned(b, w) else b
    return ite(slt(b, a, w), b, a, w)


def umax(a, b, w):
    return ite(ult(a, b, w), b, a, w)


def umin(a, b, w):
    return ite(ult(b, a, w), b, a, w)


def un(op, a, w):
    if type(a) is int:
        if op == "ctlz":
            return w - a.bit_length()
        if op == "cttz":
            return w if a == 0 else (a & -a).bit_length() - 1
        if op == "ctpop":
            return bin(a).count("1")
    if op == "ctlz":
        u = urange(a, w)
        if u[0].bit_length() == u[1].bit_length():
            return w - u[0].bit_length()
    return mk(op, w, (a,))


def const_leaves(t, w, limit=64):
    """Set of constants a term can evaluate to, or None if unknown/too many."""
    memo = {}

    def go(x, w):
        if type(x) is int:
            return frozenset((x,))
        r = memo.get(x)
        if r is not None:
            return r if r != 0 else None
        op = x.op
        r = None
        if op == "ite":
            a = go(x.a[1], w)
            if a is not None:
                b = go(x.a[2], w)
                if b is not None:
                    r = a | b
        elif op in ("zext", "sext"):
            i = x.a[0]
            if i.w == 1:
                r = frozenset((0, 1 if op == "zext" else mask(w)))
            else:
                a = go(i, i.w)
                if a is not None:
                    f = zext if op == "zext" else sext
                    r = frozenset(f(v, i.w, w) for v in a)
                elif i.w <= 4:
                    f = zext if op == "zext" else sext
                    r = frozenset(f(v, i.w, w) for v in range(1 << i.w))
        elif op == "ext":
            i = x.a[0]
            a = go(i, i.w)
            if a is not None:
                r = frozenset((v >> x.a[1]) & mask(w) for v in a)
        elif op == "poly":
            c, ts = x.a
            acc = {c}
            for m, k in ts:
                prod = {k}
                for at in m:
                    s = go(at, w)
                    if s is None or len(s) * len(prod) > limit:
                        prod = None
                        break
                    prod = {(p * q) & mask(w) for p in prod for q in s}
                if prod is None or len(prod) * len(acc) > limit * 4:
                    acc = None
                    break
                acc = {(p + q) & mask(w) for p in acc for q in prod}
                if len(acc) > limit:
                    acc = None
                    break
            if acc is not None:
                r = frozenset(acc)
        elif op in ("and", "or", "xor", "udiv", "urem", "sdiv", "srem", "lshr", "ashr", "shl"):
            a = go(x.a[0], w)
            b = go(x.a[1], w) if a is not None else None
            if b is not None and len(a) * len(b) <= limit:
                f = {"and": and_, "or": or_, "xor": xor, "udiv": udiv, "urem": urem, "sdiv": sdiv,
                     "srem": srem, "lshr": lshr, "ashr": ashr, "shl": shl}[op]
                s = set()
                for p in a:
                    for q in b:
                        v = f(p, q, w)
                        if type(v) is int:
                            s.add(v)
                r = frozenset(s)
        else:
            lo, hi = srange(x, w)
            if hi - lo < limit:
                r = frozenset(v & mask(w) for v in range(lo, hi + 1))
        if r is not None and len(r) > limit:
            r = None
        memo[x] = r if r is not None else 0
        return r
    return go(t, w)


# ---------------------------------------------------------------- floats
def f2bits(v, w):
    if w == 32:
        try:
            return struct.unpack("<I", struct.pack("<f", v))[0]
        except OverflowError:
            return 0x7F800000 if v > 0 else 0xFF800000
    return struct.unpack("<Q", struct.pack("<d", v))[0]


def bits2f(b, w):
    if w == 32:
        return struct.unpack("<f", struct.pack("<I", b))[0]
    return struct.unpack("<d", struct.pack("<Q", b))[0]


def fop(op, w, *args):
    if all(type(x) is int for x in args):
        v = [bits2f(x, w) for x in args]
        try:
            if op == "fadd":
                return f2bits(v[0] + v[1], w)
            if op == "fsub":
                return f2bits(v[0] - v[1], w)
            if op == "fmul":
                return f2bits(v[0] * v[1], w)
            if op == "fdiv" and v[1] != 0:
                return f2bits(v[0] / v[1], w)
            if op == "fneg":
                return args[0] ^ (1 << (w - 1))
            if op == "fabs":
                return args[0] & mask(w - 1)
            if op == "fma" and w == 32:
                return f2bits(float(Fraction(v[0]) * Fraction(v[1]) + Fraction(v[2])), w)
        except (OverflowError, ValueError):
            pass
    return mk(op, w, args)


REAL = [False]  # floats are finite real numbers


def fcmp(pred, a, b, w):
    """pred: LLVM predicate name (oeq, olt, ...). Result width 1."""
    if REAL[0] and (type(a) is int) != (type(b) is int) and pred[1:] in ("eq", "ne", "lt", "le", "gt", "ge"):
        k = bits2f(a if type(a) is int else b, w)
        if k in (float("inf"), float("-inf")):
            below = (k > 0) == (type(b) is int)  # a < b
            return 1 if pred[1:] in (("ne", "lt", "le") if below else ("ne", "gt", "ge")) else 0
    if type(a) is int and type(b) is int:
        x, y = bits2f(a, w), bits2f(b, w)
        nan = x != x or y != y
        if pred == "ord":
            return 0 if nan else 1
        if pred == "uno":
            return 1 if nan else 0
        if pred == "true":
            return 1
        if pred == "false":
            return 0
        if nan:
            return 1 if pred[0] == "u" else 0
        r = {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred[1:]]
        return 1 if r else 0
    return mk("fcmp", 1, (pred, a, b, w))


# ---------------------------------------------------------------- size, substitution
_weights = {}


def weight(t):
    """(tree size capped, nonlinear?) used to pick cheap facts first"""
    if type(t) is int:
        return (1, False)
    r = _weights.get(t)
    if r is not None:
        return r
    st = [t]
    while st:
        x = st[-1]
        if x in _weights:
            st.pop()
            continue
        ks = kids(x)
        todo = [k for k in ks if k not in _weights]
        if todo:
            st.extend(todo)
            continue
        n = 1
        nl = x.op in ("mul", "udiv", "urem", "sdiv", "srem")
        if x.op == "poly":
            nl = any(len(m) > 1 for m, _ in x.a[1])
        for k in ks:
            w = _weights[k]
            n += w[0]
            nl = nl or w[1]
        _weights[x] = (min(n, 1000000), nl)
        st.pop()
    return _weights[t]


def kids(t):
    if t.op == "poly":
        return [m for mono, _ in t.a[1] for m in mono]
    if t.op == "cat":
        return [v for v, _ in t.a if type(v) is T]
    return [v for v in t.a if type(v) is T]


def rebuild(t, a):
    """Re-normalise a node with new children (same order as kids)."""
    op, w = t.op, t.w
    it = iter(a)
    if op == "poly":
        c, ts = t.a
        out = c
        for mono, k in ts:
            p = k
            for _ in mono:
                p = mul(p, next(it), w)
            out = add(out, p, w)
        return out
    if op == "cat":
        return cat([(next(it) if type(v) is T else v, pw) for v, pw in t.a])
    n = [next(it) if type(v) is T else v for v in t.a]
    if op in ("eq", "ult", "slt"):
        ww = t.a[0].w if type(t.a[0]) is T else t.a[1].w
        return {"eq": eq, "ult": ult, "slt": slt}[op](n[0], n[1], ww)
    if op == "not":
        return bnot(n[0])
    if op == "band":
        return band(*n)
    if op == "bor":
        return bor(*n)
    if op == "bxor":
        return bxor(n[0], n[1])
    if op == "ite":
        return ite(n[0], n[1], n[2], w)
    if op in ("zext", "sext"):
        return (zext if op == "zext" else sext)(n[0], t.a[0].w, w)
    if op == "ext":
        return ext(n[0], t.a[0].w, t.a[1], w)
    f = {"and": and_, "or": or_, "xor": xor, "shl": shl, "lshr": lshr, "ashr": ashr, "udiv": udiv, "urem": urem,
         "sdiv": sdiv, "srem": srem, "mul": mul}.get(op)
    if f:
        return f(n[0], n[1], w)
    if op in ("ctlz", "cttz", "ctpop"):
        return un(op, n[0], w)
    if op == "fcmp":
        return fcmp(*n)
    if op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "fabs", "fma"):
        return fop(op, w, *n)
    return mk(op, w, tuple(n))


def subst(t, facts, memo):
    """Rewrites t replacing boolean subterms decided by `facts` (dict T -> value)."""
    if type(t) is int:
        return t
    r = memo.get(t)
    if r is not None:
        return r
    st = [t]
    while st:
        x = st[-1]
        if x in memo:
            st.pop()
            continue
        v = facts.get(x)
        if v is not None:
            memo[x] = v
            st.pop()
            continue
        if x.op == "ite":
            c = x.a[0]
            if c not in memo:
                st.append(c)
                continue
            cv = memo[c]
            if type(cv) is int:
                y = x.a[1] if cv else x.a[2]
                if type(y) is int:
                    memo[x] = y
                elif y in memo:
                    memo[x] = memo[y]
                else:
                    st.append(y)
                    continue
                st.pop()
                continue
        ks = kids(x)
        todo = [k for k in ks if k not in memo]
        if todo:
            st.extend(todo)
            continue
        n = [memo[k] for k in ks]
        if all(a is b for a, b in zip(n, ks)):
            memo[x] = x
        else:
            y = rebuild(x, n)
            memo[x] = y
        st.pop()
    return memo[t]


def mentions(t, names, memo):
    """Whether t mentions one of the variables."""
    st = [t]
    while st:
        x = st[-1]
        if x in memo:
            st.pop()
            continue
        if x.op == "var":
            memo[x] = x.a[0] in names
            st.pop()
            continue
        ks = kids(x)
        todo = [k for k in ks if k not in memo]
        if todo:
            st.extend(todo)
            continue
        memo[x] = any(memo[k] for k in ks)
        st.pop()
    return memo[t]


CMP = ("eq", "ult", "slt", "fcmp", "feq")


def atoms(t, seen, out):
    """Comparison subterms of t."""
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in CMP:
            out.append(x)
        st.extend(kids(x))
