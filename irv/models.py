"""Models (assumed contracts) of the functions outside /repo that the code calls:
the C++ runtime, libc/libm, LLVM intrinsics, and the irv_* intrinsics of specs."""
import re

import z3

from . import fp, ir
from .engine import (And, Or, Not, Eq, NULL, Ptr, PtrIte, FnPtr, PtrInt, Scaled, Stop, Unsupported, Thrown, MAGM, SGNM,
                     bl, bv, d_isnan, d_lt, d_eq, d_le, d_abs, d_neg, d_sgn, d2b, fresh_bool, fresh_bv, is_c, simp, zbool, sgn, b2d)


def cstr(e, st, p):
    if not isinstance(p, Ptr) or p.obj == 0:
        return "?"
    o = st.mem[p.obj]
    out = []
    k = p.off
    while True:
        b = e.load_byte(o, k) if False else e.load_byte(st, o, k)
        if b is None or not is_c(b) or b == 0:
            break
        out.append(chr(b))
        k += 1
    return "".join(out)


# ------------------------------------------------------------ intrinsics
def irv_u(w, kind):
    def h(e, st, ins, a, work):
        v = fresh_bv(cstr(e, st, a[0]), w)
        st.inputs.append((cstr(e, st, a[0]), kind, v))
        e.returns(st, ins, v)
    return h


def irv_bool(e, st, ins, a, work):
    v = fresh_bool(cstr(e, st, a[0]))
    st.inputs.append((cstr(e, st, a[0]), "bool", v))
    e.returns(st, ins, v)


def irv_bytes(e, st, ins, a, work):
    d, n, nm = a
    if not is_c(n):
        raise Unsupported("irv_bytes of symbolic length")
    nm = cstr(e, st, nm)
    vs = []
    for i in range(n):
        v = fresh_bv("%s_%d" % (nm, i), 8)
        e.store(st, e.gep_bytes(d, i), v, ir.I8)
        vs.append(v)
    st.inputs.append((nm, "bytes", vs))
    e.returns(st, ins)


def irv_buf(e, st, ins, a, work):
    """An array of n bytes, n and the bytes arbitrary."""
    nm = cstr(e, st, a[0])
    n = fresh_bv(nm + ".n", 64)
    st.assume(z3.ULE(n, 1 << 60))
    arr = z3.Array(nm + ".a%d" % len(st.inputs), z3.BitVecSort(64), z3.BitVecSort(8))
    o = e.new_arr(st, 1, n, arr, nm)
    o.ro = True
    e.store(st, a[1], n, ir.I64)
    st.inputs.append((nm, "buf", (n, arr)))
    e.returns(st, ins, Ptr(o.id, 0))


def irv_readable(e, st, ins, a, work):
    p, n = a
    if isinstance(p, PtrIte) or p.obj <= 0 or not st.mem[p.obj].live:
        raise Unsupported("irv_readable")
    o = st.mem[p.obj]
    size = bv(o.n, 64) if hasattr(o, "es") else bv(o.size, 64)
    if getattr(o, "es", 1) != 1:
        raise Unsupported("irv_readable")
    n, off = bv(n, 64), bv(p.off, 64)
    e.returns(st, ins, simp(And(z3.ULE(n, size), z3.ULE(off, size - n))))


def irv_range(e, st, ins, a, work):
    """Case split over lo..hi (both inclusive): each value is a separate path."""
    nm, lo, hi = cstr(e, st, a[0]), sgn(int(a[1]), 32), sgn(int(a[2]), 32)
    alts = []
    part = e.opts.part if not any(x[1] == "range" for x in st.inputs) else None    # the first one of the path
    for k in range(lo, hi + 1):
        if part and k % part[1] != part[0]:
            continue

        def go(s, k=k):
            s.inputs.append((nm, "range", k & 0xffffffff))
            e.returns(s, ins, k & 0xffffffff)
        alts.append((True, go))
    e.split(st, work, alts)


def irv_uf3(e, st, ins, a, work):
    f = e.uf("uf." + cstr(e, st, a[0]), *([z3.BitVecSort(64)] * len(a)))
    v = f(*[bv(x, 64) for x in a[1:]])
    e.returns(st, ins, e.named(st, v) if e.opts.commute else v)


def irv_known(e, st, ins, a, work):
    """Whether the condition holds by the form of its terms alone (a certain yes; a no says nothing)."""
    e.returns(st, ins, simp(bl(a[0])) is True)


def irv_assume(e, st, ins, a, work):
    c = simp(bl(a[0]))
    if c is False:
        raise Stop("assume")
    st.assume(c)
    if c is not True and not e.feasible(st):
        raise Stop("assume")
    e.returns(st, ins)


def irv_assert(e, st, ins, a, work):
    nm = cstr(e, st, a[1])
    e.oblige(st, bl(a[0]), nm, "assert")
    e.returns(st, ins)


def irv_cover(e, st, ins, a, work):
    nm = cstr(e, st, a[0])
    if nm not in e.cover_seen and e.feasible_strict(st):
        e.cover_seen.add(nm)
    e.returns(st, ins)


def irv_prune(e, st, ins, a, work):
    """Forks on the condition (makes later code see a decided condition)."""
    c = simp(bl(a[0]))
    if isinstance(c, bool):
        return e.returns(st, ins, c)
    e.split(st, work, [(c, lambda s: e.returns(s, ins, True)), (z3.Not(c), lambda s: e.returns(s, ins, False))])


# ---------------------------------------------------------------- memory
def op_new(e, st, ins, a, work):
    n = simp(a[0]) if not isinstance(a[0], Scaled) else simp(bv(a[0], 64))
    if not is_c(n):
        raise Unsupported("allocation of symbolic size")
    if n > (1 << 40):
        return throw_named("_ZTISt9bad_alloc")(e, st, ins, a, work)
    o = e.new_obj(st, n, "heap")
    e.returns(st, ins, Ptr(o.id, 0))


def op_delete(e, st, ins, a, work):
    p = a[0]
    if isinstance(p, PtrIte):
        f = st.frames[-1]
        c = p.c

        def mk(q):
            return lambda s: op_delete(e, s, ins, [q] + list(a[1:]), work)
        e.split(st, work, [(c, mk(p.a)), (Not(c), mk(p.b))])
        return
    if p.obj != 0:
        o = e.obj(st, p, "delete")
        if o.kind != "heap" or not is_c(p.off) or p.off != 0:
            e.oblige(st, False, "delete of a pointer obtained from new", "safety")
            raise Stop("delete")
        st.wobj(o.id).live = False
    e.returns(st, ins)


def h_memcpy(e, st, ins, a, work):
    n = a[2] if isinstance(a[2], Scaled) else simp(a[2])
    if isinstance(n, z3.ExprRef):
        n = concretize(e, st, n)
    e.memcpy(st, a[0], a[1], n)
    e.returns(st, ins, a[0])


def concretize(e, st, n):
    """If the value is forced by the path, return it."""
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add(*st.pc)
    if s.check() == z3.sat:
        v = s.model().eval(n, model_completion=True)
        if z3.is_bv_value(v) and e.must(st, n == v):
            return v.as_long()
    return n


def h_memset(e, st, ins, a, work):
    e.memset(st, a[0], a[1], simp(a[2]))
    e.returns(st, ins, a[0])


def h_memcmp(e, st, ins, a, work):
    p, q, n = a
    n = simp(n) if not isinstance(n, Scaled) else simp(bv(n, 64))
    if not is_c(n):
        raise Unsupported("memcmp of symbolic length")
    r = z3.BitVecVal(0, 32)
    for i in reversed(range(n)):
        x = bv(e.load(st, e.gep_bytes(p, i), ir.I8), 8)
        y = bv(e.load(st, e.gep_bytes(q, i), ir.I8), 8)
        r = z3.If(x == y, r, z3.ZeroExt(24, x) - z3.ZeroExt(24, y))
    e.returns(st, ins, simp(r))


def h_strlen(e, st, ins, a, work):
    p = a[0]
    o = e.obj(st, p, "strlen")
    k = p.off
    while True:
        b = e.load_byte(st, o, k)
        if not is_c(b):
            raise Unsupported("strlen of symbolic data")
        if b == 0:
            break
        k += 1
    e.returns(st, ins, k - p.off)


# ------------------------------------------------------------ exceptions
def cxa_alloc(e, st, ins, a, work):
    o = e.new_obj(st, a[0], "exc")
    e.returns(st, ins, Ptr(o.id, 0))


def cxa_throw(e, st, ins, a, work):
    ti = a[1]
    nm = st.mem[ti.obj].name
    e.throw(st, nm, a[0])
    e.raise_here(st, ins)


def throw_named(ti):
    def h(e, st, ins, a, work):
        e.throw(st, ti, NULL)
        e.raise_here(st, ins)
    return h


def cxa_begin_catch(e, st, ins, a, work):
    st.caught.append(st.exc)
    e.returns(st, ins, a[0])


def cxa_end_catch(e, st, ins, a, work):
    if st.caught:
        st.caught.pop()
    e.returns(st, ins)


def cxa_rethrow(e, st, ins, a, work):
    st.exc = st.caught[-1]
    e.raise_here(st, ins)


def typeid_for(e, st, ins, a, work):
    p = a[0]
    e.returns(st, ins, e.tid(st.mem[p.obj].name))


def terminate(e, st, ins, a, work):
    e.oblige(st, False, "std::terminate / abort is not reached", "safety")
    raise Stop("terminate")


def nop(e, st, ins, a, work):
    e.returns(st, ins, a[0] if ins.res else None)


def guard_acquire(e, st, ins, a, work):
    v = e.load(st, a[0], ir.I8)
    e.returns(st, ins, 0 if v == 1 else 1)


def guard_release(e, st, ins, a, work):
    e.store(st, a[0], 1, ir.I8)
    e.returns(st, ins)


def zti_bases(e, nm):
    """(base typeinfo name, offset) pairs of a typeinfo global of the module."""
    g = e.mod.global_var(nm)
    if g is None or g[0] == "alias" or g[1] is None:
        return []
    c = g[1]
    if c.k != "agg":
        return []
    vt = c.v[0][1]
    txt = repr(vt)
    flds = c.v[2:]
    out = []

    def nameof(x):
        return x.v if x.k == "glob" else None
    if len(flds) == 1:
        out.append((nameof(flds[0][1]), 0))
    elif len(flds) > 1:
        for i in range(2, len(flds), 2):
            out.append((nameof(flds[i][1]), flds[i + 1][1].v >> 8))
    return [x for x in out if x[0]]


def h_dyncast(e, st, ins, a, work):
    p, src, dst = a[0], st.mem[a[1].obj].name, st.mem[a[2].obj].name
    if isinstance(p, PtrIte):
        c = p.c
        e.split(st, work, [(c, lambda s: h_dyncast(e, s, ins, [p.a] + a[1:], work)),
                           (Not(c), lambda s: h_dyncast(e, s, ins, [p.b] + a[1:], work))])
        return
    if p.obj == 0:
        return e.returns(st, ins, NULL)
    vp = e.load(st, p, ir.PTR)
    vn = st.mem[vp.obj].name
    ti = "_ZTI" + vn[4:]

    def find(t, off):
        if t == dst:
            return off
        for b, o in zti_bases(e, t):
            r = find(b, off + o)
            if r is not None:
                return r
        return None
    r = find(ti, 0)
    if r is not None and r != 0:
        raise Unsupported("dynamic_cast to a non-primary base")
    e.returns(st, ins, NULL if r is None else p)


# ------------------------------------------------------------------ math
def unary(op, f, conc=None):
    def one(e, st, v):
        if is_c(v) and conc is not None:
            r = conc(b2d(v))
            if r is not None:
                return d2b(r)
        return e.fpun(st, op, v, f)

    def h(e, st, ins, a, work):
        v = a[0]
        e.returns(st, ins, [one(e, st, x) for x in v] if isinstance(v, list) else one(e, st, v))
    return h


def h_fabs(e, st, ins, a, work):
    v = a[0]
    e.returns(st, ins, [d_abs(x) for x in v] if isinstance(v, list) else d_abs(v))


def h_copysign(e, st, ins, a, work):
    x, y = a
    s = d_sgn(y)
    e.returns(st, ins, e.ite(s, d_neg(d_abs(x)), d_abs(x), ir.DOUBLE))


def h_fmod(e, st, ins, a, work):
    """fmod is exact; assumed contract (fp.py): sign and magnitude bounds, identity when |a| < |b|."""
    if is_c(a[0]) and is_c(a[1]):
        import math
        try:
            return e.returns(st, ins, d2b(math.fmod(b2d(a[0]), b2d(a[1]))))
        except ValueError:
            pass
    x, y = bv(a[0], 64), bv(a[1], 64)
    r = fp.F2["fmod"](x, y)
    small = And(d_lt(d_abs(x), d_abs(y)))
    bad = Or(Not(d_lt(d_abs(x), 0x7FF0000000000000)), d_eq(y, 0), d_isnan(y))
    st.assume(z3.If(zbool(bad), zbool(d_isnan(r)),
                    z3.And(zbool(d_lt(d_abs(r), d_abs(y))), zbool(d_le(d_abs(r), d_abs(x))), zbool(d_sgn(r)) == zbool(d_sgn(x)),
                           z3.Implies(zbool(small), r == x))))
    e.returns(st, ins, r)


def h_cmpsd(e, st, ins, a, work):
    x, y, imm = a[0][0], a[1][0], int(a[2]) & 7
    un = Or(d_isnan(x), d_isnan(y))
    c = {0: lambda: d_eq(x, y), 1: lambda: d_lt(x, y), 2: lambda: d_le(x, y), 3: lambda: un, 4: lambda: Not(d_eq(x, y)),
         5: lambda: Not(d_lt(x, y)), 6: lambda: Not(d_le(x, y)), 7: lambda: Not(un)}[imm]()
    c = e.known(st, simp(c))
    if isinstance(c, bool):
        m = (1 << 64) - 1 if c else 0
    else:
        m = z3.If(c, z3.BitVecVal((1 << 64) - 1, 64), z3.BitVecVal(0, 64))
    e.returns(st, ins, [m, a[0][1]])


def pymath(name, *a):
    import math
    if all(is_c(x) for x in a):
        try:
            return d2b(getattr(math, name)(*[b2d(x) for x in a]))
        except ValueError:
            pass
    return None


def uf1(name):
    def h(e, st, ins, a, work):
        r = pymath(name, a[0])
        if r is not None:
            return e.returns(st, ins, r)
        e.returns(st, ins, fp.F1[name](bv(a[0], 64)))
    return h


def uf2(name):
    def h(e, st, ins, a, work):
        r = pymath(name, *a)
        if r is not None:
            return e.returns(st, ins, r)
        e.returns(st, ins, fp.F2[name](bv(a[0], 64), bv(a[1], 64)))
    return h


def h_fpclass(e, st, ins, a, work):
    v, m = a
    INFB = 0x7FF0000000000000
    NMIN = 0x0010000000000000
    nan, sg, mag = d_isnan(v), d_sgn(v), d_abs(v)
    inf, zero = d_eq(mag, INFB), d_eq(mag, 0)
    norm = And(d_le(NMIN, mag), d_lt(mag, INFB))
    sub = And(d_lt(0, mag), d_lt(mag, NMIN))
    out = False
    if m & 3 == 3:
        out = Or(out, nan)
    elif m & 3:
        raise Unsupported("signalling NaN test")
    for c, ng, ps in ((inf, 4, 512), (norm, 8, 256), (sub, 16, 128), (zero, 32, 64)):
        if m & ng and m & ps:
            out = Or(out, c)
        elif m & ng:
            out = Or(out, And(c, sg))
        elif m & ps:
            out = Or(out, And(c, Not(sg)))
    e.returns(st, ins, simp(out))


def h_minpd(e, st, ins, a, work):
    e.returns(st, ins, [e.ite(d_lt(x, y), x, y, ir.DOUBLE) for x, y in zip(*a)])


def h_maxpd(e, st, ins, a, work):
    e.returns(st, ins, [e.ite(d_lt(y, x), x, y, ir.DOUBLE) for x, y in zip(*a)])


def h_movmsk(e, st, ins, a, work):
    r = 0
    for i, x in enumerate(a[0]):
        if is_c(x):
            b = (x >> 63) << i
        else:
            b = z3.If(d_sgn(x), z3.BitVecVal(1 << i, 32), z3.BitVecVal(0, 32))
        r = r | b if not (is_c(r) and r == 0) else b
    e.returns(st, ins, simp(r))


def h_shift(left):
    def h(e, st, ins, a, work):
        v, n = a
        if not is_c(n):
            n = simp(n)
        out = []
        for x in v:
            if is_c(n):
                if n > 63:
                    out.append(0)
                elif is_c(x):
                    out.append((x << n) & ((1 << 64) - 1) if left else x >> n)
                else:
                    out.append(x << n if left else z3.LShR(x, n))
            else:
                nn = z3.ZeroExt(32, n)
                out.append(bv(x, 64) << nn if left else z3.LShR(bv(x, 64), nn))
        e.returns(st, ins, out)
    return h


def h_ctlz(w):
    def h(e, st, ins, a, work):
        x, zp = a
        if is_c(x):
            if x == 0 and zp:
                e.oblige(st, False, "ctlz of zero", "safety")
                raise Stop("ctlz")
            return e.returns(st, ins, w - int(x).bit_length())
        if zp is True or zp == 1:
            e.oblige(st, x != 0, "count-leading-zeros argument is not zero", "safety")
        r = z3.BitVecVal(w, w)
        for i in range(w):
            r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i, w), r)
        e.returns(st, ins, r)
    return h


def h_cttz(w):
    def h(e, st, ins, a, work):
        x, zp = a
        if is_c(x) and x:
            return e.returns(st, ins, (x & -x).bit_length() - 1)
        x = bv(x, w)
        if zp is True or zp == 1:
            e.oblige(st, x != 0, "count-trailing-zeros argument is not zero", "safety")
        r = z3.BitVecVal(w, w)
        for i in reversed(range(w)):
            r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i, w), r)
        e.returns(st, ins, r)
    return h


def h_ctpop(w):
    def h(e, st, ins, a, work):
        x = a[0]
        if is_c(x):
            return e.returns(st, ins, bin(x).count("1"))
        r = z3.BitVecVal(0, w)
        for i in range(w):
            r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
        e.returns(st, ins, r)
    return h


def h_minmax(which, w):
    def h(e, st, ins, a, work):
        x, y = a
        if is_c(x) and is_c(y):
            sx, sy = (sgn(x, w), sgn(y, w)) if which[0] == "s" else (x, y)
            r = (min if which.endswith("min") else max)(sx, sy) & ((1 << w) - 1)
            return e.returns(st, ins, r)
        X, Y = bv(x, w), bv(y, w)
        c = {"umin": lambda: z3.ULT(X, Y), "umax": lambda: z3.UGT(X, Y), "smin": lambda: X < Y, "smax": lambda: X > Y}[which]()
        e.returns(st, ins, z3.If(c, X, Y))
    return h


def h_bswap(w):
    def h(e, st, ins, a, work):
        x = bv(a[0], w)
        e.returns(st, ins, simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)])))
    return h


def h_abs(w):
    def h(e, st, ins, a, work):
        x = bv(a[0], w)
        e.returns(st, ins, simp(z3.If(x < 0, -x, x)))
    return h


def h_fsh(left, w):
    def h(e, st, ins, a, work):
        x, y, n = a
        n = bv(n, w) & (w - 1)
        c = z3.Concat(bv(x, w), bv(y, w))
        nn = z3.ZeroExt(w, n)
        r = z3.Extract(2 * w - 1, w, c << nn) if left else z3.Extract(w - 1, 0, z3.LShR(c, nn))
        e.returns(st, ins, simp(r))
    return h


def h_overflow(op, w):
    def h(e, st, ins, a, work):
        x, y = bv(a[0], w), bv(a[1], w)
        if op == "uadd":
            r, o = x + y, z3.Not(z3.BVAddNoOverflow(x, y, False))
        elif op == "sadd":
            r, o = x + y, z3.Not(z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)))
        elif op == "usub":
            r, o = x - y, z3.ULT(x, y)
        elif op == "ssub":
            r, o = x - y, z3.Not(z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)))
        elif op == "umul":
            r, o = x * y, z3.Not(z3.BVMulNoOverflow(x, y, False))
        else:
            r, o = x * y, z3.Not(z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)))
        e.returns(st, ins, [simp(r), simp(o)])
    return h


def h_ucomieq(e, st, ins, a, work):
    x, y = a[0][0], a[1][0]
    r = d_eq(x, y)
    e.returns(st, ins, int(r) if is_c(r) else z3.If(r, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))


def h_cvttpd2dq(e, st, ins, a, work):
    out = []
    for x in a[0]:
        # out of range gives 0x80000000 (no undefined behaviour)
        if is_c(x):
            d = b2d(x)
            out.append(int(d) & 0xffffffff if d == d and -2147483649 < d < 2147483648 else 0x80000000)
            continue
        ok = And(d_lt(d2b(-2147483649.0), x), d_lt(x, d2b(2147483648.0)))
        r = fp.TOI[("si", 32)](x)
        out.append(z3.If(zbool(ok), r, z3.BitVecVal(0x80000000, 32)))
    e.returns(st, ins, out + [0, 0])


def h_lrint(e, st, ins, a, work):
    raise Unsupported("lrint")


def h_assume(e, st, ins, a, work):
    e.returns(st, ins)


def exc_ctor(e, st, ins, a, work):
    e.returns(st, ins, None)


def install(e):
    e._hcache = {}
    B = {}
    for nm, w in (("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64)):
        B["irv_" + nm] = irv_u(w, nm)
    B["irv_double"] = irv_u(64, "double")
    B["irv_bool"] = irv_bool
    B["irv_bytes"] = irv_bytes
    B["irv_range"] = irv_range
    B["irv_buf"] = irv_buf
    B["irv_readable"] = irv_readable
    B["irv_uf1"] = B["irv_uf3i"] = B["irv_uf2"] = B["irv_uf3"] = B["irv_uf9"] = B["irv_uf9i"] = irv_uf3
    B["irv_assume"] = irv_assume
    B["irv_assert"] = irv_assert
    B["irv_cover"] = irv_cover
    B["irv_known"] = irv_known
    B["irv_split"] = irv_prune
    B["_Znwm"] = B["_Znam"] = B["malloc"] = op_new
    B["_ZdlPv"] = B["_ZdaPv"] = B["_ZdlPvm"] = B["_ZdaPvm"] = B["free"] = op_delete
    B["memcpy"] = B["memmove"] = h_memcpy
    B["memset"] = h_memset
    B["memcmp"] = B["bcmp"] = h_memcmp
    B["strlen"] = h_strlen
    B["__cxa_allocate_exception"] = cxa_alloc
    B["__cxa_free_exception"] = nop
    B["__cxa_throw"] = cxa_throw
    B["__cxa_begin_catch"] = B["__cxa_get_exception_ptr"] = cxa_begin_catch
    B["__cxa_end_catch"] = cxa_end_catch
    B["__cxa_rethrow"] = cxa_rethrow
    B["__cxa_guard_acquire"] = guard_acquire
    B["__cxa_guard_release"] = guard_release
    B["__cxa_guard_abort"] = nop
    B["__cxa_atexit"] = lambda e, st, ins, a, work: e.returns(st, ins, 0)
    B["__cxa_pure_virtual"] = B["_ZSt9terminatev"] = B["abort"] = B["llvm.trap"] = terminate
    B["llvm.eh.typeid.for"] = B["llvm.eh.typeid.for.p0"] = typeid_for
    B["__dynamic_cast"] = h_dyncast
    for s, t in (("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"),
                 ("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"),
                 ("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"),
                 ("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"),
                 ("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"),
                 ("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"),
                 ("_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"),
                 ("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"),
                 ("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument")):
        B[s] = throw_named(t)
    for nm in ("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax"):
        for w in (8, 16, 32, 64):
            B["%s.i%d" % (nm, w)] = h_minmax(nm[5:], w)
    for w in (8, 16, 32, 64):
        B["llvm.ctlz.i%d" % w] = h_ctlz(w)
        B["llvm.cttz.i%d" % w] = h_cttz(w)
        B["llvm.ctpop.i%d" % w] = h_ctpop(w)
        B["llvm.bswap.i%d" % w] = h_bswap(w)
        B["llvm.abs.i%d" % w] = h_abs(w)
        B["llvm.fshl.i%d" % w] = h_fsh(True, w)
        B["llvm.fshr.i%d" % w] = h_fsh(False, w)
        for o in ("uadd", "sadd", "usub", "ssub", "umul", "smul"):
            B["llvm.%s.with.overflow.i%d" % (o, w)] = h_overflow(o, w)
    import math
    sq = unary("sqrt", lambda x: z3.fpSqrt(z3.RNE(), x), lambda d: math.sqrt(d) if d >= 0 else None)
    for n in ("sqrt", "llvm.sqrt.f64", "llvm.sqrt.v2f64"):
        B[n] = sq

    def rnd(py, rm):
        return unary(py, lambda x: z3.fpRoundToIntegral(rm, x),
                     lambda d: math.copysign(float(getattr(math, py)(d)), d) if abs(d) < 1e300 else d)
    for n in ("floor", "llvm.floor.f64", "llvm.floor.v2f64"):
        B[n] = rnd("floor", z3.RTN())
    for n in ("ceil", "llvm.ceil.f64", "llvm.ceil.v2f64"):
        B[n] = rnd("ceil", z3.RTP())
    for n in ("trunc", "llvm.trunc.f64", "llvm.trunc.v2f64"):
        B[n] = rnd("trunc", z3.RTZ())
    for n in ("fabs", "llvm.fabs.f64", "llvm.fabs.v2f64"):
        B[n] = h_fabs
    B["llvm.copysign.f64"] = B["copysign"] = h_copysign
    B["fmod"] = h_fmod
    for n in ("sin", "cos", "tan", "asin", "acos", "atan"):
        B[n] = uf1(n)
    B["atan2"] = uf2("atan2")
    B["llvm.is.fpclass.f64"] = h_fpclass
    B["llvm.x86.sse2.min.pd"] = h_minpd
    B["llvm.x86.sse2.max.pd"] = h_maxpd
    B["llvm.x86.sse2.movmsk.pd"] = h_movmsk
    B["llvm.x86.sse2.psrli.q"] = h_shift(False)
    B["llvm.x86.sse2.pslli.q"] = h_shift(True)
    B["llvm.x86.sse2.ucomieq.sd"] = h_ucomieq
    B["llvm.x86.sse2.cmp.sd"] = h_cmpsd
    B["llvm.x86.sse2.cvttpd2dq"] = h_cvttpd2dq
    B["llvm.assume"] = h_assume
    e.builtins = B
    e.builtin_rx = [
        (re.compile(r"llvm\.(memcpy|memmove)\."), h_memcpy),
        (re.compile(r"llvm\.memset\."), h_memset),
        (re.compile(r"llvm\.(lifetime|dbg|experimental\.noalias|prefetch|stacksave|stackrestore|invariant)"), nop),
        (re.compile(r"llvm\.is\.constant"), lambda e, st, ins, a, work: e.returns(st, ins, False)),
        (re.compile(r"llvm\.expect"), lambda e, st, ins, a, work: e.returns(st, ins, a[0])),
        (re.compile(r"_ZNSt(13runtime_error|11logic_error|16invalid_argument|12out_of_range|12length_error|12domain_error|14overflow_error|9exception|9bad_alloc)[CD]\d"), exc_ctor),
    ]
