"""Bit-vector conditions as integer arithmetic, for products and quotients of variables.

Every bit-vector term stands for its signed value.  Where the ranges of the operands do not exclude
that an operation wraps, a fresh multiple of 2^w is subtracted; a term that has no arithmetic meaning
becomes a variable in the range of its width.  The translation admits every model of the original
condition, so that unsatisfiability carries over."""
import z3


class Ints:
    def __init__(self, conj, nowrap=()):
        self.conj = conj
        self.nw = set()     # operations that a conjunct says do not wrap
        for c in conj:
            e = nowrap.get(c.get_id()) if nowrap else None
            if e:
                for t in e[1:]:
                    if z3.is_bv(t):
                        self.nw.add(t.get_id())
        self.memo, self.rng, self.side, self.bmemo, self.dm = {}, {}, [], {}, {}
        self.keep = []
        self.known = {}     # term id -> (lo, hi) from the conjuncts
        self.prod = {}      # the same for exact products
        self.pv, self.cmap = {}, {}
        self.n = 0
        self.bounds()

    def parts(self, t, out):
        if t.decl().kind() == z3.Z3_OP_CONCAT:
            for c in t.children():
                self.parts(c, out)
        else:
            out.append(t)
        return out

    def canon(self, ch):
        """One term for all concatenations of the same parts."""
        p = []
        for c in ch:
            self.parts(c, p)
        if len(p) == 1:
            return p[0]
        k = tuple(c.get_id() for c in p)
        if k not in self.cmap:
            self.cmap[k] = z3.Concat(*p)
            self.keep += p
        return self.cmap[k]

    def norm(self, t):
        """A concatenation that extends or shifts a term."""
        ch = self.parts(t, [])
        last = ch[-1]
        if self.val(last) == 0 and len(ch) == 2 and ch[0].decl().kind() == z3.Z3_OP_EXTRACT:
            hi, lo = ch[0].decl().params()
            x = ch[0].arg(0)
            if lo == 0 and x.size() == t.size():
                return "shl", x, last.size()
        top = last
        if last.decl().kind() == z3.Z3_OP_EXTRACT and last.decl().params()[1] == 0:
            top = last.arg(0)
        # a term of several parts that is extended
        j = 0
        while j < len(ch) - 1 and ch[j].size() == 1 and ch[j].decl().kind() == z3.Z3_OP_EXTRACT and ch[j].get_id() == ch[0].get_id():
            j += 1
        if 0 < j < len(ch) - 1 and ch[0].arg(0).get_id() == ch[j].get_id() and ch[0].decl().params()[0] == ch[j].size() - 1:
            x = self.canon(ch[j:])
            self.keep.append(x)
            return "sext", x, 0
        if self.val(ch[0]) == 0 and len(ch) > 2:
            x = self.canon(ch[1:])
            self.keep.append(x)
            return "zext", x, 0
        src = None
        for c in ch[:-1]:
            if self.val(c) == 0:
                k = "z"
            elif c.decl().kind() == z3.Z3_OP_EXTRACT and c.size() == 1:
                k = (c.arg(0).get_id(), c.decl().params()[0])
            else:
                return None
            if src is None:
                src = k
            elif src != k:
                return None
        if src == "z":
            return "zext", last, 0
        if src == (last.get_id(), last.size() - 1):
            return "sext", last, 0
        if last is not top and src == (top.get_id(), last.size()) and top.size() == last.size() + 1:
            return "sext", top, 0
        return None

    # ---- ranges
    def core(self, t):
        while True:
            k = t.decl().kind()
            if k == z3.Z3_OP_SIGN_EXT:
                t = t.arg(0)
            elif k == z3.Z3_OP_CONCAT and self.norm(t) and self.norm(t)[0] == "sext":
                t = self.norm(t)[1]
            else:
                return t

    def pkey(self, t):
        return tuple(sorted(self.core(c).get_id() for c in t.children()))

    def full(self, t):
        w = t.size()
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1)

    def val(self, t):
        if z3.is_bv_value(t):
            v = t.as_signed_long()
            return v
        return None

    def r(self, t, d=0):
        """A range of the signed value of t."""
        if t.decl().kind() == z3.Z3_OP_CONCAT:
            t = self.canon([t])
        k = t.get_id()
        if k in self.rng:
            return self.rng[k]
        lo, hi = self.r0(t, d)
        if k in self.known:
            a, b = self.known[k]
            lo, hi = max(lo, a), min(hi, b)
            if lo > hi:
                hi = lo
        self.rng[k] = (lo, hi)
        self.keep.append(t)
        return lo, hi

    def r0(self, t, d):
        v = self.val(t)
        if v is not None:
            return v, v
        f = self.full(t)
        if d > 60:
            return f
        kind = t.decl().kind()

        nw = t.get_id() in self.nw

        def fit(lo, hi):
            if nw:
                return max(lo, f[0]), min(hi, f[1])
            return (lo, hi) if lo >= f[0] and hi <= f[1] else f
        if kind == z3.Z3_OP_CONCAT:
            n = self.norm(t)
            if n is None:
                return f
            x = self.r(n[1], d + 1)
            if n[0] == "shl":
                return fit(x[0] << n[2], x[1] << n[2])
            if n[0] == "zext" and x[0] < 0:
                return 0, (1 << n[1].size()) - 1
            return x
        R = [self.r(c, d + 1) for c in t.children() if z3.is_bv(c)]
        if kind == z3.Z3_OP_BADD:
            return fit(sum(x[0] for x in R), sum(x[1] for x in R))
        if kind == z3.Z3_OP_BSUB:
            return fit(R[0][0] - R[1][1], R[0][1] - R[1][0])
        if kind == z3.Z3_OP_BNEG:
            return fit(-R[0][1], -R[0][0])
        if kind == z3.Z3_OP_BMUL:
            lo, hi = R[0]
            for a, b in R[1:]:
                c = [lo * a, lo * b, hi * a, hi * b]
                lo, hi = min(c), max(c)
            p = self.prod.get(self.pkey(t))
            if p:
                lo, hi = max(lo, p[0]), min(hi, p[1])
            return fit(lo, hi)
        if kind in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
            if R[1][0] >= 1 and R[0][0] >= 0:
                return R[0][0] // R[1][1], R[0][1] // R[1][0]
            if R[1][0] >= 1 and kind in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I):
                m = max(abs(R[0][0]), abs(R[0][1]))
                return max(-m, f[0]), m
            return f
        if kind in (z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            if R[1][0] >= 1 and R[0][0] >= 0:
                return 0, min(R[0][1], R[1][1] - 1)
            return f
        if kind == z3.Z3_OP_SIGN_EXT:
            return R[0]
        if kind == z3.Z3_OP_ZERO_EXT:
            x = R[-1]
            c = t.children()[-1]
            return x if x[0] >= 0 else (0, (1 << c.size()) - 1)
        if kind == z3.Z3_OP_EXTRACT and t.decl().params()[1] == 0:
            return fit(*R[0])
        if kind == z3.Z3_OP_EXTRACT and t.decl().params()[0] == t.arg(0).size() - 1 and R[0][0] >= 0:
            return R[0][0] >> t.decl().params()[1], R[0][1] >> t.decl().params()[1]
        if kind == z3.Z3_OP_ITE:
            return min(R[0][0], R[1][0]), max(R[0][1], R[1][1])
        if kind == z3.Z3_OP_BSHL and self.val(t.arg(1)) is not None:
            s = self.val(t.arg(1))
            return fit(R[0][0] << s, R[0][1] << s) if 0 <= s < t.size() else f
        if kind in (z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR) and self.val(t.arg(1)) is not None:
            s = self.val(t.arg(1))
            if 0 <= s < t.size() and (R[0][0] >= 0 or kind == z3.Z3_OP_BASHR):
                return R[0][0] >> s, R[0][1] >> s
        return f

    def bounds(self):
        """Ranges of terms that are compared with others among the conjuncts."""
        flat, todo = [], list(self.conj)
        while todo:
            c = todo.pop()
            if z3.is_and(c):
                todo.extend(c.children())
            else:
                flat.append(c)
        for _ in range(4):
            changed = False
            self.rng.clear()
            for c in flat:
                neg = False
                while z3.is_not(c):
                    neg = not neg
                    c = c.arg(0)
                k = c.decl().kind()
                if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGT, z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
                    a, b = c.arg(0), c.arg(1)
                    uns = k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT)
                    if k in (z3.Z3_OP_SGEQ, z3.Z3_OP_SGT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
                        a, b = b, a
                    strict = k in (z3.Z3_OP_SLT, z3.Z3_OP_SGT, z3.Z3_OP_ULT, z3.Z3_OP_UGT)
                    if neg:
                        a, b, strict = b, a, not strict
                    ra, rb = self.r(a), self.r(b)
                    if uns:
                        if rb[0] < 0:
                            continue
                        ra = (max(ra[0], 0), ra[1])    # an unsigned value below a small one is not negative
                        changed |= self.tighten(a, 0, rb[1] - (1 if strict else 0))
                        if self.r(a)[0] >= 0:
                            changed |= self.tighten(b, self.r(a)[0] + (1 if strict else 0), rb[1])
                        continue
                    changed |= self.tighten(a, ra[0], rb[1] - (1 if strict else 0))
                    changed |= self.tighten(b, ra[0] + (1 if strict else 0), rb[1])
                elif z3.is_eq(c) and not neg and z3.is_bv(c.arg(0)):
                    a, b = c.arg(0), c.arg(1)
                    ra, rb = self.r(a), self.r(b)
                    lo, hi = max(ra[0], rb[0]), min(ra[1], rb[1])
                    changed |= self.tighten(a, lo, hi)
                    changed |= self.tighten(b, lo, hi)
            if not changed:
                break
        self.rng.clear()

    def tighten(self, t, lo, hi):
        if self.val(t) is not None:
            return False
        if t.decl().kind() == z3.Z3_OP_CONCAT:
            t = self.canon([t])
        k = t.get_id()
        o = self.known.get(k, self.full(t))
        n = (max(o[0], lo), min(o[1], hi))
        self.keep.append(t)
        if n != o and n[0] <= n[1]:
            self.known[k] = n
            if t.decl().kind() == z3.Z3_OP_BMUL and t.num_args() == 2:
                a, b = self.r(t.arg(0)), self.r(t.arg(1))
                c = [x * y for x in a for y in b]
                f = self.full(t)
                if min(c) >= f[0] and max(c) <= f[1]:
                    p = self.prod.get(self.pkey(t), f)
                    self.prod[self.pkey(t)] = (max(p[0], n[0]), min(p[1], n[1]))
            self.rng.clear()
            return True
        return False

    # ---- terms
    def fresh(self, lo, hi, p="i"):
        self.n += 1
        v = z3.Int("%s!%d" % (p, self.n))
        self.side += [v >= lo, v <= hi]
        return v

    def times(self, x, y, lo=None, hi=None):
        """The product of two integer terms: a variable of its own, defined apart."""
        if z3.is_int_value(x) or z3.is_int_value(y):
            return x * y
        key = tuple(sorted((x.get_id(), y.get_id())))
        if key not in self.pv:
            self.n += 1
            v = z3.Int("prod!%d" % self.n)
            self.pv[key] = (v, x, y)
            self.keep += [x, y]
            self.side += [z3.Implies(z3.And(x >= 0, y >= 0), v >= 0), z3.Implies(z3.And(x >= 1, y >= 0), v >= y), z3.Implies(z3.And(x >= 0, y >= 1), v >= x)]
        v = self.pv[key][0]
        return v

    def cut(self, a, k):
        """Quotient and remainder of the unsigned value of a by 2^k (when the value is known not to be negative)."""
        key = (a.get_id(), -k)
        if key not in self.dm:
            hi = self.r(a)[1]
            q, r = self.fresh(0, hi >> k, "q"), self.fresh(0, (1 << k) - 1, "r")
            self.side.append(self.t(a) == q * (1 << k) + r)
            self.dm[key] = (q, r)
            self.keep.append(a)
        return self.dm[key]

    def uns(self, t):
        v = self.val(t)
        if v is not None:
            return z3.IntVal(v if v >= 0 else v + (1 << t.size()))
        if t.decl().kind() == z3.Z3_OP_EXTRACT and t.decl().params()[1] == 0 and self.r(t.arg(0))[0] >= 0 and t.size() <= 62:
            return self.cut(t.arg(0), t.size())[1]
        x = self.t(t)
        if self.r(t)[0] >= 0:
            return x
        return z3.If(x < 0, x + (1 << t.size()), x)

    def wrap(self, t, x, exact):
        """x modulo 2^w, as a signed value; exact is the range of x when known."""
        f = self.full(t)
        if t.get_id() in self.nw:
            return x
        if exact is not None and exact[0] >= f[0] and exact[1] <= f[1]:
            return x
        k = self.fresh(-(1 << (t.size() + 2)), 1 << (t.size() + 2), "wrap")
        r = x - k * (1 << t.size())
        self.side += [r >= f[0], r <= f[1]]
        return r

    def t(self, t):
        if t.decl().kind() == z3.Z3_OP_CONCAT:
            t = self.canon([t])
        k = t.get_id()
        if k in self.memo:
            return self.memo[k]
        x = self.t0(t)
        self.memo[k] = x
        self.keep.append(t)
        return x

    def divmod(self, a, b, signed):
        """Quotient and remainder of the terms a, b (b known to be positive, else opaque)."""
        ra, rb = self.r(a), self.r(b)
        if rb[0] < 1 or (not signed and ra[0] < 0):
            return None
        key = (a.get_id(), b.get_id())
        if key in self.dm:
            return self.dm[key]
        x, y = self.t(a), self.t(b)
        m = max(abs(ra[0]), abs(ra[1]))
        q = self.fresh(-m if ra[0] < 0 else 0, m, "q")
        r = self.fresh(-rb[1] + 1 if ra[0] < 0 else 0, rb[1] - 1, "r")
        self.side.append(x == self.times(y, q) + r)
        if ra[0] >= 0:
            self.side += [r < y]
        else:
            self.side += [z3.Implies(x >= 0, z3.And(r >= 0, r < y, q >= 0)), z3.Implies(x < 0, z3.And(r <= 0, -r < y, q <= 0))]
        self.dm[key] = (q, r)
        return q, r

    def t0(self, t):
        v = self.val(t)
        if v is not None:
            return z3.IntVal(v)
        kind = t.decl().kind()
        ch = t.children()
        if kind == z3.Z3_OP_BADD:
            R = [self.r(c) for c in ch]
            return self.wrap(t, z3.Sum([self.t(c) for c in ch]), (sum(x[0] for x in R), sum(x[1] for x in R)))
        if kind == z3.Z3_OP_BSUB:
            R = [self.r(c) for c in ch]
            return self.wrap(t, self.t(ch[0]) - self.t(ch[1]), (R[0][0] - R[1][1], R[0][1] - R[1][0]))
        if kind == z3.Z3_OP_BNEG:
            R = self.r(ch[0])
            return self.wrap(t, -self.t(ch[0]), (-R[1], -R[0]))
        if kind == z3.Z3_OP_BMUL and len(ch) == 2:
            a, b = self.r(ch[0]), self.r(ch[1])
            c = [p * q for p in a for q in b]
            lo, hi = min(c), max(c)
            p = self.prod.get(self.pkey(t))
            if p:
                lo, hi = max(lo, p[0]), min(hi, p[1])
            x, y = self.t(ch[0]), self.t(ch[1])
            return self.wrap(t, self.times(x, y, lo, hi), (lo, hi))
        if kind in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
            d = self.divmod(ch[0], ch[1], kind in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I))
            if d:
                return d[0]
        if kind in (z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            d = self.divmod(ch[0], ch[1], kind in (z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I))
            if d:
                return d[1]
        if kind == z3.Z3_OP_SIGN_EXT:
            return self.t(ch[0])
        if kind == z3.Z3_OP_ZERO_EXT:
            return self.uns(ch[-1])
        if kind == z3.Z3_OP_CONCAT:
            n = self.norm(t)
            if n is not None:
                if n[0] == "shl":
                    R = self.r(n[1])
                    return self.wrap(t, self.t(n[1]) * (1 << n[2]), (R[0] << n[2], R[1] << n[2]))
                return self.uns(n[1]) if n[0] == "zext" else self.t(n[1])
        if kind == z3.Z3_OP_EXTRACT and t.decl().params()[1] == 0:
            return self.wrap(t, self.t(ch[0]), self.r(ch[0]))
        if kind == z3.Z3_OP_EXTRACT and t.decl().params()[0] == ch[0].size() - 1 and self.r(ch[0])[0] >= 0:
            return self.cut(ch[0], t.decl().params()[1])[0]
        if kind == z3.Z3_OP_ITE:
            return z3.If(self.b(ch[0]), self.t(ch[1]), self.t(ch[2]))
        if kind == z3.Z3_OP_BSHL and self.val(ch[1]) is not None and 0 <= self.val(ch[1]) < t.size():
            s = self.val(ch[1])
            R = self.r(ch[0])
            return self.wrap(t, self.t(ch[0]) * (1 << s), (R[0] << s, R[1] << s))
        if kind in (z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR) and self.val(ch[1]) is not None and 0 <= self.val(ch[1]) < t.size():
            if self.r(ch[0])[0] >= 0 or kind == z3.Z3_OP_BASHR:
                return self.t(ch[0]) / (1 << self.val(ch[1]))
        lo, hi = self.r(t)
        return self.fresh(lo, hi, "t")

    def b(self, c):
        k = c.get_id()
        if k in self.bmemo:
            return self.bmemo[k]
        x = self.b0(c)
        self.bmemo[k] = x
        self.keep.append(c)
        return x

    def b0(self, c):
        kind = c.decl().kind()
        ch = c.children()
        if kind in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return c
        if kind == z3.Z3_OP_AND:
            return z3.And([self.b(x) for x in ch])
        if kind == z3.Z3_OP_OR:
            return z3.Or([self.b(x) for x in ch])
        if kind == z3.Z3_OP_NOT:
            return z3.Not(self.b(ch[0]))
        if kind == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.b(ch[0]), self.b(ch[1]))
        if kind == z3.Z3_OP_XOR and len(ch) == 2:
            return z3.Xor(self.b(ch[0]), self.b(ch[1]))
        if kind == z3.Z3_OP_ITE:
            return z3.If(self.b(ch[0]), self.b(ch[1]), self.b(ch[2]))
        if kind == z3.Z3_OP_EQ:
            if z3.is_bv(ch[0]):
                return self.t(ch[0]) == self.t(ch[1])
            if z3.is_bool(ch[0]):
                return self.b(ch[0]) == self.b(ch[1])
        if kind == z3.Z3_OP_DISTINCT and len(ch) == 2 and z3.is_bv(ch[0]):
            return self.t(ch[0]) != self.t(ch[1])
        nm = c.decl().name()
        if nm in ("bvsmul_noovfl", "bvsmul_noudfl"):
            w = ch[0].size()
            p = self.times(self.t(ch[0]), self.t(ch[1]))
            return p <= (1 << (w - 1)) - 1 if nm == "bvsmul_noovfl" else p >= -(1 << (w - 1))
        S = {z3.Z3_OP_SLEQ: lambda a, b: a <= b, z3.Z3_OP_SLT: lambda a, b: a < b, z3.Z3_OP_SGEQ: lambda a, b: a >= b, z3.Z3_OP_SGT: lambda a, b: a > b}
        U = {z3.Z3_OP_ULEQ: lambda a, b: a <= b, z3.Z3_OP_ULT: lambda a, b: a < b, z3.Z3_OP_UGEQ: lambda a, b: a >= b, z3.Z3_OP_UGT: lambda a, b: a > b}
        if kind in S:
            return S[kind](self.t(ch[0]), self.t(ch[1]))
        if kind in U:
            return U[kind](self.uns(ch[0]), self.uns(ch[1]))
        self.n += 1
        return z3.Bool("b!%d" % self.n)


def query(conj, nowrap=()):
    """The conjunction as integer constraints."""
    I = Ints(conj, nowrap)
    out = [I.b(c) for c in conj]
    # products that share a factor are ordered like the others (so much of monotonicity helps the solvers)
    P = list(I.pv.values())[:24]
    for i, p in enumerate(P):
        for q in P[:i]:
            for A, X in (p[1:], p[:0:-1]):
                for B, Y in (q[1:], q[:0:-1]):
                    if X.get_id() == Y.get_id() and A.get_id() != B.get_id():
                        out.append(z3.Implies(z3.And(X >= 0, A < B), p[0] + X <= q[0]))
                        out.append(z3.Implies(z3.And(X >= 0, B < A), q[0] + X <= p[0]))
                        out.append(z3.Implies(A == B, p[0] == q[0]))
    # what is known of the ranges of variables follows from the conjuncts themselves
    return out + I.side, [v == x * y for v, x, y in I.pv.values()]


class Cache:
    """Translations that are shared by the queries of a run: what was derived from a prefix of the path condition
    holds for every path that begins with it."""

    def __init__(self):
        self.entries = []

    def unsat(self, pc, extra, timeout, grow, nowrap=()):
        ids = [c.get_id() for c in pc]
        for n, e in enumerate(self.entries):
            pre, I = e
            if len(pre) <= len(ids) and ids[:len(pre)] == pre and len(ids) <= len(pre) + 12 + len(pre) // 4:
                if self.query(I, list(pc) + extra, timeout):
                    if n:
                        self.entries.insert(0, self.entries.pop(n))
                    return True
                if not grow or len(pre) == len(ids):
                    return False
                break
        I = Ints(list(pc), nowrap)
        self.entries.insert(0, (ids, I))
        del self.entries[8:]
        return self.query(I, list(pc) + extra, timeout)

    def query(self, I, conj, timeout):
        I.keep += conj
        out = [I.b(c) for c in conj]
        s = z3.SimpleSolver()
        s.set("timeout", timeout)
        s.add(*out)
        s.add(*I.side)
        r = s.check() == z3.unsat
        if len(I.side) > 2000:
            self.entries = [e for e in self.entries if e[1] is not I]
        return r
