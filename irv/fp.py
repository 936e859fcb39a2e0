"""Two encodings of IEEE double operations for the solvers.

The engine builds terms with the uninterpreted symbols below.  A double is its bit
pattern (BV64).  `precise` replaces them by their definitions (comparisons over the
bits, arithmetic by the SMT theory of floating point).  `Abstract` maps every double
to the real number it denotes (infinities to +-2^1024, NaN to a flag) and states, for
each arithmetic operation, that its result is the correctly rounded value of the real
result: rounding is monotone and exact on every double of the query, and has bounded
relative error.  Every fact stated is true of IEEE doubles with round-to-nearest, so
'unsat' under `Abstract` is a proof; 'sat' is decided by the precise encoding.
"""
from fractions import Fraction

import z3

BV64 = z3.BitVecSort(64)
B = z3.BoolSort()
P_lt = z3.Function("d.lt", BV64, BV64, B)
P_le = z3.Function("d.le", BV64, BV64, B)
P_eq = z3.Function("d.eq", BV64, BV64, B)
P_nan = z3.Function("d.nan", BV64, B)
P_sgn = z3.Function("d.sgn", BV64, B)
F_neg = z3.Function("d.neg", BV64, BV64)
F_abs = z3.Function("d.abs", BV64, BV64)
F2 = {n: z3.Function("d." + n, BV64, BV64, BV64) for n in ("fadd", "fsub", "fmul", "fdiv", "fmod", "atan2")}
F1 = {n: z3.Function("d." + n, BV64, BV64) for n in ("sqrt", "floor", "ceil", "trunc", "sin", "cos", "tan", "asin", "acos", "atan")}
FROMI = {(s, w): z3.Function("d.%stofp%d" % (s, w), z3.BitVecSort(w), BV64) for s in ("si", "ui") for w in (1, 8, 16, 32, 64)}
TOI = {(s, w): z3.Function("d.fpto%s%d" % (s, w), BV64, z3.BitVecSort(w)) for s in ("si", "ui") for w in (8, 16, 32, 64)}

RR = z3.Function("d.R", BV64, z3.RealSort())
NN = z3.Function("d.N", BV64, B)

EXPM, MAGM, SGNM = 0x7FF0000000000000, 0x7FFFFFFFFFFFFFFF, 0x8000000000000000
FP64 = z3.Float64()
RNE = z3.RNE()
INF = 1 << 1024
MAXF = (1 << 1024) - (1 << 970)
_names = {}
for _f in [P_lt, P_le, P_eq, P_nan, P_sgn, F_neg, F_abs] + list(F2.values()) + list(F1.values()) + list(FROMI.values()) + list(TOI.values()):
    _names[_f.name()] = _f

_keep = []          # keeps asts alive so that ids stay unique
_has = {}


def has(e):
    """Does the expression contain a symbol of this module?"""
    stack = [e]
    while stack:
        x = stack[-1]
        i = x.get_id()
        if i in _has:
            stack.pop()
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and x.decl().name().startswith("d."):
            _has[i] = True
            _keep.append(x)
            stack.pop()
            continue
        todo = [c for c in x.children() if c.get_id() not in _has]
        if todo:
            stack.extend(todo)
            continue
        _has[i] = any(_has[c.get_id()] for c in x.children())
        _keep.append(x)
        stack.pop()
    return _has[e.get_id()]


def rebuild(x, ch):
    old = x.children()
    if all(a is b or a.eq(b) for a, b in zip(old, ch)):
        return x
    k = x.decl().kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    args = (z3.Ast * len(ch))(*[c.as_ast() for c in ch])
    return z3.z3._to_expr_ref(z3.Z3_mk_app(x.ctx_ref(), x.decl().ast, len(ch), args), x.ctx)


def to_fp(a):
    return z3.fpBVToFP(a, FP64)


def key(a):
    return z3.If(z3.Extract(63, 63, a) == 1, -(a & MAGM), a & MAGM)


def isnan(a):
    return z3.UGT(a & MAGM, EXPM)


class Translator:
    def __init__(self):
        self.memo = {}

    def tr(self, e):
        if not has(e):
            return e
        stack = [e]
        memo = self.memo
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in memo:
                stack.pop()
                continue
            if not has(x):
                memo[i] = x
                stack.pop()
                continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[i] = self.app(x, [memo[c.get_id()] for c in ch])
            stack.pop()
        return memo[e.get_id()]

    def app(self, x, ch):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in _names:
            return self.sym(x, x.decl().name()[2:], ch)
        return rebuild(x, ch)


class Precise(Translator):
    """Definitions over bits / SMT floating point.  Side constraints in self.side."""

    def __init__(self, uf=False):
        super().__init__()
        self.uf = uf
        self.side = {}      # id of the fresh variable -> constraint
        self.deps = {}
        self.partial = False
        self.vars = {}

    def sym(self, x, n, ch):
        a = ch[0]
        if n == "lt" or n == "le":
            b = ch[1]
            ka, kb = key(a), key(b)
            return z3.And(z3.Not(isnan(a)), z3.Not(isnan(b)), ka < kb if n == "lt" else ka <= kb)
        if n == "eq":
            b = ch[1]
            return z3.And(z3.Not(isnan(a)), z3.Not(isnan(b)), z3.Or(a == b, ((a | b) & MAGM) == 0))
        if n == "nan":
            return isnan(a)
        if n == "sgn":
            return z3.Extract(63, 63, a) == 1
        if n == "neg":
            return a ^ SGNM
        if n == "abs":
            return a & MAGM
        if self.uf:
            return x.decl()(*ch)
        f = None
        if n in ("fadd", "fsub", "fmul", "fdiv"):
            f = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[n](RNE, to_fp(a), to_fp(ch[1]))
        elif n == "sqrt":
            f = z3.fpSqrt(RNE, to_fp(a))
        elif n in ("floor", "ceil", "trunc"):
            f = z3.fpRoundToIntegral({"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ()}[n], to_fp(a))
        elif n.startswith("sitofp"):
            f = z3.fpSignedToFP(RNE, a, FP64)
        elif n.startswith("uitofp"):
            f = z3.fpUnsignedToFP(RNE, a, FP64)
        elif n.startswith("fptosi"):
            return z3.fpToSBV(z3.RTZ(), to_fp(a), x.sort())
        elif n.startswith("fptoui"):
            return z3.fpToUBV(z3.RTZ(), to_fp(a), x.sort())
        if f is None:
            self.partial = True
            return x.decl()(*ch)
        v = z3.BitVec("fp!%d" % x.get_id(), 64)
        _keep.append(x)
        self.side[v.get_id()] = to_fp(v) == f
        self.vars[v.get_id()] = v
        return v

    def sides(self, exprs):
        """The side constraints needed by the translated expressions."""
        out, seen, todo = [], set(), list(exprs)
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if i in self.side:
                c = self.side[i]
                out.append(c)
                todo.append(c)
            todo.extend(x.children())
        return out


def const_val(t):
    """(is_nan, Fraction) of a BV constant."""
    import struct
    b = t.as_long()
    if (b & MAGM) > EXPM:
        return True, Fraction(0)
    if (b & MAGM) == EXPM:
        return False, Fraction(-INF if b >> 63 else INF)
    return False, Fraction(struct.unpack("<d", struct.pack("<Q", b))[0])


HPI = Fraction(float.fromhex('0x1.921fb54442d18p+0'))
HPI = z3.Q(HPI.numerator, HPI.denominator)


def rv(fr):
    return z3.RealVal("%d/%d" % (fr.numerator, fr.denominator)) if fr.denominator != 1 else z3.RealVal(fr.numerator)


def rabs(x):
    return z3.If(x >= 0, x, -x)


class Abstract(Translator):
    def __init__(self, err=False):
        super().__init__()
        self.err = err
        self.rmemo = {}
        self.terms = {}       # id -> (term, kind) of every double term met (originals)
        self.order = []

    # R and N of an original double term
    def RN(self, t):
        i = t.get_id()
        if i in self.rmemo:
            return self.rmemo[i]
        r = self._RN(t)
        self.rmemo[i] = r
        _keep.append(t)
        self.order.append(t)
        return r

    def _RN(self, t):
        if z3.is_bv_value(t):
            n, f = const_val(t)
            return rv(f), z3.BoolVal(n)
        k = t.decl().kind()
        if k == z3.Z3_OP_ITE:
            c = self.tr(t.arg(0))
            (a, na), (b, nb) = self.RN(t.arg(1)), self.RN(t.arg(2))
            return z3.If(c, a, b), z3.If(c, na, nb)
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args():
            n = t.decl().name()
            if n == "d.neg":
                a, na = self.RN(t.arg(0))
                return -a, na
            if n == "d.abs":
                a, na = self.RN(t.arg(0))
                return rabs(a), na
            if n[2:] in F2 or n[2:] in F1:
                for c in t.children():
                    self.RN(c)
        T = self.tr(t)
        return RR(T), NN(T)

    def sym(self, x, n, ch):
        if n in ("lt", "le", "eq"):
            (a, na), (b, nb) = self.RN(x.arg(0)), self.RN(x.arg(1))
            c = {"lt": a < b, "le": a <= b, "eq": a == b}[n]
            return z3.And(z3.Not(na), z3.Not(nb), c)
        if n == "nan":
            return self.RN(x.arg(0))[1]
        if n == "sgn":
            self.RN(x.arg(0))
            return P_sgn(ch[0])
        r = x.decl()(*ch)
        if n in F2 or n in F1 or n in ("neg", "abs"):
            # the value may be used as bits; its real value is introduced on demand
            pass
        return r

    # facts about the double terms met
    def facts_for(self, new, old=(), light=False):
        """Facts about the new terms, and about the roundings of new and old terms against each other."""
        out = []
        for t in new:
            out += self.term_facts(t)
        out += self.monotone(list(old) + list(new), len(old))
        if light:
            return out
        allt = list(old) + list(new)
        nold = len(old)
        for i, t in enumerate(allt):
            s = self.rounded(t)
            if s is None:
                continue
            R, N = self.RN(t)
            cond, val = s
            for j, p in enumerate(allt):
                if (i < nold and j < nold) or p is t or p.get_id() == t.get_id():
                    continue
                pr, pn = self.RN(p)
                out.append(z3.Implies(z3.And(cond, z3.Not(pn)),
                                      z3.And(z3.Implies(val <= pr, R <= pr), z3.Implies(val >= pr, R >= pr))))
                if j < i and self.rounded(p) is not None:      # rounding is symmetric
                    out.append(z3.Implies(z3.And(cond, z3.Not(pn)),
                                          z3.And(z3.Implies(val <= -pr, R <= -pr), z3.Implies(val >= -pr, R >= -pr))))
                    c2, val2 = self.rounded(p)
                    out.append(z3.Implies(z3.And(cond, c2), z3.And(z3.Implies(val <= val2, R <= pr), z3.Implies(val >= val2, R >= pr),
                                                                   z3.Implies(val <= -val2, R <= -pr), z3.Implies(val >= -val2, R >= -pr))))
        return out

    def monotone(self, allt, nold):
        """Products and quotients that share an operand, and square roots, compare like their operands."""
        out = []
        g = {}
        for i, t in enumerate(allt):
            if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args()):
                continue
            n = t.decl().name()[2:]
            if n == "fdiv":
                ks = [("fdiv", t.arg(1).get_id(), 0)]
            elif n == "fmul":
                ks = [("fmul", t.arg(1).get_id(), 0), ("fmul", t.arg(0).get_id(), 1)]
            elif n == "sqrt":
                ks = [("sqrt", 0, 0)]
            else:
                continue
            for op, sh, k in ks:
                for j, p, kp in g.get((op, sh), []):
                    if (i < nold and j < nold) or p.get_id() == t.get_id():
                        continue
                    (R, N), (S, M) = self.RN(t), self.RN(p)
                    (a, _), (b, _) = self.RN(t.arg(k)), self.RN(p.arg(kp))
                    ok = z3.And(z3.Not(N), z3.Not(M))
                    if op == "sqrt":
                        out.append(z3.Implies(ok, z3.And(z3.Implies(a <= b, R <= S), z3.Implies(a >= b, R >= S))))
                    else:
                        out.append(z3.Implies(ok, z3.And(z3.Implies(rabs(a) <= rabs(b), rabs(R) <= rabs(S)), z3.Implies(rabs(a) >= rabs(b), rabs(R) >= rabs(S)))))
                g.setdefault((op, sh), []).append((i, t, k))
        return out

    def rounded(self, t):
        """(condition, exact real value) if t is the rounding of a real value."""
        if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args()):
            return None
        n = t.decl().name()[2:]
        if n not in ("fadd", "fsub", "fmul", "fdiv"):
            return None
        (a, na), (b, nb) = self.RN(t.arg(0)), self.RN(t.arg(1))
        fin = z3.And(z3.Not(na), z3.Not(nb), self.finite(t.arg(0)), self.finite(t.arg(1)))
        if n == "fadd":
            return fin, a + b
        if n == "fsub":
            return fin, a - b
        if n == "fmul":
            if z3.is_rational_value(a) or z3.is_rational_value(b) or t.arg(0).eq(t.arg(1)) or self.err:
                return fin, a * b
            return None
        if n == "fdiv" and z3.is_rational_value(b) and b.as_fraction() != 0:
            return fin, a / b
        return None

    def finite(self, t):
        if z3.is_bv_value(t):
            n, f = const_val(t)
            return z3.BoolVal(not n and abs(f) != INF)
        a, na = self.RN(t)
        return z3.And(a < INF, a > -INF)

    def term_facts(self, t):
        if z3.is_bv_value(t):
            return []
        R, N = self.RN(t)
        out = []
        k = t.decl().kind()
        if k == z3.Z3_OP_ITE:
            return []
        n = t.decl().name()[2:] if k == z3.Z3_OP_UNINTERPRETED and t.num_args() else None
        if n in ("neg", "abs"):
            if n == "abs":
                out.append(z3.Implies(z3.Not(N), z3.Not(P_sgn(self.tr(t)))))
            return out
        T = self.tr(t)
        out.append(z3.And(R <= INF, R >= -INF, z3.Or(R >= INF, R <= MAXF), z3.Or(R <= -INF, R >= -MAXF)))
        out.append(z3.Implies(z3.Not(N), z3.And(z3.Implies(P_sgn(T), R <= 0), z3.Implies(z3.Not(P_sgn(T)), R >= 0))))
        if n in ("fadd", "fsub"):
            (a, na), (b, nb) = self.RN(t.arg(0)), self.RN(t.arg(1))
            if n == "fsub":
                b = -b
            fa, fb = z3.And(a < INF, a > -INF), z3.And(b < INF, b > -INF)
            out.append(N == z3.Or(na, nb, z3.And(z3.Not(fa), z3.Not(fb), a == -b)))
            if n == "fadd":
                sa, sb = P_sgn(self.tr(t.arg(0))), P_sgn(self.tr(t.arg(1)))
                out.append(z3.Implies(z3.Not(N), z3.And(z3.Implies(z3.And(z3.Not(sa), z3.Not(sb)), z3.Not(P_sgn(T))), z3.Implies(z3.And(sa, sb), P_sgn(T)))))
            out.append(z3.Implies(z3.Not(N), z3.And(z3.Implies(z3.Not(fa), R == a), z3.Implies(z3.Not(fb), R == b))))
            fin = z3.And(z3.Not(N), fa, fb)
            s = a + b
            out.append(z3.Implies(fin, z3.And(z3.Implies(s == 0, R == 0), z3.Implies(s > 0, R > 0), z3.Implies(s < 0, R < 0),
                                              z3.Implies(s <= MAXF, R <= MAXF), z3.Implies(s >= -MAXF, R >= -MAXF))))
            out.append(z3.Implies(fin, z3.And(z3.Implies(b >= 0, R >= a), z3.Implies(b <= 0, R <= a), z3.Implies(a >= 0, R >= b), z3.Implies(a <= 0, R <= b))))
            if self.err:
                # both operands are doubles: the nearest one is not further away than they are
                out.append(z3.Implies(z3.And(fin, s <= MAXF, s >= -MAXF), z3.And(R - s <= rabs(a), s - R <= rabs(a), R - s <= rabs(b), s - R <= rabs(b))))
                for z in (2 * a, 2 * b):
                    out.append(z3.Implies(z3.And(fin, z <= MAXF, z >= -MAXF), z3.And(z3.Implies(s >= z, R >= z), z3.Implies(s <= z, R <= z))))
            if self.err == "abs":
                u = z3.Q(1, 1 << 49)
                out.append(z3.Implies(z3.And(fin, s <= 16, s >= -16), z3.And(R - s <= u, s - R <= u)))
            elif self.err:
                u = z3.Q(1, 1 << 53)
                out.append(z3.Implies(z3.And(fin, R <= MAXF, R >= -MAXF), z3.And(R - s <= u * rabs(s), s - R <= u * rabs(s))))
        elif n == "fmul":
            (a, na), (b, nb) = self.RN(t.arg(0)), self.RN(t.arg(1))
            fa, fb = z3.And(a < INF, a > -INF), z3.And(b < INF, b > -INF)
            out.append(N == z3.Or(na, nb, z3.And(z3.Not(fa), b == 0), z3.And(z3.Not(fb), a == 0)))
            out.append(z3.Implies(z3.Not(N), z3.And(z3.Implies(z3.And(a >= 0, b >= 0), R >= 0), z3.Implies(z3.And(a <= 0, b <= 0), R >= 0),
                                                    z3.Implies(z3.And(a >= 0, b <= 0), R <= 0), z3.Implies(z3.And(a <= 0, b >= 0), R <= 0))))
            out.append(z3.Implies(z3.And(z3.Not(N), z3.Or(z3.Not(fa), z3.Not(fb))), z3.Or(R == INF, R == -INF)))
            if t.arg(0).eq(t.arg(1)):
                out.append(z3.Implies(z3.Not(N), z3.And(R >= 0, z3.Not(P_sgn(T)))))
            fin = z3.And(z3.Not(N), fa, fb)
            out.append(z3.Implies(fin, z3.And(z3.Implies(rabs(b) <= 1, rabs(R) <= rabs(a)), z3.Implies(rabs(a) <= 1, rabs(R) <= rabs(b)),
                                              z3.Implies(rabs(b) >= 1, rabs(R) >= rabs(a)), z3.Implies(rabs(a) >= 1, rabs(R) >= rabs(b)))))
            if z3.is_rational_value(a) or z3.is_rational_value(b):
                fin = z3.And(z3.Not(N), fa, fb)
                s = a * b
                out.append(z3.Implies(fin, z3.And(z3.Implies(s <= MAXF, R <= MAXF), z3.Implies(s >= -MAXF, R >= -MAXF))))
                cst = a if z3.is_rational_value(a) else b
                fr = abs(cst.as_fraction())
                if self.err and fr.numerator == 1 and fr.denominator <= 1 << 20 and fr.denominator & (fr.denominator - 1) == 0:
                    out.append(z3.Implies(z3.And(fin, z3.Or(s >= z3.Q(1, 1 << 900), s <= z3.Q(-1, 1 << 900))), R == s))
                    out.append(z3.Implies(fin, z3.And(R - s <= z3.Q(1, 1 << 900), s - R <= z3.Q(1, 1 << 900))))
                if fr.denominator == 1 and fr > 0 and fr.numerator & (fr.numerator - 1) == 0:
                    out.append(z3.Implies(z3.And(fin, s <= MAXF, s >= -MAXF), R == s))
                elif self.err == "abs":
                    u = z3.Q(1, 1 << 49)
                    out.append(z3.Implies(z3.And(fin, s <= 16, s >= -16), z3.And(R - s <= u, s - R <= u)))
        elif n == "fdiv":
            (a, na), (b, nb) = self.RN(t.arg(0)), self.RN(t.arg(1))
            fa, fb = z3.And(a < INF, a > -INF), z3.And(b < INF, b > -INF)
            out.append(N == z3.Or(na, nb, z3.And(z3.Not(fa), z3.Not(fb)), z3.And(a == 0, b == 0)))
            out.append(z3.Implies(z3.And(z3.Not(N), b != 0), z3.And(z3.Implies(z3.Or(z3.And(a >= 0, b > 0), z3.And(a <= 0, b < 0)), R >= 0),
                                  z3.Implies(z3.Or(z3.And(a >= 0, b < 0), z3.And(a <= 0, b > 0)), R <= 0))))
            out.append(z3.Implies(z3.Not(N), z3.And(z3.Implies(z3.Not(fb), R == 0), z3.Implies(z3.Not(fa), z3.Or(R == INF, R == -INF)),
                                                    z3.Implies(z3.And(fa, b == 0), z3.Or(R == INF, R == -INF)))))
            fin = z3.And(z3.Not(N), fa, fb, b != 0)
            out.append(z3.Implies(fin, z3.And(z3.Implies(rabs(a) <= rabs(b), rabs(R) <= 1), z3.Implies(rabs(a) >= rabs(b), rabs(R) >= 1),
                                              z3.Implies(rabs(b) >= 1, rabs(R) <= rabs(a)), z3.Implies(rabs(b) <= 1, rabs(R) >= rabs(a)),
                                              z3.Implies(a == 0, R == 0))))
        elif n == "sqrt":
            a, na = self.RN(t.arg(0))
            out.append(N == z3.Or(na, a < 0))
            out.append(z3.Implies(z3.Not(N), z3.And(R >= 0, (R == 0) == (a == 0), z3.Implies(a <= 1, R <= 1), z3.Implies(a >= 1, R >= 1),
                                                    (R == INF) == (a == INF),
                                                    z3.Implies(z3.Not(P_sgn(self.tr(t.arg(0)))), z3.Not(P_sgn(T))))))
        elif n in ("floor", "ceil", "trunc"):
            a, na = self.RN(t.arg(0))
            out.append(N == na)
            fa = z3.And(a < INF, a > -INF)
            if n == "floor":
                out.append(z3.Implies(z3.Not(N), z3.And(R <= a, z3.Implies(fa, R > a - 1))))
            elif n == "ceil":
                out.append(z3.Implies(z3.Not(N), z3.And(R >= a, z3.Implies(fa, R < a + 1))))
            else:
                out.append(z3.Implies(z3.Not(N), z3.And(z3.Implies(a >= 0, z3.And(R <= a, R >= 0)), z3.Implies(a <= 0, z3.And(R >= a, R <= 0)))))
            out.append(z3.Implies(z3.Not(fa), R == a))
            out.append(z3.Implies(z3.And(z3.Not(N), fa), z3.ToReal(z3.ToInt(R)) == R))
        elif n == "fmod":
            (a, na), (b, nb) = self.RN(t.arg(0)), self.RN(t.arg(1))
            fa = z3.And(a < INF, a > -INF)
            out.append(N == z3.Or(na, nb, z3.Not(fa), b == 0))
            ok = z3.Not(N)
            out.append(z3.Implies(ok, z3.And(rabs(R) < rabs(b), rabs(R) <= rabs(a), z3.Implies(a >= 0, R >= 0), z3.Implies(a <= 0, R <= 0),
                                             z3.Implies(rabs(a) < rabs(b), R == a),
                                             z3.Implies(z3.And(rabs(a) >= rabs(b), rabs(a) < 2 * rabs(b)), rabs(R) == rabs(a) - rabs(b)))))
        elif n in ("sin", "cos", "tan"):
            # assumed contract of libm: NaN exactly for NaN and infinities, range of sin and cos
            a, na = self.RN(t.arg(0))
            out.append(N == z3.Or(na, a >= INF, a <= -INF))
            if n != "tan":
                out.append(z3.Implies(z3.Not(N), z3.And(R <= 1, R >= -1)))
        elif n in ("asin", "acos"):
            # assumed contract of libm: domain, sign and range
            a, na = self.RN(t.arg(0))
            out.append(N == z3.Or(na, a > 1, a < -1))
            if n == "asin":
                out.append(z3.Implies(z3.Not(N), z3.And(R <= HPI, R >= -HPI, z3.Implies(a >= 0, R >= 0), z3.Implies(a <= 0, R <= 0))))
            else:
                out.append(z3.Implies(z3.Not(N), z3.And(R <= 2 * HPI, R >= 0)))
        elif n == "atan":
            a, na = self.RN(t.arg(0))
            out.append(N == na)
            out.append(z3.Implies(z3.Not(N), z3.And(R <= HPI, R >= -HPI, z3.Implies(a >= 0, R >= 0), z3.Implies(a <= 0, R <= 0))))
        elif n == "atan2":
            (y, ny), (x, nx) = self.RN(t.arg(0)), self.RN(t.arg(1))
            out.append(N == z3.Or(ny, nx))
            sy = P_sgn(self.tr(t.arg(0)))
            out.append(z3.Implies(z3.Not(N), z3.And(R <= 2 * HPI, R >= -2 * HPI, z3.Implies(z3.Not(sy), R >= 0), z3.Implies(sy, R <= 0),
                                                    z3.Implies(x > 0, z3.And(R <= HPI, R >= -HPI)))))
        elif n and n.startswith("sitofp") or n and n.startswith("uitofp"):
            out.append(z3.Not(N))
            w = int(n[6:])
            lim = 1 << w
            out.append(z3.And(R <= lim, R >= (-lim if n[0] == "s" else 0)))
            if w <= 32:
                x = self.tr(t.arg(0))
                out.append(R == z3.ToReal(z3.BV2Int(x, n[0] == "s")))
        return out
