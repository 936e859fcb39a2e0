"""Rounding-error analysis as linear real arithmetic.

A double computed from the inputs by +, -, *, |.| is the exact polynomial of the inputs up to an error
that is bounded by a combination, with positive coefficients, of the magnitudes of monomials (round to
nearest: |fl(x) - x| <= 2^-53 |x|, plus 2^-1075 for a product that underflows; sums never underflow;
nothing overflows, which is checked from the bounds of the inputs).  Comparisons of such doubles on the
path become linear facts about monomials and their magnitudes.  The goal speaks about the sign of an exact
polynomial, written as an uninterpreted function with the polynomial's name ("det": the determinant of
nine doubles).  Every fact is true of IEEE doubles, so that 'unsat' is a proof."""
from fractions import Fraction as Fr
import struct

import z3

from . import fp

EPS, ETA = Fr(1, 1 << 53), Fr(1, 1 << 1075)


class Bail(Exception):
    pass


def dbl(v):
    d = struct.unpack("<d", struct.pack("<Q", v))[0]
    if d != d or d in (float("inf"), float("-inf")):
        raise Bail("not finite")
    return Fr(d)


def add(p, q, c=1):
    r = dict(p)
    for m, k in q.items():
        r[m] = r.get(m, 0) + c * k
        if r[m] == 0:
            del r[m]
    return r


def scale(p, c):
    return {m: k * c for m, k in p.items()} if c else {}


def mul(p, q):
    r = {}
    for m, k in p.items():
        for n, j in q.items():
            t = tuple(sorted(m + n))
            r[t] = r.get(t, 0) + k * j
            if r[t] == 0:
                del r[t]
    return r


def mag(p):
    """The magnitudes of the monomials of p."""
    r = {}
    for m, k in p.items():
        t = tuple(sorted((v, 1) for v, _ in m))
        r[t] = r.get(t, 0) + abs(k)
    return r


class Analysis:
    def __init__(self, sub=None):
        self.memo, self.vars, self.sub, self.keep = {}, {}, sub or {}, []

    def var(self, x):
        i = x.get_id()
        if i in self.sub:
            y, s = self.sub[i]
            p = self.var(y)
            return {m: k * s for m, k in p.items()}
        if i not in self.vars:
            self.vars[i] = x
        return {((i, 0),): Fr(1)}

    def node(self, x):
        """(polynomial, error bound, parts of a sum)"""
        i = x.get_id()
        if i not in self.memo:
            self.keep.append(x)
            self.memo[i] = self._node(x)
        return self.memo[i]

    def _node(self, x):
        if z3.is_bv_value(x):
            c = dbl(x.as_long())
            return ({(): c} if c else {}), {}, None
        k = x.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED and x.num_args():
            n = x.decl().name()
            if n in ("d.fadd", "d.fsub", "d.fmul"):
                (p, e, _), (q, f, _) = self.node(x.arg(0)), self.node(x.arg(1))
                if n == "d.fmul":
                    for (a, ea), (b, eb) in (((p, e), (q, f)), ((q, f), (p, e))):
                        if a == {(): Fr(1)} and not ea:
                            return b, eb, None
                        if not a and not ea:
                            return {}, {}, None
                    r = mul(p, q)
                    err = add(add(mul(mag(p), f), mul(mag(q), e)), mul(e, f))
                    return r, add(add(err, scale(add(mag(r), err), EPS)), {(): ETA}), None
                r = add(p, q, 1 if n == "d.fadd" else -1)
                err = add(e, f)
                for (a, ea), (b, eb) in (((p, e), (q, f)), ((q, f), (p, e))):
                    if not a and not ea:            # plus zero
                        return r, err, None
                return r, add(err, scale(add(mag(r), err), EPS)), (r, err)
            if n == "d.neg":
                p, e, s = self.node(x.arg(0))
                return scale(p, -1), e, None
            if n == "d.abs":
                p, e, s = self.node(x.arg(0))
                if len(p) > 1:
                    raise Bail("magnitude of a sum")
                return mag(p), e, None
            if n.startswith("d."):
                raise Bail(n)
            return self.var(x), {}, None
        if k == z3.Z3_OP_UNINTERPRETED or k in (z3.Z3_OP_SELECT, z3.Z3_OP_CONCAT, z3.Z3_OP_EXTRACT):
            return self.var(x), {}, None
        if k == z3.Z3_OP_BXOR and z3.is_bv_value(x.arg(1)) and x.arg(1).as_long() == fp.SGNM:
            p, e, s = self.node(x.arg(0))
            return scale(p, -1), e, None
        raise Bail(str(x.decl()))


def literals(pc):
    out, todo = [], list(pc)
    while todo:
        c = todo.pop()
        if z3.is_and(c):
            todo.extend(c.children())
        else:
            out.append(c)
    return out


REL = {"d.lt": "<", "d.le": "<=", "d.eq": "=="}


def atom(c):
    """(relation, a, b, negated)"""
    neg = False
    while z3.is_not(c):
        c, neg = c.arg(0), not neg
    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED and c.decl().name() in REL:
        return REL[c.decl().name()], c.arg(0), c.arg(1), neg
    return None


def find_det(g):
    out, todo, seen = {}, [g], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() == "uf.det":
            out[x.get_id()] = x
        todo.extend(x.children())
    return list(out.values())


class Lin:
    """Monomials and magnitudes as variables of linear arithmetic."""

    def __init__(self, bound):
        self.bound, self.m, self.side = bound, {}, []
        self.b = max([Fr(1)] + list(bound.values()))

    def mono(self, m):
        if m in self.m:
            return self.m[m]
        if not m:
            return z3.RealVal(1)
        v = z3.Real("m_" + "_".join("%s%d" % ("a" if a else "x", i) for i, a in m))
        self.m[m] = v
        a = tuple(sorted((i, 1) for i, _ in m))
        if a == m:
            up = Fr(1)
            for i, _ in m:
                up *= self.bound[i]
            self.side += [v >= 0, v <= z3.RealVal(str(up))]
            if len(m) == 2 and m[0] != m[1]:        # 2xy <= x^2 + y^2
                self.side.append(2 * v <= self.mono((m[0], m[0])) + self.mono((m[1], m[1])))
            if len(m) > 2:
                for k in range(len(m)):
                    self.side.append(v <= z3.RealVal(str(self.bound[m[k][0]])) * self.mono(m[:k] + m[k + 1:]))
        else:
            w = self.mono(a)
            self.side.append(z3.And(v <= w, -w <= v))
            # squares are magnitudes
            if all(m.count((i, 0)) % 2 == 0 for i, s in m if s == 0):
                self.side.append(v == w)
        return v

    def lin(self, p):
        return z3.Sum([z3.RealVal(0)] + [z3.RealVal(str(k)) * self.mono(m) for m, k in p.items()])


def prove(pc, goal, timeout):
    """True if the goal, about signs of determinants, holds on the path."""
    dets = find_det(goal)
    if len(dets) != 1:
        return False
    det = dets[0]
    lits = [a for a in map(atom, literals(pc)) if a]
    sub = {}

    def base(x):
        """(term, sign) of an input or a negated one"""
        s = 1
        while True:
            if z3.is_app(x) and x.decl().name() == "d.neg":
                x, s = x.arg(0), -s
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_BXOR and z3.is_bv_value(x.arg(1)) and x.arg(1).as_long() == fp.SGNM:
                x, s = x.arg(0), -s
            else:
                break
        while x.get_id() in sub:
            x, t = sub[x.get_id()]
            s *= t
        return x, s
    for r, a, b, neg in lits:
        if r == "==" and not neg:
            (x, s), (y, t) = base(a), base(b)
            if z3.is_bv_value(x) or not z3.is_const(x) or x.get_id() == y.get_id():
                (x, s), (y, t) = (y, t), (x, s)
            if z3.is_const(x) and not z3.is_bv_value(x) and z3.is_const(y) and not z3.is_bv_value(y) and x.get_id() != y.get_id():
                sub[x.get_id()] = (y, s * t)
    A = Analysis(sub)

    def node(x):
        """A node, or (None, the node of y) for the magnitude of a sum y"""
        try:
            return A.node(x)
        except Bail:
            if z3.is_app(x) and x.decl().name() == "d.abs":
                return None, A.node(x.arg(0)), x.arg(0)
            raise

    def polys(n):
        return polys(n[1]) if n[0] is None else n[:2]
    facts = []
    for r, a, b, neg in lits:
        if r == "==":
            continue
        try:
            facts.append((r, a, b, neg, node(a), node(b)))
        except Bail:
            pass
    d = [A.node(det.arg(i))[0] for i in range(9)]
    D = {}
    for s, i, j, k in ((1, 0, 4, 8), (-1, 0, 5, 7), (1, 1, 5, 6), (-1, 1, 3, 8), (1, 2, 3, 7), (-1, 2, 4, 6)):
        D = add(D, mul(mul(d[i], d[j]), d[k]), s)
    # the bounds of the inputs
    bound = {}
    lo, hi = {}, {}
    for r, a, b, neg, na, nb in facts:
        if neg or na[0] is None or nb[0] is None:
            continue
        if z3.is_bv_value(b) and list(na[0].values()) == [1] and len(list(na[0])[0]) == 1 and not na[1]:
            hi[list(na[0])[0][0][0]] = nb[0].get((), Fr(0))
        if z3.is_bv_value(a) and list(nb[0].values()) == [1] and len(list(nb[0])[0]) == 1 and not nb[1]:
            lo[list(nb[0])[0][0][0]] = na[0].get((), Fr(0))
    for i in A.vars:
        if i in lo and i in hi:
            bound[i] = max(abs(lo[i]), abs(hi[i]))
    used = {v for m in D for v, _ in m}
    if not used <= set(bound):
        return False
    L = Lin(bound)
    cons = []
    big = Fr(1 << 1000)

    def value(x, n):
        """The real value of a node."""
        if n[0] is None:
            v = value(n[2], n[1])
            return z3.If(v >= 0, v, -v)
        p, e, s = n
        if not e:
            return L.lin(p)
        tot = sum(k * L.b ** len(m) for m, k in list(mag(p).items()) + list(e.items()))
        if tot > big:
            raise Bail("may overflow")
        v = z3.Real("v_%d" % x.get_id())
        P, E = L.lin(p), L.lin(e)
        cons.append(z3.And(v - P <= E, P - v <= E))
        if s:
            w = z3.Real("s_%d" % x.get_id())
            Q, F = L.lin(s[0]), L.lin(s[1])
            av = z3.If(v >= 0, v, -v) * z3.RealVal(str(EPS))
            cons.append(z3.And(w - Q <= F, Q - w <= F, v - w <= av, w - v <= av))
        return v

    def compare(r, a, b, na, nb):
        if not all(v in bound for n in (na, nb) for q in polys(n) for m in q for v, _ in m):
            raise Bail("unbounded")
        x, y = value(a, na), value(b, nb)
        return x < y if r == "<" else x <= y if r == "<=" else x == y
    for r, a, b, neg, na, nb in facts:
        try:
            c = compare(r, a, b, na, nb)
        except Bail:
            continue
        cons.append(z3.Not(c) if neg else c)

    def meaning(g):
        """g with the comparisons in it replaced by comparisons of real numbers"""
        todo, seen, rep = [g], set(), []
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in REL:
                a, b = x.arg(0), x.arg(1)
                try:
                    rep.append((x, compare(REL[x.decl().name()], a, b, node(a), node(b))))
                except Bail:
                    pass
                continue
            todo.extend(x.children())
        return z3.substitute(g, *rep) if rep else None
    DD = L.lin(D)
    for sv in (-1, 0, 1):
        g = z3.simplify(z3.substitute(goal, (det, z3.BitVecVal(sv, det.size()))))
        if z3.is_true(g):
            continue
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*(L.side + cons))
        s.add(DD < 0 if sv < 0 else DD > 0 if sv > 0 else DD == 0)
        if not z3.is_false(g):
            g = meaning(g)
            if g is not None:
                s.add(z3.Not(g))
                s.add(*cons)
        if s.check() != z3.unsat:
            return False
    # any other value is excluded by the definition of a sign
    sgn = z3.Or(*[det == z3.BitVecVal(k, det.size()) for k in (-1, 0, 1)])
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(z3.Not(goal), z3.Not(sgn))
    return s.check() == z3.unsat or any(sgn.eq(c) for c in literals(pc)) or implied(pc, sgn, timeout)


def implied(pc, g, timeout):
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*pc)
    s.add(z3.Not(g))
    return s.check() == z3.unsat
