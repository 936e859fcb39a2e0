"""Deductive verification of LLVM IR compiled from the real sphgeom sources.

The engine generates verification conditions by forward symbolic execution of
every path of a *spec function* (a contract written in C++ over the real API,
see specs/*.cc).  Calls are executed through the callee's contract when one is
registered (contracts.py), through the callee's body otherwise; loops are cut
with invariants when a loop contract is registered, and unrolled completely
otherwise (a loop that does not terminate within the stated limit is an error,
or makes the result 'bounded' when the caller asked for a bounded check).
Every assertion of the contract and every safety condition met on the way
(memory bounds, signed overflow, shift width, division by zero, float to
integer range, uncaught exception) is an obligation for an SMT solver.
"""
import itertools
import os
import re
import struct
import time

import z3

from . import fp, ints, ir, solve
from .ir import L, C

M64 = (1 << 64) - 1


class Unsupported(Exception):
    """The code uses a construct that the verifier does not handle."""


class Stop(Exception):
    pass


class Failed(Exception):
    """Enough obligations have failed; the contract is not verified."""


# ------------------------------------------------------------------ values
class Ptr:
    __slots__ = ("obj", "off", "sc")

    def __init__(self, obj, off=0, sc=1):
        self.obj, self.off, self.sc = obj, off, sc

    def __repr__(self):
        return "Ptr(%s+%s*%s)" % (self.obj, self.off, self.sc)


NULL = Ptr(0, 0)


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Fn(%s)" % self.name


class PtrIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class PtrInt:
    """ptrtoint of a pointer into an object (kept symbolic)."""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class Scaled:
    """A byte count v*sc (difference of two pointers into one array object)."""
    __slots__ = ("v", "sc")

    def __init__(self, v, sc):
        self.v, self.sc = v, sc


class Thrown:
    __slots__ = ("obj", "ti")

    def __init__(self, obj, ti):
        self.obj, self.ti = obj, ti


_cnt = itertools.count()


def fresh_name(p):
    return "%s!%d" % (p, next(_cnt))


def fresh_bv(p, w):
    return z3.BitVec(fresh_name(p), w)


def fresh_bool(p):
    return z3.Bool(fresh_name(p))


def is_c(x):
    return isinstance(x, (int, bool))


def bv(x, w):
    if isinstance(x, bool):
        return z3.BitVecVal(int(x), w)
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(x, Scaled):
        return bv(x.v, w) * x.sc
    if isinstance(x, z3.BitVecRef):
        return x
    raise Unsupported("value %r used as an integer" % (x,))


def bl(x):
    """To a z3 Bool / python bool."""
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return bool(x & 1)
    return x


def zbool(x):
    if isinstance(x, (bool, int)):
        return z3.BoolVal(bool(x))
    return x


def simp(x):
    if is_c(x) or not isinstance(x, z3.ExprRef):
        return x
    x = z3.simplify(x)
    if z3.is_bv_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def And(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a):
        return False
    if not a:
        return True
    if len(a) == 1:
        return a[0]
    return z3.And(*[zbool(x) for x in a])


def Or(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a):
        return True
    if not a:
        return False
    if len(a) == 1:
        return a[0]
    return z3.Or(*[zbool(x) for x in a])


def Not(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def Eq(a, b, w=64):
    if is_c(a) and is_c(b):
        return a == b
    return bv(a, w) == bv(b, w)


def b2d(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


def d2b(d):
    return struct.unpack("<Q", struct.pack("<d", d))[0]


# double helpers over bit patterns ------------------------------------------
EXPM = 0x7FF0000000000000
MAGM = 0x7FFFFFFFFFFFFFFF
SGNM = 0x8000000000000000


def d_isnan(a):
    if is_c(a):
        return (a & MAGM) > EXPM
    return fp.P_nan(a)


def _dcmp(P, a, b):
    return P(bv(a, 64), bv(b, 64))


def d_lt(a, b):
    if is_c(a) and is_c(b):
        return b2d(a) < b2d(b)
    if d_isnan(a) is True or d_isnan(b) is True:
        return False
    A, B = bv(a, 64), bv(b, 64)
    if A.eq(B):
        return False
    return fp.P_lt(A, B)


def d_le(a, b):
    if is_c(a) and is_c(b):
        return b2d(a) <= b2d(b)
    if d_isnan(a) is True or d_isnan(b) is True:
        return False
    A, B = bv(a, 64), bv(b, 64)
    if A.eq(B):
        return Not(d_isnan(a))
    return fp.P_le(A, B)


def d_eq(a, b):
    if is_c(a) and is_c(b):
        return b2d(a) == b2d(b)
    if d_isnan(a) is True or d_isnan(b) is True:
        return False
    A, B = bv(a, 64), bv(b, 64)
    if A.eq(B):
        return Not(d_isnan(a))
    if A.get_id() > B.get_id():
        A, B = B, A
    return fp.P_eq(A, B)


def d_neg(a):
    return a ^ SGNM if is_c(a) else fp.F_neg(a)


def d_abs(a):
    return a & MAGM if is_c(a) else fp.F_abs(a)


def d_sgn(a):
    if is_c(a):
        return bool(a >> 63)
    if z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_bv_value(a.arg(1)) and z3.is_bv_value(a.arg(2)):
        x, y = a.arg(1).as_long() >> 63, a.arg(2).as_long() >> 63
        return bool(x) if x == y else (a.arg(0) if x else z3.Not(a.arg(0)))
    return fp.P_sgn(a)


def dbl_bits(op, a, b):
    """Sign and magnitude masks of vectors of doubles."""
    if is_c(a):
        a, b = b, a
    if is_c(a) or not is_c(b):
        return None
    if op == "and" and b == MAGM:
        return fp.F_abs(a)
    if op == "or" and b < SGNM and z3.is_app_of(a, z3.Z3_OP_BAND) and a.num_args() == 2:
        x, y = a.arg(0), a.arg(1)
        if z3.is_bv_value(x):
            x, y = y, x
        if z3.is_bv_value(y) and y.as_long() == SGNM:
            return z3.If(d_sgn(x), z3.BitVecVal(b | SGNM, 64), z3.BitVecVal(b, 64))
    return None


FP64 = z3.Float64()
RNE = z3.RNE()


def to_fp(a):
    if is_c(a):
        return z3.fpBVToFP(z3.BitVecVal(a, 64), FP64)
    return z3.fpBVToFP(a, FP64)


# ------------------------------------------------------------------ memory
class Obj:
    """A memory object: typed cells at concrete offsets."""
    __slots__ = ("id", "size", "cells", "fill", "owner", "live", "kind", "name", "ro")

    def __init__(self, id, size, kind, fill=None, name=""):
        self.id, self.size, self.kind, self.fill, self.name = id, size, kind, fill, name
        self.cells, self.owner, self.live, self.ro = {}, None, True, False

    def copy(self, owner):
        o = Obj(self.id, self.size, self.kind, self.fill, self.name)
        o.cells, o.owner, o.live, o.ro = dict(self.cells), owner, self.live, self.ro
        return o


class ArrObj:
    """A memory object holding n elements of es bytes as an SMT array."""
    __slots__ = ("id", "es", "n", "arr", "owner", "live", "kind", "name", "ro", "cap")

    def __init__(self, id, es, n, arr, kind="arr", name=""):
        self.id, self.es, self.n, self.arr, self.kind, self.name = id, es, n, arr, kind, name
        self.owner, self.live, self.ro, self.cap = None, True, False, None

    @property
    def size(self):
        return None

    def copy(self, owner):
        o = ArrObj(self.id, self.es, self.n, self.arr, self.kind, self.name)
        o.owner, o.live, o.ro, o.cap = owner, self.live, self.ro, self.cap
        return o


def byte_of(v, n, k):
    """Byte k (little endian) of an n-byte integer value."""
    if is_c(v):
        return (int(v) >> (8 * k)) & 0xFF
    if isinstance(v, z3.BoolRef):
        v = bv(v, 8 * n)
    if isinstance(v, z3.BitVecRef):
        return z3.Extract(8 * k + 7, 8 * k, v)
    raise Unsupported("byte access to a pointer or pointer difference")


def concat_bytes(bs):
    if all(is_c(b) for b in bs):
        return sum(int(b) << (8 * i) for i, b in enumerate(bs))
    # recognise the bytes of one value
    e = [bv(b, 8) for b in reversed(bs)]
    return simp(z3.Concat(*e)) if len(e) > 1 else e[0]


class JOIN_T:
    """The value types at a loop header."""
    k = "struct"

    def __init__(self, phis):
        self.elems = [p.ty for p in phis]


class Frame:
    __slots__ = ("fn", "block", "ip", "regs", "ins", "prev", "allocas", "loops", "onret", "collect")

    def __init__(self, fn):
        self.fn, self.block, self.ip, self.regs, self.ins = fn, None, 0, {}, None
        self.prev, self.allocas, self.loops, self.onret, self.collect = None, [], {}, None, None

    def copy(self):
        f = Frame(self.fn)
        f.block, f.ip, f.regs, f.ins, f.prev = self.block, self.ip, dict(self.regs), self.ins, self.prev
        f.allocas, f.loops, f.onret, f.collect = list(self.allocas), dict(self.loops), self.onret, self.collect
        return f


class State:
    def __init__(self):
        self.mem, self.pc, self.frames = {}, [], []
        self.inputs, self.ghost, self.owner = [], {}, object()
        self.exc, self.caught, self.guards = None, [], []
        self.steps, self.named = 0, []
        self.facts = []       # quantified facts: (arr id key, lambda)
        self.globals = {}

    def fork(self):
        s = State()
        s.mem, s.pc = dict(self.mem), list(self.pc)
        s.frames = [f.copy() for f in self.frames]
        s.inputs, s.ghost = list(self.inputs), dict(self.ghost)
        s.exc, s.caught, s.guards = self.exc, list(self.caught), list(self.guards)
        s.steps, s.facts, s.globals = self.steps, list(self.facts), dict(self.globals)
        # both copies must copy objects on write from now on
        self.owner = object()
        return s

    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner is not self.owner:
            o = o.copy(self.owner)
            self.mem[oid] = o
        return o

    def assume(self, c):
        if c is True:
            return
        if c is False:
            self.pc.append(z3.BoolVal(False))
        else:
            self.pc.append(c)


SLOW = float(os.environ.get("IRV_SLOW", "0"))


# --------------------------------------------------------------- obligations
class Obligation:
    __slots__ = ("spec", "name", "kind", "status", "backend", "time", "model", "fn", "detail")

    def __init__(self, spec, name, kind):
        self.spec, self.name, self.kind = spec, name, kind
        self.status, self.backend, self.time, self.model, self.fn, self.detail = None, "", 0.0, None, "", ""


class Opts:
    def __init__(self, **kw):
        self.fp = "exact"            # 'exact' or 'uf'
        self.fp_uf_ops = ()          # ops abstracted as uninterpreted even in exact mode
        self.max_unroll = 300        # iterations of one loop in one frame activation
        self.bounded = False         # exceeding max_unroll drops the path (bounded check)
        self.timeout = 20000         # ms for one solver query
        self.feas_timeout = 400
        self.max_paths = 20000
        self.max_steps = 3000000
        self.budget = 600.0          # seconds for one spec function
        self.check_overflow = True
        self._jcache, self._hdrs, self._names, self._bounds, self._defeq, self._nowrap = {}, {}, {}, {}, {}, {}
        self.contracts = {}
        self.loops = {}
        self.inline = ()
        self.portfolio = True
        self.stop_on_fail = True
        self.prove_pre = None
        self.merge_select = True
        self.simple_feas = False
        self.fp_err = False          # add relative error bounds to the real abstraction of doubles
        self.join_loops = None       # regexp: the paths through one iteration of the loops of these functions are joined
        self.split_bool = None       # regexp: in these functions paths fork where a condition becomes a number
        self.merge = None            # regexp: the paths of these functions are joined when they return
        self.join_lazy = False       # explore them without asking the solver whether they are feasible
        self.exact = False           # doubles bit for bit at once, without trying the real abstraction first
        self.commute = False         # sums and products with their operands in a canonical order
        self.opaque = False          # operations on doubles as uninterpreted functions first
        self._ints = None
        self.ints = False            # products and quotients of variables over the integers
        self.patience = 1            # factor of the other time limits of the solvers
        self.muldiv = False          # products and quotients of variables as functions with the laws that relate them
        self.errors = False          # rounding errors as linear arithmetic over monomials, for goals about signs of determinants
        self.part = None             # (i, n): only the values congruent to i mod n of an irv_range
        self.light = False           # try the cheap facts of the real abstraction first
        self.__dict__.update(kw)


class Engine:
    def __init__(self, mod, demangle, opts=None):
        self._jcache, self._hdrs, self._names, self._bounds, self._defeq, self._nowrap = {}, {}, {}, {}, {}, {}
        self.mod, self.dem = mod, demangle
        self.opts = opts or Opts()
        self.obls, self.covers, self.trivial = [], {}, 0
        self.cover_seen = set()
        self.entered = {}
        self.used_contracts = {}
        self.ufs = {}
        self.models = {}
        self.fpdefs = {}
        self.bounded_hit = False
        self.paths = 0
        self.solver_time = 0.0
        self.spec = None
        self.next_obj = 1
        self._feas = None
        self._feas_stack = []
        self.undecided = []
        self.nfail = 0
        self._mcache = {}
        self.lazy = 0
        self.abs = fp.Abstract(self.opts.fp_err)
        self.notes = []
        from . import models
        models.install(self)
        self.extra_resolve = None

    # ------------------------------------------------------------ solver use
    def uf(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self.ufs:
            self.ufs[k] = z3.Function(name, *sorts)
        return self.ufs[k]

    def feasible(self, st, extra=None, force=False):
        """May the path continue?  'unknown' counts as feasible (sound)."""
        if self.lazy > 0 and not force:
            return True
        if self.opts.join_lazy and not force and any(f.loops.get("join") for f in st.frames):
            return True     # within an iteration of a loop whose paths are joined
        t0 = time.time()
        if self.opts.ints == "first" and (extra is not None or st.pc):
            g = extra if extra is not None else st.pc[-1]
            if not fp.has(g):
                if self.opts._ints is None:
                    self.opts._ints = ints.Cache()
                r = self.opts._ints.unsat([c for c in st.pc if not fp.has(c)], [extra] if extra is not None else [], 1000, False, self.opts._nowrap)
                self.solver_time += time.time() - t0
                return not r
        s = self._feas
        if s is None:
            s = z3.SimpleSolver() if self.opts.simple_feas else z3.Solver()
            s.set("timeout", self.opts.feas_timeout)
            self._feas, self._feas_stack, self._abs = s, [], []
        stack = self._feas_stack
        k = 0
        n = min(len(stack), len(st.pc))
        while k < n and stack[k] is st.pc[k]:
            k += 1
        if len(stack) > k:
            s.pop(len(stack) - k)
            del stack[k:]
            del self._abs[k:]
        for c in st.pc[k:]:
            s.push()
            self._abs.append(self._add_abs(s, c))
            stack.append(c)
        if extra is None:
            r = s.check()
        else:
            s.push()
            self._add_abs(s, extra)
            r = s.check()
            s.pop()
        self.solver_time += time.time() - t0
        return r != z3.unsat

    def _add_abs(self, s, c):
        """Adds the abstract form of c with the facts about its double terms; returns the
        list of double terms known after it."""
        prev = self._abs[-1] if self._abs else ()
        if self.opts.opaque or not fp.has(c):
            s.add(c)
            return prev
        A = self.abs
        t = A.tr(c)
        terms = []
        seen = {x.get_id() for x in prev}
        todo, vis = [c], set()
        while todo:
            x = todo.pop()
            if x.get_id() in vis or not fp.has(x):
                if x.get_id() in A.rmemo and x.get_id() not in seen:
                    seen.add(x.get_id())
                    terms.append(x)
                continue
            vis.add(x.get_id())
            if x.get_id() in A.rmemo and x.get_id() not in seen:
                seen.add(x.get_id())
                terms.append(x)
            todo.extend(x.children())
        s.add(t)
        allt = list(prev) + terms
        for f in A.facts_for(terms, prev):
            s.add(f)
        return allt

    def feasible_strict(self, st):
        """The path is definitely feasible (a model exists); used for vacuity covers."""
        return solve.sat(st.pc, self.opts)

    def must(self, st, cond):
        """True if cond is implied by the path (used for resolution only)."""
        cond = simp(cond)
        if isinstance(cond, bool):
            return cond
        return not self.feasible(st, z3.Not(cond), True)

    def oblige(self, st, goal, name, kind, detail=""):
        """Discharge one verification condition; afterwards assume it."""
        goal = simp(goal)
        if goal is True:
            if kind in ("assert", "pre", "inv", "post", "lemma"):
                o = Obligation(self.spec, name, kind)
                o.status, o.backend, o.fn = "proved", "simplifier", self.where(st)
                self.obls.append(o)
            else:
                self.trivial += 1
            return True
        o = Obligation(self.spec, name, kind)
        o.fn, o.detail = self.where(st), detail
        t0 = time.time()
        inst = self.instantiate(st, goal)
        r, model, backend = solve.prove(st.pc + inst, zbool(goal), self.opts)
        o.time = time.time() - t0
        self.solver_time += o.time
        if SLOW and o.time > SLOW:
            print("slow %.1f s %s %s in %s: %s" % (o.time, r, backend, o.fn, name), flush=True)
        o.status = {"unsat": "proved", "sat": "failed", "unknown": "unknown"}[r]
        o.backend = backend
        if r == "sat" and model is not None:
            o.model = self.input_values(st, model)
        elif r == "unknown":
            o.model = None
        self.obls.append(o)
        if r != "unsat":
            self.nfail += 1
            if self.nfail >= 3:
                raise Failed()
        if r != "unsat" and self.opts.stop_on_fail and kind != "assert":
            raise Stop("obligation %s not discharged" % name)
        st.assume(goal)
        return r == "unsat"

    def instantiate(self, st, goal):
        return []

    def where(self, st):
        for f in reversed(st.frames):
            return self.dem.get(f.fn.name, f.fn.name)
        return ""

    def input_values(self, st, model):
        out = []
        for (name, kind, term) in st.inputs:
            if kind == "bytes":
                out.append((name, kind, [self._ev(model, t) for t in term]))
            elif kind == "buf":
                n = self._ev(model, term[0])
                out.append((name, "u", n))
                out.append((name, "bytes", [self._ev(model, z3.Select(term[1], i)) for i in range(min(n, 4096))]))
            else:
                out.append((name, kind, self._ev(model, term)))
        return out

    @staticmethod
    def _ev(model, t):
        if is_c(t):
            return int(t)
        v = model(t) if callable(model) else model.eval(t, model_completion=True)
        if isinstance(v, int):
            return v
        if z3.is_true(v):
            return 1
        if z3.is_false(v):
            return 0
        return v.as_long()

    # ------------------------------------------------------------- objects
    def new_obj(self, st, size, kind, fill=None, name=""):
        o = Obj(self.next_obj, size, kind, fill, name)
        self.next_obj += 1
        o.owner = st.owner
        st.mem[o.id] = o
        return o

    def new_arr(self, st, es, n, arr, name=""):
        o = ArrObj(self.next_obj, es, n, arr, "heap", name)
        self.next_obj += 1
        o.owner = st.owner
        st.mem[o.id] = o
        return o

    def global_ptr(self, st, name):
        if name in st.globals:
            return Ptr(st.globals[name], 0)
        if name in self.mod.funcs or (name in self.mod.decls):
            return FnPtr(name)
        g = self.mod.global_var(name)
        if g is None:
            return FnPtr(name)
        if g[0] == "alias":
            return self.const(st, g[1])
        t, init, ro = g
        size = self.mod.sizeof(t)
        o = self.new_obj(st, size, "global", None, name)
        st.globals[name] = o.id
        if init is None:
            if not ro:
                o.fill = None
        else:
            self.init_const(st, o, 0, t, init)
        o.ro = ro
        return Ptr(o.id, 0)

    def init_const(self, st, o, off, t, c):
        if c.k == "zero":
            self._fill_zero(o, off, t)
        elif c.k == "bytes":
            for i, b in enumerate(c.v):
                o.cells[off + i] = (1, b)
        elif c.k == "agg":
            if t.k == "struct":
                offs = self.mod.offsets(t)
                for (et, ev), eo in zip(c.v, offs):
                    self.init_const(st, o, off + eo, et, ev)
            else:
                es = self.mod.sizeof(t.elems[0])
                for i, (et, ev) in enumerate(c.v):
                    self.init_const(st, o, off + i * es, et, ev)
        elif c.k == "undef":
            pass
        else:
            o.cells[off] = (self.mod.sizeof(t), self.const(st, c))

    def _fill_zero(self, o, off, t):
        if t.k == "struct":
            for e, eo in zip(t.elems, self.mod.offsets(t)):
                self._fill_zero(o, off + eo, e)
        elif t.k in ("array", "vector"):
            es = self.mod.sizeof(t.elems[0])
            for i in range(t.n):
                self._fill_zero(o, off + i * es, t.elems[0])
        elif t.k == "ptr":
            o.cells[off] = (8, NULL)
        else:
            o.cells[off] = (self.mod.sizeof(t), 0)

    # --------------------------------------------------------- constants
    def const(self, st, c):
        k = c.k
        if k == "int":
            return bool(c.v) if c.ty.w == 1 else c.v
        if k == "fp":
            return c.v
        if k == "null":
            return NULL
        if k == "glob":
            return self.global_ptr(st, c.v)
        if k == "zero":
            return self.zero(c.ty)
        if k == "undef":
            return self.undef(c.ty)
        if k == "agg":
            return [self.const(st, v) for (t, v) in c.v]
        if k == "bytes":
            return list(c.v)
        if k == "gep":
            bt, base, idx = c.v
            return self.gep(st, bt, self.const(st, base), [(t, self.const(st, v)) for t, v in idx])
        if k == "cast":
            op, stt, x, dt = c.v
            return self.cast(st, op, self.const(st, x), stt, dt)
        raise Unsupported("constant %r" % c)

    def zero(self, t):
        if t.k == "int":
            return False if t.w == 1 else 0
        if t.k in ("double", "float"):
            return 0
        if t.k == "ptr":
            return NULL
        if t.k in ("array", "vector"):
            return [self.zero(t.elems[0]) for _ in range(t.n)]
        if t.k == "struct":
            return [self.zero(e) for e in t.elems]
        raise Unsupported("zero %r" % t)

    def undef(self, t):
        if t.k == "int":
            return fresh_bool("undef") if t.w == 1 else fresh_bv("undef", t.w)
        if t.k == "double":
            return fresh_bv("undef", 64)
        if t.k == "float":
            return fresh_bv("undef", 32)
        if t.k == "ptr":
            return Ptr(-1, 0)
        if t.k in ("array", "vector"):
            return [self.undef(t.elems[0]) for _ in range(t.n)]
        if t.k == "struct":
            return [self.undef(e) for e in t.elems]
        if t.k == "x86_fp80":
            return None
        raise Unsupported("undef %r" % t)

    def val(self, st, v):
        if type(v) is L:
            return st.frames[-1].regs[v.n]
        return self.const(st, v)

    # ---------------------------------------------------------- pointers
    def gep(self, st, bt, p, idx, inbounds=True):
        if isinstance(p, PtrIte):
            return self.mk_ptrite(p.c, self.gep(st, bt, p.a, idx), self.gep(st, bt, p.b, idx))
        if isinstance(p, FnPtr):
            raise Unsupported("gep on function")
        # accumulate (constant bytes, [(index, scale)])
        cb, terms = 0, []
        t = bt
        for j, (it, iv) in enumerate(idx):
            if j == 0:
                sz = self.mod.sizeof(t)
            elif t.k == "struct":
                assert is_c(iv)
                cb += self.mod.offsets(t)[iv]
                t = t.elems[iv]
                continue
            else:
                t = t.elems[0]
                sz = self.mod.sizeof(t)
            if is_c(iv):
                cb += sgn(int(iv), it.w) * sz
            elif isinstance(iv, Scaled):
                terms.append((iv.v, sz * iv.sc, 64))
            else:
                terms.append((iv, sz, it.w))
        sc = p.sc
        if cb % sc:
            raise Unsupported("misaligned pointer arithmetic")
        off = p.off
        d = cb // sc
        for iv, sz, w in terms:
            if sz % sc:
                raise Unsupported("misaligned pointer arithmetic")
            x = iv if w == 64 else z3.SignExt(64 - w, iv)
            m = sz // sc
            x = x if m == 1 else x * m
            off = (bv(off, 64) + x)
        if is_c(off):
            off = (off + d) & M64
        elif d:
            off = off + (d & M64)
        if not is_c(off):
            off = simp(off)
        return Ptr(p.obj, off, sc)

    def mk_ptrite(self, c, a, b):
        c = simp(c)
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            if is_c(a.off) and is_c(b.off) and a.off == b.off:
                return a
            return Ptr(a.obj, z3.If(c, bv(a.off, 64), bv(b.off, 64)), a.sc)
        return PtrIte(c, a, b)

    def ptr_eq(self, st, a, b):
        if isinstance(a, PtrIte):
            return simp(z3.If(a.c, zbool(self.ptr_eq(st, a.a, b)), zbool(self.ptr_eq(st, a.b, b))))
        if isinstance(b, PtrIte):
            return self.ptr_eq(st, b, a)
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            return isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
        if a.obj != b.obj:
            return False
        return simp(Eq(a.off, b.off))

    # ------------------------------------------------------------- memory
    def obj(self, st, p, what):
        if isinstance(p, FnPtr):
            raise Unsupported("memory access through a function pointer")
        if p.obj == 0:
            self.oblige(st, False, "no null dereference (%s)" % what, "safety")
            raise Stop("null")
        if p.obj == -1 or p.obj not in st.mem:
            self.oblige(st, False, "no access through an invalid pointer (%s)" % what, "safety")
            raise Stop("invalid")
        o = st.mem[p.obj]
        if not o.live:
            self.oblige(st, False, "no use after free (%s)" % what, "safety")
            raise Stop("uaf")
        return o

    def load(self, st, p, t):
        if isinstance(p, PtrIte):
            # each access is only performed under its condition
            c = p.c
            if self.must(st, c):
                return self.load(st, p.a, t)
            if self.must(st, Not(c)):
                return self.load(st, p.b, t)
            a = self.load_guarded(st, p.a, t, c)
            b = self.load_guarded(st, p.b, t, Not(c))
            return self.ite(c, a, b, t)
        if t.k == "struct":
            offs = self.mod.offsets(t)
            return [self.load(st, self.gep_bytes(p, o), e) for o, e in zip(offs, t.elems)]
        if t.k in ("array", "vector"):
            es = self.mod.sizeof(t.elems[0])
            return [self.load(st, self.gep_bytes(p, i * es), t.elems[0]) for i in range(t.n)]
        n = self.mod.sizeof(t)
        o = self.obj(st, p, "load")
        v = self.load_raw(st, o, p, n, t)
        return self.coerce(v, t, n)

    def load_guarded(self, st, p, t, c):
        n = len(st.pc)
        st.assume(c)
        v = self.load(st, p, t)
        extra = st.pc[n + 1:]
        del st.pc[n:]
        for e in extra:
            st.assume(z3.Implies(zbool(c), e))
        return v

    def gep_bytes(self, p, d):
        if d == 0:
            return p
        if isinstance(p, PtrIte):
            return PtrIte(p.c, self.gep_bytes(p.a, d), self.gep_bytes(p.b, d))
        if d % p.sc:
            raise Unsupported("misaligned access")
        k = d // p.sc
        off = (p.off + k) & M64 if is_c(p.off) else p.off + k
        return Ptr(p.obj, off, p.sc)

    def coerce(self, v, t, n):
        if t.k == "int":
            if isinstance(v, (Ptr, PtrIte, FnPtr)):
                if isinstance(v, Ptr) and v.obj == 0:
                    return v.off
                return PtrInt(v)
            if isinstance(v, z3.BoolRef):
                v = bv(v, 8 * n)
            if t.w == 1:
                return simp(bv(v, 8) & 1 == 1) if not is_c(v) else bool(v & 1)
            if t.w != 8 * n:
                if is_c(v):
                    return v & ((1 << t.w) - 1)
                return z3.Extract(t.w - 1, 0, v)
            return v
        if t.k == "ptr":
            if isinstance(v, PtrInt):
                return v.p
            if is_c(v) and v == 0:
                return NULL
            if isinstance(v, (z3.BitVecRef,)):
                return Ptr(-1, 0)
            return v
        return v

    def load_raw(self, st, o, p, n, t):
        if isinstance(o, ArrObj):
            return self.arr_load(st, o, p, n)
        off = p.off
        if not is_c(off):
            off = simp(off)
        if not is_c(off):
            return self.load_sym(st, o, off, n, t)
        if off + n > o.size or off < 0:
            self.oblige(st, False, "load in bounds of %s" % (o.name or o.kind), "safety")
            raise Stop("oob")
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        return self.load_bytes(st, o, off, n, t)

    def load_bytes(self, st, o, off, n, t):
        bs = []
        for k in range(off, off + n):
            bs.append(self.load_byte(st, o, k))
        if all(b is None for b in bs):
            v = self.undef(ir.IntTy(8 * n)) if t.k != "ptr" else Ptr(-1, 0)
            if t.k == "int" and t.w == 1:
                v = fresh_bv("uninit", 8)
            if not o.ro:
                w = st.wobj(o.id)
                if isinstance(w, Obj):
                    w.cells[off] = (n, v)
            return v
        bs = [fresh_bv("uninit", 8) if b is None else b for b in bs]
        return concat_bytes(bs)

    def load_byte(self, st, o, k):
        c = o.cells.get(k)
        if c is not None and c[0] == 1:
            v = c[1]
            return bv(v, 8) if isinstance(v, z3.BoolRef) else v
        for d in range(0, 16):
            c = o.cells.get(k - d)
            if c is not None:
                if c[0] > d:
                    return byte_of(c[1], c[0], d)
                if d:
                    break
        return o.fill

    def load_sym(self, st, o, off, n, t):
        """A load at a symbolic offset of a cell object."""
        # candidate cells: every aligned slot of size n
        stride = n
        lim = o.size - n
        self.oblige(st, z3.ULE(off, lim), "indexed load in bounds of %s" % (o.name or o.kind), "safety")
        # find the set of feasible offsets; they are congruent mod stride in practice
        cands = [k for k in sorted(o.cells) if o.cells[k][0] == n]
        if len(cands) * n < o.size and o.fill is None and not cands:
            return self.undef(t if t.k != "ptr" else ir.I64)
        base = cands[0] if cands else 0
        ok = Or(*[Eq(off, k) for k in cands]) if len(cands) <= 64 else Eq(z3.URem(off - base, stride), 0)
        if len(cands) > 64 and len(cands) * n != o.size:
            ok = Or(*[Eq(off, k) for k in cands])
        if not self.must(st, ok):
            # some offsets hit uninitialised or differently typed bytes: byte-wise
            bs = []
            for j in range(n):
                e = fresh_bv("uninit", 8)
                for k in range(0, o.size - n + 1):
                    b = self.load_byte(st, o, k + j)
                    if b is not None:
                        e = z3.If(off == k, bv(b, 8), e)
                bs.append(e)
            return concat_bytes(bs)
        vals = [o.cells[k][1] for k in cands]
        if any(isinstance(v, (Ptr, PtrIte, FnPtr)) for v in vals):
            r = vals[-1]
            for k, v in zip(cands[-2::-1], vals[-2::-1]):
                r = self.ite(off == k, v, r, ir.PTR)
            return r
        return self.table(off, cands, vals, 8 * n, stride, base)

    def table(self, off, cands, vals, w, stride, base):
        """A balanced ite tree over the index."""
        uniform = len(cands) > 8 and cands == [base + i * stride for i in range(len(cands))]
        if not uniform:
            r = bv(vals[-1], w)
            for k, v in zip(cands[-2::-1], vals[-2::-1]):
                r = z3.If(off == k, bv(v, w), r)
            return r
        sh = stride.bit_length() - 1
        idx = off - base
        if stride == 1 << sh:
            nb = max(1, (len(cands) - 1).bit_length())
            bits = [z3.Extract(sh + i, sh + i, idx) == 1 for i in range(nb)]
            bits = [z3.simplify(b) for b in bits]

            def rec(lo, b):
                if b < 0:
                    return bv(vals[lo], w) if lo < len(vals) else bv(vals[-1], w)
                if lo >= len(vals):
                    return bv(vals[-1], w)
                x = rec(lo, b - 1)
                y = rec(lo + (1 << b), b - 1)
                if z3.is_bv_value(x) and z3.is_bv_value(y) and x.as_long() == y.as_long():
                    return x
                return z3.If(bits[b], y, x)
            return rec(0, nb - 1)
        r = bv(vals[-1], w)
        for k, v in zip(cands[-2::-1], vals[-2::-1]):
            r = z3.If(off == k, bv(v, w), r)
        return r

    def arr_index(self, st, o, p, n, what):
        if p.sc != o.es:
            raise Unsupported("access to an array object through another scale")
        if n % o.es:
            raise Unsupported("%d-byte access to an array of %d-byte elements" % (n, o.es))
        k = n // o.es
        # no wrap: idx <= N - k, N >= k
        self.oblige(st, And(z3.UGE(bv(o.n, 64), k), z3.ULE(bv(p.off, 64), bv(o.n, 64) - k)),
                    "%s in bounds of %s" % (what, o.name or "array"), "safety")
        return bv(p.off, 64), k

    def arr_load(self, st, o, p, n):
        i, k = self.arr_index(st, o, p, n, "load")
        if k == 1:
            return z3.Select(o.arr, i)
        bs = [z3.Select(o.arr, i + j) for j in range(k)]
        return simp(z3.Concat(*reversed(bs)))

    def store(self, st, p, v, t):
        if isinstance(p, PtrIte):
            c = p.c
            if self.must(st, c):
                return self.store(st, p.a, v, t)
            if self.must(st, Not(c)):
                return self.store(st, p.b, v, t)
            old = self.load_guarded(st, p.a, t, c)
            self.store(st, p.a, self.ite(c, v, old, t), t)
            old = self.load_guarded(st, p.b, t, Not(c))
            self.store(st, p.b, self.ite(c, old, v, t), t)
            return
        if t.k == "struct":
            for o, e, x in zip(self.mod.offsets(t), t.elems, v):
                self.store(st, self.gep_bytes(p, o), x, e)
            return
        if t.k in ("array", "vector"):
            es = self.mod.sizeof(t.elems[0])
            for i, x in enumerate(v):
                self.store(st, self.gep_bytes(p, i * es), x, t.elems[0])
            return
        n = self.mod.sizeof(t)
        o = self.obj(st, p, "store")
        if o.ro:
            self.oblige(st, False, "no write to constant memory", "safety")
            raise Stop("ro")
        for g in st.guards:
            if p.obj not in g and p.obj < g[-1]:
                self.oblige(st, False, "frame: writes only what the contract allows (%s)" % (o.name or o.kind), "frame")
                raise Stop("frame")
        if t.k == "int" and t.w == 1:
            v = int(v) if is_c(v) else bv(v, 8)
        elif t.k == "int" and t.w % 8:
            v = v if is_c(v) else z3.ZeroExt(8 * n - t.w, v)
        if isinstance(v, PtrInt):
            v = v.p
        if isinstance(v, Scaled):
            v = bv(v, 64)
        self.store_raw(st, o, p, n, v)

    def store_raw(self, st, o, p, n, v):
        if isinstance(o, ArrObj):
            i, k = self.arr_index(st, o, p, n, "store")
            o = st.wobj(o.id)
            if k == 1:
                o.arr = z3.Store(o.arr, i, bv(v, 8 * o.es))
            else:
                x = bv(v, 8 * n)
                for j in range(k):
                    o.arr = z3.Store(o.arr, i + j, z3.Extract(8 * o.es * (j + 1) - 1, 8 * o.es * j, x))
            return
        off = p.off
        if not is_c(off):
            off = simp(off)
        if not is_c(off):
            return self.store_sym(st, o, off, n, v)
        if off + n > o.size:
            self.oblige(st, False, "store in bounds of %s" % (o.name or o.kind), "safety")
            raise Stop("oob")
        o = st.wobj(o.id)
        c = o.cells.get(off)
        if c is None or c[0] != n:
            self.clear(o, off, n)
        o.cells[off] = (n, v)

    def store_sym(self, st, o, off, n, v):
        self.oblige(st, z3.ULE(off, o.size - n), "indexed store in bounds of %s" % (o.name or o.kind), "safety")
        slots = [k for k in range(0, o.size - n + 1, n)]
        base = 0
        if not self.must(st, Eq(z3.URem(off, n), 0) if n & (n - 1) else Eq(off & (n - 1), 0)):
            raise Unsupported("unaligned symbolic store")
        if len(slots) > 600:
            raise Unsupported("symbolic store into a large object")
        o = st.wobj(o.id)
        for k in slots:
            c = o.cells.get(k)
            if c is None or c[0] != n:
                old = self.load_bytes(st, o, k, n, ir.IntTy(8 * n))
                self.clear(o, k, n)
            else:
                old = c[1]
            if isinstance(v, (Ptr, PtrIte, FnPtr)) or isinstance(old, (Ptr, PtrIte, FnPtr)):
                o.cells[k] = (n, self.ite(off == k, v, old, ir.PTR))
            else:
                o.cells[k] = (n, z3.If(off == k, bv(v, 8 * n), bv(old, 8 * n)))

    def clear(self, o, off, n):
        """Remove cells overlapping [off, off+n), keeping their other bytes."""
        lo = off - 15
        if len(o.cells) < 40:
            ks = [k for k in o.cells if k < off + n and k + o.cells[k][0] > off]
        else:
            ks = [k for k in range(lo, off + n) if k in o.cells and k + o.cells[k][0] > off]
        for k in ks:
            m, v = o.cells.pop(k)
            if k < off or k + m > off + n:
                if isinstance(v, (Ptr, PtrIte, FnPtr)):
                    continue
                for j in range(m):
                    if k + j < off or k + j >= off + n:
                        o.cells[k + j] = (1, byte_of(v, m, j))

    def memcpy(self, st, d, s, n):
        if isinstance(n, Scaled) and is_c(n.v):
            n = n.v * n.sc
        if isinstance(d, PtrIte) or isinstance(s, PtrIte):
            for q, other, which in ((d, s, 0), (s, d, 1)):
                if isinstance(q, PtrIte):
                    if self.must(st, q.c):
                        return self.memcpy(st, q.a if which == 0 else d, q.a if which else s, n)
                    if self.must(st, Not(q.c)):
                        return self.memcpy(st, q.b if which == 0 else d, q.b if which else s, n)
            # read everything into temporaries, conditional store
            if not is_c(n) or n > 256:
                raise Unsupported("memcpy through an ambiguous pointer")
            k = 8 if n % 8 == 0 else 1
            t = ir.IntTy(8 * k)
            vals = [self.load(st, self.gep_bytes(s, i), t) for i in range(0, n, k)]
            for i, v in zip(range(0, n, k), vals):
                self.store(st, self.gep_bytes(d, i), v, t)
            return
        if is_c(n) and n == 0:
            return
        so, do = self.obj(st, s, "memcpy source"), self.obj(st, d, "memcpy destination")
        for g in st.guards:
            if d.obj not in g and d.obj < g[-1]:
                self.oblige(st, False, "frame: writes only what the contract allows", "frame")
                raise Stop("frame")
        if isinstance(so, ArrObj) or isinstance(do, ArrObj) or not is_c(n) or not is_c(s.off) or not is_c(d.off):
            return self.memcpy_arr(st, d, s, n, so, do)
        if s.off + n > so.size or d.off + n > do.size:
            self.oblige(st, False, "memcpy in bounds", "safety")
            raise Stop("oob")
        cells = {}
        for k, (m, v) in so.cells.items():
            if k >= s.off and k + m <= s.off + n:
                cells[k - s.off] = (m, v)
            elif k < s.off + n and k + m > s.off:
                for j in range(m):
                    if s.off <= k + j < s.off + n:
                        cells[k + j - s.off] = (1, byte_of(v, m, j))
        fill = so.fill
        if fill is not None:
            cov = set()
            for k, (m, v) in cells.items():
                cov.update(range(k, k + m))
            for j in range(n):
                if j not in cov:
                    cells[j] = (1, fill)
        do = st.wobj(do.id)
        self.clear(do, d.off, n)
        for k, c in cells.items():
            do.cells[d.off + k] = c

    def memcpy_arr(self, st, d, s, n, so, do):
        if is_c(n) and n <= 512:
            es = so.es if isinstance(so, ArrObj) else do.es if isinstance(do, ArrObj) else 1
            if isinstance(so, ArrObj) and isinstance(do, ArrObj):
                es = max(so.es, do.es)
            if isinstance(so, Obj) and isinstance(do, Obj) and so.cells:
                ms = {c[0] for c in so.cells.values()}
                if len(ms) == 1 and n % min(ms) == 0:
                    es = min(ms)
            if n % es == 0:
                t = ir.IntTy(8 * es)
                vals = [self.load(st, self.gep_bytes(s, i), t) for i in range(0, n, es)]
                for i, v in zip(range(0, n, es), vals):
                    self.store(st, self.gep_bytes(d, i), v, t)
                return
        if isinstance(n, Scaled):
            if isinstance(so, ArrObj) and isinstance(do, ArrObj) and so.es == do.es == n.sc:
                cnt = n.v
                # bounds
                self.oblige(st, And(z3.ULE(bv(cnt, 64), bv(so.n, 64)), z3.ULE(bv(s.off, 64), bv(so.n, 64) - cnt),
                                    z3.ULE(bv(cnt, 64), bv(do.n, 64)), z3.ULE(bv(d.off, 64), bv(do.n, 64) - cnt)),
                            "block copy in bounds", "safety")
                i = z3.BitVec("i!cp", 64)
                sa, da, so_, do_ = so.arr, do.arr, bv(s.off, 64), bv(d.off, 64)
                na = z3.Array(fresh_name("cp"), z3.BitVecSort(64), z3.BitVecSort(8 * do.es))
                st.facts.append(("copy", na, da, sa, do_, so_, bv(cnt, 64)))
                do = st.wobj(do.id)
                do.arr = na
                return
        raise Unsupported("memcpy of symbolic size")

    def memset(self, st, d, v, n):
        if not is_c(n):
            raise Unsupported("memset of symbolic size")
        if n == 0:
            return
        o = self.obj(st, d, "memset")
        if isinstance(o, ArrObj) or not is_c(d.off):
            for i in range(n):
                self.store(st, self.gep_bytes(d, i), v, ir.I8)
            return
        if d.off + n > o.size:
            self.oblige(st, False, "memset in bounds", "safety")
            raise Stop("oob")
        o = st.wobj(o.id)
        self.clear(o, d.off, n)
        k = 0
        while k < n:
            if is_c(v) and (d.off + k) % 8 == 0 and k + 8 <= n:
                o.cells[d.off + k] = (8, int(v) * 0x0101010101010101)
                k += 8
            else:
                o.cells[d.off + k] = (1, v)
                k += 1

    # ---------------------------------------------------------------- ite
    def ite(self, c, a, b, t):
        c = simp(c)
        if c is True:
            return a
        if c is False:
            return b
        if t is not None and t.k == "ptr" or isinstance(a, (Ptr, PtrIte, FnPtr)) or isinstance(b, (Ptr, PtrIte, FnPtr)):
            if is_c(a) and a == 0:
                a = NULL
            if is_c(b) and b == 0:
                b = NULL
            return self.mk_ptrite(c, a, b)
        if isinstance(a, list):
            es = t.elems if t.k == "struct" else [t.elems[0]] * len(a)
            return [self.ite(c, x, y, e) for x, y, e in zip(a, b, es)]
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            if isinstance(a, bool) and isinstance(b, bool):
                if a == b:
                    return a
                return c if a else Not(c)
            if a is True:
                return Or(c, b)
            if a is False:
                return And(Not(c), b)
            if b is True:
                return Or(Not(c), a)
            if b is False:
                return And(c, a)
            return z3.If(c, a, b)
        w = 64 if t.k in ("double", "ptr") else t.w if t.k == "int" else 32
        if is_c(a) and is_c(b) and a == b:
            return a
        return z3.If(c, bv(a, w), bv(b, w))

    # ------------------------------------------------------------- binops
    def nowrap(self, st, t):
        """The operation at the root of t was just shown not to wrap (the last condition of the path says so)."""
        if self.opts.ints and st.pc:
            self.opts._nowrap.setdefault(st.pc[-1].get_id(), (st.pc[-1], t, simp(t)))

    def binop(self, st, op, a, b, t, flags):
        if t.k == "vector":
            out = []
            for x, y in zip(a, b):
                r = dbl_bits(op, x, y) if op in ("and", "or") and t.elems[0].k == "int" and t.elems[0].w == 64 else None
                out.append(self.binop(st, op, x, y, t.elems[0], flags) if r is None else r)
            return out
        if t.k == "double":
            return self.fpop(st, op, a, b)
        w = t.w
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            return self.ptrint_op(st, op, a, b)
        if isinstance(a, Scaled):
            if op in ("sdiv", "udiv") and is_c(b):
                if b == a.sc:
                    return a.v
            if op in ("ashr", "lshr") and is_c(b) and (1 << b) == a.sc:
                return a.v
            a = bv(a, 64)
        if isinstance(b, Scaled):
            b = bv(b, 64)
        if w == 1:
            if op in ("and", "mul"):
                return And(bl(a), bl(b))
            if op == "or":
                return Or(bl(a), bl(b))
            if op in ("xor", "add", "sub"):
                a, b = bl(a), bl(b)
                if isinstance(a, bool) and isinstance(b, bool):
                    return a != b
                if b is True:
                    return Not(a)
                if a is True:
                    return Not(b)
                if a is False:
                    return b
                if b is False:
                    return a
                return z3.Xor(a, b)
            raise Unsupported("i1 " + op)
        mask = (1 << w) - 1
        if is_c(a) and is_c(b):
            r = self.cbin(st, op, int(a), int(b), w, flags)
            if r is not None:
                return r & mask
        x, y = bv(a, w), bv(b, w)
        chk = self.opts.check_overflow
        if op == "add":
            if chk and "nsw" in flags:
                self.oblige(st, z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)),
                            "no signed overflow in addition", "safety")
                self.nowrap(st, x + y)
            return x + y
        if op == "sub":
            if chk and "nsw" in flags:
                self.oblige(st, z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)),
                            "no signed overflow in subtraction", "safety")
                self.nowrap(st, x - y)
            return x - y
        if op == "mul":
            if chk and "nsw" in flags:
                self.oblige(st, z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)),
                            "no signed overflow in multiplication", "safety")
                self.nowrap(st, x * y)
            return x * y
        if op in ("udiv", "sdiv", "urem", "srem"):
            if not is_c(b):
                self.oblige(st, y != 0, "no division by zero", "safety")
            if op[0] == "s" and (not is_c(b) or int(b) == mask):
                self.oblige(st, z3.Not(z3.And(x == (1 << (w - 1)), y == mask)), "no signed division overflow", "safety")
            return {"udiv": lambda: z3.UDiv(x, y), "sdiv": lambda: x / y,
                    "urem": lambda: z3.URem(x, y), "srem": lambda: z3.SRem(x, y)}[op]()
        if op in ("shl", "lshr", "ashr"):
            if not is_c(b):
                self.oblige(st, z3.ULT(y, w), "shift amount in range", "safety")
            elif int(b) >= w:
                self.oblige(st, False, "shift amount in range", "safety")
                raise Stop("shift")
            return {"shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y}[op]()
        if op == "and":
            if is_c(b) and b == 0 or is_c(a) and a == 0:
                return 0
            if is_c(b) and b == mask:
                return x
            return x & y
        if op == "or":
            if is_c(b) and b == 0:
                return x
            return x | y
        if op == "xor":
            return x ^ y
        raise Unsupported(op)

    def ptrint_op(self, st, op, a, b):
        if isinstance(a, PtrInt) and isinstance(b, PtrInt) and op == "sub":
            p, q = a.p, b.p
            if isinstance(p, PtrIte):
                r1 = self.ptrint_op(st, op, PtrInt(p.a), b)
                r2 = self.ptrint_op(st, op, PtrInt(p.b), b)
                return self.ite(p.c, bv(r1, 64), bv(r2, 64), ir.I64)
            if isinstance(q, PtrIte):
                r1 = self.ptrint_op(st, op, a, PtrInt(q.a))
                r2 = self.ptrint_op(st, op, a, PtrInt(q.b))
                return self.ite(q.c, bv(r1, 64), bv(r2, 64), ir.I64)
            if p.obj == q.obj:
                if is_c(p.off) and is_c(q.off):
                    return ((p.off - q.off) * p.sc) & M64
                return Scaled(simp(bv(p.off, 64) - bv(q.off, 64)), p.sc)
            # unrelated objects: unspecified difference
            return fresh_bv("ptrdiff", 64)
        if isinstance(a, PtrInt) and is_c(b) and op == "and":
            # alignment tests on object addresses: objects are suitably aligned
            if isinstance(a.p, Ptr) and is_c(a.p.off) and b < 16:
                return (a.p.off * a.p.sc) & b
        raise Unsupported("integer operation %s on an address" % op)

    def cbin(self, st, op, a, b, w, flags):
        mask = (1 << w) - 1
        nsw = "nsw" in flags and self.opts.check_overflow
        if op in ("add", "sub", "mul"):
            f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y}[op]
            if nsw:
                r = f(sgn(a, w), sgn(b, w))
                if not -(1 << (w - 1)) <= r < (1 << (w - 1)):
                    self.oblige(st, False, "no signed overflow", "safety")
            return f(a, b)
        if op in ("udiv", "sdiv", "urem", "srem"):
            if b == 0:
                self.oblige(st, False, "no division by zero", "safety")
                raise Stop("div")
            if op == "udiv":
                return a // b
            if op == "urem":
                return a % b
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            q = -q if (x < 0) != (y < 0) else q
            return q if op == "sdiv" else x - q * y
        if op in ("shl", "lshr", "ashr"):
            if b >= w:
                self.oblige(st, False, "shift amount in range", "safety")
                raise Stop("shift")
            return {"shl": lambda: a << b, "lshr": lambda: a >> b, "ashr": lambda: sgn(a, w) >> b}[op]()
        return {"and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b}[op]()

    # ---------------------------------------------------------- fp ops
    def fpop(self, st, op, a, b):
        if is_c(a) and is_c(b):
            x, y = b2d(a), b2d(b)
            try:
                if op == "fadd":
                    return d2b(x + y)
                if op == "fsub":
                    return d2b(x - y)
                if op == "fmul":
                    return d2b(x * y)
                if op == "fdiv" and y != 0.0:
                    return d2b(x / y)
            except OverflowError:
                pass
        A, B = bv(a, 64), bv(b, 64)
        f = fp.F2.get(op)
        if op in ("fadd", "fmul"):
            if A.get_id() > B.get_id():
                A, B = B, A
            if self.opts.commute and not is_c(a) and not is_c(b):
                c = z3.ULE(A, B)
                return self.named(st, f(z3.If(c, A, B), z3.If(c, B, A)))
        if f is None:
            raise Unsupported(op)
        return f(A, B)

    def fpun(self, st, op, a, f=None):
        return fp.F1[op](bv(a, 64))

    def fcmp(self, pred, a, b):
        if isinstance(a, list):
            return [self.fcmp(pred, x, y) for x, y in zip(a, b)]
        if pred == "true":
            return True
        if pred == "false":
            return False
        if pred in ("ord", "uno"):
            un = Or(d_isnan(a), d_isnan(b))
            if not is_c(a) and not is_c(b) and a.eq(b):
                un = d_isnan(a)
            return un if pred == "uno" else Not(un)
        q = pred[1:]
        if pred[0] == "o":
            if q == "ne":
                return Or(d_lt(a, b), d_lt(b, a))
            return {"lt": lambda: d_lt(a, b), "le": lambda: d_le(a, b), "gt": lambda: d_lt(b, a), "ge": lambda: d_le(b, a),
                    "eq": lambda: d_eq(a, b)}[q]()
        if q == "eq":
            return Not(Or(d_lt(a, b), d_lt(b, a)))
        return Not({"lt": lambda: d_le(b, a), "le": lambda: d_lt(b, a), "gt": lambda: d_le(a, b), "ge": lambda: d_lt(a, b),
                    "ne": lambda: d_eq(a, b)}[q]())

    def known(self, st, c):
        """A condition that is literally on the path."""
        if isinstance(c, bool):
            return c
        i = c.get_id()
        n = c.arg(0).get_id() if z3.is_not(c) else None
        for p in st.pc:
            if not isinstance(p, z3.ExprRef):
                continue
            k = p.get_id()
            if k == i:
                return True
            if k == n or z3.is_not(p) and p.arg(0).get_id() == i:
                return False
        return c

    def icmp(self, st, pred, a, b, t):
        if t.k == "vector":
            return [self.icmp(st, pred, x, y, t.elems[0]) for x, y in zip(a, b)]
        if t.k == "ptr":
            if pred in ("eq", "ne"):
                e = self.ptr_eq(st, a, b)
                return e if pred == "eq" else Not(e)
            if isinstance(a, PtrIte) or isinstance(b, PtrIte):
                raise Unsupported("ordered comparison of ambiguous pointers")
            if a.obj != b.obj:
                return fresh_bool("ptrcmp")
            a, b, w = a.off, b.off, 64
        else:
            w = t.w
            if isinstance(a, PtrInt) or isinstance(b, PtrInt):
                if isinstance(a, PtrInt) and isinstance(b, PtrInt):
                    return self.icmp(st, pred, a.p, b.p, ir.PTR)
                other = b if isinstance(a, PtrInt) else a
                if is_c(other) and other == 0 and pred in ("eq", "ne"):
                    return pred == "ne"
                raise Unsupported("address compared with an integer")
            if isinstance(a, Scaled) and isinstance(b, Scaled) and a.sc == b.sc and pred in ("eq", "ne"):
                a, b = a.v, b.v
            elif isinstance(a, Scaled) and is_c(b) and b % a.sc == 0:
                # |v*sc| does not overflow for sizes of real objects
                a, b = a.v, (sgn(b, 64) // a.sc) & M64
            if w == 1:
                a, b = bl(a), bl(b)
                if isinstance(a, bool) and isinstance(b, bool):
                    r = a == b
                else:
                    r = simp(zbool(a) == zbool(b))
                if pred == "eq":
                    return r
                if pred == "ne":
                    return Not(r)
                raise Unsupported("i1 icmp")
        if is_c(a) and is_c(b):
            a, b = int(a), int(b)
            sa, sb = sgn(a, w), sgn(b, w)
            return {"eq": a == b, "ne": a != b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b,
                    "slt": sa < sb, "sle": sa <= sb, "sgt": sa > sb, "sge": sa >= sb}[pred]
        x, y = bv(a, w), bv(b, w)
        return {"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y),
                "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y), "slt": lambda: x < y, "sle": lambda: x <= y,
                "sgt": lambda: x > y, "sge": lambda: x >= y}[pred]()

    def flat_bits(self, v, t):
        """The value of type t as one bit vector (little endian)."""
        if t.k == "vector":
            e = t.elems[0]
            w = e.w if e.k == "int" else 64
            if all(is_c(x) for x in v):
                return sum(int(x) << (w * i) for i, x in enumerate(v)), w * len(v)
            return z3.Concat(*[bv(x, w) for x in reversed(v)]), w * len(v)
        w = 64 if t.k == "double" else t.w
        return v, w

    def unflat(self, x, t):
        if t.k == "vector":
            e = t.elems[0]
            w = e.w if e.k == "int" else 64
            out = []
            for i in range(t.n):
                if is_c(x):
                    y = (x >> (w * i)) & ((1 << w) - 1)
                    out.append(bool(y) if w == 1 else y)
                else:
                    y = simp(z3.Extract(w * i + w - 1, w * i, x))
                    out.append(simp(bv(y, 1) == 1) if w == 1 else y)
            return out
        return x

    def cast(self, st, op, v, t, t2):
        if t.k == "vector" and op != "bitcast":
            return [self.cast(st, op, x, t.elems[0], t2.elems[0]) for x in v]
        if op == "bitcast":
            if t.k == "ptr" or t is t2:
                return v
            x, w = self.flat_bits(v, t)
            return self.unflat(x, t2)
        if op == "zext":
            if t.w == 1:
                return int(v) if is_c(v) else bv(v, t2.w)
            return v if is_c(v) else z3.ZeroExt(t2.w - t.w, bv(v, t.w))
        if op == "sext":
            if t.w == 1:
                if is_c(v):
                    return ((1 << t2.w) - 1) if v else 0
                return z3.If(v, z3.BitVecVal(-1, t2.w), z3.BitVecVal(0, t2.w))
            if is_c(v):
                return sgn(v, t.w) & ((1 << t2.w) - 1)
            return z3.SignExt(t2.w - t.w, bv(v, t.w))
        if op == "trunc":
            if isinstance(v, Scaled):
                v = bv(v, 64)
            if is_c(v):
                return bool(v & 1) if t2.w == 1 else v & ((1 << t2.w) - 1)
            if t2.w == 1:
                return simp(z3.Extract(0, 0, bv(v, t.w)) == 1)
            return z3.Extract(t2.w - 1, 0, bv(v, t.w))
        if op == "ptrtoint":
            if isinstance(v, Ptr) and v.obj == 0:
                return v.off
            return PtrInt(v)
        if op == "inttoptr":
            if isinstance(v, PtrInt):
                return v.p
            if is_c(v) and v == 0:
                return NULL
            raise Unsupported("inttoptr")
        if op in ("sitofp", "uitofp"):
            if is_c(v):
                return d2b(float(sgn(int(v), t.w) if op == "sitofp" and t.w > 1 else int(v)))
            return fp.FROMI[(op[:2], t.w)](bv(v, t.w))
        if op in ("fptosi", "fptoui"):
            return self.fptoint(st, op, v, t2.w)
        raise Unsupported("cast " + op)

    def fptoint(self, st, op, v, w):
        s = op == "fptosi"
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1))) if s else (0, 1 << w)
        if is_c(v):
            d = b2d(v)
            if d != d or not (lo - 1 < d < hi):
                self.oblige(st, False, "float to integer conversion in range", "safety")
                raise Stop("fptoint")
            return int(d) & ((1 << w) - 1)
        lob, hib = d2b(float(lo)), d2b(float(hi))
        # v > lo-1 and v < hi; lo-1 is exact for w <= 53
        c = And(d_lt(d2b(float(lo - 1)), v) if w <= 53 else d_le(lob, v), d_lt(v, hib))
        self.oblige(st, c, "float to integer conversion in range", "safety")
        return fp.TOI[(op[4:], w)](bv(v, 64))

    # ------------------------------------------------------------ running
    def run(self, name):
        """Verify one spec function; fills self.obls/covers."""
        self.spec = name
        fn = self.mod.funcs[name]
        st = State()
        st.frames.append(Frame(fn))
        self.enter(st, fn, [])
        work = [st]
        t0 = time.time()
        self.deadline = t0 + self.opts.budget
        while work:
            s = work.pop()
            try:
                self.exec_path(s, work)
            except Stop:
                pass
            self.paths += 1
            if self.paths > self.opts.max_paths:
                raise Unsupported("more than %d paths" % self.opts.max_paths)
            if time.time() > self.deadline:
                raise Unsupported("time budget of %.0f s exceeded" % self.opts.budget)
        self.elapsed = time.time() - t0

    def enter(self, st, fn, args):
        f = st.frames[-1]
        self.entered[fn.name] = self.entered.get(fn.name, 0) + 1
        blocks = self.mod.blocks(fn)
        for (nm, t), a in zip(fn.params, args):
            f.regs[nm] = a
        f.block, f.ip, f.prev = blocks[fn.entry], 0, None

    def jump(self, st, target):
        f = st.frames[-1]
        prev = f.block.name
        b = self.mod.blocks(f.fn)[target]
        if b.phis:
            newv = [(p.res, self.val(st, p.a[prev])) for p in b.phis]
            spec = self.opts.loops.get((f.fn.name, target))
            if spec is not None:
                newv = spec.at_header(self, st, f, b, dict(newv), prev)
                newv = list(newv.items())
            for r, v in newv:
                f.regs[r] = v
        else:
            spec = self.opts.loops.get((f.fn.name, target))
            if spec is not None:
                spec.at_header(self, st, f, b, {}, prev)
        k = ("cnt", target)
        c = f.loops.get(k, 0) + 1
        f.loops[k] = c
        if self.opts.join_loops and self.joins(f.fn) and target in self.headers(f.fn):
            for mark in f.loops.get("join", ()):
                if mark[0] == target:
                    f.prev, f.block, f.ip = prev, b, 0
                    mark[1].append(st)
                    raise Stop("joined")
            f.loops["joinpt"] = True
        if c > self.opts.max_unroll:
            if self.opts.bounded:
                self.bounded_hit = True
                raise Stop("bound")
            raise Unsupported("loop in %s not unrolled within %d iterations" %
                              (self.dem.get(f.fn.name, f.fn.name), self.opts.max_unroll))
        f.prev, f.block, f.ip = prev, b, 0

    def joins(self, fn):
        r = self._jcache.get(fn.name)
        if r is None:
            r = self._jcache[fn.name] = bool(re.search(self.opts.join_loops, self.dem.get(fn.name, fn.name)))
        return r

    def headers(self, fn):
        """The blocks that a jump goes back to."""
        r = self._hdrs.get(fn.name)
        if r is not None:
            return r
        blocks, r = self.mod.blocks(fn), set()
        seen, act = set(), set()
        stack = [(fn.entry, 0)]
        while stack:
            b, k = stack.pop()
            if k == 0:
                seen.add(b)
                act.add(b)
            t = blocks[b].ins[-1]
            if t.op == "br":
                succ = [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
            elif t.op == "switch":
                succ = [t.a[1]] + [x for _, x in t.a[2]]
            elif t.op == "invoke":
                succ = [t.a[2], t.a[3]]
            else:
                succ = []
            if k < len(succ):
                stack.append((b, k + 1))
                n = succ[k]
                if n in act:
                    r.add(n)
                elif n not in seen:
                    stack.append((n, 0))
            else:
                act.discard(b)
        self._hdrs[fn.name] = r
        return r

    def join_loop(self, st, work):
        """st is at a loop header: the paths of one iteration that come back to the header are joined
        (conditional expressions over the path conditions); the others go on separately."""
        f = st.frames[-1]
        depth = len(st.frames)
        target = f.block.name
        f.loops.pop("joinpt", None)
        outer = f.loops.get("join", ())
        base = len(st.pc)
        back = []
        sub = st.fork()
        sub.owner = object()
        sub.frames[-1].loops["join"] = outer + ((target, back),)
        w = [sub]
        while w:
            s = w.pop()
            try:
                self.exec_path(s, w)
            except Stop:
                pass
            self.paths += 1
            if self.paths > self.opts.max_paths:
                raise Unsupported("more than %d paths" % self.opts.max_paths)
            if time.time() > self.deadline:
                raise Unsupported("time budget of %.0f s exceeded" % self.opts.budget)
        if not back:
            raise Stop("no path comes back")
        hdr = [p.res for p in f.block.phis]
        groups = []
        for s in back:
            v = [s.frames[-1].regs[r] for r in hdr]
            for g in groups:
                if len(s.frames) == depth and self.join(st, base, g, s, v, None, JOIN_T(f.block.phis), True):
                    break
            else:
                groups.append([s, v, None, self.conds(s, base)])
        outs = []
        defs = self.defs_of(back, base)
        for s, v, _, c in groups:
            n = s
            n.pc = list(st.pc) + defs
            for r, x in zip(hdr, v):
                n.frames[-1].regs[r] = self.named(n, x)
            for oid, off in set(n.named):
                o = n.mem.get(oid)
                if o is not None and off in o.cells:
                    o.cells[off] = (o.cells[off][0], self.named(n, o.cells[off][1]))
            n.named = []
            c = simp(c)
            if c is not True:
                n.pc.append(zbool(c))
            n.owner = object()
            lp = n.frames[-1].loops
            lp["join"] = outer
            lp["joinpt"] = True
            outs.append(n)
        work.extend(outs)
        raise Stop("joined")

    def conds(self, s, base):
        """What the path has assumed since base (definitions of names aside)."""
        return And(*[c for c in s.pc[base:] if not (isinstance(c, z3.ExprRef) and c.get_id() in self._defeq)])

    def defs_of(self, states, base):
        out, seen = [], set()
        if self._defeq:
            for s in states:
                for c in s.pc[base:]:
                    if isinstance(c, z3.ExprRef) and c.get_id() in self._defeq and c.get_id() not in seen:
                        seen.add(c.get_id())
                        out.append(c)
        return out

    def define(self, st, c):
        self._defeq[c.get_id()] = c
        if not any(x is c for x in st.pc[-60:]):
            st.pc.append(c)

    def named(self, st, x):
        """A name for the value of a term (the same for the same term), with its defining equation on the path."""
        if not isinstance(x, z3.BitVecRef) or x.num_args() == 0:
            return x
        k = x.get_id()
        v = self._names.get(k)
        if v is None:
            v = z3.BitVec(fresh_name("nm"), x.size())
            self._names[k] = (x, v, v == x)     # keeps the term alive
        self.define(st, self._names[k][2])
        v = self._names[k][1]
        u = self.upper(x)
        if u < (1 << x.size()) - 1:
            self._bounds[v.get_id()] = u
            self.define(st, z3.ULE(v, u))
        return v

    def upper(self, t):
        """An upper bound of an unsigned term, from its structure."""
        w = t.size()
        top = (1 << w) - 1
        if z3.is_bv_value(t):
            return t.as_long()
        k = t.decl().kind()
        a = t.children()
        if not a:
            return self._bounds.get(t.get_id(), top)
        if k == z3.Z3_OP_ITE:
            return max(self.upper(a[1]), self.upper(a[2]))
        if k == z3.Z3_OP_CONCAT:
            r = 0
            for x in a:
                r = (r << x.size()) + self.upper(x)
            return r
        if k == z3.Z3_OP_ZERO_EXT:
            return self.upper(a[0])
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = t.params()
            u = self.upper(a[0]) >> lo
            return min(u, top)
        if k == z3.Z3_OP_BADD:
            return min(sum(self.upper(x) for x in a), top) if sum(self.upper(x) for x in a) <= top else top
        if k == z3.Z3_OP_BMUL and len(a) == 2:
            u = self.upper(a[0]) * self.upper(a[1])
            return u if u <= top else top
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(a[1]):
            u = self.upper(a[0]) << a[1].as_long()
            return u if u <= top else top
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(a[1]):
            return self.upper(a[0]) >> a[1].as_long()
        if k == z3.Z3_OP_BAND:
            return min(self.upper(x) for x in a)
        if k in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
            return (1 << max(self.upper(x).bit_length() for x in a)) - 1
        return top

    def exec_path(self, st, work):
        while True:
            if st.frames[-1].loops.get("joinpt"):
                self.join_loop(st, work)
            st.steps += 1
            if st.steps > self.opts.max_steps:
                raise Unsupported("path too long")
            if (st.steps & 1023) == 0 and time.time() > self.deadline:
                raise Unsupported("time budget of %.0f s exceeded" % self.opts.budget)
            f = st.frames[-1]
            ins = f.block.ins[f.ip]
            op = ins.op
            f.ip += 1
            if op == "br":
                a = ins.a
                if len(a) == 1:
                    self.jump(st, a[0])
                    continue
                c = simp(self.val(st, a[0]))
                if c is True or c is False:
                    self.jump(st, a[1] if c else a[2])
                    continue
                self.branch(st, [(c, a[1]), (z3.Not(c), a[2])], work)
            elif op == "switch":
                c, d, cases = ins.a
                v = self.val(st, c)
                w = ins.ty.w
                v = simp(v) if not is_c(v) else v
                if is_c(v):
                    self.jump(st, dict(cases).get(int(v), d))
                    continue
                alts = [(v == k, t) for k, t in cases]
                alts.append((And(*[v != k for k, t in cases]), d))
                self.branch(st, alts, work)
            elif op == "ret":
                v = None if ins.a is None else self.val(st, ins.a)
                if self.do_ret(st, v):
                    return
            elif op == "call" or op == "invoke":
                self.do_call(st, ins, work)
            elif op == "resume":
                v = self.val(st, ins.a)
                if self.unwind(st):
                    return
            elif op == "unreachable":
                # reached without an exception in flight
                self.oblige(st, False, "unreachable code is not reached", "safety")
                return
            elif op == "zext" and self.opts.split_bool and ins.a[1].k == "int" and ins.a[1].w == 1 and self.splits(f.fn):
                c = simp(bl(self.val(st, ins.a[0])))
                if isinstance(c, bool):
                    f.regs[ins.res] = int(c)
                    continue

                def put(k, r=ins.res):
                    def go(s):
                        s.frames[-1].regs[r] = k
                    return go
                self.split(st, work, [(c, put(1)), (z3.Not(c), put(0))])
            else:
                f.regs[ins.res] = self.simple(st, ins) if ins.res else self.simple(st, ins)

    def splits(self, fn):
        k = ("split", fn.name)
        r = self._mcache.get(k)
        if r is None:
            r = self._mcache[k] = bool(re.search(self.opts.split_bool, self.dem.get(fn.name, fn.name)))
        return r

    def branch(self, st, alts, work):
        """Fork on feasible alternatives; continue the first one in place."""
        feas = []
        for c, t in alts:
            c = simp(c)
            if c is False:
                continue
            if c is True or self.feasible(st, c):
                feas.append((c, t))
        if not feas:
            raise Stop("infeasible")
        for c, t in feas[1:]:
            s = st.fork()
            s.assume(c)
            try:
                self.jump(s, t)
            except Stop:
                self.paths += 1
                continue
            work.append(s)
        c, t = feas[0]
        st.owner = object()
        st.assume(c)
        self.jump(st, t)

    def split(self, st, work, alts):
        """Fork the state on conditions; returns the list of (state, tag) (all but the
        first are already pushed after running tag(state))."""
        feas = []
        for c, fn in alts:
            c = simp(c)
            if c is False:
                continue
            if c is True or self.feasible(st, c):
                feas.append((c, fn))
        if not feas:
            raise Stop("infeasible")
        for c, fn in feas[1:]:
            s = st.fork()
            s.assume(c)
            try:
                fn(s)
            except Stop:
                continue
            work.append(s)
        c, fn = feas[0]
        st.owner = object()
        st.assume(c)
        fn(st)

    def simple(self, st, ins):
        op = ins.op
        V = lambda x: self.val(st, x)
        if op == "load":
            return self.load(st, V(ins.a), ins.ty)
        if op == "store":
            self.store(st, V(ins.a[1]), V(ins.a[0]), ins.ty)
            return None
        if op == "gep":
            p, idx = ins.a
            return self.gep(st, ins.ty, V(p), [(t, V(v)) for t, v in idx])
        if op == "icmp":
            pred, a, b = ins.a
            r = self.icmp(st, pred, V(a), V(b), ins.ty)
            return r
        if op == "fcmp":
            pred, a, b = ins.a
            r = self.fcmp(pred, V(a), V(b))
            return [self.known(st, x) for x in r] if isinstance(r, list) else self.known(st, r)
        if op in ir._BIN:
            r = self.binop(st, op, V(ins.a[0]), V(ins.a[1]), ins.ty, ins.flags)
            return r
        if op in ir._CAST:
            return self.cast(st, op, V(ins.a[0]), ins.a[1], ins.ty)
        if op == "alloca":
            n = 1
            if ins.a is not None:
                n = V(ins.a)
                if not is_c(n):
                    raise Unsupported("variable length alloca")
            o = self.new_obj(st, self.mod.sizeof(ins.ty) * n, "stack", None, (ins.res or "")[1:])
            st.frames[-1].allocas.append(o.id)
            return Ptr(o.id, 0)
        if op == "select":
            c, a, b, ct = ins.a
            c = V(c)
            if isinstance(c, list):
                return [self.ite(ci, x, y, ins.ty.elems[0]) for ci, x, y in zip(c, V(a), V(b))]
            return self.ite(c, V(a), V(b), ins.ty)
        if op == "fneg":
            v = V(ins.a)
            if isinstance(v, list):
                return [d_neg(x) for x in v]
            return d_neg(v)
        if op == "freeze":
            return V(ins.a)
        if op == "extractvalue":
            v, ix = ins.a
            v = V(v)
            for i in ix:
                v = v[i]
            return v
        if op == "insertvalue":
            v, e, ix, t2 = ins.a
            return self.insv(V(v), V(e), ix)
        if op == "extractelement":
            v, i = ins.a
            v, i = V(v), V(i)
            if not is_c(i):
                raise Unsupported("extractelement")
            return v[i]
        if op == "insertelement":
            v, e, i = ins.a
            v, i = list(V(v)), V(i)
            if not is_c(i):
                raise Unsupported("insertelement")
            v[i] = V(e)
            return v
        if op == "shufflevector":
            a, b, m, mt = ins.a
            a, b = V(a), V(b)
            ab = list(a) + list(b)
            if m.k == "zero":
                ms = [0] * mt.n
            elif m.k == "undef":
                ms = [0] * mt.n
            else:
                ms = [(x[1].v if x[1].k == "int" else 0) for x in m.v]
            return [ab[i] for i in ms]
        if op == "landingpad":
            return self.landingpad(st, ins)
        if op == "nop":
            return None
        raise Unsupported("instruction " + op)

    def insv(self, v, e, ix):
        v = list(v)
        if len(ix) == 1:
            v[ix[0]] = e
        else:
            v[ix[0]] = self.insv(v[ix[0]], e, ix[1:])
        return v

    # ------------------------------------------------------- calls
    def do_ret(self, st, v):
        f = st.frames.pop()
        for oid in f.allocas:
            st.mem.pop(oid, None)
        if f.onret is not None:
            v = f.onret(self, st, v)
        if f.collect is not None:
            f.collect.append((st, v, None))
            return True
        if not st.frames:
            self.end_of_spec(st)
            return True
        ins = f.ins
        if ins is None:
            return True
        self.finish_call(st, ins, v)
        return False

    def end_of_spec(self, st):
        self.covers["end"] = self.covers.get("end", 0) + 1

    def finish_call(self, st, ins, v):
        g = st.frames[-1]
        if ins.res:
            g.regs[ins.res] = v
        if ins.op == "invoke":
            self.jump(st, ins.a[2])

    def throw(self, st, ti, obj=NULL):
        """Start unwinding from the innermost frame's current call instruction."""
        st.exc = Thrown(obj, ti)

    def unwind(self, st):
        """Unwinds to the nearest invoke; returns True when the exception leaves the spec."""
        # the current frame is leaving
        f = st.frames.pop()
        for oid in f.allocas:
            st.mem.pop(oid, None)
        if f.onret is not None:
            f.onret(self, st, None, exc=st.exc)
        if f.collect is not None:
            f.collect.append((st, None, st.exc))
            return True
        while st.frames:
            ins = f.ins
            if ins is None:
                break
            if ins.op == "invoke":
                self.jump(st, ins.a[3])
                return False
            f = st.frames.pop()
            for oid in f.allocas:
                st.mem.pop(oid, None)
            if f.onret is not None:
                f.onret(self, st, None, exc=st.exc)
            if f.collect is not None:
                f.collect.append((st, None, st.exc))
                return True
        self.oblige(st, False, "no uncaught exception", "assert", detail=str(st.exc.ti))
        return True

    def raise_here(self, st, ins):
        """An exception thrown by the call instruction ins of the current frame."""
        if ins.op == "invoke":
            self.jump(st, ins.a[3])
            return
        if self.unwind(st):
            raise Stop("uncaught")

    BASES = {
        "_ZTISt12length_error": ["_ZTISt11logic_error"], "_ZTISt12out_of_range": ["_ZTISt11logic_error"],
        "_ZTISt16invalid_argument": ["_ZTISt11logic_error"], "_ZTISt12domain_error": ["_ZTISt11logic_error"],
        "_ZTISt11logic_error": ["_ZTISt9exception"], "_ZTISt13runtime_error": ["_ZTISt9exception"],
        "_ZTISt9bad_alloc": ["_ZTISt9exception"], "_ZTISt20bad_array_new_length": ["_ZTISt9bad_alloc"],
        "_ZTISt12system_error": ["_ZTISt13runtime_error"], "_ZTISt14overflow_error": ["_ZTISt13runtime_error"],
    }

    def is_a(self, ti, base):
        if ti == base:
            return True
        return any(self.is_a(b, base) for b in self.BASES.get(ti, []))

    def landingpad(self, st, ins):
        cleanup, clauses = ins.a
        ti = st.exc.ti
        sel = 0
        for c in clauses:
            if c.k == "null":
                sel = 1
                break
            if c.k == "glob" and self.is_a(ti, c.v):
                sel = self.tid(c.v)
                break
        return [st.exc.obj, sel]

    def tid(self, name):
        d = self.models.setdefault("tids", {})
        if name not in d:
            d[name] = len(d) + 2
        return d[name]

    def do_call(self, st, ins, work):
        callee, args = ins.a[0], ins.a[1]
        cv = self.val(st, callee)
        if isinstance(cv, PtrIte):
            alts = []

            def flat(p, cond):
                if isinstance(p, PtrIte):
                    flat(p.a, And(cond, p.c))
                    flat(p.b, And(cond, Not(p.c)))
                else:
                    alts.append((cond, p))
            flat(cv, True)
            f = st.frames[-1]

            def mk(p):
                def go(s):
                    fr = s.frames[-1]
                    if type(callee) is L:
                        fr.regs[callee.n] = p
                    fr.ip -= 1
                return go
            self.split(st, work, [(c, mk(p)) for c, p in alts])
            return
        if not isinstance(cv, FnPtr):
            self.oblige(st, False, "call through a valid function pointer", "safety")
            raise Stop("badcall")
        name = cv.name
        if name.startswith("llvm.dbg") or name.startswith("llvm.lifetime") or name.startswith("llvm.experimental.noalias"):
            return
        a = [None if t is ir.META else self.val(st, v) for t, v in args]
        self.call_fn(st, ins, name, a, work)

    def call_fn(self, st, ins, name, a, work):
        dn = self.dem.get(name, name)
        ct = self.opts.contracts.get(name) or self.opts.contracts.get(dn)
        if ct is None:
            for k, v in self.opts.contracts.items():
                if k[0] == "~" and re.search(k[1:], dn):
                    ct = v
        if ct is not None and not (len(st.frames) == 1 and st.frames[0].fn.name == name):
            if getattr(ct, "outer", False) and not any(f.fn.name == name for f in st.frames):
                ct = None       # the activation that is verified
        if ct is not None and not (len(st.frames) == 1 and st.frames[0].fn.name == name):
            skip = getattr(ct, "skip_first", None)
            if not (skip and st.ghost.get(("verifying", name)) == "pending"):
                self.used_contracts[dn] = self.used_contracts.get(dn, 0) + 1
                ct(self, st, ins, a, work)
                return
            st.ghost[("verifying", name)] = "body"
        h = self.handler(name, dn)
        if h is not None:
            r = h(self, st, ins, a, work)
            if r is not NotImplemented:
                return
        fn = self.mod.funcs.get(name)
        if fn is None and self.extra_resolve is not None:
            fn = self.extra_resolve(name)
        if fn is None:
            g = self.mod.is_global(name) and self.mod.global_var(name)
            if g and g[0] == "alias":
                return self.call_fn(st, ins, g[1].v, a, work)
            raise Unsupported("call to external function %s" % dn)
        if len(st.frames) > 400:
            raise Unsupported("recursion too deep")
        if self.opts.merge is not None and self.merges(dn):
            return self.call_merged(st, ins, fn, a, work)
        fr = Frame(fn)
        fr.ins = ins
        a = self.byval(st, fr, a)
        st.frames.append(fr)
        self.enter(st, fn, a)

    def byval(self, st, fr, a):
        """Copies the arguments passed by value in memory."""
        for i, at in enumerate(fr.fn.param_attrs[:len(a)]):
            for x in at:
                if isinstance(x, tuple) and x[0] == "byval":
                    n = self.mod.sizeof(x[1])
                    o = self.new_obj(st, n, "stack", None, "byval")
                    fr.allocas.append(o.id)
                    self.memcpy(st, Ptr(o.id, 0), a[i], n)
                    a = list(a)
                    a[i] = Ptr(o.id, 0)
        return a

    # ---------------------------------------------- joining the paths of a call
    def merges(self, dn):
        r = self._mcache.get(dn)
        if r is None:
            r = self._mcache[dn] = bool(re.match(self.opts.merge, dn))
        return r

    def call_merged(self, st, ins, fn, a, work):
        """Runs the callee to its return on every path, then joins the resulting states
        that differ only in values (conditional expressions over the path conditions)."""
        base = len(st.pc)
        sub = st.fork()
        fr = Frame(fn)
        fr.ins = None
        done = []
        fr.collect = done
        sub.frames = [fr]
        sub.owner = object()
        a = self.byval(sub, fr, a)
        self.enter(sub, fn, a)
        w = [sub]
        saved, st_frames = None, st.frames
        lz, np = self.lazy, 0
        self.lazy = 40          # paths explored without asking the solver whether they are feasible
        while w:
            s = w.pop()
            try:
                self.exec_path(s, w)
            except Stop:
                pass
            self.lazy -= 1
            self.paths += 1
            if self.paths > self.opts.max_paths:
                raise Unsupported("more than %d paths" % self.opts.max_paths)
        self.lazy = lz
        if not done:
            raise Stop("no path returns")
        groups = []
        for s, v, exc in done:
            for g in groups:
                m = self.join(st, base, g, s, v, exc, fn.ret)
                if m:
                    break
            else:
                groups.append([s, v, exc, self.conds(s, base)])
        outs = []
        defs = self.defs_of([d[0] for d in done], base)
        for s, v, exc, c in groups:
            if len(groups) > 1 and not (self.lazy > 0 and exc is None) and not self.feasible(st, zbool(c), True):
                continue
            n = s
            n.frames = [f.copy() for f in st_frames]
            n.pc = list(st.pc) + defs
            c = simp(c)
            if c is not True:
                n.pc.append(zbool(c))
            n.owner = object()
            outs.append((n, v, exc))
        if not outs:
            raise Stop("infeasible")
        for n, v, exc in outs[1:]:
            try:
                self.resume_call(n, ins, v, exc)
            except Stop:
                continue
            work.append(n)
        n, v, exc = outs[0]
        for sl in State.__dict__.get("__slots__", ()) or list(n.__dict__):
            setattr(st, sl, getattr(n, sl))
        st.owner = object()
        self.resume_call(st, ins, v, exc)

    def resume_call(self, st, ins, v, exc):
        if exc is not None:
            self.raise_here(st, ins)
        else:
            self.finish_call(st, ins, v)

    def join(self, st, base, g, s, v, exc, rt, loop=False):
        """Joins state s into the group g; False if they cannot be joined."""
        t, u, gexc, gc = g
        if exc is not None or gexc is not None:
            return False
        if len(t.inputs) != len(s.inputs) or t.ghost != s.ghost or t.caught != s.caught or t.guards != s.guards:
            return False
        if len(t.facts) != len(s.facts):
            return False
        ids = set(t.mem) | set(s.mem)
        plan, drop = [], []
        for i in ids:
            x, y = t.mem.get(i), s.mem.get(i)
            if x is y:
                continue
            if x is None or y is None:
                if i not in st.mem and (x or y).ro:
                    drop.append(i)
                    continue
                return False
            if type(x) is not type(y) or x.live != y.live or x.kind != y.kind:
                return False
            if isinstance(x, ArrObj):
                if x.arr is y.arr and x.n is y.n:
                    continue
                return False
            ch = []
            if x.cells.keys() != y.cells.keys():
                # cells only one of the states has: uninitialised in the other, and from now on in both
                if not loop or x.fill is not None or y.fill is not None:
                    return False
                for off in set(x.cells) ^ set(y.cells):
                    ch.append((off, None, None, None))
            for off, (n, xv) in x.cells.items():
                if off not in y.cells:
                    continue
                n2, yv = y.cells[off]
                if n != n2:
                    return False
                if xv is yv:
                    continue
                if not isinstance(xv, (int, bool, z3.ExprRef, Ptr, PtrIte, FnPtr)) or not isinstance(yv, (int, bool, z3.ExprRef, Ptr, PtrIte, FnPtr)):
                    return False
                ch.append((off, n, xv, yv))
            plan.append((i, ch))
        c = simp(self.conds(s, base))
        try:
            for i, ch in plan:
                if not ch:
                    continue
                o = t.mem[i].copy(None)
                for off, n, xv, yv in ch:
                    if n is None:
                        o.cells.pop(off, None)
                        continue
                    ty = ir.PTR if isinstance(xv, (Ptr, PtrIte, FnPtr)) else ir.IntTy(8 * n)
                    o.cells[off] = (n, self.ite(c, yv, xv, ty))
                    if loop:
                        t.named.append((i, off))
                t.mem[i] = o
            if v is not u:
                g[1] = self.join_val(c, v, u, rt)
        except Unsupported:
            return False
        for i in drop:
            t.mem.pop(i, None)
            for k in [k for k, p in t.globals.items() if p == i or getattr(p, "obj", None) == i]:
                t.globals.pop(k)
        g[3] = Or(gc, c)
        return True

    def join_val(self, c, a, b, t):
        if isinstance(a, list):
            es = t.elems if t.k == "struct" else [t.elems[0]] * len(a)
            return [self.join_val(c, x, y, e) for x, y, e in zip(a, b, es)]
        if not all(isinstance(x, (int, bool, z3.BoolRef, z3.BitVecRef, Ptr, PtrIte, FnPtr)) for x in (a, b)):
            raise Unsupported("join")
        return self.ite(c, a, b, t)

    def handler(self, name, dn):
        return self.builtins.get(name) or self.builtin_pattern(name, dn)

    def builtin_pattern(self, name, dn):
        k = name
        if k in self._hcache:
            return self._hcache[k]
        r = None
        for rx, h in self.builtin_rx:
            if rx.match(name):
                r = h
                break
        self._hcache[k] = r
        return r

    def returns(self, st, ins, v=None):
        self.finish_call(st, ins, v)


def recursive(target):
    """The contract for the recursive calls of a function; its first activation is executed."""
    h = redirect(target)
    h.outer = True
    return h


def redirect(target):
    """The contract of a callee, written in C++: a function of the contract file with the
    callee's signature that obliges its precondition and assumes its postcondition of fresh results."""
    def h(e, st, ins, a, work):
        fn = e.mod.funcs[target]
        if e.opts.merge is not None and e.merges(target):
            return e.call_merged(st, ins, fn, a, work)
        fr = Frame(fn)
        fr.ins = ins
        st.frames.append(fr)
        e.enter(st, fn, a)
    h.__name__ = target
    return h
