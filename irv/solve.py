"""Discharging verification conditions with z3 (library), then cvc5 / newer z3."""
import os
import subprocess
import tempfile
import time

import z3

from . import errs, fp, ints

STATS = {}


def _note(b, t):
    s = STATS.setdefault(b, [0, 0.0])
    s[0] += 1
    s[1] += t


_cache = {}


def tools(opts):
    k = (opts.fp, opts.fp_err)
    if k not in _cache:
        _cache[k] = (fp.Abstract(opts.fp_err), fp.Precise(opts.fp == "uf"))
    return _cache[k]


def abstract_query(exprs, opts, light=False):
    A = tools(opts)[0]
    tr = [A.tr(x) for x in exprs]
    seen, terms, todo = set(), [], list(exprs)
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in A.rmemo:
            terms.append(x)
        if fp.has(x):
            todo.extend(x.children())
    return tr + A.facts_for(terms, (), light)


def precise_query(exprs, opts):
    P = tools(opts)[1]
    tr = [P.tr(x) for x in exprs]
    return tr + P.sides(tr)


_syms = {}


def symbols(t):
    """The names of the constants of a term."""
    k = t.get_id()
    r = _syms.get(k)
    if r is None:
        out, seen, todo = set(), set(), [t]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
            else:
                todo.extend(x.children())
        r = _syms[k] = (t, frozenset(out))
    return r[1]


def slice_(pc, goal, depth):
    """The conjuncts that matter first: the definitions of the names the goal mentions (to a depth), and what
    speaks of nothing else.  Leaving out the others is sound."""
    want = set(symbols(goal))
    defs = {}
    for c in pc:
        if z3.is_eq(c) and c.arg(0).num_args() == 0 and c.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED:
            defs.setdefault(c.arg(0).decl().name(), c)
    new = want
    for _ in range(depth):
        more = set()
        for n in new:
            if n in defs:
                more |= symbols(defs[n])
        new = more - want
        want |= new
    return [c for c in pc if symbols(c) <= want]


def muldiv_query(q):
    """Products and unsigned quotients of variables as uninterpreted functions, with (for a divisor i that is not 0)
         x <= n / i           =>  x i <= n, and x i does not wrap
         x >  n / i, x i fits =>  x i > n
         x <  y,  y i fits    =>  x i fits, x i < y i
         x i fits             =>  x i == 0 exactly when x is
         n <= m               =>  n / i <= m / i
    which hold of the natural numbers (tools/muldiv.py has the solver prove them)."""
    muls, divs, seen, todo = {}, {}, set(), list(q)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            k = t.decl().kind()
            if k == z3.Z3_OP_BMUL and t.num_args() == 2 and not any(z3.is_bv_value(c) for c in t.children()):
                muls[t.get_id()] = t
            elif k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and not z3.is_bv_value(t.arg(1)):
                divs[t.get_id()] = t
            todo.extend(t.children())
    if not muls and not divs:
        return None
    facts, fs = [], {}

    def fn(nm, w, r):
        if (nm, w) not in fs:
            b = z3.BitVecSort(w)
            fs[nm, w] = z3.Function("irv.%s.%d" % (nm, w), b, b, b if r is None else r)
        return fs[nm, w]
    subs = []
    for t in divs.values():
        subs.append((t, fn("udiv", t.size(), None)(t.arg(0), t.arg(1))))
    for t in muls.values():
        a, b = sorted(t.children(), key=lambda c: c.get_id())
        subs.append((t, fn("mul", t.size(), None)(a, b)))
    for d in divs.values():
        for e in divs.values():
            if d.get_id() != e.get_id() and d.size() == e.size() and d.arg(1).eq(e.arg(1)):
                facts.append(z3.Implies(z3.And(d.arg(1) != 0, z3.ULE(d.arg(0), e.arg(0))), z3.ULE(d, e)))
    for m in muls.values():
        w = m.size()
        fits = lambda t: fn("fits", w, z3.BoolSort())(*sorted(t.children(), key=lambda c: c.get_id()))
        for j in (0, 1):
            x, i = m.arg(1 - j), m.arg(j)
            facts.append(z3.Implies(z3.And(i != 0, fits(m)), (m == 0) == (x == 0)))
            for d in divs.values():
                if d.size() == w and d.arg(1).eq(i):
                    facts.append(z3.Implies(z3.And(i != 0, z3.ULE(x, d)), z3.And(fits(m), z3.ULE(m, d.arg(0)))))
                    facts.append(z3.Implies(z3.And(i != 0, fits(m), z3.UGT(x, d)), z3.UGT(m, d.arg(0))))
            for o in muls.values():
                if o.get_id() != m.get_id() and o.size() == w:
                    for l in (0, 1):
                        if o.arg(l).eq(i):
                            y = o.arg(1 - l)
                            facts.append(z3.Implies(z3.And(i != 0, fits(o), z3.ULT(x, y)), z3.And(fits(m), z3.ULT(m, o))))
    # innermost terms last, so that the substitution reaches the outermost first
    out = [z3.substitute(c, *subs) for c in q + facts]
    return out


def prove(pc, goal, opts):
    """Returns ('unsat'|'sat'|'unknown', model or None, backend)."""
    t0 = time.time()
    portfolio = opts.portfolio
    timeout = opts.timeout
    q = list(pc) + [z3.Not(goal)]
    dbl = any(fp.has(x) for x in q)
    if opts.errors:
        try:
            ok = errs.prove(pc, goal, 10000 * opts.patience)
        except errs.Bail:
            ok = False
        _note("z3 (rounding errors)", time.time() - t0)
        if ok:
            return "unsat", None, "z3 (rounding errors)"
        t0 = time.time()
    if opts.muldiv and not dbl:
        mq = muldiv_query(q)
        if mq:
            s = z3.Solver()
            s.set("timeout", 5000 * opts.patience)
            s.add(*mq)
            r = s.check()
            _note("z3 (laws of products and quotients)", time.time() - t0)
            if r == z3.unsat:
                return "unsat", None, "z3 (laws of products and quotients)"
            t0 = time.time()
    if opts.ints and (not dbl or not fp.has(goal)):
        full, q = q, [x for x in q if not fp.has(x)]
        if opts.ints == "first":
            if opts._ints is None:
                opts._ints = ints.Cache()
            if opts._ints.unsat([x for x in pc if not fp.has(x)], [z3.Not(goal)], 2000 * opts.patience, True, opts._nowrap):
                _note("z3 (integers)", time.time() - t0)
                return "unsat", None, "z3 (integers)"
        s = z3.Solver()
        s.set("timeout", 1000 * opts.patience)
        s.add(*q)
        r = s.check()
        if r == z3.unsat or (r == z3.sat and not dbl):
            _note("z3", time.time() - t0)
            return ("unsat", None, "z3") if r == z3.unsat else ("sat", s.model(), "z3")
        lin, defs = ints.query(q, opts._nowrap)
        s = z3.Solver()
        s.set("timeout", 5000 * opts.patience)
        s.add(*lin)
        r = s.check()
        if r != z3.unsat:
            s = z3.Solver()
            s.set("timeout", 5000 * opts.patience)
            s.add(*(lin + defs))
            r = s.check()
        if r == z3.unknown:
            r = {"unsat": z3.unsat}.get(race(s, timeout, True)[0])
        _note("z3/cvc5 (integers)", time.time() - t0)
        if r == z3.unsat:
            return "unsat", None, "z3/cvc5 (integers)"
        t0, q = time.time(), full
    if dbl and opts.opaque:
        last = None
        for depth in (1, 3):
            sub = slice_(pc, goal, depth)
            if len(sub) == len(pc) or len(sub) == last:
                break
            last = len(sub)
            s = z3.Solver()
            s.set("timeout", 500 * depth * opts.patience)
            s.add(*sub)
            s.add(z3.Not(goal))
            if s.check() == z3.unsat:
                _note("z3 (doubles opaque, part of the path condition)", time.time() - t0)
                return "unsat", None, "z3"
        s = z3.Solver()
        s.set("timeout", 5000 * opts.patience)
        s.add(*q)
        r = s.check()
        _note("z3 (doubles opaque)", time.time() - t0)
        if r == z3.unsat:
            return "unsat", None, "z3"
        t0 = time.time()
    if dbl and opts.light:
        s = z3.Solver()
        s.set("timeout", 3000 * opts.patience)
        s.add(*abstract_query(q, opts, True))
        r = s.check()
        _note("z3 (real abstraction)", time.time() - t0)
        if r == z3.unsat:
            return "unsat", None, "z3"
        t0 = time.time()
    if dbl and opts.exact:
        q = precise_query(q, opts)
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*q)
        if s.check() == z3.unsat:
            _note("z3", time.time() - t0)
            return "unsat", None, "z3"
    elif dbl:
        s = z3.Solver()
        s.set("timeout", min(timeout, 10000 * opts.patience))
        s.add(*abstract_query(q, opts))
        r = s.check()
        _note("z3 (real abstraction)", time.time() - t0)
        if r == z3.unsat:
            return "unsat", None, "z3"
        t0 = time.time()
        q = precise_query(q, opts)
    s = z3.Solver()
    s.set("timeout", min(timeout, 3000 * opts.patience) if portfolio else timeout)
    s.add(*q)
    r = s.check()
    _note("z3", time.time() - t0)
    if r == z3.unsat:
        return "unsat", None, "z3"
    if r == z3.sat:
        return "sat", s.model(), "z3"
    if "IRV_DUMP" in os.environ:
        with open(os.environ["IRV_DUMP"], "a") as f:
            f.write("\n==== GOAL\n%s\n==== PC\n%s\n" % (z3.simplify(goal).sexpr(), "\n".join(x.sexpr() for x in pc)))
    if not portfolio:
        return "unknown", None, "z3"
    return race(s, timeout)


def sat(pc, opts):
    """Is there a model of the path condition (vacuity covers)?"""
    q = precise_query(list(pc), opts)
    s = z3.Solver()
    s.set("timeout", 5000 * opts.patience)
    s.add(*q)
    r = s.check()
    if r == z3.unknown:
        return race(s, 10000)[0] == "sat"
    return r == z3.sat


def race(s, timeout, nomodel=False):
    """Runs the external solvers in parallel on the SMT-LIB form of s."""
    t0 = time.time()
    txt = s.to_smt2()
    d = tempfile.mkdtemp(prefix="irv")
    f1 = os.path.join(d, "q.smt2")
    consts = {}
    body = txt.replace("(check-sat)", "")
    with open(f1, "w") as f:
        f.write("(set-option :produce-models true)\n(set-logic ALL)\n" + body + "\n(check-sat)\n(get-model)\n")
    secs = max(1, timeout // 1000)
    procs = []
    cands = [("cvc5", ["cvc5", "--tlimit=%d" % timeout, f1]),
             ("z3-5", ["z3-new", "-T:%d" % secs, f1]),
             ("z3-4.8", ["z3", "-T:%d" % secs, f1])]
    for nm, cmd in cands:
        try:
            procs.append((nm, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        except OSError:
            pass
    res = ("unknown", None, "portfolio")
    live = dict(procs)
    outs = {}
    dl = t0 + secs + 2
    import threading
    lock = threading.Lock()

    def rd(nm, p):
        o = p.communicate()[0]
        with lock:
            outs[nm] = o
    ths = [threading.Thread(target=rd, args=x, daemon=True) for x in procs]
    for t in ths:
        t.start()
    while time.time() < dl and len(outs) < len(procs):
        time.sleep(0.02)
        with lock:
            done = dict(outs)
        hit = None
        for nm, o in done.items():
            l = o.strip().split("\n", 1)[0].strip() if o.strip() else ""
            if l in ("sat", "unsat"):
                hit = (nm, l, o)
                if l == "unsat":
                    break
        if hit:
            nm, l, o = hit
            if l == "unsat":
                res = ("unsat", None, nm)
            else:
                res = ("sat", parse_model(o), nm)
            break
    for nm, p in procs:
        if p.poll() is None:
            p.kill()
    for t in ths:
        t.join(2)
    _note(res[2], time.time() - t0)
    try:
        os.unlink(f1)
        os.rmdir(d)
    except OSError:
        pass
    return res


def parse_model(out):
    """A callable mapping bit-vector/bool constants to integers, from (get-model)."""
    import re
    vals = {}
    for m in re.finditer(r'\(define-fun\s+(\|[^|]*\||\S+)\s+\(\)\s+(\(_ BitVec \d+\)|Bool)\s+(#x[0-9a-fA-F]+|#b[01]+|\(_ bv\d+ \d+\)|true|false)\s*\)', out):
        n, v = m.group(1).strip("|"), m.group(3)
        if v.startswith("#x"):
            vals[n] = int(v[2:], 16)
        elif v.startswith("#b"):
            vals[n] = int(v[2:], 2)
        elif v.startswith("(_"):
            vals[n] = int(v.split()[1][2:])
        else:
            vals[n] = 1 if v == "true" else 0

    def ev(t):
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return vals.get(t.decl().name(), 0)
        subs = []
        for c in consts_of(t):
            v = vals.get(c.decl().name(), 0)
            subs.append((c, z3.BoolVal(bool(v)) if z3.is_bool(c) else z3.BitVecVal(v, c.size())))
        r = z3.simplify(z3.substitute(t, *subs))
        return r
    return ev


def consts_of(t):
    seen, out, todo = set(), [], [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if z3.is_bool(x) or z3.is_bv(x):
                out.append(x)
        else:
            todo.extend(x.children())
    return out
