"""The check of one property: build, verify every contract, replay / search on failure,
write evidence, print the verdict."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

from . import build, engine, ir, solve

VERIF = build.VERIF
sys.setrecursionlimit(100000)


class Unit:
    """A contract file with the sources of /repo that it is verified with."""

    def __init__(self, spec, sources=None, replaces=(), defs=(), name=None, native=True, only=None, extra=()):
        self.spec, self.sources, self.replaces, self.defs = spec, sources, tuple(replaces), tuple(defs)
        self.name = name or os.path.splitext(spec)[0] + ("_" + "".join(d.strip("-D") for d in defs) if defs else "")
        self.native = native
        self.only = only
        self.specs = [spec] + list(extra)   # further files compiled along


def parts(unit, name, n, opts=None, **kw):
    """The contract split into n processes by the values of its irv_range."""
    return [Spec(unit, name, dict(opts or {}, part=(i, n)), **kw) for i in range(n)]


class Spec:
    """One contract function: how to verify it."""

    def __init__(self, unit, name, opts=None, setup=None, bounded=None, covers=(), search=None, native_only=None,
                 fallback=None, tier="quick", runner=None):
        self.unit, self.name, self.opts, self.setup = unit, name, dict(opts or {}), setup
        self.bounded = bounded          # text of the bound: a bounded stand-in, never counted as proved
        self.covers = tuple(covers)
        self.search = search            # seconds of native search on every run
        self.native_only = native_only  # text: not verified, only searched (labelled)
        self.fallback = fallback        # bounded Spec used when this one cannot be decided
        self.tier = tier
        self.runner = runner            # a Python proof procedure instead of the engine run


def run_spec(mod, dem, spec, conn, tier, slow=False):
    t0 = time.time()
    res = {"spec": spec.name, "unit": spec.unit.name, "status": "ok", "obls": [], "bounded": spec.bounded}
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        o = engine.Opts(**spec.opts)
        if slow:
            o.timeout, o.patience = o.timeout * 4, 4
        if spec.bounded:
            o.bounded = True
        if tier == "thorough":
            o.budget *= 3
            o.timeout = int(o.timeout * 3)
        e = engine.Engine(mod, dem, o)
        e.spec = spec.name
        if spec.setup:
            spec.setup(e, mod, dem)
        try:
            if spec.runner:
                spec.runner(e)
            else:
                e.run("spec_" + spec.name)
        except engine.Failed:
            pass
        except (engine.Unsupported, ir.ParseError, RecursionError, NotImplementedError, MemoryError) as x:
            res["status"], res["detail"] = "unsupported", "%s: %s" % (type(x).__name__, x)
        res["obls"] = [(b.name, b.kind, b.status, b.backend, round(b.time, 3), b.fn, b.model, b.detail) for b in e.obls]
        res["trivial"] = e.trivial
        res["paths"] = e.paths
        res["covers"] = sorted(e.cover_seen)
        res["end"] = e.covers.get("end", 0)
        res["entered"] = {dem.get(k, k): v for k, v in e.entered.items()}
        res["contracts"] = dict(e.used_contracts)
        res["bounded_hit"] = e.bounded_hit
        res["solver_time"] = e.solver_time
        res["notes"] = getattr(e, "notes", [])
        res["ufs"] = sorted(k[0] for k in e.ufs)
    except BaseException as x:
        res["status"], res["detail"] = "unsupported", "internal: %s\n%s" % (x, traceback.format_exc()[-3000:])
    res["wall"] = time.time() - t0
    conn.send(res)
    conn.close()


TIMED = re.compile("time limit of the check|time budget")


def run_all(items, tier, jobs, deadline, slow=False):
    """items: (mod, dem, spec); runs each in its own forked process."""
    pend = list(items)
    live, out = [], []
    ctx = mp.get_context("fork")
    while pend or live:
        while pend and len(live) < jobs:
            mod, dem, spec = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=run_spec, args=(mod, dem, spec, b, tier, slow))
            p.start()
            b.close()
            live.append((p, a, spec, time.time()))
        time.sleep(0.02)
        for x in list(live):
            p, a, spec, t0 = x
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = {"status": "unsupported", "detail": "verifier process ended", "obls": []}
                p.join()
            elif not p.is_alive():
                r = {"status": "unsupported", "detail": "verifier process ended", "obls": []}
            elif time.time() > deadline:
                p.kill()
                p.join()
                r = {"status": "unsupported", "detail": "time limit of the check reached", "obls": []}
            if r is not None:
                r.setdefault("spec", spec.name)
                r.setdefault("unit", spec.unit.name)
                r.setdefault("bounded", spec.bounded)
                r.setdefault("wall", time.time() - t0)
                r["_spec"] = spec
                out.append(r)
                live.remove(x)
    return out


def model_to_replay(spec, obl, path):
    name, kind, status, backend, t, fn, model, detail = obl
    with open(path, "w") as f:
        f.write("spec %s\nwhy obligation '%s' (%s) in %s fails [%s]\n" % (spec, name, kind, fn, backend))
        for (nm, k, v) in model or []:
            nm = "".join(c if not c.isspace() else "_" for c in nm) or "_"
            if k == "bytes":
                for b in v:
                    f.write("in %s y 0x%x\n" % (nm, b))
            else:
                f.write("in %s %s 0x%x\n" % (nm, {"double": "d", "bool": "b", "range": "r"}.get(k, "u"), int(v) & ((1 << 64) - 1)))


def native_replay(exe, spec, path):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2000", UBSAN_OPTIONS="print_stacktrace=0")
    try:
        p = subprocess.run([exe, "replay", spec, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=60, env=env, errors="replace")
    except subprocess.TimeoutExpired:
        return True, "the code does not terminate on this input"
    if p.returncode in (0, 4):
        return False, p.stdout
    if p.returncode == 2:
        return False, p.stdout
    return True, p.stdout[-3000:]


def native_search(exe, spec, secs, seed, out):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2000", UBSAN_OPTIONS="print_stacktrace=0")
    try:
        p = subprocess.run([exe, "search", spec, str(secs), str(seed), out], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=secs + 150, env=env, errors="replace")
    except subprocess.TimeoutExpired:
        return False, 0, 0, "search timed out"
    ev = ru = 0
    for ln in p.stdout.split("\n"):
        w = ln.split()
        if len(w) == 4 and w[0] == "evals":
            ev, ru = int(w[1]), int(w[3])
    return p.returncode == 3, ev, ru, p.stdout[-3000:]


def main(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    repdir = VERIF + "/evidence/replay"
    os.makedirs(repdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix="irv_%s_" % prop)
    try:
        return check(prop, tier, seed, work, repdir, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, seed, work, repdir, t0):
    P = importlib.import_module("props." + prop)
    specs = [s for s in P.SPECS if s.tier == "quick" or tier == "thorough"]
    only = os.environ.get("IRV_ONLY")
    if only:
        specs = [s for s in specs if s.name in only.split(",")]
    units = []
    for s in specs:
        if s.unit not in units:
            units.append(s.unit)
    allsrc = [os.path.basename(x) for x in build.repo_sources()]
    budget = float(os.environ.get("IRV_BUDGET", getattr(P, "BUDGET", 690 if tier == "quick" else 3400)))
    violations = []          # (name, replay path, has input)
    unit_ir, unit_exe, build_fail = {}, {}, {}

    def b_ir(u):
        src = u.sources if u.sources is not None else allsrc
        try:
            p = build.ir_module(work, u.specs, [s for s in src if s in allsrc], u.replaces, u.defs, tag="i_" + u.name)
            return u, p, None
        except build.BuildError as x:
            return u, None, str(x)

    def b_nat(u):
        src = u.sources if u.sources is not None else allsrc
        try:
            return u, build.native(work, u.specs, [s for s in src if s in allsrc], u.replaces, u.defs, tag="n_" + u.name), None
        except build.BuildError as x:
            if set(src) != set(allsrc):      # code may have moved to another source file
                try:
                    return u, build.native(work, u.specs, allsrc, u.replaces, u.defs, tag="m_" + u.name), None
                except build.BuildError as x2:
                    x = x2
            return u, None, str(x)
    with ThreadPoolExecutor(8) as ex:
        fi = [ex.submit(b_ir, u) for u in units]
        fn = [ex.submit(b_nat, u) for u in units if u.native]
        for f in fi:
            u, p, err = f.result()
            unit_ir[u.name] = p
            if err:
                build_fail[u.name + " (IR)"] = err
        for f in fn:
            u, p, err = f.result()
            unit_exe[u.name] = p
            if err:
                build_fail[u.name + " (native)"] = err
    t_build = time.time() - t0
    mods = {}
    for u in units:
        if unit_ir.get(u.name):
            try:
                m = ir.Module(open(unit_ir[u.name]).read())
                dem = build.demangle(list(m.funcs) + list(m.decls))
                mods[u.name] = (m, dem)
            except ir.ParseError as x:
                build_fail[u.name + " (parse)"] = str(x)
    items, results = [], []
    for s in specs:
        if s.native_only:
            continue
        if s.unit.name in mods:
            items.append((mods[s.unit.name][0], mods[s.unit.name][1], s))
        else:
            results.append({"spec": s.name, "unit": s.unit.name, "status": "unsupported", "obls": [],
                            "detail": "the contract file does not compile against /repo", "_spec": s, "bounded": s.bounded, "wall": 0})
    jobs = int(os.environ.get("IRV_JOBS", "8"))
    deadline = t0 + budget
    # native search of every contract runs alongside the proofs
    searches = {}
    nat = list({(s.unit.name, s.name): s for s in specs if unit_exe.get(s.unit.name)}.values())
    per = float(getattr(P, "SEARCH_SECS", 3.0)) * (5 if tier == "thorough" else 1)

    def do_search(s):
        out = os.path.join(work, "search_%s_%s.txt" % (s.unit.name, s.name))
        return s, native_search(unit_exe[s.unit.name], s.name, s.search if s.search is not None else per, seed, out), out
    sex = ThreadPoolExecutor(3)
    sf = [sex.submit(do_search, s) for s in nat]
    results += run_all(items, tier, jobs, deadline)
    # code may have moved to a source file that the unit does not list
    ext = [r for r in results if "call to external function lsst::sphgeom" in str(r.get("detail")) and r["_spec"].unit.sources is not None]
    if ext:
        again = []
        for u in {r["_spec"].unit for r in ext}:
            try:
                m = ir.Module(open(build.ir_module(work, u.specs, allsrc, u.replaces, u.defs, tag="j_" + u.name)).read())
                mods[u.name] = (m, build.demangle(list(m.funcs) + list(m.decls)))
                again += [(mods[u.name][0], mods[u.name][1], r["_spec"]) for r in ext if r["_spec"].unit is u]
            except (build.BuildError, ir.ParseError):
                pass
        redo = {id(x[2]) for x in again}
        results = [r for r in results if id(r["_spec"]) not in redo] + run_all(again, tier, jobs, deadline)
    # an operation that the IR passes moved in front of its guard looks unsafe: redo those contracts on IR without such moves
    sp = [r for r in results if any(o[1] == "safety" and o[2] == "failed" and ("shift" in o[0] or "overflow" in o[0] or "zero" in o[0]) for o in r["obls"])]
    if sp:
        again = []
        for u in {r["_spec"].unit for r in sp}:
            try:
                src = u.sources if u.sources is not None else allsrc
                m = ir.Module(open(build.ir_module(work, u.specs, [x for x in src if x in allsrc], u.replaces, u.defs, tag="k_" + u.name, nospec=True)).read())
                dm = build.demangle(list(m.funcs) + list(m.decls))
                again += [(m, dm, r["_spec"]) for r in sp if r["_spec"].unit is u]
            except (build.BuildError, ir.ParseError):
                pass
        redo = {id(x[2]) for x in again}
        results = [r for r in results if id(r["_spec"]) not in redo] + run_all(again, tier, jobs, max(deadline, time.time() + 120))
    # obligations without an answer (a loaded machine): once more, with more time for the solvers
    sl = [r for r in results if any(o[2] == "unknown" for o in r["obls"]) and not any(o[2] == "failed" for o in r["obls"]) and r["_spec"].unit.name in mods]
    if sl and time.time() < t0 + budget:
        redo = {id(r["_spec"]) for r in sl}
        more = run_all([(mods[r["_spec"].unit.name] + (r["_spec"],)) for r in sl], tier, max(2, jobs // 2), max(time.time() + 60, min(t0 + budget, time.time() + 200)), True)
        old = {id(r["_spec"]): r for r in sl}
        more = [old[id(x["_spec"])] if TIMED.search(str(x.get("detail"))) else x for x in more]
        results = [r for r in results if id(r["_spec"]) not in redo] + more
    for f in sf:
        s, r, out = f.result()
        searches[(s.unit.name, s.name)] = (r, out)
    # second chance for undecided contracts: the bounded fallback of the same contract
    fb = []
    for r in results:
        s = r["_spec"]
        bad = r["status"] != "ok" or any(o[2] != "proved" for o in r["obls"])
        if bad and s.fallback is not None and not any(o[2] == "failed" and o[6] is not None for o in r["obls"]):
            u = s.fallback.unit
            r["fallback"] = s.fallback.name
            if u.name in mods and not any(x[2] is s.fallback for x in fb):
                fb.append((mods[u.name][0], mods[u.name][1], s.fallback))
    fres = {}
    if fb:
        fres = {x["spec"]: x for x in run_all(fb, tier, jobs, time.time() + max(60.0, min(300.0, 780 - (time.time() - t0))))}
    known = load_known(prop)
    seen_known = []
    n_obl = n_dis = n_bounded = 0
    backends, trivial = {}, 0
    solver_time = 0.0
    undecided, late = [], []
    funcs, ucontracts, ufs = {}, {}, set()
    spec_report = []

    def report(sname, uname, what, obl, verifier_txt):
        """Try to turn an undischarged obligation into a failing input."""
        exe = unit_exe.get(uname)
        h = hashlib.sha1(("%s/%s/%s" % (uname, sname, what)).encode()).hexdigest()[:8]
        path = os.path.join(repdir, "%s_%s_%s.txt" % (prop, sname, h))
        if exe and obl is not None and obl[6] is not None:
            tmp = os.path.join(work, "rp.txt")
            model_to_replay(sname, obl, tmp)
            ok, txt = native_replay(exe, sname, tmp)
            if ok:
                shutil.copy(tmp, path)
                with open(path, "a") as f:
                    f.write("# replay on the real code: %s\n" % txt.replace("\n", "\n# "))
                return path, True
        sr = searches.get((uname, sname))
        if sr and sr[0][0]:
            shutil.copy(sr[1], path)
            return path, True
        if exe:
            out = os.path.join(work, "s2.txt")
            hit, ev, ru, txt = native_search(exe, sname, min(40.0, max(5.0, 860 - (time.time() - t0) - 170)), seed + 1, out)
            if hit:
                shutil.copy(out, path)
                return path, True
        with open(path, "w") as f:
            f.write("spec %s\nobligation not discharged: %s\nno failing input was found\n%s\n" % (sname, what, verifier_txt))
        return path, False

    for r in results:
        s = r["_spec"]
        st = r["status"]
        for o in r["obls"]:
            n_obl += 1
            if o[2] == "proved":
                n_dis += 1
                backends[o[3]] = backends.get(o[3], 0) + 1
        if s.bounded:
            nb = sum(1 for o in r["obls"])
            n_bounded += nb
            n_obl -= nb
            n_dis -= sum(1 for o in r["obls"] if o[2] == "proved")
        trivial += r.get("trivial", 0)
        solver_time += r.get("solver_time", 0)
        for k, v in r.get("entered", {}).items():
            funcs[k] = funcs.get(k, 0) + v
        for k, v in r.get("contracts", {}).items():
            ucontracts[k] = ucontracts.get(k, 0) + v
        ufs.update(r.get("ufs", []))
        bad = None
        fails = [o for o in r["obls"] if o[2] == "failed"]
        unk = [o for o in r["obls"] if o[2] == "unknown"]
        if fails:
            bad = ("%s: %s" % (fails[0][0], fails[0][7]), fails[0])
        elif unk:
            bad = ("%s (solver gave no answer)" % unk[0][0], unk[0])
        elif st != "ok" and TIMED.search(str(r.get("detail"))) and "fallback" not in r:
            # neither proved nor refuted in the time of the check: said so, not alarmed about
            late.append(s.name)
        elif st != "ok":
            bad = ("%s" % r.get("detail", st), None)
        elif not r["obls"]:
            bad = ("vacuous: no obligation was generated", None)
        elif r.get("end", 0) == 0 and not s.runner:
            bad = ("vacuous: no path reaches the end of the contract", None)
        else:
            # reached with a model of the path condition, or by a native run
            sr = searches.get((s.unit.name, s.name))
            nat_cov = [l[6:] for l in sr[0][3].split("\n") if l.startswith("cover ")] if sr else []
            miss = [c for c in s.covers if c not in r.get("covers", []) and c[:47] not in nat_cov]
            if miss:
                bad = ("vacuous: not reachable: %s" % ", ".join(miss), None)
        entry = {"contract": s.name, "unit": s.unit.name, "obligations": len(r["obls"]),
                 "proved": sum(1 for o in r["obls"] if o[2] == "proved"), "paths": r.get("paths", 0),
                 "wall_s": round(r.get("wall", 0), 2), "bounded": s.bounded, "status": ("proved" if st == "ok" else "not decided: time limit") if not bad else "not proved"}
        if r.get("notes"):
            entry["notes"] = r["notes"]
        if bad and "fallback" in r:
            fr = fres.get(r["fallback"])
            entry["proof_lost"] = bad[0][:500]
            if fr is not None and fr["status"] == "ok" and fr["obls"] and all(o[2] == "proved" for o in fr["obls"]) \
                    and not (searches.get((s.unit.name, s.name)) or ((0,),))[0][0]:
                # the unbounded proof did not apply; the bounded stand-in holds
                entry["status"] = "bounded stand-in held"
                n_obl -= len(r["obls"])
                n_dis -= entry["proved"]
                n_bounded += len(fr["obls"])
                print("NOTE %s: %s not proved unboundedly (%s); the bounded stand-in %s holds" % (prop, s.name, bad[0].split("\n")[0][:200], s.fallback.name))
                bad = None
            elif fr is not None and TIMED.search(str(fr.get("detail"))) and not (searches.get((s.unit.name, s.name)) or ((0,),))[0][0]:
                late.append(s.fallback.name)
                entry["status"] = "not decided: time limit"
                bad = None
            elif fr is not None:
                ff = [o for o in fr["obls"] if o[2] != "proved"]
                if ff:
                    bad = ("%s (bounded stand-in %s)" % (ff[0][0], s.fallback.name), None)
                    path, has = report(s.fallback.name, s.fallback.unit.name, bad[0], ff[0], json.dumps(ff[0][:6]))
                    violations.append((s.name, bad[0], path, has))
                    entry["status"] = "violated"
                    spec_report.append(entry)
                    continue
        spec_report.append(entry)
        if bad:
            if "VERBOSE" in os.environ:
                print("   ", s.name, bad)
            path, has = report(s.name, s.unit.name, bad[0], bad[1], json.dumps({"obligation": bad[0], "where": bad[1][5] if bad[1] else "", "backend": bad[1][3] if bad[1] else "", "model": bad[1][6] if bad[1] else None}, default=str))
            violations.append((s.name, bad[0], path, has))
    if late:
        print("NOTE %s: not decided within the time limit: %s" % (prop, ", ".join(late)))
    bad_specs = {v[0] for v in violations}
    evals = 0
    for (un, sn), (r, out) in searches.items():
        evals += r[1]
        if r[0] and sn not in bad_specs:
            path, has = os.path.join(repdir, "%s_%s_search.txt" % (prop, sn)), True
            shutil.copy(out, path)
            with open(path, "a") as f:
                f.write("# %s\n" % r[3].replace("\n", "\n# "))
            violations.append((sn, "native execution of the contract fails", path, True))
    for k, v in build_fail.items():
        if "VERBOSE" in os.environ:
            print("build:", k, v[:2000])
        un = k.split(" ")[0]
        if all(e["status"] == "bounded stand-in held" for e in spec_report if e["unit"] == un):
            continue      # e.g. a private member was renamed: the stand-ins need only the public interface
        if not any(s.unit.name == un and s.name in {x[0] for x in violations} for s in specs):
            path = os.path.join(repdir, "%s_build_%s.txt" % (prop, un))
            with open(path, "w") as f:
                f.write("the contracts do not compile against /repo\n" + v)
            violations.append((un, "contracts do not compile: " + v[:300], path, False))
    extra = []
    if hasattr(P, "EXTRA") and not only:
        for fnx in P.EXTRA:
            extra.append(fnx(work, tier, seed, repdir))
        for x in extra:
            for (nm, what, path, has) in x.get("violations", []):
                violations.append((nm, what, path, has))
            n_obl += x.get("obligations", 0)
            n_dis += x.get("discharged", 0)
    rc = 0
    real = []
    for v in violations:
        kf = match_known(known, v)
        if kf:
            seen_known.append(kf)
        else:
            real.append(v)
    for kf in known:
        if kf["status"] == "known":
            print("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
    # violations with a failing input first
    real.sort(key=lambda v: not v[3])
    for nm, what, path, has in real:
        print("  contract %s: %s" % (nm, str(what).split("\n")[0][:300]))
    if real:
        rc = 1
        nm, what, path, has = real[0]
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if has else " no-failing-input-found"))
    repo_funcs = sorted(k for k in funcs if k.startswith("lsst::sphgeom::") or "(anonymous namespace)" in k)
    level = getattr(P, "LEVEL", "proof")
    cov = {"obligations": n_obl, "discharged": n_dis, "obligations_by_backend": backends,
           "trivial_safety_conditions": trivial, "bounded_obligations_not_counted": n_bounded,
           "contracts": spec_report, "functions_executed_under_contract": repo_funcs,
           "functions_replaced_by_their_contract": ucontracts,
           "uninterpreted_functions": sorted(ufs),
           "solver_time_s": round(solver_time, 2), "build_s": round(t_build, 2),
           "native_evaluations_of_the_same_contracts": evals,
           "checker_cmd": "./check.sh %s" % prop,
           "trusted_base": TRUSTED + list(getattr(P, "TRUSTED", []))}
    cov.update({"extra": [x.get("report") for x in extra]} if extra else {})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(getattr(P, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 2), "violations": len(real)}
    if not only:
        with open(VERIF + "/evidence/%s.json" % prop, "w") as f:
            json.dump(ev, f, indent=1)
    print("%s: %d contracts, %d obligations, %d discharged, %d bounded, %d native evaluations, %.1f s -> %s" %
          (prop, len(specs), n_obl, n_dis, n_bounded, evals, time.time() - t0, "VIOLATED" if rc else "held"))
    if "VERBOSE" in os.environ:
        for x in spec_report:
            print("   ", x)
    return rc


TRUSTED = [
    "clang 18 front end at -O0 with the passes sroa, early-cse, simplifycfg (the verified text is their output from /repo's sources; the shipped library is built by g++)",
    "irv/ir.py, irv/engine.py, irv/models.py (IR semantics and the models of the C++ runtime, libc and SSE2 intrinsics)",
    "z3, cvc5",
]


def load_known(prop):
    out = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known: property=%s " % prop):
                rest = ln[len("known: property=%s " % prop):]
                m = rest.split(" ", 1)
                out.append({"status": "known", "id": m[0], "what": m[1] if len(m) > 1 else m[0]})
    return out


def match_known(known, v):
    return None


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    sys.exit(main(sys.argv[1]))
