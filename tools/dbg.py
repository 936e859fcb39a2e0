"""python3-vt tools/dbg.py PROP SPEC [i n] [-p]: runs one contract in this process (-p: with a profile)."""
import importlib, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(100000)
from irv import build, ir, engine, check
args = [a for a in sys.argv[1:] if a[0] != "-"]
P = importlib.import_module("props." + args[0])
spec = [s for s in P.SPECS if s.name == args[1]][0]
u = spec.unit
w = "/tmp/dbgw"
os.makedirs(w, exist_ok=True)
src = build.repo_sources() if u.sources is None else u.sources
p = build.ir_module(w, u.specs, [os.path.basename(s) for s in src], u.replaces, u.defs)
m = ir.Module(open(p).read())
dem = build.demangle(list(m.funcs) + list(m.decls))
opts = dict(spec.opts)
if "IRV_BUDGET" in os.environ:
    opts["budget"] = float(os.environ["IRV_BUDGET"])
if len(args) > 2:
    opts["part"] = (int(args[2]), int(args[3]))
o = engine.Opts(**opts)
o.bounded = bool(spec.bounded)
o.stop_on_fail = True
e = engine.Engine(m, dem, o)
e.spec = spec.name
if spec.setup:
    spec.setup(e, m, dem)


def go():
    t = time.time()
    try:
        e.run("spec_" + spec.name)
    except engine.Failed:
        pass
    except engine.Unsupported:
        tb = sys.exc_info()[2]
        while tb:
            st = tb.tb_frame.f_locals.get("st")
            tb = tb.tb_next
        if st is not None:
            for f in st.frames:
                print("  in", dem.get(f.fn.name, f.fn.name)[:150])
        raise
    finally:
        print("%.1f s, %d paths, %d obligations, end %s, solver %.1f" % (time.time() - t, e.paths, len(e.obls), e.covers.get("end"), e.solver_time))
        for b in e.obls:
            if b.status != "proved":
                print(b.name, b.kind, b.status, b.fn, b.model, b.detail)


if "-p" in sys.argv:
    import cProfile, pstats
    pr = cProfile.Profile()
    pr.enable()
    try:
        go()
    finally:
        pr.disable()
        pstats.Stats(pr).sort_stats("cumtime").print_stats(35)
else:
    go()
