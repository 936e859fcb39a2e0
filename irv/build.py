"""Compiles /repo's current sources and the contracts: to LLVM IR for the verifier,
and natively (g++, sanitizers) for replay and search."""
import glob
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("IRV_REPO", "/repo")
CLANG = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"


def tool(n):
    for c in ("/usr/bin/%s-18" % n, "/usr/lib/llvm-18/bin/" + n, n):
        if os.path.exists(c):
            return c
    return n


CXXF = ["-w", "-std=gnu++17", "-DNDEBUG", "-I", REPO + "/include", "-I", REPO + "/src",
        "-I", VERIF + "/specs"]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def repo_sources():
    return sorted(glob.glob(REPO + "/src/*.cc"))


def ir_module(work, specs, sources, replaces=(), defs=(), passes="function(sroa,early-cse,simplifycfg)", tag="m", nospec=False):
    """Textual IR of the contract files linked with the given sources of /repo."""
    jobs = [(VERIF + "/specs/" + s, os.path.join(work, tag + "_" + s.replace("/", "_") + ".bc")) for s in specs]
    for s in sources:
        if s in replaces:
            continue
        jobs.append((REPO + "/src/" + s, os.path.join(work, tag + "_repo_" + s + ".bc")))

    def one(j):
        sh([CLANG] + CXXF + list(defs) + ["-include", VERIF + "/specs/irv_prefix.h", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names",
           "-ffp-contract=off", "-fno-access-control", "-c", "-emit-llvm", j[0], "-o", j[1]])
        return j[1]
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(one, jobs))
    out = os.path.join(work, tag + ".ll")
    lnk = os.path.join(work, tag + ".bc")
    sh([tool("llvm-link")] + bcs + ["-o", lnk])
    # nospec: the passes move no instruction in front of the branch that guards it (LLVM may do so where
    # the result is unused when the branch goes the other way; the executor then sees an unguarded operation)
    fl = ["-phi-node-folding-threshold=0", "-two-entry-phi-node-folding-threshold=0", "-bonus-inst-threshold=0", "-speculate-one-expensive-inst=false"] if nospec else []
    sh([tool("opt"), "-S", "-passes=" + passes] + fl + [lnk, "-o", out])
    return out


def native(work, specs, sources, replaces=(), defs=(), tag="n", san=True, opt="-O1"):
    """The native program with the same contracts over the same sources."""
    fl = ["-w", "-g1", opt, "-fno-access-control", "-DIRV_NATIVE", "-D_GLIBCXX_ASSERTIONS", "-ffp-contract=off"]
    if san:
        fl += ["-fsanitize=address,undefined,float-cast-overflow,float-divide-by-zero"[:50] if False else
               "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all"]
    srcs = [VERIF + "/native/irv_rt.cc"] + [VERIF + "/specs/" + s for s in specs]
    srcs += [REPO + "/src/" + s for s in sources if s not in replaces]

    def one(s):
        o = os.path.join(work, tag + "_" + os.path.basename(s) + ("_v" if s.startswith(VERIF) else "_r") + ".o")
        sh(["g++"] + CXXF + list(defs) + fl + ["-c", s, "-o", o])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    exe = os.path.join(work, tag + ".exe")
    sh(["g++"] + (["-fsanitize=address,undefined"] if san else []) + objs + ["-o", exe])
    return exe


def demangle(names):
    p = subprocess.run([tool("llvm-cxxfilt")], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    out = p.stdout.split("\n")
    return dict(zip(names, out))
