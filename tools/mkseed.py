"""python3 tools/mkseed.py ID < description: a JSON object with property, needs, what_it_breaks,
edits [[file, old, new], ...] and demo (C++ main body or whole program, or python when lang=py)."""
import json, os, subprocess, sys, shutil, tempfile
HEADERS = 'Angle AngleInterval BigInteger Box Box3d Chunker Circle CompoundRegion ConvexPolygon Ellipse HtmPixelization Interval1d LonLat Mq3cPixelization NormalizedAngle NormalizedAngleInterval Q3cPixelization RangeSet Region Relationship UnitVector3d Vector3d codec constants curve orientation utils'.split()


def main(i, d):
    out = "/verif/seeded/" + i
    os.makedirs(out, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
    for f, old, new in d["edits"]:
        p = w + "/r/" + f
        s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    df = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
    open(out + "/patch.diff", "w").write(df)
    shutil.rmtree(w)
    json.dump({k: d[k] for k in ("property", "needs", "what_it_breaks")}, open(out + "/meta.json", "w"), indent=1)
    if d.get("lang") == "py":
        open(out + "/demo.py", "w").write(d["demo"])
        sh = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH=/repo/_build/install/python LD_LIBRARY_PATH=/repo/_build/install/lib exec /opt/vp/venv/bin/python "$D/demo.py"
'''
    else:
        src = d["demo"]
        if "int main" not in src:
            src = "".join('#include "lsst/sphgeom/%s.h"\n' % h for h in HEADERS) + '#include <cstdio>\n#include <cstdlib>\nusing namespace lsst::sphgeom;\n#define REQUIRE(c) do { if (!(c)) { std::printf("failed: %s\\n", #c); std::exit(1); } } while (0)\nint main() {\n' + src + "\n    return 0;\n}\n"
        open(out + "/demo.cc", "w").write(src)
        sh = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -r "$T"' EXIT
g++ -std=c++17 -O1 %s -I/repo/include -o "$T/demo" "$D/demo.cc" %s || exit 2
LD_LIBRARY_PATH=/repo/_build/install/lib "$T/demo"
''' % (d.get("flags", ""), d.get("link", "-L/repo/_build/install/lib -lsphgeom"))
    open(out + "/demo.sh", "w").write(sh)
    os.chmod(out + "/demo.sh", 0o755)
if __name__ == "__main__":
    main(sys.argv[1], json.load(sys.stdin))
