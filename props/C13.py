from irv.check import Unit, Spec, parts
from irv.engine import redirect, recursive

NOTE = ("The relation of a pixel to the region is arbitrary (its own correctness is C17); sets of pixels are followed through one arbitrary index, RangeSet by its contracts (C01, C02), "
        "visit() by recursion on its own contract (partial correctness: termination is not shown). The child vertices of HTM are covered by C12. "
        "That HTM results lie in the universe is checked natively only, as is the whole with the real relations on levels 0-4.")
ASSUMPTIONS = ["RangeSet::insert, simplify, complement, join, intersection, size behave as their contracts (C01, C02)",
               "a pixel that is disjoint from (within) a region has only descendants that are (consistency of relate, C17)",
               "termination of the traversal"]
SEARCH_SECS = 2.0
R = {"~RangeSet::insert\\(unsigned long, unsigned long\\)": redirect("_ZN4lsst7sphgeom15contract_insertEPNS0_8RangeSetEmm"),
     "~RangeSet::size\\(\\) const": redirect("_ZN4lsst7sphgeom13contract_sizeEPKNS0_8RangeSetE"),
     "~RangeSet::complement\\(\\)": redirect("_ZN4lsst7sphgeom19contract_complementEPNS0_8RangeSetE"),
     "~RangeSet::simplify\\(": redirect("_ZN4lsst7sphgeom17contract_simplifyEPNS0_8RangeSetEj")}
Q = {"~::makeQuad\\(": redirect("_ZN4lsst7sphgeom13contract_quadEmiPNS0_12UnitVector3dE")}
VISIT = "_ZN4lsst7sphgeom14contract_visitEPvPKNS0_12UnitVector3dEmi"
RUN = {"~Finder<lsst::sphgeom::%s, (true|false)>::operator\\(\\)" % t: redirect("_ZN4lsst7sphgeom%d%sEPv" % (len(f), f)) for t, f in
       (("Circle", "contract_run_circle"), ("Box", "contract_run_box"), ("ConvexPolygon", "contract_run_polygon"))}
SETS = {"~RangeSet::join\\(": redirect("_ZN4lsst7sphgeom13contract_joinEPNS0_8RangeSetEPKS1_S4_"),
        "~RangeSet::intersection\\(": redirect("_ZN4lsst7sphgeom13contract_meetEPNS0_8RangeSetEPKS1_S4_")}
FE, FI = ("_ZN4lsst7sphgeom17contract_find_%sEPNS0_8RangeSetEPKNS0_6RegionEmi" % k for k in ("env", "int"))
KE, KI = "~findPixels<.*, false>\\(", "~findPixels<.*, true>\\("
REC = dict(SETS, **{KE: recursive(FE), KI: recursive(FI)})
FIND = dict(SETS, **{KE: redirect(FE), KI: redirect(FI)})
MAXL = {"htm": 24, "q3c": 30, "mq3c": 30}
SPECS = []
for n, src in (("htm", "Htm"), ("q3c", "Q3c"), ("mq3c", "Mq3c")):
    U = Unit("finder.cc", replaces=[src + "Pixelization.cc"], defs=["-D" + n.upper()], name="finder_" + n)
    C = dict(R, **(Q if n != "htm" else {}))
    V, W = {"~PixelFinder<.*>::visit\\(": recursive(VISIT)}, {"~PixelFinder<.*>::visit\\(": redirect(VISIT)}
    I = {"~PixelFinder<.*>::_insert\\(": redirect("_ZN4lsst7sphgeom22contract_finder_insertEPvmi")}
    for k in ("envelope", "interior"):
        SPECS += [Spec(U, "visit_" + k, {"contracts": dict(C, **V)}), Spec(U, "visit_%s_limited" % k, {"contracts": dict(C, **V, **I)})]
        SPECS += [Spec(U, "roots_" + k, {"contracts": dict(C, **W)}), Spec(U, "roots_%s_limited" % k, {"contracts": dict(C, **W)})]
        if n == "q3c":      # the same template for all, of any index
            SPECS += parts(U, "insert_" + k, MAXL[n] + 1, {"contracts": C, "join_loops": r"PixelFinder<.*>::_insert"})
    SPECS += [Spec(U, k, {"contracts": dict(C, **RUN)}) for k in ("find_circle", "find_box", "find_polygon", "find_ellipse")]
    SPECS += [Spec(U, k, {"contracts": dict(C, **REC)}) for k in ("find_union", "find_union_interior", "find_intersection", "find_intersection_interior")]
    SPECS += [Spec(U, k, {"contracts": dict(C, **FIND)}) for k in ("envelope", "interior")]
