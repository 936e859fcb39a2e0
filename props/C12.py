from irv.check import Unit, Spec, parts
from irv.engine import redirect

NOTE = ("All levels, all indices and all points with finite components (no bound). The descent of HTM is verified with "
        "orientation and the normalisation of midpoints as uninterpreted functions (its loops are unrolled over the levels, the paths of "
        "an iteration joined); neighbourhoods over the curve functions as the bijections that C03 proves; std::sort and std::unique by contract. "
        "There is no inverse of the string form in C++: that the string determines the index is shown instead. The SIMD variants are verified "
        "(those compiled on x86-64). NaN points are excluded.")
NS = "lsst::sphgeom::"
LOG2 = {NS + "log2(unsigned long)": redirect("_ZN4lsst7sphgeom13contract_log2Em")}
UNIT = {NS + "UnitVector3d::UnitVector3d(" + NS + "Vector3d const&)": redirect("_ZN4lsst7sphgeom13contract_unitEPNS0_12UnitVector3dERKNS0_8Vector3dE"),
        NS + "orientation(%sUnitVector3d const&, %sUnitVector3d const&, %sUnitVector3d const&)" % (NS, NS, NS):
        redirect("_ZN4lsst7sphgeom20contract_orientationERKNS0_12UnitVector3dES3_S3_")}
INS = {"~RangeSet::insert\\(unsigned long, unsigned long\\)": redirect("_ZN4lsst7sphgeom15contract_insertEPNS0_8RangeSetEmm")}
H = Unit("htm.cc", replaces=["HtmPixelization.cc"])
L = {"contracts": LOG2}
LU = {"contracts": dict(LOG2, **UNIT, **INS), "fp": "uf", "join_loops": r"HtmPixelization::(index|triangle)", "join_lazy": True, "opaque": True, "commute": True}
SPECS = [Spec(H, "htm_level"), Spec(H, "htm_construct"), Spec(H, "htm_universe"), Spec(H, "htm_string", L), Spec(H, "htm_reject", L)]
SPECS += [x for n, k in (("htm_triangle_valid", 5), ("htm_index", 25), ("htm_children", 12)) for x in parts(H, n, k, LU)]
SPECS += [Spec(H, "htm_roots", LU)]
SPECS += [Spec(H, "htm_root", {"fp": "uf"})]

CURVE = {
    NS + "mortonIndex(unsigned int, unsigned int)": redirect("_ZN4lsst7sphgeom15contract_mortonEjj"),
    NS + "mortonIndexInverse(unsigned long)": redirect("_ZN4lsst7sphgeom23contract_morton_inverseEm"),
    NS + "hilbertIndex(unsigned int, unsigned int, int)": redirect("_ZN4lsst7sphgeom16contract_hilbertEjji"),
    NS + "hilbertIndexInverse(unsigned long, int)": redirect("_ZN4lsst7sphgeom24contract_hilbert_inverseEmi")}
SORT = {"~std::sort<unsigned long": redirect("_ZN4lsst7sphgeom13contract_sortEPmS1_"),
        "~std::unique<unsigned long": redirect("_ZN4lsst7sphgeom15contract_uniqueEPmS1_")}
IDX = {"contracts": {"~::faceNumber\\(": redirect("_ZN4lsst7sphgeom13contract_faceERKNS0_12UnitVector3dERA64_Kh"),
                     "~::faceToGrid\\(": redirect("_ZN4lsst7sphgeom13contract_gridEiDv2_d"),
                     "~sphgeom::mortonIndex\\(.*vector": redirect("_ZN4lsst7sphgeom17contract_morton_vEDv2_x"),
                     "~sphgeom::hilbertIndex\\(.*vector": redirect("_ZN4lsst7sphgeom18contract_hilbert_vEDv2_xi")}}
LVL = {NS + "Mq3cPixelization::level(unsigned long)": redirect("_ZN4lsst7sphgeom14contract_levelEm")}
WRAP = {"~::wrapIndex\\(": redirect("_ZN4lsst7sphgeom13contract_wrapEiijj")}
QUAD = {"~::makeQuad\\(": redirect("_ZN4lsst7sphgeom13contract_quadEmiPNS0_12UnitVector3dE")}
for U, n in ((Unit("q3c.cc", replaces=["Q3cPixelization.cc"]), "q3c_"), (Unit("q3c.cc", replaces=["Mq3cPixelization.cc"], defs=["-DMQ3C"], name="mq3c"), "mq3c_")):
    SPECS += [Spec(U, n + "construct"), Spec(U, n + "universe"), Spec(U, n + "string", L), Spec(U, n + "reject", L)]
    SPECS += [Spec(U, n + "accept", {"contracts": dict(LOG2, **QUAD)}), Spec(U, n + "children", {"contracts": dict(INS, **QUAD)}), Spec(U, n + "roots", {"contracts": dict(INS, **QUAD)})]
    if n == "mq3c_":
        SPECS += [Spec(U, "mq3c_level"), Spec(U, "mq3c_reject_pixel")]
    SPECS += [Spec(U, n + "face", {"exact": True, "timeout": 60000})] + (parts(U, n + "grid", 16, {"exact": True, "timeout": 60000}) if n == "q3c_" else [])
    SPECS += parts(U, n + "index", 3, IDX)
    SPECS += parts(U, n + "wrap", 12, {"contracts": CURVE})
    SPECS += parts(U, n + "neighborhood", 1, {"contracts": dict(CURVE, **SORT, **WRAP, **LVL)})
