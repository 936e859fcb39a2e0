from irv.check import Unit, Spec

NOTE = "Proved for all component intervals that satisfy the class invariant. NormalizedAngleInterval dilation is used by its contract, which C07 proves; sin, cos, asin, fmod of libm by domain and range. Trusts clang's IR, the executor, the solvers."
from irv.engine import redirect

U = Unit("box.cc", sources=None)
M = {"merge": r"^lsst::sphgeom::(Interval|detail::Interval|Angle|NormalizedAngle|Box|LonLat).*|^\(anonymous namespace\)::.*|^bool .*Interval.*"}
ME = dict(M, fp_err="abs")
# the callee's contract, verified by nai_dilate_post below
MD = dict(ME, contracts={"lsst::sphgeom::NormalizedAngleInterval::dilatedBy(lsst::sphgeom::Angle) const": redirect("contract_dilatedBy")})
N = Unit("nai.cc", sources=["NormalizedAngleInterval.cc", "NormalizedAngle.cc", "Angle.cc"])
SPECS = [
    Spec(N, "nai_dilate_post", {"fp_err": "abs"}),
    Spec(U, "box_ctor", M, covers=["latitudes out of range"]), Spec(U, "box_ctor_points", M), Spec(U, "box_ctor_around", MD),
    Spec(U, "box_ctor_convert", ME), Spec(U, "box_ctor_degrees", ME), Spec(U, "box_point", M, covers=["inside"]),
    Spec(U, "box_pair", M, covers=["contains", "overlaps", "disjoint"]), Spec(U, "box_oracle", M), Spec(U, "box_clip", ME),
    Spec(U, "box_clip_point", M), Spec(U, "box_expand", ME), Spec(U, "box_expand_point", ME),
    Spec(U, "box_dilate_wh", MD, covers=["eroded away"]), Spec(U, "box_dilate_grow", MD), Spec(U, "box_dilate_r", MD, covers=["pole", "no pole"]),
    Spec(U, "box_erode", MD), Spec(U, "box_erode_r", MD), Spec(U, "box_halfwidth", ME), Spec(U, "box_region", M), Spec(U, "box_center", ME),
]
