from irv.check import Unit, Spec

NOTE = "Proved for all bit patterns of the double bounds. Trusts clang's IR, the executor, the solvers."

U = Unit("box3d.cc", sources=["Box3d.cc", "Vector3d.cc", "Interval1d.cc"])
M = {"merge": r"^lsst::sphgeom::(Interval|detail::Interval|Angle|Box3d).*|^\(anonymous namespace\)::.*|^bool .*Interval.*"}
SPECS = [
    Spec(U, "b3_ctor", M, covers=["empty"]), Spec(U, "b3_ctor_vec", M), Spec(U, "b3_point", M, covers=["inside"]), Spec(U, "b3_oracle", M),
    Spec(U, "b3_pair", M, covers=["contains", "overlaps"]), Spec(U, "b3_clip", M), Spec(U, "b3_clip_point", M),
    Spec(U, "b3_expand", M), Spec(U, "b3_expand_point", M), Spec(U, "b3_dilate", M, covers=["eroded away"]), Spec(U, "b3_dilate1", M),
    Spec(U, "b3_erode", M), Spec(U, "b3_size", M),
]
