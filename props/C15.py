from irv.check import Unit, Spec

NOTE = "Proved for all doubles. Assumed contracts of libm: fmod exact, atan2/sqrt/sin/cos range and sign. Norm-1 accuracy of normalize is only tested natively. Trusts clang's IR, the executor, the solvers."

U = Unit("angle.cc", sources=["NormalizedAngle.cc", "Angle.cc", "LonLat.cc", "Vector3d.cc", "UnitVector3d.cc"])
V = Unit("angle.cc", sources=["NormalizedAngle.cc", "Angle.cc", "LonLat.cc", "Vector3d.cc", "UnitVector3d.cc"], defs=["-DIRV_SIMD"], extra=["portable_vec.cc"], name="vec")
E = {"fp_err": "abs"}
SPECS = [
    Spec(U, "angle_compare"), Spec(U, "angle_add"), Spec(U, "angle_mul"), Spec(U, "angle_degrees"),
    Spec(U, "nangle_ctor", E, covers=["negative", "large"]), Spec(U, "nangle_to", E), Spec(U, "nangle_center", E), Spec(U, "nangle_vectors", E),
    Spec(U, "nangle_lonlats", E), Spec(U, "lonlat_ctor", covers=["throws"]), Spec(U, "lonlat_from", E), Spec(U, "lonlat_equal"), Spec(U, "lonlat_vector", E),
    Spec(U, "lonlat_axes"), Spec(V, "vec_normalize_nan", {"merge": "^double .*|^std::.*", "light": True}),
    Spec(V, "vec_normalize", {"merge": "^double .*|^std::.*", "light": True}, covers=["zero"]),
]
