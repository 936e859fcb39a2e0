from irv.check import Unit, Spec

NOTE = "Proved for all normalized bounds including NaN, points and full circle; the statements about dilation hold up to a stated rounding of 2^-49. Assumes the contract of libm's fmod (exact remainder). Trusts clang's IR, the executor, the solvers."

U = Unit("nai.cc", sources=["NormalizedAngleInterval.cc", "NormalizedAngle.cc", "Angle.cc"])
E = {"fp_err": "abs"}
SPECS = [
    Spec(U, "nai_oracle"), Spec(U, "nai_basic", covers=["wraps", "plain"]),
    Spec(U, "nai_pair", covers=["contains", "disjoint", "wrapping pair"]), Spec(U, "nai_disjoint"),
    Spec(U, "nai_clip", covers=["two arcs"], opts=E), Spec(U, "nai_clip_point"),
    Spec(U, "nai_expand", covers=["intersecting", "disjoint"], opts=E), Spec(U, "nai_expand_point", opts=E),
    Spec(U, "nai_dilate", opts=E, covers=["dilate", "erode"]),
    Spec(U, "nai_dilate_amount", opts=E, covers=["full", "empty"]), Spec(U, "nai_erode", opts=E),
    Spec(U, "nai_ctor", opts=E, covers=["throws", "normalizes"]), Spec(U, "nai_ctor_degrees", opts=E), Spec(U, "nai_point_ctor"),
    Spec(U, "nai_dilate_post", opts=E), Spec(U, "nai_center", opts=E),
]
