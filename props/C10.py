from irv.check import Unit, Spec
from irv.engine import redirect

NOTE = ("Proved for every field value and every byte string of any length for boxes, circles, ellipses and the two compound kinds "
        "(recursive calls through the contract of Region::decode). Polygons of 3..6 vertices and operand encodings of 0..4 bytes are bounded stand-ins. "
        "Assumes little-endian target, unaligned loads allowed (codec.h relies on both).")

NS = "lsst::sphgeom::"
SIG = "::decode(unsigned char const*, unsigned long)"
DISPATCH = {NS + c + SIG: redirect("_ZN4lsst7sphgeom%d%sEPKhm" % (len(f), f)) for c, f in (
    ("Box", "contract_box"), ("Circle", "contract_circle"), ("ConvexPolygon", "contract_polygon"), ("Ellipse", "contract_ellipse"),
    ("UnionRegion", "contract_union"), ("IntersectionRegion", "contract_intersection"))}
LONG = 120000
SUB = {NS + "Region" + SIG: redirect("_ZN4lsst7sphgeom15contract_regionEPKhm")}
OPD = {NS + "Region" + SIG: redirect("_ZN4lsst7sphgeom16contract_operandEPKhm")}

U = Unit("codec.cc")
V = Unit("codec.cc", defs=["-DNO_OPTIMIZED_PATHS"], name="portable")
PB = "polygons of 3 to 6 vertices"
SPECS = []
for u in (U, V):
    SPECS += [
        Spec(u, "codec_double"), Spec(u, "codec_box"), Spec(u, "codec_circle"), Spec(u, "codec_ellipse"),
        Spec(u, "codec_polygon", bounded=PB),
        Spec(u, "decode_box", covers=["accepts"]), Spec(u, "decode_circle", covers=["accepts"]),
        Spec(u, "decode_ellipse", covers=["accepts"]), Spec(u, "decode_circle_exact"),
        Spec(u, "decode_polygon_reject"), Spec(u, "decode_polygon", bounded=PB),
        Spec(u, "decode_region", {"contracts": DISPATCH}),
        Spec(u, "decode_union", {"contracts": SUB, "timeout": LONG}, covers=["accepts"]),
        Spec(u, "decode_intersection", {"contracts": SUB, "timeout": LONG}, covers=["accepts"]),
        Spec(u, "decode_compound", {"contracts": SUB, "timeout": LONG}, covers=["accepts"]),
        Spec(u, "codec_union", {"contracts": OPD}, bounded="operand encodings of 0 to 4 arbitrary bytes"),
        Spec(u, "codec_intersection", {"contracts": OPD}, bounded="operand encodings of 0 to 4 arbitrary bytes"),
        Spec(u, "codec_nested", bounded="one nesting of three levels, triangles as polygons"),
        Spec(u, "decode_damaged", native_only="damaged encodings of nested regions, native search with address sanitizer", search=6),
    ]
