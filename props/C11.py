from irv.check import Unit, Spec
from irv.engine import redirect

NOTE = ("Proved for operands and regions with arbitrary answers (so for any nesting). Bounding circles through the contracts of Circle::expandTo/clipTo, "
        "which are assumed (spherical floating-point geometry, C17). Mutual implementation of relations checked by replacing the implementing side with an arbitrary answer.")
U = Unit("compound.cc")
M = {"merge": r"^lsst::sphgeom::(Interval|detail::Interval|Angle|NormalizedAngle|Box|LonLat).*|^\(anonymous namespace\)::.*|^bool .*Interval.*"}
ME = dict(M, fp_err="abs")
NS = "lsst::sphgeom::"


def cb(cls, fn, arg, stub):
    nm = "contract_" + stub
    m = {"Box": "3Box", "Circle": "6Circle", "ConvexPolygon": "13ConvexPolygon", "Ellipse": "7Ellipse"}
    return {"%s%s::%s(%s%s const&)%s" % (NS, cls, fn, NS, arg, " const" if fn == "relate" else ""):
            redirect("_ZN4lsst7sphgeom%d%sEP%sNS0_%sERKNS0_%sE" % (len(nm), nm, "K" if fn == "relate" else "", m[cls], m[arg]) if m[cls] != m[arg]
                     else "_ZN4lsst7sphgeom%d%sEPNS0_%sERKS1_" % (len(nm), nm, m[cls]))}


def mir(*a):
    return {"contracts": cb(*a)}


SPECS = [Spec(U, n) for n in ("invert union_contains intersection_contains union_relate intersection_relate union_relate_box union_relate_circle "
         "union_relate_polygon union_relate_ellipse intersection_relate_box intersection_relate_circle intersection_relate_polygon "
         "intersection_relate_ellipse union_copies intersection_copies dispatch_box dispatch_circle dispatch_polygon dispatch_ellipse nested").split()]
SPECS += [
    Spec(U, "mirror_circle_box", mir("Box", "relate", "Circle", "box_circle")),
    Spec(U, "mirror_box_polygon", mir("ConvexPolygon", "relate", "Box", "poly_box")),
    Spec(U, "mirror_circle_polygon", mir("ConvexPolygon", "relate", "Circle", "poly_circle")),
    Spec(U, "mirror_box_ellipse", mir("Ellipse", "relate", "Box", "ellipse_box")),
    Spec(U, "mirror_circle_ellipse", mir("Ellipse", "relate", "Circle", "ellipse_circle")),
    Spec(U, "mirror_ellipse_polygon", {"contracts": dict(cb("ConvexPolygon", "relate", "Circle", "poly_circle"), **{r"~detail::relate<.*Circle const&\)$": redirect("contract_impl_circle")})}),
    Spec(U, "union_box", ME), Spec(U, "intersection_box", ME), Spec(U, "union_box3d"), Spec(U, "intersection_box3d"),
    Spec(U, "union_circle", {"contracts": cb("Circle", "expandTo", "Circle", "expand")}),
    Spec(U, "intersection_circle", {"contracts": cb("Circle", "clipTo", "Circle", "clip")}),
]
