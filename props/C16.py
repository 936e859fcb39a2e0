from irv.check import Unit, Spec
from irv.engine import redirect

LEVEL = "other"
NOTE = ("Containment with the orientation predicate as an arbitrary alternating function (its meaning is C05), for polygons of 3 to 8 vertices; equality for 3 and 4 vertices "
        "(bounded in the number of vertices only: coordinates are arbitrary). The derived predicates are proved for every answer of relate. Trusts clang's IR, the executor, the solvers.")
U = Unit("polygon.cc")
O = {"contracts": {"lsst::sphgeom::orientation(lsst::sphgeom::UnitVector3d const&, lsst::sphgeom::UnitVector3d const&, lsst::sphgeom::UnitVector3d const&)":
     redirect("_ZN4lsst7sphgeom20contract_orientationERKNS0_12UnitVector3dES3_S3_")}}
B = "polygons of 3 to %d vertices, of any coordinates"
SPECS = [Spec(U, "polygon_contains", O, bounded=B % 8)] + [Spec(U, n, O, bounded=B % 4) for n in "polygon_contains_region polygon_contains_copy polygon_contains_clone".split()]
SPECS += [Spec(U, "polygon_equal", {"opaque": True}, bounded=B % 4), Spec(U, "polygon_equal_self", bounded=B % 6), Spec(U, "polygon_vertices"), Spec(U, "polygon_predicates")]
