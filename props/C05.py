from irv.check import Unit, Spec, parts
from irv.engine import redirect

NOTE = ("orientation, orientationX/Y/Z return the sign of the exact determinant: for all vectors with components in [-1.0000001, 1.0000001] and computed squared norm at "
        "most 1 + 1e-10, by an analysis of the rounding errors of the real expressions (round to nearest, gradual underflow) as linear arithmetic over "
        "monomials; orientationExact for all finite components (all permutations of its sort), over the contracts of BigInteger (C04) and frexp.")
TECHNIQUE = ("function contracts on the LLVM IR that clang generates from /repo, discharged by symbolic execution with z3; rounding errors and "
             "integer sums by translation to linear arithmetic")
ASSUMPTIONS = ["squared norms computed at most 1 + 1e-10, components within [-1.0000001, 1.0000001] (UnitVector3d's invariant)",
               "floating point operations round to nearest with gradual underflow and are not contracted",
               "contract of frexp: exact fraction and exponent", "contracts of BigInteger's operations (C04)"]
U = Unit("orient.cc", sources=["orientation.cc", "UnitVector3d.cc", "Vector3d.cc", "BigInteger.cc"])
X = {"errors": True, "opaque": True, "contracts": {"~sphgeom::orientationExact\\(": redirect("_ZN4lsst7sphgeom14contract_exactERKNS0_8Vector3dES3_S3_")}}
SPECS = [Spec(U, n, X) for n in ("orient", "orient_x", "orient_y", "orient_z")]
def big(fn, sig):
    return redirect("_ZN4lsst7sphgeom%d%sE%s" % (len(fn), fn, sig))
B = {"~BigInteger::setTo\\(long\\)": big("contract_set", "PNS0_10BigIntegerEl"),
     "~BigInteger::operator=\\(": big("contract_assign", "PNS0_10BigIntegerEPKS1_"),
     "~BigInteger::multiply\\(": big("contract_multiply", "PNS0_10BigIntegerEPKS1_"),
     "~BigInteger::add\\(": big("contract_add", "PNS0_10BigIntegerEPKS1_"),
     "~BigInteger::subtract\\(": big("contract_subtract", "PNS0_10BigIntegerEPKS1_"),
     "~BigInteger::negate\\(": big("contract_negate", "PNS0_10BigIntegerE"),
     "~BigInteger::multiplyPow2\\(": big("contract_pow2", "PNS0_10BigIntegerEj"),
     "~BigInteger::getSign\\(": big("contract_sign", "PKNS0_10BigIntegerE"),
     "~^frexp$": redirect("contract_frexp")}
SPECS += parts(U, "exact", 6, {"contracts": B, "opaque": True, "ints": "first"}) + [Spec(U, "mantissa", {"exact": True})]
