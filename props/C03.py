from irv.check import Unit, Spec, parts
from irv.engine import redirect

NOTE = "All orders 0..32 and all 64-bit values; every contract is a closed bit-vector formula, so nothing is bounded. Trusts clang's IR, the executor (with its models of the SSE2 intrinsics) and the solvers."
U = Unit("curve.cc", sources=[], extra=["portable_curve.cc"])
REF = {"timeout": 60000, "contracts": {"lsst::sphgeom::mortonToHilbert(unsigned long, int)": redirect("contract_mortonToHilbert")}}
SPECS = [Spec(U, n) for n in "log2_u64 log2_u32 morton morton_inverse".split()]
SPECS += [x for n in (8, ) for x in parts(U, "hilbert_adjacent", n) + parts(U, "hilbert_inverse", n, REF)]
SPECS += parts(U, "hilbert_index", 4, {"timeout": 60000}) + parts(U, "morton_to_hilbert", 2) + parts(U, "hilbert_to_morton", 2)
SPECS += [Spec(U, "hilbert_high_bits"), Spec(U, "hilbert_refine")]
