from irv.check import Unit, Spec, parts

LEVEL = "other"
NOTE = ("The contracts quantify over all contents of a representation of bounded size, every scale factor and every n of simplify; "
        "larger sets are only evaluated natively. Trusts clang's IR, the executor, the solvers, and laws of products and quotients proved by tools/muldiv.py.")
U = Unit("rangeset.cc", sources=["RangeSet.cc"])
F = {"split_bool": r"^lsst::sphgeom::RangeSet::"}
BD = "sets of up to 3 values between the bookends, of any value"
SPECS = [Spec(U, n, F, bounded=BD) for n in "rs_iterate rs_iterate_complement rs_valid rs_simplify rs_scale_zero rs_copies rs_iterators".split()]

SPECS += [Spec(U, "rs_scale", dict(F, muldiv=True), bounded=BD)]
