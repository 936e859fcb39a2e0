from irv.check import Unit, Spec, parts

LEVEL = "other"
NOTE = ("The contracts quantify over all contents of a representation of bounded size (the sizes are stated per contract; "
        "constructors are proved without a bound); larger sets are only evaluated natively. Trusts clang's IR, the executor, the solvers.")
U = Unit("rangeset.cc", sources=["RangeSet.cc"])
BD = "sets of up to 3 values between the bookends (the second operand up to 2, but 3 for intersects and contains), of any value"
F = {"split_bool": r"^lsst::sphgeom::RangeSet::"}
SPECS = [Spec(U, n, F, bounded=BD) for n in "rs_insert rs_insert_one rs_insert_tuple rs_erase rs_erase_one rs_complement "
 "rs_and rs_and_forms rs_or rs_or_forms rs_minus rs_minus_forms rs_xor rs_xor_forms rs_intersects rs_contains rs_equal rs_intersects_range rs_contains_range rs_within_range".split()]
SPECS += [Spec(U, "rs_construct", F)]
SPECS += [Spec(U, n, F, bounded="lists of two elements, of any value") for n in "rs_list rs_list_ranges rs_iterator_pair".split()]
