from irv.check import Unit, Spec, parts

NOTE = ("setTo is proved for all values; the other operations for all contents of numbers of a bounded length (stated per contract: sums 4 digits, shifts 3 digits by "
        "up to 100 bits, products 5 digits in all), every sign, every aliasing and every capacity; longer numbers and sequences of operations are only evaluated "
        "natively against boost's cpp_int. Trusts clang's IR, the executor, the solvers.")
LEVEL = "other"
U = Unit("bigint.cc", sources=["BigInteger.cc"])
A = "numbers of up to 4 digits, of any value"
P = "numbers of up to 3 digits, of any value, shifts of up to 100 bits"
M = {"ints": "first", "commute": True}
SPECS = parts(U, "bi_multiply", 5, M, bounded="factors of up to 4 digits, together at most 5, of any value")
SPECS += parts(U, "bi_add", 5, bounded=A) + parts(U, "bi_subtract", 5, bounded=A)
SPECS += [Spec(U, n, bounded=A) for n in "bi_add_self bi_subtract_self bi_negate bi_small_capacity".split()]
SPECS += [Spec(U, "bi_set")]
SPECS += parts(U, "bi_pow2", 4, bounded=P) + [Spec(U, "bi_pow2_large", bounded="numbers of up to 3 digits, shifts of any size")]
SPECS += [Spec(U, "bi_multiply_self", M, bounded="numbers of up to 2 digits, of any value")]
SPECS += [Spec(U, "bi_history", native_only="random sequences of operations, against boost's cpp_int")]
