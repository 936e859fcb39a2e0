from irv.check import Unit, Spec

NOTE = 'Every contract is for all bit patterns of the double bounds (comparisons exactly, sums as IEEE arithmetic via a sound real abstraction or the SMT theory of floating point). Trusts the clang 18 IR as the meaning of the source, the executor and its models of the C++ runtime, and the solvers.'

U = Unit("interval.cc", sources=["Interval1d.cc", "AngleInterval.cc", "Angle.cc"])
SPECS = []
for t in ("i1", "ai"):
    SPECS += [Spec(U, t + "_basic", covers=["nonempty"]), Spec(U, t + "_pair", covers=["contains", "disjoint"]),
              Spec(U, t + "_clip", covers=["proper"]), Spec(U, t + "_expand"),
              Spec(U, t + "_dilate", opts={"fp": "uf"}),
              Spec(U, t + "_dilate_contains"), Spec(U, t + "_size", opts={"fp": "uf"})]
SPECS += [Spec(U, "i1_full"), Spec(U, "ai_factories", opts={"fp": "uf"})]
