from irv.check import Unit, Spec
from irv.engine import redirect

NOTE = ("The numbering (valid, getStripe, getChunk, the ids of chunks and sub-chunks) is proved for every chunker object with up to 32768 stripes "
        "and arbitrary numbers of chunks and sub-chunks within the invariant of the constructor; the products of variables are decided over the "
        "integers. Rejection is proved for all counts. That the lists enumerate exactly the valid ids, and that the constructor establishes the "
        "invariant, is bounded: small chunkers, with arbitrary numbers of segments.")
SEG = {"contracts": {"~::computeNumSegments\\(": redirect("_ZN4lsst7sphgeom17contract_segmentsERKNS0_13AngleIntervalENS0_5AngleE")}}
U = Unit("chunker.cc", replaces=["Chunker.cc"])
A = Unit("chunker_ids.cc", native=False)
RES = {"contracts": {"~std::vector<.*Chunker::.*>::(reserve|resize)\\(": redirect("_ZN4lsst7sphgeom16contract_reserveEPvm")}}
SPECS = [Spec(U, "chunker_reject", RES)]
B1 = Spec(U, "chunker_chunks", SEG, bounded="at most 3 stripes of at most 3 sub-stripes, up to 4 chunks in each stripe (any numbers)")
B2 = Spec(U, "chunker_subchunks", SEG, bounded="at most 3 sub-stripes in all, up to 5 sub-chunks in each (any numbers)")
SPECS += [Spec(A, n, {"ints": True}, fallback=B2 if "sub" in n else B1)
          for n in "chunker_valid_any chunker_coords_any chunker_inverse_any chunker_subids_any".split()]
SPECS += [B1, B2,
          Spec(U, "chunker_intersecting", bounded="at most 4 stripes of at most 4 sub-stripes"),
          Spec(U, "chunker_cover", bounded="at most 3 stripes of at most 3 sub-stripes (any point)")]
