// Contracts of the numbering of Chunker, over every chunker object (any number of stripes and any
// number of chunks and sub-chunks in each, not only those the constructor computes).
#include "irv.h"
#include "lsst/sphgeom/Chunker.h"
#include <new>
using namespace lsst::sphgeom;
namespace {
std::int32_t sint(char const *n) { return std::int32_t(irv_u32(n)); }
#ifndef IRV_NATIVE
// An object in any state that satisfies the invariant established by the constructor:
//  - 1 <= numStripes, 1 <= numSubStripesPerStripe, and their product is at most 648000
//  - one record per stripe and sub-stripe
//  - stripe s has between 1 and 2 * numStripes chunks, sub-stripe ss between 0 and max sub-chunks
// (the last is assumed of the records that the contract looks at).
struct Any {
    alignas(Chunker) unsigned char mem[sizeof(Chunker)];
    Chunker &c() { return *reinterpret_cast<Chunker *>(mem); }
    template <typename T>
    void vec(std::vector<T> &v, std::size_t n, char const *name) {
        std::size_t bytes;
        T *p = reinterpret_cast<T *>(const_cast<std::uint8_t *>(irv_buf(name, &bytes, 64, 1)));
        irv_assume(bytes == n * sizeof(T));
        new (&v) std::vector<T>();
        v._M_impl._M_start = p;
        v._M_impl._M_finish = p + n;
        v._M_impl._M_end_of_storage = p + n;
    }
    Any() {
        Chunker &x = c();
        x._numStripes = sint("ns");
        x._numSubStripesPerStripe = sint("nss");
        irv_assume(x._numStripes >= 1);
        irv_assume(x._numStripes <= 32768);
        irv_assume(x._numSubStripesPerStripe >= 1);
        irv_assume(x._numSubStripesPerStripe <= 648000);
        irv_assume(std::int64_t(x._numStripes) * x._numSubStripesPerStripe <= 648000);
        x._numSubStripes = std::int32_t(std::int64_t(x._numStripes) * x._numSubStripesPerStripe);
        x._maxSubChunksPerSubStripeChunk = sint("max");
        irv_assume(x._maxSubChunksPerSubStripeChunk >= 1);
        // identifiers fit in 32 bits (see known_findings.txt)
        irv_assume(x._maxSubChunksPerSubStripeChunk <= 0x7fffffff);
        irv_assume(std::int64_t(x._numSubStripesPerStripe) * x._maxSubChunksPerSubStripeChunk <= 0x7fffffff);
        vec(x._stripes, std::size_t(x._numStripes), "stripes");
        vec(x._subStripes, std::size_t(x._numSubStripes), "substripes");
    }
    std::int32_t nc(std::int32_t s) {
        std::int32_t k = c()._stripes._M_impl._M_start[s].numChunksPerStripe;
        irv_assume(k >= 1);
        irv_assume(k <= 2 * c()._numStripes);
        return k;
    }
    std::int32_t nsc(std::int32_t ss) {
        std::int32_t k = c()._subStripes._M_impl._M_start[ss].numSubChunksPerChunk;
        irv_assume(k >= 0);
        irv_assume(k <= c()._maxSubChunksPerSubStripeChunk);
        return k;
    }
};
#endif
}
#ifndef IRV_NATIVE
SPEC(chunker_valid_any) {
    Any a;
    std::int32_t id = sint("id"), n2 = 2 * a.c()._numStripes;
    bool e = false;
    if (id >= 0 && id / n2 < a.c()._numStripes) {
        std::int32_t nc = a.nc(id / n2);
        e = id % n2 < nc;
    }
    irv_assert(a.c().valid(id) == e, "valid exactly when the chunk exists");
}
SPEC(chunker_coords_any) {
    Any a;
    std::int32_t s = sint("s"), k = sint("k");
    irv_assume(s >= 0);
    irv_assume(s < a.c()._numStripes);
    std::int32_t nc = a.nc(s);
    irv_assume(k >= 0);
    irv_assume(k < nc);
    std::int32_t id = a.c()._getChunkId(s, k);
    irv_assert(id >= 0, "ids are not negative");
    irv_assert(a.c().getStripe(id) == s, "the id determines the stripe");
    irv_assert(a.c().getChunk(id, s) == k, "the id determines the chunk");
    irv_assert(a.c().valid(id), "ids of chunks are valid");
}
SPEC(chunker_inverse_any) {
    Any a;
    std::int32_t id = sint("id");
    bool v = a.c().valid(id);
    irv_assume(v);
    std::int32_t s = a.c().getStripe(id), k = a.c().getChunk(id, s);
    irv_assert(s >= 0, "stripes of valid ids exist");
    irv_assert(s < a.c()._numStripes, "stripes of valid ids exist");
    std::int32_t nc = a.nc(s);
    irv_assert(k >= 0, "chunks of valid ids exist");
    irv_assert(k < nc, "chunks of valid ids exist");
    irv_assert(a.c()._getChunkId(s, k) == id, "the coordinates determine the id");
}
SPEC(chunker_subids_any) {
    Any a;
    std::int32_t nss = a.c()._numSubStripesPerStripe, s = sint("s"), k = sint("k"), y = sint("y"), y2 = sint("y2"), x = sint("x"), x2 = sint("x2");
    irv_assume(s >= 0);
    irv_assume(s < a.c()._numStripes);
    irv_assume(y >= 0);
    irv_assume(y < nss);
    irv_assume(y2 >= 0);
    irv_assume(y2 < nss);
    std::int32_t ss = s * nss + y, ss2 = s * nss + y2, n = a.nsc(ss), n2 = a.nsc(ss2), nc = a.nc(s);
    irv_assume(k >= 0);
    irv_assume(k < nc);
    irv_assume(x >= 0);
    irv_assume(x < n);
    irv_assume(x2 >= 0);
    irv_assume(x2 < n2);
    // sub-chunks are numbered within their sub-stripe, over all of its chunks
    irv_assume(std::int64_t(k) * n <= 0x7fffffff);
    irv_assume(std::int64_t(k) * n + n <= 0x7fffffff);
    irv_assume(std::int64_t(k) * n2 <= 0x7fffffff);
    irv_assume(std::int64_t(k) * n2 + n2 <= 0x7fffffff);
    std::int32_t i = a.c()._getSubChunkId(s, ss, k, k * n + x), i2 = a.c()._getSubChunkId(s, ss2, k, k * n2 + x2);
    irv_assert(i >= 0, "ids are not negative");
    irv_assume(i == i2);
    irv_assert(y == y2, "sub-chunk ids are unique within a chunk");
    irv_assert(x == x2, "sub-chunk ids are unique within a chunk");
}
#endif
