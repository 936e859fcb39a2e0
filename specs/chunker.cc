// Contracts of Chunker.
#include "irv.h"
#include "mock.h"
#include "lsst/sphgeom/Chunker.h"
#include <stdexcept>
#ifndef IRV_NATIVE
extern "C" void *irv_words(char const *name, size_t n);
#endif

#include "Chunker.cc"

namespace lsst {
namespace sphgeom {
#ifndef IRV_NATIVE
// computeNumSegments by contract: some number for every range of latitudes and width, between 1
// and the number of stripes of that height around the equator (and of small size in this stand-in).
static int g_ns, g_stripe, g_sub;   // counts of stripes, the largest counts returned
std::int32_t contract_segments(AngleInterval const &lat, Angle w) {
    std::uint64_t a, b, c;
    double x = lat.getA().asRadians(), y = lat.getB().asRadians(), z = w.asRadians();
    std::memcpy(&a, &x, 8);
    std::memcpy(&b, &y, 8);
    std::memcpy(&c, &z, 8);
    std::uint64_t k = irv_uf3i("segments", a, b, c);
    int m = z * g_ns > 0.75 * PI ? (g_stripe < 2 * g_ns ? g_stripe : 2 * g_ns) : g_sub;
    irv_assume(k >= 1 && k <= std::uint64_t(m));
    for (int i = 1; i < m; ++i)
        if (irv_split(k == std::uint64_t(i))) return i;
    return m;
}
// Reached only by a constructor that goes on to allocate its records.
void contract_reserve(void *, std::size_t) { irv_assert(false, "counts that are not acceptable are rejected before records are allocated"); }
#endif
}}
using namespace lsst::sphgeom;
namespace {
bool in(std::vector<std::int32_t> const &v, std::int32_t x) {
    bool r = false;
    for (std::int32_t y : v) r = r | (y == x);
    return r;
}
bool distinct(std::vector<std::int32_t> const &v) {
    bool r = true;
    for (std::size_t i = 0; i < v.size(); ++i)
        for (std::size_t j = 0; j < i; ++j) r = r & (v[i] != v[j]);
    return r;
}
std::int32_t sint(char const *n) { return std::int32_t(irv_u32(n)); }
// a small chunker
struct Small {
    int ns, nss;
    Small(int m) : ns(irv_range("ns", 1, m)), nss(irv_range("nss", 1, m)) {}
};
}

// Every pair of counts that is not positive, or needs more than 648000 sub-stripes, is rejected.
SPEC(chunker_reject) {
    std::int32_t a = sint("ns"), b = sint("nss");
    irv_assume((a < 1) | (b < 1) | (std::int64_t(a) * b > 648000));
    int k = 0;
    try {
        Chunker c(a, b);
    } catch (std::runtime_error const &) {
        k = 1;
    }
    irv_assert(k == 1, "is rejected with runtime_error");
}
// Ids of chunks
SPEC(chunker_chunks) {
    Small z(3);
#ifndef IRV_NATIVE
    g_ns = z.ns;
    g_stripe = 4;
    g_sub = 1;
#endif
    Chunker c(z.ns, z.nss);
    irv_assert((c.getNumStripes() == z.ns) & (c.getNumSubStripesPerStripe() == z.nss), "keeps its counts");
    std::vector<std::int32_t> all = c.getAllChunks();
    irv_assert(distinct(all), "lists no chunk twice");
    std::int32_t id = sint("id");
    irv_assert(c.valid(id) == in(all, id), "the valid ids are those listed");
    int n[4] = {0, 0, 0, 0};
    for (std::int32_t i : all) {
        std::int32_t s = c.getStripe(i), k = c.getChunk(i, s);
        irv_assert((s >= 0) & (s < z.ns) & (k >= 0) & (k < 2 * z.ns), "coordinates in range");
        n[s & 3] |= 1 << (k & 15);
    }
    for (int s = 0; s < z.ns; ++s) {
#ifndef IRV_NATIVE
        Angle h = Angle(PI) / z.ns;
        int m = contract_segments(AngleInterval(s * h - Angle(0.5 * PI), (s + 1) * h - Angle(0.5 * PI)), h);
        irv_assert(n[s] == (1 << m) - 1, "the chunks of a stripe are numbered from 0 to their number less one");
#else
        irv_assert(n[s] != 0 && (n[s] & (n[s] + 1)) == 0, "the chunks of a stripe are numbered from 0");
#endif
    }
    irv_cover("chunks");
}
// Ids of sub-chunks
SPEC(chunker_subchunks) {
    Small z(3);
#ifndef IRV_NATIVE
    g_ns = z.ns;
    g_stripe = 2;
    g_sub = 5;
    irv_assume(z.ns * z.nss <= 3);
#endif
    Chunker c(z.ns, z.nss);
    for (std::int32_t i : c.getAllChunks()) {
        std::vector<std::int32_t> sub = c.getAllSubChunks(i);
        irv_assert(distinct(sub), "the ids of the sub-chunks of a chunk are distinct");
        for (std::int32_t k : sub) irv_assert(k >= 0, "and not negative");
    }
}
// getSubChunksIntersecting and getChunksIntersecting agree with the lists
SPEC(chunker_intersecting) {
    Small z(4);
    Chunker c(z.ns, z.nss);
    Mock r(1);
    r.box = Box::full();
    r.rel = irv_bool("within") ? 2 : 0;
    std::vector<std::int32_t> all = c.getAllChunks(), got = c.getChunksIntersecting(r);
    irv_assert(distinct(got), "reports no chunk twice");
    irv_assert(got.size() == all.size(), "reports every chunk of a region that meets all of them");
    for (std::int32_t i : got) irv_assert(c.valid(i), "reports only chunks that exist");
    std::vector<SubChunks> g = c.getSubChunksIntersecting(r);
    irv_assert(g.size() == all.size(), "reports sub-chunks of every chunk");
    int n = 0;
    for (SubChunks const &s : g) {
        irv_assert(in(all, s.chunkId), "of chunks that exist");
        for (SubChunks const &t : g) n += t.chunkId == s.chunkId;
        std::vector<std::int32_t> sub = c.getAllSubChunks(s.chunkId);
        irv_assert(distinct(s.subChunkIds), "reports no sub-chunk twice");
        irv_assert(s.subChunkIds.size() == sub.size(), "reports every sub-chunk");
        for (std::int32_t k : s.subChunkIds) irv_assert(in(sub, k), "reports only sub-chunks that exist");
    }
    irv_assert(n == int(g.size()), "reports every chunk once");
}
// Every point lies in a chunk, and in a sub-chunk.
SPEC(chunker_cover) {
    Small z(3);
    Chunker c(z.ns, z.nss);
    double lon = irv_in("lon", 0, 2 * PI), lat = irv_in("lat", -0.5 * PI, 0.5 * PI);
    Box p(LonLat::fromRadians(lon, lat));
    bool any = false;
    for (std::int32_t i : c.getAllChunks()) {
        std::int32_t s = c.getStripe(i);
        Box b = c.getChunkBoundingBox(s, c.getChunk(i, s));
        any = any | (b.getLat().contains(Angle(lat)) & b.getLon().contains(NormalizedAngle(Angle(lon))));
    }
    irv_assert(any, "every point lies in a chunk");
}
#ifndef IRV_NATIVE
#define SPECX(n) SPEC(n)
#endif
