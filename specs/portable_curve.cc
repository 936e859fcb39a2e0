// The portable variants of curve.h, under another namespace, next to the SIMD ones.
#include <cstdint>
#include <tuple>
#define NO_SIMD
#define lsst lsst_portable
#include "lsst/sphgeom/curve.h"
extern "C" uint64_t portable_morton(uint32_t x, uint32_t y) { return lsst::sphgeom::mortonIndex(x, y); }
extern "C" uint64_t portable_morton_inverse(uint64_t z) {
    uint32_t x, y;
    std::tie(x, y) = lsst::sphgeom::mortonIndexInverse(z);
    return (uint64_t(y) << 32) | x;
}
extern "C" uint64_t portable_hilbert(uint32_t x, uint32_t y, int m) { return lsst::sphgeom::hilbertIndex(x, y, m); }
extern "C" uint64_t portable_hilbert_inverse(uint64_t h, int m) {
    uint32_t x, y;
    std::tie(x, y) = lsst::sphgeom::hilbertIndexInverse(h, m);
    return (uint64_t(y) << 32) | x;
}
