// Contracts of the space-filling curve functions of curve.h.
#include "irv.h"
#include "lsst/sphgeom/curve.h"

using namespace lsst::sphgeom;

extern "C" uint64_t portable_morton(uint32_t x, uint32_t y);
extern "C" uint64_t portable_morton_inverse(uint64_t z);
extern "C" uint64_t portable_hilbert(uint32_t x, uint32_t y, int m);
extern "C" uint64_t portable_hilbert_inverse(uint64_t h, int m);

namespace {
uint64_t mask(int bits) { return bits == 0 ? 0 : ~uint64_t(0) >> ((64 - bits) & 63); }
// Interleaving, bit by bit.
uint64_t interleave(uint32_t x, uint32_t y) {
    uint64_t z = 0;
    for (int i = 0; i < 32; ++i) z |= (uint64_t((x >> i) & 1) << (2 * i)) | (uint64_t((y >> i) & 1) << (2 * i + 1));
    return z;
}
// One step of the Hilbert curve automaton of the documentation of curve.h:
// state in bits 2-3, two bits of the Morton index in bits 0-1.
uint64_t step(uint64_t i) { return (UINT64_C(0x8d3ec79a6b5021f4) >> (4 * i)) & 15; }
uint64_t refHilbert(uint64_t z, int m) {
    uint64_t h = 0, i = 0;
    for (m = 2 * m; m != 0;) {
        m -= 2;
        i = step((i & 12) | ((z >> m) & 3));
        h = (h << 2) | (i & 3);
    }
    return h;
}
}  // namespace

SPEC(log2_u64) {
    uint64_t x = irv_u64("x");
    irv_assume(x != 0);
    unsigned r = log2(x);
    irv_assert(r < 64, "log2 is below 64");
    irv_assert(r < 64 && (x >> r) == 1, "log2 is the position of the highest set bit");
    irv_assert(log2(uint64_t(0)) == 0, "log2 of 0 is 0");
}

SPEC(log2_u32) {
    uint32_t x = irv_u32("x");
    irv_assume(x != 0);
    unsigned r = log2(x);
    irv_assert(r < 32, "log2 is below 32");
    irv_assert(r < 32 && (x >> r) == 1, "log2 is the position of the highest set bit");
    irv_assert(log2(uint32_t(0)) == 0, "log2 of 0 is 0");
    irv_assert(log2(uint64_t(x)) == r, "both overloads agree");
}

SPEC(morton) {
    uint32_t x = irv_u32("x"), y = irv_u32("y");
    uint64_t z = mortonIndex(x, y);
    irv_assert(z == interleave(x, y), "mortonIndex interleaves the bits of x and y");
    irv_assert(portable_morton(x, y) == z, "the portable mortonIndex agrees");
    uint32_t u, v;
    std::tie(u, v) = mortonIndexInverse(z);
    irv_assert(u == x && v == y, "mortonIndexInverse undoes mortonIndex");
}

SPEC(morton_inverse) {
    uint64_t z = irv_u64("z");
    uint32_t x, y;
    std::tie(x, y) = mortonIndexInverse(z);
    irv_assert(interleave(x, y) == z, "the coordinates of mortonIndexInverse interleave to z");
    irv_assert(mortonIndex(x, y) == z, "mortonIndex undoes mortonIndexInverse");
    irv_assert(portable_morton_inverse(z) == ((uint64_t(y) << 32) | x), "the portable mortonIndexInverse agrees");
}

// for every order: the table driven loop computes the documented automaton
SPEC(morton_to_hilbert) {
    int m = irv_range("m", 0, 32);
    uint64_t z = irv_u64("z") & mask(2 * m);
    uint64_t h = mortonToHilbert(z, m);
    irv_assert(h == refHilbert(z, m), "mortonToHilbert computes the Hilbert automaton");
    irv_assert((h & ~mask(2 * m)) == 0, "the index has 2m bits");
}

// for every order: the table driven loop inverts the automaton
SPEC(hilbert_to_morton) {
    int m = irv_range("m", 0, 32);
    uint64_t h = irv_u64("h") & mask(2 * m);
    uint64_t z = hilbertToMorton(h, m);
    irv_assert((z & ~mask(2 * m)) == 0, "the Morton index has 2m bits");
    irv_assert(refHilbert(z, m) == h, "hilbertToMorton inverts the Hilbert automaton");
}

#ifndef IRV_NATIVE
// the contract of mortonToHilbert (proved by morton_to_hilbert), used in place of its body
extern "C" uint64_t contract_mortonToHilbert(uint64_t z, int m) { return refHilbert(z & mask(2 * m), m); }
#endif

SPEC(hilbert_inverse) {
    int m = irv_range("m", 0, 32);
    uint64_t z = irv_u64("z") & mask(2 * m);
    irv_assert(hilbertToMorton(mortonToHilbert(z, m), m) == z, "hilbertToMorton undoes mortonToHilbert");
    irv_assert(mortonToHilbert(hilbertToMorton(z, m), m) == z, "mortonToHilbert undoes hilbertToMorton");
}

SPEC(hilbert_index) {
    int m = irv_range("m", 0, 32);
    uint32_t x = irv_u32("x") & uint32_t(mask(m)), y = irv_u32("y") & uint32_t(mask(m));
    uint64_t h = hilbertIndex(x, y, m);
    irv_assert(h == mortonToHilbert(mortonIndex(x, y), m), "hilbertIndex is the Hilbert index of the Morton index");
    irv_assert(portable_hilbert(x, y, m) == h, "the portable hilbertIndex agrees");
    uint32_t u, v;
    std::tie(u, v) = hilbertIndexInverse(h, m);
    irv_assert(u == x && v == y, "hilbertIndexInverse undoes hilbertIndex");
    irv_assert(portable_hilbert_inverse(h, m) == ((uint64_t(y) << 32) | x), "the portable hilbertIndexInverse agrees");
}

// Only the m least significant bits of x and y are used.
SPEC(hilbert_high_bits) {
    int m = irv_range("m", 0, 32);
    uint32_t x = irv_u32("x"), y = irv_u32("y");
    irv_assert(hilbertIndex(x, y, m) == hilbertIndex(x & uint32_t(mask(m)), y & uint32_t(mask(m)), m), "only the m least significant bits of the coordinates are used");
}

SPEC(hilbert_refine) {
    int m = irv_range("m", 1, 32);
    uint64_t z = irv_u64("z") & mask(2 * m);
    irv_assert((mortonToHilbert(z, m) >> 2) == mortonToHilbert(z >> 2, m - 1), "the index of order m refines that of order m - 1");
}

SPEC(hilbert_adjacent) {
    int m = irv_range("m", 1, 32);
    uint64_t h = irv_u64("h") & mask(2 * m);
    irv_assume(h != mask(2 * m));
    uint32_t x, y, u, v;
    std::tie(x, y) = hilbertIndexInverse(h, m);
    std::tie(u, v) = hilbertIndexInverse(h + 1, m);
    irv_assert((x == u && (y - v == 1 || v - y == 1)) || (y == v && (x - u == 1 || u - x == 1)), "cells with consecutive indices share an edge");
}
