// Contracts of the HTM pixelization: index arithmetic, the descent of the triangle tree, names.
#include "irv.h"
#include <stdexcept>
#include "lsst/sphgeom/UnitVector3d.h"
#include "lsst/sphgeom/Relationship.h"
namespace {
// a search region that records the pixels it is asked about
struct Recorder {};
lsst::sphgeom::UnitVector3d g_v[8][3];
unsigned g_n;
// what is inserted into the set of the results
uint64_t g_first[8], g_last[8];
unsigned g_k;
}  // namespace
namespace lsst { namespace sphgeom { namespace detail {
template <typename It>
Relationship relate(It const begin, It const end, Recorder const &) {
    irv_assert(end - begin == 3, "three vertices");
    irv_assert(g_n < 8, "as many pixels as there are");
    for (int k = 0; k < 3; ++k) g_v[g_n][k] = begin[k];
    ++g_n;
    return INTERSECTS;
}
}}}
#include "../src/HtmPixelization.cc"

using namespace lsst::sphgeom;
namespace {
int const MAXL = HtmPixelization::MAX_LEVEL;
// the level at which i is an index, or -1
int the_level(uint64_t i) {
    int r = -1;
    for (int l = 0; l <= 30; ++l) {
        uint64_t t = i >> (2 * l);
        r = ((t >= 8) & (t <= 15)) ? l : r;
    }
    return r;
}
template <typename F>
int throws(F f) {
    try { f(); } catch (std::invalid_argument const &) { return 1; } catch (...) { return 2; }
    return 0;
}
uint64_t index_at(int l) {
    uint64_t i = irv_u64("i");
#ifdef IRV_NATIVE
    i = (i & ((uint64_t(1) << (2 * l)) - 1)) | ((8 + (i >> 61)) << (2 * l));
#endif
    irv_assume((i >> (2 * l)) >= 8 && (i >> (2 * l)) <= 15);
    return i;
}
UnitVector3d point() {
#ifdef IRV_NATIVE
    double x = irv_in("x", -1, 1), y = irv_in("y", -1, 1), z = irv_in("z", -1, 1);
    irv_assume(x * x + y * y + z * z > 1e-6);
    return UnitVector3d(x, y, z);
#else
    return UnitVector3d::fromNormalized(irv_double("x"), irv_double("y"), irv_double("z"));
#endif
}
bool eq(UnitVector3d const &a, UnitVector3d const &b) { return irv_same(a.x(), b.x()) & irv_same(a.y(), b.y()) & irv_same(a.z(), b.z()); }
}  // namespace

#ifndef IRV_NATIVE
// The callees of the descent by their contracts.  The midpoint of an edge is some function of its ends
// that does not depend on their order; orientation some function of its arguments.
namespace lsst { namespace sphgeom {
uint8_t contract_log2(uint64_t x) {
    uint8_t r = irv_u8("log2");
    irv_assume(r < 64 && (x == 0 ? r == 0 : (x >> r) == 1));
    for (uint8_t k = 0; k < 64; ++k)
        if (irv_split(r == k)) return k;
    return r;
}
// The unit vector along v: some function of v.
void contract_unit(UnitVector3d *self, Vector3d const &v) {
    *self = UnitVector3d::fromNormalized(irv_uf3("unitx", v.x(), v.y(), v.z()), irv_uf3("unity", v.x(), v.y(), v.z()), irv_uf3("unitz", v.x(), v.y(), v.z()));
}
// orientation: some function of its arguments
void contract_insert(RangeSet *, uint64_t first, uint64_t last) {
    irv_assert(g_k < 8, "as many ranges as there are pixels");
    g_first[g_k] = first;
    g_last[g_k++] = last;
}
int contract_orientation(UnitVector3d const &a, UnitVector3d const &b, UnitVector3d const &c) {
    double r = irv_uf9("orientation", a.x(), a.y(), a.z(), b.x(), b.y(), b.z(), c.x(), c.y(), c.z());
    return r > 0 ? 1 : r < 0 ? -1 : 0;
}
}}
#endif

namespace {
// the set of the results is [first, last)
void result_is(RangeSet const &s, uint64_t first, uint64_t last) {
#ifdef IRV_NATIVE
    irv_assert(s == RangeSet(first, last), "the pixels reported");
#else
    irv_assert(g_k == last - first, "as many pixels as there are");
    for (unsigned k = 0; k < g_k; ++k) irv_assert((g_first[k] == first + k) & (g_last[k] == first + k + 1), "the pixels reported");
#endif
}
}

SPEC(htm_level) {
    uint64_t i = irv_u64("i");
    irv_assert(HtmPixelization::level(i) == the_level(i), "level(i) is the level at which i is an index, or -1");
}
SPEC(htm_construct) {
    int l = (int)irv_u32("l");
    bool ok = (l >= 0) & (l <= MAXL);
    int t = throws([&] { HtmPixelization p(l); irv_assert(p.getLevel() == l, "keeps its level"); });
    irv_assert(t == (ok ? 0 : 1), "levels outside 0..MAX_LEVEL and only those are rejected");
}
SPEC(htm_universe) {
    int l = irv_range("l", 0, MAXL);
    uint64_t i = irv_u64("i");
    HtmPixelization p(l);
    RangeSet u = p.universe();
    irv_assert(u.size() == 1, "one range");
    auto r = *u.begin();
    irv_assert(((std::get<0>(r) <= i) & (i < std::get<1>(r))) == (the_level(i) == l), "the universe holds the indices of its level and no others");
}
SPEC(htm_string) {
    int l = irv_range("l", 0, MAXL);
    uint64_t i = index_at(l);
    std::string s = HtmPixelization::asString(i);
    irv_assert(s.size() == (size_t)l + 2, "hemisphere, root and one digit for every level");
    uint64_t k = s[0] == 'N' ? 3 : 2;
    irv_assert((s[0] == 'N') | (s[0] == 'S'), "hemisphere");
    for (int j = 1; j < l + 2; ++j) {
        unsigned d = (unsigned char)s[j] - '0';
        irv_assert(d < 4, "digits");
        k = k * 4 + d;
    }
    irv_assert(k == i, "the name determines the index");
    HtmPixelization p(l);
    irv_assert(p.toString(i) == s, "toString");
}
SPEC(htm_reject) {
    uint64_t i = irv_u64("i");
    int l = the_level(i);
    irv_assume((l < 0) | (l > MAXL));
    irv_assert(throws([&] { HtmPixelization::asString(i); }) == 1, "asString rejects invalid indices");
    irv_assert(throws([&] { HtmPixelization::triangle(i); }) == 1, "triangle rejects invalid indices");
    HtmPixelization p(irv_range("level", 0, 1));
    irv_assert(throws([&] { p.pixel(i); }) == 1, "pixel rejects invalid indices");
    irv_assert(throws([&] { p.toString(i); }) == 1, "toString rejects invalid indices");
}
// every index of the universe has a pixel
SPEC(htm_triangle_valid) {
    int l = irv_range("l", 0, MAXL);
    uint64_t i = index_at(l);
    irv_assert(throws([&] { HtmPixelization::triangle(i); }) == 0, "triangle accepts valid indices");
}
SPEC(htm_index) {
    int l = irv_range("l", 0, MAXL);
    HtmPixelization p(l);
    UnitVector3d v = point();
    uint64_t i = p.index(v);
    irv_assert((i >> (2 * l)) >= 8 && (i >> (2 * l)) <= 15, "index gives an index of the universe");
    if (l > 0) {
        HtmPixelization q(l - 1);
        irv_assert(i - (q.index(v) << 2) < 4, "the parent of the index is the index at the coarser level");
    }
}
// the root triangle: by the signs of the coordinates
SPEC(htm_root) {
    HtmPixelization p(0);
    UnitVector3d v = point();
    irv_assume((v.x() == v.x()) & (v.y() == v.y()) & (v.z() == v.z()));
    irv_assume((v.x() != 0) | (v.y() != 0) | (v.z() != 0));
    uint64_t r = p.index(v) - 8;
    irv_assert(r < 8, "eight roots");
    for (unsigned k = 0; k < 8; ++k) {
        if (!irv_split(r == k)) continue;
        // v is in the octant spanned by the vertices of root triangle k
        Vector3d s = rootVertex(k, 0) + rootVertex(k, 1) + rootVertex(k, 2);
        irv_assert((v.x() == 0) | ((v.x() > 0) == (s.x() > 0)), "x");
        irv_assert((v.y() == 0) | ((v.y() > 0) == (s.y() > 0)), "y");
        irv_assert((v.z() == 0) | ((v.z() > 0) == (s.z() > 0)), "z");
        return;
    }
}
// The triangles that the pixel finder visits are those that triangle(index) gives.
SPEC(htm_children) {
    int l = irv_range("l", 0, MAXL - 1);
    uint64_t j = index_at(l + 1), i = j >> 2;
    ConvexPolygon t = HtmPixelization::triangle(i);
    RangeSet s;
    Recorder r;
    HtmPixelFinder<Recorder, false> f(s, r, l + 1, 0);
    g_n = g_k = 0;
    f.subdivide(t.getVertices().data(), i, l);
    irv_assert(g_n == 4, "four children");
    result_is(s, i * 4, i * 4 + 4);
    ConvexPolygon u = HtmPixelization::triangle(j);
    for (unsigned c = 0; c < 4; ++c) {
        if (!irv_split((j & 3) == c)) continue;
        for (int k = 0; k < 3; ++k) irv_assert(eq(u.getVertices()[k], g_v[c][k]), "the triangle of the child");
        return;
    }
}
SPEC(htm_roots) {
    RangeSet s;
    Recorder r;
    HtmPixelFinder<Recorder, false> f(s, r, 0, 0);
    g_n = g_k = 0;
    f();
    irv_assert(g_n == 8, "eight roots");
    result_is(s, 8, 16);
    for (unsigned c = 0; c < 8; ++c) {
        ConvexPolygon u = HtmPixelization::triangle(8 + c);
        for (int k = 0; k < 3; ++k) irv_assert(eq(u.getVertices()[k], g_v[c][k]), "the triangle of the root");
    }
}
