// Contracts of the Q3C and modified Q3C pixelizations: index arithmetic, faces and grid cells, names, neighbourhoods.
// MQ3C selects the modified pixelization.
#include "irv.h"
#include <algorithm>
#include <stdexcept>
#include <tuple>
#include "lsst/sphgeom/UnitVector3d.h"
#include "lsst/sphgeom/Relationship.h"
namespace {
// a search region that counts the pixels it is asked about
struct Recorder {};
unsigned g_n, g_k;
uint64_t g_first[8], g_last[8];
}  // namespace
namespace lsst { namespace sphgeom { namespace detail {
template <typename It>
Relationship relate(It const begin, It const end, Recorder const &) {
    irv_assert(end - begin == 4, "four vertices");
    ++g_n;
    return INTERSECTS;
}
}}}
#ifdef MQ3C
#include "../src/Mq3cPixelization.cc"
#define PIX Mq3cPixelization
#define S(n) SPEC(mq3c_##n)
#define ROOT 10
#else
#include "../src/Q3cPixelization.cc"
#define PIX Q3cPixelization
#define S(n) SPEC(q3c_##n)
#define ROOT 0
#endif

using namespace lsst::sphgeom;
namespace {
int const MAXL = PIX::MAX_LEVEL;
int g_level;            // the level of the pixels at hand
uint64_t g_track[2];    // indexes whose membership is followed through sort and unique
template <typename F>
int throws(F f) {
    try { f(); } catch (std::invalid_argument const &) { return 1; } catch (...) { return 2; }
    return 0;
}
bool valid(uint64_t i, int l) { return ((i >> (2 * l)) >= ROOT) & ((i >> (2 * l)) <= ROOT + 5); }
uint64_t index_at(int l, char const *name = "i") {
    uint64_t i = irv_u64(name);
#ifdef IRV_NATIVE
    i = (i & ((uint64_t(1) << (2 * l)) - 1)) | ((ROOT + (i >> 60) % 6) << (2 * l));
#endif
    irv_assume(valid(i, l));
    return i;
}
UnitVector3d point() {
#ifdef IRV_NATIVE
    double x = irv_in("x", -1, 1), y = irv_in("y", -1, 1), z = irv_in("z", -1, 1);
    irv_assume(x * x + y * y + z * z > 1e-6);
    return UnitVector3d(x, y, z);
#else
    return UnitVector3d::fromNormalized(irv_double("x"), irv_double("y"), irv_double("z"));
#endif
}
}  // namespace

#ifndef IRV_NATIVE
namespace lsst { namespace sphgeom {
uint8_t contract_log2(uint64_t x) {
    uint8_t r = irv_u8("log2");
    irv_assume(r < 64 && (x == 0 ? r == 0 : (x >> r) == 1));
    for (uint8_t k = 0; k < 64; ++k)
        if (irv_split(r == k)) return k;
    return r;
}
// The curve functions by what property C03 proves of them: at every level they are bijections between the
// cells of the grid and the indexes below 4^level, and inverse to each other.
// (the order of a Hilbert index is the level of the pixels throughout)
uint64_t contract_curve(uint32_t s, uint32_t t) {
    uint64_t h = irv_uf2("curve", s, t);
    irv_assume((uint32_t)irv_uf1("curve_s", h) == s);
    irv_assume((uint32_t)irv_uf1("curve_t", h) == t);
    irv_assume(((s >> g_level) != 0) | ((t >> g_level) != 0) | ((h >> (2 * g_level)) == 0));
    return h;
}
std::tuple<uint32_t, uint32_t> contract_curve_inverse(uint64_t h) {
    h &= (uint64_t(1) << (2 * g_level)) - 1;
    uint32_t s = irv_uf1("curve_s", h), t = irv_uf1("curve_t", h);
    irv_assume(irv_uf2("curve", s, t) == h);
    irv_assume(((s >> g_level) == 0) & ((t >> g_level) == 0));
    return std::make_tuple(s, t);
}
uint64_t contract_morton(uint32_t s, uint32_t t) { return contract_curve(s, t); }
std::tuple<uint32_t, uint32_t> contract_morton_inverse(uint64_t h) {
    irv_assert((h >> (2 * g_level)) == 0, "the index of a cell of the grid");
    return contract_curve_inverse(h);
}
uint64_t contract_hilbert(uint32_t s, uint32_t t, int m) {
    irv_assert(m == g_level, "at the level of the pixels");
    irv_assert(((s >> m) == 0) & ((t >> m) == 0), "a cell of the grid");
    return contract_curve(s, t);
}
std::tuple<uint32_t, uint32_t> contract_hilbert_inverse(uint64_t h, int m) {
    irv_assert(m == g_level, "at the level of the pixels");
    return contract_curve_inverse(h);
}
// std::sort and std::unique: membership (of the indexes followed) is kept, the result is (strictly) increasing
void contract_sort(uint64_t *b, uint64_t *e) {
    irv_assert(e - b == 9, "nine entries");
    uint64_t p[9], q[9];
    bool before[2] = {false, false}, after[2] = {false, false};
    for (int k = 0; k < 9; ++k) p[k] = b[k], q[k] = irv_u64("sorted");
    for (int k = 0; k < 9; ++k) {
        bool in = false;
        for (int m = 0; m < 9; ++m) in = in | (q[k] == p[m]);
        irv_assume(in);
        if (k) irv_assume(q[k - 1] <= q[k]);
        for (int m = 0; m < 2; ++m) before[m] = before[m] | (p[k] == g_track[m]), after[m] = after[m] | (q[k] == g_track[m]);
    }
    irv_assume(before[0] == after[0]);
    irv_assume(before[1] == after[1]);
    for (int k = 0; k < 9; ++k) b[k] = q[k];
}
uint64_t *contract_unique(uint64_t *b, uint64_t *e) {
    irv_assert(e - b == 9, "nine entries");
    uint64_t p[9], q[9];
    int n = irv_u32("unique");
    irv_assume((n >= 1) & (n <= 9));
    bool before[2] = {false, false}, after[2] = {false, false}, sorted = true;
    for (int k = 0; k < 9; ++k) p[k] = b[k], q[k] = irv_u64("uniq");
    for (int k = 1; k < 9; ++k) sorted = sorted & (p[k - 1] <= p[k]);
    irv_assert(sorted, "equal entries are next to each other");
    for (int k = 0; k < 9; ++k) {
        bool in = false;
        for (int m = 0; m < 9; ++m) in = in | (q[k] == p[m]);
        irv_assume(in);
        if (k) irv_assume((q[k - 1] < q[k]) | (k >= n));
        for (int m = 0; m < 2; ++m) before[m] = before[m] | (p[k] == g_track[m]), after[m] = after[m] | ((q[k] == g_track[m]) & (k < n));
    }
    irv_assume(before[0] == after[0]);
    irv_assume(before[1] == after[1]);
    for (int k = 0; k < 9; ++k) b[k] = q[k];
    for (int k = 1; k < 9; ++k)
        if (irv_split(n == k)) return b + k;
    irv_assume(n == 9);
    return b + 9;
}
// the level of an index, by the contract mq3c_level
int contract_level(uint64_t i) {
    irv_assert(valid(i, g_level), "an index of the level at hand");
    return g_level;
}
// wrapIndex: some valid index (the contract q3c_wrap, mq3c_wrap says which)
uint64_t contract_wrap(int level, int face, uint32_t s, uint32_t t) {
    irv_assert(level == g_level, "at the level of the pixels");
    uint64_t w = irv_uf3i("wrap", face, s, t);
    irv_assume(valid(w, level));
    return w;
}
void contract_insert(RangeSet *, uint64_t first, uint64_t last) {
    irv_assert(g_k < 8, "as many ranges as there are pixels");
    g_first[g_k] = first;
    g_last[g_k++] = last;
}
// the face of a point, by the contract q3c_face, mq3c_face
int contract_face(UnitVector3d const &v, uint8_t const (&)[64]) {
    uint64_t x[3];
    for (int k = 0; k < 3; ++k) {
        double c = v(k);
        std::memcpy(&x[k], &c, 8);
    }
    uint64_t f = irv_uf3i("face", x[0], x[1], x[2]);
    irv_assume(f < 6);
    for (int k = 0; k < 6; ++k) {
        if (!irv_split(f == k)) continue;
        double w = v(FACE_COMP[k][2]);
        irv_assume(w != 0);
        irv_assume((std::fabs(w) >= std::fabs(v.x())) & (std::fabs(w) >= std::fabs(v.y())) & (std::fabs(w) >= std::fabs(v.z())));
        return k;
    }
    return 0;
}
// the cell of a point of a face, by the contract q3c_grid, mq3c_grid: that of the coarser grids is found by
// dropping bits of that of the finest
__m128i contract_grid(int level, __m128d uv) {
    alignas(16) double p[2];
    _mm_store_pd(p, uv);
    irv_assert((std::fabs(p[0]) <= 1.5) & (std::fabs(p[1]) <= 1.5), "face coordinates");
    irv_assert((level >= 0) & (level <= 30), "a level");
    uint64_t a, b;
    std::memcpy(&a, &p[0], 8);
    std::memcpy(&b, &p[1], 8);
    a = irv_uf1("cell", a), b = irv_uf1("cell", b);
    irv_assume(((a >> 30) == 0) & ((b >> 30) == 0));
    return _mm_set_epi64x(b >> (30 - level), a >> (30 - level));
}
// the index of a cell, by the contracts morton, hilbert_index and hilbert_refine of property C03
uint64_t contract_refine(__m128i st, int m) {
    alignas(16) uint64_t c[2];
    _mm_store_si128((__m128i *)c, st);
    irv_assert(((c[0] >> m) == 0) & ((c[1] >> m) == 0), "a cell of the grid");
    uint64_t h = irv_uf3i("curve", c[0], c[1], m);
    irv_assume((h >> (2 * m)) == 0);
    if (m > 0) irv_assume((h >> 2) == irv_uf3i("curve", c[0] >> 1, c[1] >> 1, m - 1));
    return h;
}
uint64_t contract_morton_v(__m128i st) { return contract_refine(st, g_level); }
uint64_t contract_hilbert_v(__m128i st, int m) { return contract_refine(st, m); }
// the vertices of a pixel: some vectors
void contract_quad(uint64_t i, int level, UnitVector3d *v) {
    irv_assert(((level >= 0) & (level <= MAXL)) && valid(i, level), "the vertices of a pixel that exists");
}
}}
#endif

S(construct) {
    int l = (int)irv_u32("l");
    bool ok = (l >= 0) & (l <= MAXL);
    int t = throws([&] { PIX p(l); irv_assert(p.getLevel() == l, "keeps its level"); });
    irv_assert(t == (ok ? 0 : 1), "levels outside 0..MAX_LEVEL and only those are rejected");
}
S(universe) {
    int l = irv_range("l", 0, MAXL);
    uint64_t i = irv_u64("i");
    PIX p(l);
    RangeSet u = p.universe();
    irv_assert(u.size() == 1, "one range");
    auto r = *u.begin();
    irv_assert(((std::get<0>(r) <= i) & (i <= std::get<1>(r) - 1)) == valid(i, l), "the universe holds the indices of its level and no others");
}
#ifdef MQ3C
namespace {
// the level at which i is an index, or -1
int the_level(uint64_t i) {
    int r = -1;
    for (int l = 0; l <= 30; ++l) r = valid(i, l) ? l : r;
    return r;
}
}
S(level) {
    uint64_t i = irv_u64("i");
    irv_assert(PIX::level(i) == the_level(i), "level(i) is the level at which i is an index, or -1");
}
S(reject) {
    uint64_t i = irv_u64("i");
    irv_assume(the_level(i) < 0);
    {
        PIX p(MAXL);
        irv_assert(throws([&] { PIX::asString(i); }) == 1, "asString rejects invalid indices");
        irv_assert(throws([&] { p.toString(i); }) == 1, "toString rejects invalid indices");
        irv_assert(throws([&] { PIX::quad(i); }) == 1, "quad rejects invalid indices");
        irv_assert(throws([&] { PIX::neighborhood(i); }) == 1, "neighborhood rejects invalid indices");
    }
}
#else
S(reject) {
    uint64_t i = irv_u64("i");
    int l = irv_range("level", 0, MAXL);
    PIX p(l);
    irv_assume(!valid(i, l));
    irv_assert(throws([&] { p.toString(i); }) == 1, "toString rejects invalid indices");
    irv_assert(throws([&] { p.quad(i); }) == 1, "quad rejects invalid indices");
    irv_assert(throws([&] { p.neighborhood(i); }) == 1, "neighborhood rejects invalid indices");
    irv_assert(throws([&] { p.pixel(i); }) == 1, "pixel rejects invalid indices");
}
#endif
S(reject_pixel) {
    int l = irv_range("level", 0, MAXL);
    PIX p(l);
    uint64_t i = irv_u64("i");
    irv_assume(!valid(i, l));
    irv_assert(throws([&] { p.pixel(i); }) == 1, "pixel rejects invalid indices");
}
// every index of the universe has a pixel (whose vertices are those of the quad function)
S(accept) {
    int l = irv_range("l", 0, MAXL);
    PIX p(l);
    uint64_t i = index_at(l);
    irv_assert(throws([&] { p.pixel(i); }) == 0, "pixel accepts valid indices");
    irv_assert(throws([&] { p.quad(i); }) == 0, "quad accepts valid indices");
}
S(string) {
    int l = irv_range("l", 0, MAXL);
    PIX p(l);
    uint64_t i = index_at(l);
    std::string s = p.toString(i);
    irv_assert(s.size() == (size_t)l + 2, "sign and axis of the face and one digit for every level");
    irv_assert((s[0] == '+') | (s[0] == '-'), "sign");
    irv_assert((s[1] >= 'X') & (s[1] <= 'Z'), "axis");
    uint64_t f = 0;
    // the face is the one whose normal is named
    bool found = false;
    for (unsigned k = 0; k < 6; ++k) {
        bool is = (s[1] - 'X' == FACE_COMP[k][2]) & ((s[0] == '+') == (FACE_CONST[k][2] > 0));
        irv_assert(!(found & is), "different faces have different names");
        f = is ? k : f;
        found = found | is;
    }
    irv_assert(found, "the name of a face");
    f += ROOT;
    for (int j = 2; j < l + 2; ++j) {
        unsigned d = (unsigned char)s[j] - '0';
        irv_assert(d < 4, "digits");
        f = f * 4 + d;
    }
    irv_assert(f == i, "the name determines the index");
#ifdef MQ3C
    irv_assert(PIX::asString(i) == s, "asString");
#endif
}
// the face of a point is one whose axis has the largest component
S(face) {
    UnitVector3d v = point();
    irv_assume((v.x() == v.x()) & (v.y() == v.y()) & (v.z() == v.z()));
    irv_assume((v.x() != 0) | (v.y() != 0) | (v.z() != 0));
    irv_assume((std::fabs(v.x()) <= 2) & (std::fabs(v.y()) <= 2) & (std::fabs(v.z()) <= 2));
    int f = faceNumber(v, FACE_NUM);
    irv_assert((f >= 0) & (f < 6), "a face");
    for (int k = 0; k < 6; ++k) {
        if (!irv_split(f == k)) continue;
        double w = v(FACE_COMP[k][2]);
        irv_assert((w > 0) == (FACE_CONST[k][2] > 0), "on the side of the face");
        irv_assert(w != 0, "a positive distance");
        irv_assert((std::fabs(w) >= std::fabs(v.x())) & (std::fabs(w) >= std::fabs(v.y())) & (std::fabs(w) >= std::fabs(v.z())), "the largest component");
        return;
    }
}
// the cells of the grid of a face
S(grid) {
    int l = irv_range("l", 0, MAXL);
    double u = irv_in("u", -1.5, 1.5), v = irv_in("v", -1.5, 1.5);
    alignas(16) int32_t st[4], pq[4];
    _mm_store_si128((__m128i *)st, faceToGrid(l, _mm_set_pd(v, u)));
    irv_assert((st[1] == 0) & (st[3] == 0), "64-bit coordinates");
    irv_assert((((uint32_t)st[0] >> l) == 0) & (((uint32_t)st[2] >> l) == 0), "a cell of the grid");
    if (l > 0) {
        _mm_store_si128((__m128i *)pq, faceToGrid(l - 1, _mm_set_pd(v, u)));
        irv_assert((st[0] >> 1) == pq[0], "within the cell of the coarser grid");
        irv_assert((st[2] >> 1) == pq[2], "within the cell of the coarser grid");
    }
}
S(index) {
    int l = irv_range("l", 0, MAXL);
    UnitVector3d v = point();
    irv_assume((std::fabs(v.x()) <= 2) & (std::fabs(v.y()) <= 2) & (std::fabs(v.z()) <= 2));
    irv_assume((v.x() != 0) | (v.y() != 0) | (v.z() != 0));
    PIX p(l);
    g_level = l;
    uint64_t i = p.index(v);
    irv_assert(valid(i, l), "index gives an index of the universe");
    if (l > 0) {
        g_level = l - 1;
        irv_assert(PIX(l - 1).index(v) == i >> 2, "the parent of the index is the index at the coarser level");
    }
}
S(children) {
    int l = irv_range("l", 0, MAXL - 1);
    uint64_t i = index_at(l);
    RangeSet s;
    Recorder r;
#ifdef MQ3C
    Mq3cPixelFinder<Recorder, false> f(s, r, l + 1, 0);
#else
    Q3cPixelFinder<Recorder, false> f(s, r, l + 1, 0);
#endif
    g_n = g_k = 0;
    f.subdivide(nullptr, i, l);
    irv_assert(g_n == 4, "four children");
#ifdef IRV_NATIVE
    irv_assert(s == RangeSet(i * 4, i * 4 + 4), "the indexes of the children");
#else
    irv_assert(g_k == 4, "four children");
    for (unsigned k = 0; k < 4; ++k) irv_assert((g_first[k] == i * 4 + k) & (g_last[k] == i * 4 + k + 1), "the indexes of the children");
#endif
}
S(roots) {
    RangeSet s;
    Recorder r;
#ifdef MQ3C
    Mq3cPixelFinder<Recorder, false> f(s, r, 0, 0);
#else
    Q3cPixelFinder<Recorder, false> f(s, r, 0, 0);
#endif
    g_n = g_k = 0;
    f();
    irv_assert(g_n == 6, "six faces");
#ifdef IRV_NATIVE
    irv_assert(s == RangeSet(ROOT, ROOT + 6), "the indexes of the faces");
#else
    irv_assert(g_k == 6, "six faces");
    for (unsigned k = 0; k < 6; ++k) irv_assert((g_first[k] == ROOT + k) & (g_last[k] == ROOT + k + 1), "the indexes of the faces");
#endif
}
namespace {
// Corner (s, t) of the grid of a face, as a point of the surface of the cube with half side 2^(level-1)
// (in units of half cells).
struct Corner { uint64_t c[3]; };
Corner corner(int face, uint64_t s, uint64_t t, int level) {
    uint64_t h = uint64_t(1) << level;
    Corner r;
    r.c[FACE_COMP[face][0]] = FACE_CONST[face][0] > 0 ? 2 * s - h : h - 2 * s;
    r.c[FACE_COMP[face][1]] = FACE_CONST[face][1] > 0 ? 2 * t - h : h - 2 * t;
    r.c[FACE_COMP[face][2]] = FACE_CONST[face][2] > 0 ? h : -h;
    return r;
}
// Do two cells have a corner in common?
bool adjacent(int f, uint64_t s, uint64_t t, int g, uint64_t p, uint64_t q, int level) {
    bool r = false;
    Corner x[4], y[4];
    for (unsigned a = 0; a < 4; ++a) {
        x[a] = corner(f, s + (a & 1), t + (a >> 1), level);
        y[a] = corner(g, p + (a & 1), q + (a >> 1), level);
    }
    for (unsigned a = 0; a < 4; ++a)
        for (unsigned b = 0; b < 4; ++b)
            r = r | ((x[a].c[0] == y[b].c[0]) & (x[a].c[1] == y[b].c[1]) & (x[a].c[2] == y[b].c[2]));
    return r;
}
void decode(uint64_t i, int level, uint64_t &s, uint64_t &t) {
    uint32_t a, b;
    uint64_t z = i & ((uint64_t(1) << (2 * level)) - 1);
#ifdef MQ3C
    std::tie(a, b) = hilbertIndexInverse(z, level);
#else
    std::tie(a, b) = mortonIndexInverse(z);
#endif
    s = a;
    t = b;
}
uint64_t encode(uint64_t face, uint32_t s, uint32_t t, int level) {
#ifdef MQ3C
    return ((face + ROOT) << (2 * level)) | hilbertIndex(s, t, level);
#else
    return ((face + ROOT) << (2 * level)) | mortonIndex(s, t);
#endif
}
uint32_t cell_in(uint32_t s, uint32_t m) { return s % 3 == 0 ? 0 : s % 3 == 1 ? m : s & m; }
}
// The pixels that wrapIndex gives for the cells around a pixel (which may be off its face) are those that have
// a corner in common with it: a relation that is symmetric and does not depend on how the pixels are numbered.
S(wrap) {
    int fg = irv_range("faces", 0, 35), f = fg / 6, g = fg % 6;
    int l = irv_u8("level");
    irv_assume(l <= MAXL);
#ifdef IRV_NATIVE
    l %= 31;
#endif
    g_level = l;
    uint32_t m = (uint32_t(1) << l) - 1;
    uint32_t s = irv_u32("s"), t = irv_u32("t"), u = irv_u32("u"), v = irv_u32("v");
#ifdef IRV_NATIVE
    s = cell_in(s, m), t = cell_in(t, m), u = cell_in(u, m), v = cell_in(v, m);
#endif
    irv_assume((s <= m) & (t <= m) & (u <= m) & (v <= m));
    uint64_t i = encode(f, s, t, l), j = encode(g, u, v, l);
    bool in = i == j, ok = true;
    for (unsigned k = 0; k < 9; ++k) {
        if (k == 4) continue;
        uint64_t w = wrapIndex(l, f, s + (k % 3) - 1, t + (k / 3) - 1);
        ok = ok & valid(w, l);
        in = in | (w == j);
    }
    irv_assert(ok, "valid indices");
    irv_assert(in == adjacent(f, s, t, g, u, v, l), "the pixels that have a corner in common");
}
// The neighbourhood lists the pixel and those of the cells around it, in order, each once.
S(neighborhood) {
    int l = irv_u8("level");
#ifdef IRV_NATIVE
    l %= 31;
#endif
    irv_assume(l <= MAXL);
    PIX p(l);
    g_level = l;
    uint64_t i = index_at(l), j = index_at(l, "j"), s, t;
    int f = int(i >> (2 * l)) - ROOT;
    decode(i, l, s, t);
#ifdef IRV_NATIVE
    if (j & 1) j = p.neighborhood(i)[(j >> 1) % p.neighborhood(i).size()];
#endif
    g_track[0] = i;
    g_track[1] = j;
    bool around = i == j;
    for (unsigned k = 0; k < 9; ++k)
        if (k != 4) around = around | (wrapIndex(l, f, (uint32_t)s + (k % 3) - 1, (uint32_t)t + (k / 3) - 1) == j);
    std::vector<uint64_t> n = p.neighborhood(i);
    bool has_i = false, has_j = false, ok = true, sorted = true;
    for (size_t k = 0; k < n.size(); ++k) {
        has_i = has_i | (n[k] == i);
        has_j = has_j | (n[k] == j);
        ok = ok & valid(n[k], l);
        if (k) sorted = sorted & (n[k - 1] < n[k]);
    }
    irv_assert(sorted, "sorted and without duplicates");
    irv_assert(has_i, "contains the pixel itself");
    irv_assert(ok, "valid indices");
    irv_assert(has_j == around, "the pixels of the cells around it");
}
