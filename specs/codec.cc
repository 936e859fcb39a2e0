// Contracts of the region codec: encodings restore the region bit for bit, and decoding any
// byte string of any length reads only those bytes and either yields a region or throws.
#include "irv.h"
#include "mock.h"
#include <stdexcept>
#include <type_traits>
#include "lsst/sphgeom/codec.h"

using namespace lsst::sphgeom;
namespace {
typedef std::vector<std::uint8_t> Bytes;
uint64_t bits(double d) { uint64_t u; std::memcpy(&u, &d, 8); return u; }
// the 8 bytes at p, least significant first
uint64_t le(std::uint8_t const *p) {
    uint64_t u = 0;
    for (int i = 0; i < 8; ++i) u |= uint64_t(p[i]) << (8 * i);
    return u;
}
NormalizedAngle raw(double x) { NormalizedAngle a; a._a = Angle(x); return a; }
Box box(char const *n1, char const *n2, char const *n3, char const *n4) {
    Box b;
    double x = irv_in(n1, 0.0, 2.0 * PI, true), y = irv_in(n2, 0.0, 2.0 * PI, true);
    double c = irv_in(n3, -0.5 * PI, 0.5 * PI), d = irv_in(n4, -0.5 * PI, 0.5 * PI);
#ifdef IRV_NATIVE
    if (d < c) { double t = c; c = d; d = t; }
    if (x != x) y = x;
    if (y != y) x = y;
#endif
    irv_assume((x != x) == (y != y));
    irv_assume(c <= d);
    if (irv_split(x != x)) return b;      // the empty box
    b._lon._a = raw(x);
    b._lon._b = raw(y);
    b._lat = AngleInterval(Angle(c), Angle(d));
    return b;
}
bool same(Box const &a, Box const &b) {
    if (a._lon.isEmpty() & b._lon.isEmpty() & a._lat.isEmpty() & b._lat.isEmpty()) return true;
    return irv_same(a._lon.getA().asRadians(), b._lon.getA().asRadians()) & irv_same(a._lon.getB().asRadians(), b._lon.getB().asRadians()) &
           irv_same(a._lat.getA().asRadians(), b._lat.getA().asRadians()) & irv_same(a._lat.getB().asRadians(), b._lat.getB().asRadians());
}
bool same(UnitVector3d const &a, UnitVector3d const &b) {
    return irv_same(a.x(), b.x()) & irv_same(a.y(), b.y()) & irv_same(a.z(), b.z());
}
UnitVector3d uv(char const *a, char const *b, char const *c) {
    double x = irv_double(a), y = irv_double(b), z = irv_double(c);
    return UnitVector3d::fromNormalized(x, y, z);
}
Circle circle() {
    Circle c;
    c._center = uv("x", "y", "z");
    c._squaredChordLength = irv_double("l");
    c._openingAngle = Angle(irv_double("o"));
    return c;
}
bool same(Circle const &a, Circle const &b) {
    return same(a._center, b._center) & irv_same(a._squaredChordLength, b._squaredChordLength) &
           irv_same(a._openingAngle.asRadians(), b._openingAngle.asRadians());
}
Ellipse ellipse() {
    Ellipse e;
    double m[9];
    for (int i = 0; i < 9; ++i) m[i] = irv_double("m");
    e._S = Matrix3d(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]);
    e._a = Angle(irv_double("a"));
    e._b = Angle(irv_double("b"));
    e._gamma = Angle(irv_double("g"));
    e._tana = irv_double("ta");
    e._tanb = irv_double("tb");
    return e;
}
bool same(Ellipse const &a, Ellipse const &b) {
    bool r = true;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) r = r & (int)irv_same(a._S(i, j), b._S(i, j));
    return r & irv_same(a._a.asRadians(), b._a.asRadians()) & irv_same(a._b.asRadians(), b._b.asRadians()) &
           irv_same(a._gamma.asRadians(), b._gamma.asRadians()) & irv_same(a._tana, b._tana) & irv_same(a._tanb, b._tanb);
}
ConvexPolygon polygon(int n) {
    ConvexPolygon p;
    for (int i = 0; i < n; ++i) p._vertices.push_back(uv("x", "y", "z"));
    return p;
}
bool same(ConvexPolygon const &a, ConvexPolygon const &b) {
    if (a._vertices.size() != b._vertices.size()) return false;
    bool r = true;
    for (size_t i = 0; i < a._vertices.size(); ++i) r = r & (int)same(a._vertices[i], b._vertices[i]);
    return r;
}
bool equal(Bytes const &a, Bytes const &b) {
    if (a.size() != b.size()) return false;
    bool r = true;
    for (size_t i = 0; i < a.size(); ++i) r = r & (a[i] == b[i]);
    return r;
}
// the i-th double of an encoding, in little-endian IEEE
double at(Bytes const &s, int i) { return irv_bits(le(s.data() + 1 + 8 * i)); }
template <typename T>
void roundtrip(T const &x, size_t size, char code) {
    Bytes s = x.encode();
    irv_assert(s.size() == size, "size of the encoding");
    irv_assert(s[0] == code, "type code");
    irv_assert(T::TYPE_CODE == code, "type code constant");
    std::unique_ptr<T> y = T::decode(s);
    irv_assert(bool(y), "decodes");
    irv_assert(same(x, *y), "class decode restores the region");
    std::unique_ptr<Region> r = Region::decode(s);
    T const *z = dynamic_cast<T const *>(r.get());
    irv_assert(z != nullptr, "Region::decode yields the same kind of region");
    irv_assert(same(x, *z), "Region::decode restores the region");
    irv_assert(equal(r->encode(), s), "the restored region has the same encoding");
}
#ifdef IRV_NATIVE
void fix(Bytes &) {}
#endif
}  // namespace

SPEC(codec_double) {
    double d = irv_double("d");
    uint64_t u = irv_u64("u");
    Bytes s;
    int k = irv_range("prefix", 0, 3);
    for (int i = 0; i < k; ++i) s.push_back(std::uint8_t(i));
    encodeDouble(d, s);
    encodeU64(u, s);
    irv_assert(s.size() == size_t(k) + 16, "eight bytes appended");
    irv_assert(irv_same(irv_bits(le(s.data() + k)), d), "little-endian IEEE double");
    irv_assert(le(s.data() + k + 8) == u, "little-endian integer");
    for (int i = 0; i < k; ++i) irv_assert(s[i] == i, "earlier bytes kept");
    irv_assert(irv_same(decodeDouble(s.data() + k), d), "decodeDouble undoes encodeDouble");
    irv_assert(decodeU64(s.data() + k + 8) == u, "decodeU64 undoes encodeU64");
    std::uint8_t raw[8];
    irv_bytes(raw, 8, "raw");
    irv_assert(decodeU64(raw) == le(raw), "decodeU64 reads little-endian");
    irv_assert(irv_same(decodeDouble(raw), irv_bits(le(raw))), "decodeDouble reads little-endian");
}
SPEC(codec_box) {
    Box b = box("a", "b", "c", "d");
    roundtrip(b, 33, 'b');
    if (!b.isEmpty()) {
        Bytes s = b.encode();
        irv_assert(irv_same(at(s, 0), b.getLon().getA().asRadians()), "longitude first");
        irv_assert(irv_same(at(s, 1), b.getLon().getB().asRadians()), "longitude first");
        irv_assert(irv_same(at(s, 2), b.getLat().getA().asRadians()), "then latitude");
        irv_assert(irv_same(at(s, 3), b.getLat().getB().asRadians()), "then latitude");
    }
}
SPEC(codec_circle) {
    Circle c = circle();
    roundtrip(c, 41, 'c');
    Bytes s = c.encode();
    irv_assert(irv_same(at(s, 0), c._center.x()), "center first");
    irv_assert(irv_same(at(s, 2), c._center.z()), "center first");
    irv_assert(irv_same(at(s, 3), c._squaredChordLength), "chord length");
    irv_assert(irv_same(at(s, 4), c._openingAngle.asRadians()), "opening angle");
}
SPEC(codec_ellipse) {
    Ellipse e = ellipse();
    roundtrip(e, 113, 'e');
    Bytes s = e.encode();
    irv_assert(irv_same(at(s, 1), e._S(0, 1)), "matrix by rows");
    irv_assert(irv_same(at(s, 9), e._a.asRadians()), "semi-axis");
    irv_assert(irv_same(at(s, 13), e._tanb), "tangents last");
}
SPEC(codec_polygon) {
    int n = irv_range("n", 3, 6);
    ConvexPolygon p = polygon(n);
    roundtrip(p, 1 + 24 * size_t(n), 'p');
    Bytes s = p.encode();
    irv_assert(irv_same(at(s, 3 * n - 1), p._vertices[n - 1].z()), "vertices in order");
    irv_assert(irv_same(at(s, 3), p._vertices[1].x()), "vertices in order");
}

// ---- any byte string
namespace {
template <typename F>
int attempt(F f) {      // 0: a region, 1: an exception
    try {
        f();
        return 0;
    } catch (std::exception const &) {
        return 1;
    }
}
template <typename T>
void arbitrary(size_t size, char code) {
    size_t n;
    std::uint8_t const *p = irv_buf("buf", &n, size, code);
    bool ok = attempt([&] { irv_assert(bool(T::decode(p, n)), "a region"); }) == 0;
    irv_assert(irv_imp(ok, n == size), "only accepts its own size");
    if (ok) {
        irv_cover("accepts");
        irv_assert(p[0] == code, "only accepts its type code");
    }
    irv_assert(attempt([&] { T::decode(nullptr, n); }) == 1, "rejects null");
}
}  // namespace
SPEC(decode_box) { arbitrary<Box>(33, 'b'); }
SPEC(decode_circle) { arbitrary<Circle>(41, 'c'); }
SPEC(decode_ellipse) { arbitrary<Ellipse>(113, 'e'); }
SPEC(decode_circle_exact) {
    size_t n;
    std::uint8_t const *p = irv_buf("buf", &n, 41, 'c');
    irv_assume(n == 41);
    irv_assume(p[0] == 'c');
    std::unique_ptr<Circle> c = Circle::decode(p, n);
    irv_assert(irv_same(c->_squaredChordLength, irv_bits(le(p + 25))), "fields are the given bytes");
    irv_assert(irv_same(c->_center.y(), irv_bits(le(p + 9))), "fields are the given bytes");
}
// a polygon needs at least three vertices and whole vertices
SPEC(decode_polygon_reject) {
    size_t n;
    std::uint8_t const *p = irv_buf("buf", &n, 60, 'p');
    irv_assume(n < 73 || (n - 1) % 24 != 0 || p[0] != 'p');
    irv_assert(attempt([&] { ConvexPolygon::decode(p, n); }) == 1, "rejects");
}
SPEC(decode_polygon) {
    int nv = irv_range("nv", 3, 6);
    size_t n;
    std::uint8_t const *p = irv_buf("buf", &n, 1 + 24 * nv, 'p');
    irv_assume(n == 1 + 24 * size_t(nv));
    n = 1 + 24 * size_t(nv);
    bool ok = attempt([&] {
        std::unique_ptr<ConvexPolygon> y = ConvexPolygon::decode(p, n);
        irv_assert(y->_vertices.size() == size_t(nv), "number of vertices");
        irv_assert(irv_same(y->_vertices[nv - 1].z(), irv_bits(le(p + 1 + 24 * nv - 8))), "vertices are the given bytes");
    }) == 0;
    irv_assert(ok == (p[0] == 'p'), "accepts exactly its type code");
}

// ---- Region::decode hands the whole byte string to the decoder its first byte names
#ifndef IRV_NATIVE
namespace {
std::uint8_t const *g_buf;
size_t g_n;
int g_called, g_depth;
template <typename T>
std::unique_ptr<T> stub(int code, std::uint8_t const *b, size_t n) {
    irv_assert(b == g_buf, "the decoder gets the given bytes");
    irv_assert(n == g_n, "the decoder gets all the given bytes");
    g_called = code;
    if (irv_bool("throws")) throw std::runtime_error("malformed");
    return nullptr;
}
}  // namespace
namespace lsst { namespace sphgeom {
// contracts of the class decoders: called with bytes that may be read, they throw or return
std::unique_ptr<Box> contract_box(std::uint8_t const *b, size_t n) { return stub<Box>('b', b, n); }
std::unique_ptr<Circle> contract_circle(std::uint8_t const *b, size_t n) { return stub<Circle>('c', b, n); }
std::unique_ptr<ConvexPolygon> contract_polygon(std::uint8_t const *b, size_t n) { return stub<ConvexPolygon>('p', b, n); }
std::unique_ptr<Ellipse> contract_ellipse(std::uint8_t const *b, size_t n) { return stub<Ellipse>('e', b, n); }
std::unique_ptr<UnionRegion> contract_union(std::uint8_t const *b, size_t n) { return stub<UnionRegion>('u', b, n); }
std::unique_ptr<IntersectionRegion> contract_intersection(std::uint8_t const *b, size_t n) { return stub<IntersectionRegion>('i', b, n); }
}}
SPEC(decode_region) {
    size_t n;
    std::uint8_t const *p = irv_buf("buf", &n, 60, 'u');
    g_buf = p;
    g_n = n;
    g_called = 0;
    bool ok = attempt([&] { Region::decode(p, n); }) == 0;
    irv_assert(irv_imp(n == 0, !ok), "rejects nothing");
    if (n > 0) {
        int c = p[0];
        bool known = (c == 'b') | (c == 'c') | (c == 'p') | (c == 'e') | (c == 'u') | (c == 'i');
        irv_assert(irv_imp(!known, !ok & (g_called == 0)), "unknown type code");
        irv_assert(irv_imp(known, g_called == c), "dispatches on the type code");
    } else
        irv_assert(g_called == 0, "no decoder is called");
    g_called = 0;
    irv_assert(attempt([&] { Region::decode(nullptr, n); }) == 1, "rejects null");
    irv_assert(g_called == 0, "no decoder is called");
}
// contract of Region::decode, used for the operands of a compound region: the bytes are inside the
// given ones (so the recursion reads nothing else) and fewer (so it ends)
namespace lsst { namespace sphgeom {
std::unique_ptr<Region> contract_region(std::uint8_t const *b, size_t n) {
    irv_assert(irv_readable(b, n), "operand bytes lie inside the given bytes");
    irv_assert(n < g_n, "operand is shorter than the whole");
    irv_assert(b > g_buf, "operand follows the header");
    ++g_depth;
    if (irv_bool("throws")) throw std::runtime_error("malformed");
    return std::unique_ptr<Region>(new Mock(g_depth));
}
}}
#endif
namespace {
template <typename T>
void arbitrary_compound(char code, bool any) {
    size_t n;
    std::uint8_t const *p = irv_buf("buf", &n, 60, code);
#ifndef IRV_NATIVE
    g_buf = p;
    g_n = n;
    g_depth = 0;
#endif
    bool ok = attempt([&] { irv_assert(bool(T::decode(p, n)), "a region"); }) == 0;
    irv_assert(irv_imp(ok, n >= 17), "a compound region has two lengths");
    if (ok) {
        irv_cover("accepts");
#ifndef IRV_NATIVE
        irv_assert(g_depth == 2, "two operands");
#endif
        irv_assert((p[0] == code) | (any & (p[0] == 'i')), "type code");
        uint64_t n1 = le(p + 1);
        irv_assert(n1 <= n - 17, "first operand fits");
        irv_assert(le(p + 9 + n1) == n - 17 - n1, "second operand ends the string");
    }
}
}  // namespace
SPEC(decode_union) { arbitrary_compound<UnionRegion>('u', false); }
SPEC(decode_intersection) { arbitrary_compound<IntersectionRegion>('i', false); }
SPEC(decode_compound) { arbitrary_compound<CompoundRegion>('u', true); }

// ---- round trip of compound regions over operands with arbitrary encodings
#ifndef IRV_NATIVE
namespace {
int g_len[2];
std::uint8_t g_byte[2][8];
bool g_mode;
}
namespace lsst { namespace sphgeom {
std::unique_ptr<Region> contract_operand(std::uint8_t const *b, size_t n) {
    int k = g_depth++;
    irv_assert(k < 2, "two operands");
    irv_assert(n == size_t(g_len[k]), "operand gets the length of its encoding");
    bool r = true;
    for (int i = 0; i < g_len[k]; ++i) r = r & (b[i] == g_byte[k][i]);
    irv_assert(r, "operand gets its encoding");
    return std::unique_ptr<Region>(new Mock(100 + k));
}
}}
namespace {
template <typename T>
void roundtrip_compound(char code) {
    Mock m1(0), m2(1);
    g_len[0] = irv_range("n1", 0, 4);
    g_len[1] = irv_range("n2", 0, 4);
    for (int k = 0; k < 2; ++k) {
        irv_bytes(g_byte[k], g_len[k], "bytes");
        (k ? m2 : m1).enc.assign(g_byte[k], g_byte[k] + g_len[k]);
    }
    T x(m1, m2);
    Bytes s = x.encode();
    irv_assert(s.size() == size_t(17 + g_len[0] + g_len[1]), "size");
    irv_assert(s[0] == code, "type code");
    irv_assert(le(s.data() + 1) == uint64_t(g_len[0]), "length of the first operand");
    irv_assert(le(s.data() + 9 + g_len[0]) == uint64_t(g_len[1]), "length of the second operand");
    g_depth = 0;
    std::unique_ptr<T> y = T::decode(s);
    irv_assert(g_depth == 2, "two operands");
    irv_assert(static_cast<Mock const &>(y->getOperand(0)).id == 100, "first operand");
    irv_assert(static_cast<Mock const &>(y->getOperand(1)).id == 101, "second operand");
}
}
SPEC(codec_union) { roundtrip_compound<UnionRegion>('u'); }
SPEC(codec_intersection) { roundtrip_compound<IntersectionRegion>('i'); }
#endif
// real operands, nested
SPEC(codec_nested) {
    Box b = box("a", "b", "c", "d");
    Circle c = circle();
    ConvexPolygon p = polygon(3);
    UnionRegion u(b, c);
    IntersectionRegion i(p, u);
    UnionRegion w(i, b);
    Bytes s = w.encode();
    std::unique_ptr<Region> r = Region::decode(s);
    UnionRegion const *y = dynamic_cast<UnionRegion const *>(r.get());
    irv_assert(y != nullptr, "union");
    IntersectionRegion const *j = dynamic_cast<IntersectionRegion const *>(&y->getOperand(0));
    irv_assert(j != nullptr, "intersection");
    Box const *bb = dynamic_cast<Box const *>(&y->getOperand(1));
    irv_assert(bb != nullptr && same(*bb, b), "second operand");
    ConvexPolygon const *pp = dynamic_cast<ConvexPolygon const *>(&j->getOperand(0));
    irv_assert(pp != nullptr && same(*pp, p), "nested first operand");
    UnionRegion const *uu = dynamic_cast<UnionRegion const *>(&j->getOperand(1));
    irv_assert(uu != nullptr, "nested second operand");
    Box const *b2 = dynamic_cast<Box const *>(&uu->getOperand(0));
    Circle const *c2 = dynamic_cast<Circle const *>(&uu->getOperand(1));
    irv_assert(b2 != nullptr && same(*b2, b), "innermost first operand");
    irv_assert(c2 != nullptr && same(*c2, c), "innermost second operand");
    std::unique_ptr<CompoundRegion> z = CompoundRegion::decode(s);
    irv_assert(equal(z->encode(), s), "same encoding");
}
#ifdef IRV_NATIVE
// damaged encodings of nested regions (tested only)
SPEC(decode_damaged) {
    Box b = box("a", "b", "c", "d");
    Circle c = circle();
    Ellipse e = ellipse();
    ConvexPolygon p = polygon(irv_range("n", 3, 6));
    Region const *leaf[4] = {&b, &c, &e, &p};
    UnionRegion u(*leaf[irv_range("l1", 0, 3)], *leaf[irv_range("l2", 0, 3)]);
    IntersectionRegion i(u, *leaf[irv_range("l3", 0, 3)]);
    UnionRegion w(*leaf[irv_range("l4", 0, 3)], i);
    Region const *any[7] = {&b, &c, &e, &p, &u, &i, &w};
    Bytes s = any[irv_range("which", 0, 6)]->encode();
    size_t cut = irv_u32("cut") % (s.size() + 12);
    if (irv_bool("shorter")) s.resize(cut);
    if (s.size()) {
        for (int k = irv_range("damage", 0, 3); k > 0; --k) s[irv_u32("at") % s.size()] ^= irv_u8("with");
        if (irv_bool("first")) s[0] = std::uint8_t("bcepui"[irv_range("code", 0, 5)]);
    }
    size_t n = s.size();
    std::uint8_t *exact = static_cast<std::uint8_t *>(std::malloc(n ? n : 1));
    if (n) std::memcpy(exact, s.data(), n);
    std::uint8_t const *q = exact + (n ? 0 : 1);
    attempt([&] { Region::decode(q, n); });
    attempt([&] { CompoundRegion::decode(q, n); });
    attempt([&] { Box::decode(q, n); });
    attempt([&] { Circle::decode(q, n); });
    attempt([&] { Ellipse::decode(q, n); });
    attempt([&] { ConvexPolygon::decode(q, n); });
    attempt([&] { UnionRegion::decode(q, n); });
    attempt([&] { IntersectionRegion::decode(q, n); });
    std::free(exact);
}
#endif
