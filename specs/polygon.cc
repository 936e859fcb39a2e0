// Contracts of ConvexPolygon: containment by the orientation predicate, equality by rotation, the
// predicates derived from relate.
#include "irv.h"
#include "mock.h"
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/orientation.h"
#include "lsst/sphgeom/Circle.h"
#include "lsst/sphgeom/Ellipse.h"
#include "lsst/sphgeom/LonLat.h"
using namespace lsst::sphgeom;
namespace lsst { namespace sphgeom {
#ifndef IRV_NATIVE
// the orientation predicate: some function of its arguments (C05 gives its meaning)
int contract_orientation(UnitVector3d const &a, UnitVector3d const &b, UnitVector3d const &c) {
    std::uint64_t v[9], x;
    UnitVector3d const *u[3] = {&a, &b, &c};
    for (int i = 0; i < 3; ++i)
        for (int k = 0; k < 3; ++k) {
            double d = (*u[i])(k);
            std::memcpy(&v[3 * i + k], &d, 8);
        }
    double d[9];
    std::memcpy(d, v, sizeof(d));
    double r = irv_uf9("orientation", d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8]);
    std::memcpy(&x, &r, 8);
    return int(x & 3) - 1;
}
#endif
}}
namespace {
#ifndef IRV_NATIVE
int orient(UnitVector3d const &a, UnitVector3d const &b, UnitVector3d const &c) { return contract_orientation(a, b, c); }
#else
int orient(UnitVector3d const &a, UnitVector3d const &b, UnitVector3d const &c) { return orientation(a, b, c); }
#endif
// The predicate is alternating (C05): stated of the three vectors.
void alternating(UnitVector3d const &a, UnitVector3d const &b, UnitVector3d const &c) {
#ifndef IRV_NATIVE
    int o = orient(a, b, c);
    irv_assume((o >= -1) & (o <= 1));
    irv_assume(orient(b, c, a) == o);
    irv_assume(orient(c, a, b) == o);
    irv_assume(orient(b, a, c) == -o);
    irv_assume(orient(a, c, b) == -o);
    irv_assume(orient(c, b, a) == -o);
#endif
}
UnitVector3d vec(char const *n) {
#ifdef IRV_NATIVE
    // often from a small set, and often on an edge
    std::uint64_t k = irv_u64(n);
    double g[8] = {0, 1, -1, 0.5, -0.5, 2, 0.25, 1e-9};
    double x = g[k & 7], y = g[(k >> 3) & 7], z = g[(k >> 6) & 7];
    if (k & 512) { x += 1e-3 * double((k >> 10) & 1023); y -= 1e-3 * double((k >> 20) & 1023); z += 1e-3 * double((k >> 30) & 1023); }
    if (x == 0 && y == 0 && z == 0) z = 1;
    return UnitVector3d(x, y, z);
#else
    double x = irv_double(n), y = irv_double(n), z = irv_double(n);
    irv_assume((x == x) & (y == y) & (z == z));
    return UnitVector3d::fromNormalized(x, y, z);
#endif
}
void polygon(ConvexPolygon &p, char const *name, int n) {
    p._vertices.clear();
    p._vertices.reserve(n);
    for (int i = 0; i < n; ++i) p._vertices.push_back(vec(name));
}
int count(int hi) { return irv_range("n", 3, hi); }
#ifndef MAXV
#define MAXV 8
#endif
void check_contains(bool (*ask)(ConvexPolygon const &, UnitVector3d const &), int hi = MAXV) {
    int n = count(hi);
    ConvexPolygon p;
    polygon(p, "p", n);
    UnitVector3d v = vec("v");
    bool e = true;
    for (int i = 0; i < n; ++i) {
        UnitVector3d const &a = p._vertices[i], &b = p._vertices[(i + 1) % n];
        alternating(v, a, b);
        e = e & (orient(v, a, b) >= 0);
    }
    irv_assert(ask(p, v) == e, "contains exactly the points on or to the left of every edge");
}
bool eq(UnitVector3d const &a, UnitVector3d const &b) { return (a.x() == b.x()) & (a.y() == b.y()) & (a.z() == b.z()); }
struct Probe final : public Region {
    unsigned base = 0;
    mutable Region const *seen = nullptr;
    mutable int how = 0;
    std::unique_ptr<Region> clone() const override { return std::unique_ptr<Region>(new Probe(*this)); }
    Box getBoundingBox() const override { return Box(); }
    Box3d getBoundingBox3d() const override { return Box3d(); }
    Circle getBoundingCircle() const override { return Circle(); }
    using Region::contains;
    bool contains(UnitVector3d const &) const override { return false; }
    Relationship ask(Region const &r, int k) const { seen = &r; how = k; return Relationship(base); }
    Relationship relate(Region const &r) const override { return ask(r, 1); }
    Relationship relate(Box const &r) const override { return ask(r, 2); }
    Relationship relate(Circle const &r) const override { return ask(r, 3); }
    Relationship relate(ConvexPolygon const &r) const override { return ask(r, 4); }
    Relationship relate(Ellipse const &r) const override { return ask(r, 5); }
    std::vector<std::uint8_t> encode() const override { return {}; }
};
}
SPEC(polygon_contains) {
    check_contains([](ConvexPolygon const &p, UnitVector3d const &v) { return p.contains(v); });
}
SPEC(polygon_contains_region) {
    check_contains([](ConvexPolygon const &p, UnitVector3d const &v) { Region const &r = p; return r.contains(v); }, 4);
}
SPEC(polygon_contains_copy) {
    check_contains([](ConvexPolygon const &p, UnitVector3d const &v) { ConvexPolygon q(p), r(q); r = p; return q.contains(v) && r.contains(v); }, 4);
}
SPEC(polygon_contains_clone) {
    check_contains([](ConvexPolygon const &p, UnitVector3d const &v) { return p.clone()->contains(v); }, 4);
}
SPEC(polygon_equal) {
#ifdef IRV_NATIVE
    int n = count(8), m = irv_range("m", 3, 8);
#else
    int n = count(4), m = irv_range("m", 3, 4);
#endif
    ConvexPolygon p, q;
    polygon(p, "p", n);
#ifdef IRV_NATIVE
    if (irv_u8("how") & 1) {
        // a rotation, with at most one vertex replaced
        q._vertices = p._vertices;
        std::rotate(q._vertices.begin(), q._vertices.begin() + irv_u8("k") % n, q._vertices.end());
        if (irv_u8("how") & 1) q._vertices[irv_u8("k") % n] = vec("q");
        m = n;
    } else
#endif
    polygon(q, "q", m);
    // the vertices of a convex polygon are distinct
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j) irv_assume(!eq(p._vertices[i], p._vertices[j]));
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < i; ++j) irv_assume(!eq(q._vertices[i], q._vertices[j]));
    bool e = false;
    if (n == m)
        for (int k = 0; k < n; ++k) {
            bool f = true;
            for (int i = 0; i < n; ++i) f = f & eq(p._vertices[i], q._vertices[(i + k) % n]);
            e = e | f;
        }
    irv_assert((p == q) == e, "equal exactly when the vertices are, up to rotation");
    irv_assert((p != q) == !e, "unequal exactly when they are not");
}
SPEC(polygon_equal_self) {
    int n = count(6);
    ConvexPolygon p;
    polygon(p, "p", n);
    irv_assert(p == p, "equal to itself");
    irv_assert(!(p != p), "not unequal to itself");
    ConvexPolygon q(p);
    irv_assert(p == q, "equal to a copy");
    int k = irv_range("k", 1, 5);
    irv_assume(k < n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j) irv_assume(!eq(p._vertices[i], p._vertices[j]));
    for (int i = 0; i < n; ++i) q._vertices[i] = p._vertices[(i + k) % n];
    irv_assert(p == q, "equal to a rotation");
    irv_assert(q == p, "equal to a rotation");
}
SPEC(polygon_vertices) {
    UnitVector3d a = vec("a"), b = vec("b"), c = vec("c"), d = vec("d");
    ConvexPolygon t(a, b, c), q(a, b, c, d);
    irv_assert(t.getVertices().size() == 3, "three vertices");
    irv_assert(eq(t.getVertices()[0], a) & eq(t.getVertices()[1], b) & eq(t.getVertices()[2], c), "the given vertices in order");
    irv_assert(q.getVertices().size() == 4, "four vertices");
    irv_assert(eq(q.getVertices()[0], a) & eq(q.getVertices()[1], b) & eq(q.getVertices()[2], c) & eq(q.getVertices()[3], d), "the given vertices in order");
}
SPEC(polygon_predicates) {
    UnitVector3d a = vec("a"), b = vec("b"), c = vec("c");
    ConvexPolygon p(a, b, c);
    Probe r;
    r.base = irv_u8("r") & 7;
    // the answer of the other region, seen from the polygon: CONTAINS and WITHIN swap
    unsigned k = (r.base & 1) | ((r.base & 2) << 1) | ((r.base & 4) >> 1);
    Relationship rel = p.relate(static_cast<Region const &>(r));
    irv_assert(unsigned(rel.to_ulong()) == k, "relates by the inverted answer of the other region");
    irv_assert(r.seen == &p, "asks about this polygon");
    irv_assert(r.how == 4, "asks by the overload for polygons");
    irv_assert(p.isWithin(r) == ((k & 4) != 0), "within");
    irv_assert(p.isDisjointFrom(r) == ((k & 1) != 0), "disjoint");
    irv_assert(p.intersects(r) == ((k & 1) == 0), "intersects exactly when not disjoint");
    irv_assert(p.contains(static_cast<Region const &>(r)) == ((k & 2) != 0), "contains");
}
