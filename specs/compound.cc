// Contracts of UnionRegion and IntersectionRegion over operands about which nothing is known but
// their answers, of the double dispatch between regions, and of invert.
#include "irv.h"
#include "box_oracle.h"
#include "mock.h"

using namespace lsst::sphgeom;
namespace {
// Three sets A, B, R by the parts of their Venn diagram that have points: bit i of m says whether the
// part i has points, and bits 0, 1, 2 of i say whether that part lies in A, B, R.
bool some(unsigned m, unsigned sel) { return (m & sel) != 0; }
enum : unsigned { INA = 0xaa, INB = 0xcc, INR = 0xf0 };
bool has(Relationship r, Relationship bit) { return (r & bit) != 0; }
// every bit of rel is true of the set x (a part selector) and R
bool sound(unsigned m, unsigned x, unsigned rel) {
    return irv_imp(rel & 1, !some(m, x & INR)) & irv_imp(rel & 2, !some(m, INR & ~x)) & irv_imp(rel & 4, !some(m, x & ~INR));
}
Relationship rel(unsigned r) { return Relationship(r); }
unsigned val(Relationship r) { return unsigned(r.to_ulong()); }
// A region that records what it was asked.
struct Probe final : public Region {
    int id;
    unsigned base;
    bool in;
    mutable Region const *seen = nullptr;
    mutable int how = 0;
    mutable UnitVector3d const *pt = nullptr;
    explicit Probe(int i) : id(i), base(0), in(false) {}
    std::unique_ptr<Region> clone() const override { return std::unique_ptr<Region>(new Probe(*this)); }
    Box getBoundingBox() const override { return Box(); }
    Box3d getBoundingBox3d() const override { return Box3d(); }
    Circle getBoundingCircle() const override { return Circle(); }
    using Region::contains;
    bool contains(UnitVector3d const &v) const override { pt = &v; return in; }
    Relationship ask(Region const &r, int k) const { seen = &r; how = k; return rel(base); }
    Relationship relate(Region const &r) const override { return ask(r, 1); }
    Relationship relate(Box const &r) const override { return ask(r, 2); }
    Relationship relate(Circle const &r) const override { return ask(r, 3); }
    Relationship relate(ConvexPolygon const &r) const override { return ask(r, 4); }
    Relationship relate(Ellipse const &r) const override { return ask(r, 5); }
    std::vector<std::uint8_t> encode() const override { return {}; }
};
Probe const &probe(CompoundRegion const &c, int k) { return static_cast<Probe const &>(c.getOperand(k)); }
unsigned bits3(char const *n) { return irv_u8(n) & 7; }

template <typename T>
void compound_contains(bool both) {
    Probe a(1), b(2);
    a.in = irv_bool("a");
    b.in = irv_bool("b");
    T x(a, b);
    UnitVector3d v = UnitVector3d::fromNormalized(irv_double("x"), irv_double("y"), irv_double("z"));
    bool r = x.contains(v);
    irv_assert(r == (both ? a.in & b.in : a.in | b.in), "contains the points of the operands");
    Region const &g = x;
    irv_assert(g.contains(v) == r, "also as a Region");
    irv_assert(probe(x, 0).pt == &v || probe(x, 1).pt == &v, "asks about the given point");
    irv_assert((probe(x, 0).pt == nullptr || probe(x, 0).pt == &v) && (probe(x, 1).pt == nullptr || probe(x, 1).pt == &v), "asks about the given point only");
}
template <typename T>
void compound_relate(bool both) {
    unsigned m = irv_u8("m");
    Probe a(1), b(2), r(3);
    a.base = bits3("r1");
    b.base = bits3("r2");
    irv_assume(sound(m, INA, a.base));
    irv_assume(sound(m, INB, b.base));
    T x(a, b);
    unsigned k = val(x.relate(static_cast<Region const &>(r)));
    irv_assert(sound(m, both ? INA & INB : INA | INB, k), "every reported relation is implied by the operands' answers");
    unsigned D = a.base & b.base & 1, d = (a.base | b.base) & 1, C = a.base & b.base & 2, c = (a.base | b.base) & 2, W = a.base & b.base & 4, w = (a.base | b.base) & 4;
    irv_assert(k == (both ? (d | C | w) : (D | c | W)), "every relation the operands' answers imply is reported");
    irv_assert(probe(x, 0).seen == &r && probe(x, 1).seen == &r, "relates both operands to the given region");
}
// the type specific overloads agree with the general one
template <typename T, typename R>
void compound_relate_type(bool both, R const &r) {
    Probe a(1), b(2);
    a.base = bits3("r1");
    b.base = bits3("r2");
    T x(a, b);
    unsigned k = val(x.relate(r)), g = val(static_cast<Region const &>(x).relate(static_cast<Region const &>(r)));
    irv_assert(k == g, "the overload for the type agrees with the general one");
    irv_assert(probe(x, 0).seen == &r && probe(x, 1).seen == &r, "relates both operands to the given region");
}
template <typename R>
void dispatch(R const &x, int how) {
    Probe r(3);
    r.base = bits3("r");
    Region const &g = x;
    irv_assert(val(g.relate(static_cast<Region const &>(r))) == val(invert(rel(r.base))), "asks the other region and inverts its answer");
    irv_assert(r.seen == &x, "asks about this region");
    irv_assert(r.how == how, "asks through the overload of this region's type");
}
template <typename T>
void copies() {
    Probe a(irv_u8("a")), b(irv_u8("b"));
    T x(a, b);
    irv_assert(&x.getOperand(0) != &a && &x.getOperand(1) != &b, "operands are copied");
    irv_assert(probe(x, 0).id == a.id && probe(x, 1).id == b.id, "operands in order");
    T y(x);
    irv_assert(probe(y, 0).id == a.id && probe(y, 1).id == b.id, "copy keeps the operands");
    irv_assert(&y.getOperand(0) != &x.getOperand(0) && &y.getOperand(1) != &x.getOperand(1), "copy shares nothing");
    std::unique_ptr<Region> z = x.clone();
    T const *w = dynamic_cast<T const *>(z.get());
    irv_assert(w != nullptr, "clone has the same type");
    irv_assert(probe(*w, 0).id == a.id && probe(*w, 1).id == b.id, "clone keeps the operands");
    irv_assert(&w->getOperand(0) != &x.getOperand(0), "clone shares nothing");
    std::vector<std::unique_ptr<Region>> v = Region::getRegions(x);
    irv_assert(v.size() == 2, "getRegions gives both operands");
    irv_assert(static_cast<Probe const &>(*v[0]).id == a.id && static_cast<Probe const &>(*v[1]).id == b.id, "getRegions in order");
    std::unique_ptr<Region> pa(new Probe(a.id)), pb(new Probe(b.id));
    Region const *qa = pa.get(), *qb = pb.get();
    T u(std::array<std::unique_ptr<Region>, 2>{{std::move(pa), std::move(pb)}});
    irv_assert(&u.getOperand(0) == qa && &u.getOperand(1) == qb, "takes over the given operands");
    T t(std::move(u));
    irv_assert(&t.getOperand(0) == qa && &t.getOperand(1) == qb, "move hands the operands on");
    std::vector<std::unique_ptr<Region>> s = Region::getRegions(a);
    irv_assert(s.size() == 1 && static_cast<Probe const &>(*s[0]).id == a.id && s[0].get() != &a, "getRegions of a simple region is a copy of it");
}
Circle some_circle() {
    Circle c;
    c._center = UnitVector3d::fromNormalized(irv_double("x"), irv_double("y"), irv_double("z"));
    c._squaredChordLength = irv_double("l");
    c._openingAngle = Angle(irv_double("o"));
    return c;
}
ConvexPolygon triangle() {
    ConvexPolygon p;
    for (int i = 0; i < 3; ++i) p._vertices.push_back(UnitVector3d::X());
    return p;
}
}  // namespace

SPEC(invert) {
    unsigned m = irv_u8("m"), r = bits3("r");
    irv_assume(sound(m, INA, r));
    unsigned k = val(invert(rel(r)));
    // the relation of R to A
    irv_assert(irv_imp(k & 1, !some(m, INA & INR)) & irv_imp(k & 2, !some(m, INA & ~INR)) & irv_imp(k & 4, !some(m, INR & ~INA)), "invert relates the other way round");
    irv_assert((k & 1) == (r & 1) && (k >> 1 & 1) == (r >> 2 & 1) && (k >> 2 & 1) == (r >> 1 & 1), "invert keeps DISJOINT and swaps CONTAINS and WITHIN");
    irv_assert(val(invert(invert(rel(r)))) == r, "invert is an involution");
    irv_assert(val(DISJOINT) == 1 && val(CONTAINS) == 2 && val(WITHIN) == 4 && val(INTERSECTS) == 0, "relation bits");
}
SPEC(union_contains) { compound_contains<UnionRegion>(false); }
SPEC(intersection_contains) { compound_contains<IntersectionRegion>(true); }
SPEC(union_relate) { compound_relate<UnionRegion>(false); }
SPEC(intersection_relate) { compound_relate<IntersectionRegion>(true); }
SPEC(union_relate_box) { Box b; compound_relate_type<UnionRegion, Box>(false, b); }
SPEC(union_relate_circle) { Circle b; compound_relate_type<UnionRegion, Circle>(false, b); }
SPEC(union_relate_polygon) { ConvexPolygon b = triangle(); compound_relate_type<UnionRegion, ConvexPolygon>(false, b); }
SPEC(union_relate_ellipse) { Ellipse b; compound_relate_type<UnionRegion, Ellipse>(false, b); }
SPEC(intersection_relate_box) { Box b; compound_relate_type<IntersectionRegion, Box>(true, b); }
SPEC(intersection_relate_circle) { Circle b; compound_relate_type<IntersectionRegion, Circle>(true, b); }
SPEC(intersection_relate_polygon) { ConvexPolygon b = triangle(); compound_relate_type<IntersectionRegion, ConvexPolygon>(true, b); }
SPEC(intersection_relate_ellipse) { Ellipse b; compound_relate_type<IntersectionRegion, Ellipse>(true, b); }
SPEC(union_copies) { copies<UnionRegion>(); }
SPEC(intersection_copies) { copies<IntersectionRegion>(); }
SPEC(dispatch_box) { Box b; dispatch(b, 2); }
SPEC(dispatch_circle) { Circle b = some_circle(); dispatch(b, 3); }
SPEC(dispatch_polygon) { ConvexPolygon b = triangle(); dispatch(b, 4); }
SPEC(dispatch_ellipse) { Ellipse b; dispatch(b, 5); }
// a nested compound: union of an intersection and a region
SPEC(nested) {
    unsigned m = irv_u8("m");
    Probe a(1), b(2), c(3), r(4);
    a.in = irv_bool("a");
    b.in = irv_bool("b");
    c.in = irv_bool("c");
    UnionRegion x(IntersectionRegion(a, b), c);
    IntersectionRegion y(UnionRegion(a, b), c);
    UnitVector3d v = UnitVector3d::X();
    irv_assert(x.contains(v) == ((a.in & b.in) | c.in), "union of an intersection");
    irv_assert(y.contains(v) == ((a.in | b.in) & c.in), "intersection of a union");
}

#ifdef IRV_NATIVE
namespace {
UnitVector3d some_point(double around = 0) { return UnitVector3d(LonLat::fromRadians(irv_in("lon", 0, 2), irv_in("lat", -1, 1))); }
void make(Box &b) { b = Box(LonLat::fromRadians(irv_in("lon", 0, 2), irv_in("lat", -1, 1)), Angle(irv_in("w", -0.1, 1)), Angle(irv_in("h", -0.1, 1))); }
void make(Circle &c) { c = Circle(some_point(), Angle(irv_in("r", -0.1, 1.5))); }
void make(Ellipse &c) {
    double a = irv_in("r", 0, 1.5);
    c = Ellipse(some_point(), Angle(a), Angle(a * irv_in("s", 0.5, 1)), Angle(irv_in("t", 0, 3)));
}
void make(ConvexPolygon &p) {
    try {
        UnitVector3d v[4] = {some_point(), some_point(), some_point(), some_point()};
        std::vector<UnitVector3d> w(v, v + 4);
        p = ConvexPolygon(w);
    } catch (std::exception const &) { irv_assume(false); }
}
template <typename X, typename Y>
void mirrored(X x, Y y) {
    make(x);
    make(y);
    unsigned k = val(y.relate(x)), i = val(invert(rel(k)));
    irv_assert(val(x.relate(y)) == i, "x.relate(y) is the inverse of y.relate(x)");
    irv_assert(val(static_cast<Region const &>(x).relate(static_cast<Region const &>(y))) == i, "as regions");
    irv_assert(val(static_cast<Region const &>(y).relate(static_cast<Region const &>(x))) == k, "as regions, the other way round");
}
}  // namespace
#endif
// ---- relations between two kinds of region are implemented by one of them and inverted by the other
#ifndef IRV_NATIVE
namespace {
void const *g_self, *g_arg;
unsigned g_rel;
int g_asked;
Relationship answer(void const *s, void const *a) {
    g_self = s;
    g_arg = a;
    ++g_asked;
    return rel(g_rel);
}
}  // namespace
namespace lsst { namespace sphgeom {
Relationship contract_box_circle(Box const *s, Circle const &r) { return answer(s, &r); }
Relationship contract_poly_box(ConvexPolygon const *s, Box const &r) { return answer(s, &r); }
Relationship contract_poly_circle(ConvexPolygon const *s, Circle const &r) { return answer(s, &r); }
Relationship contract_poly_ellipse(ConvexPolygon const *s, Ellipse const &r) { return answer(s, &r); }
using VI = std::vector<UnitVector3d>::const_iterator;
extern "C" Relationship contract_impl_circle(VI b, VI, Circle const &r) { return answer(&*b, &r); }
Relationship contract_ellipse_box(Ellipse const *s, Box const &r) { return answer(s, &r); }
Relationship contract_ellipse_circle(Ellipse const *s, Circle const &r) { return answer(s, &r); }
}}
namespace {
// x.relate(y) through the implementation y.relate(x), and the general overloads of both
template <typename X, typename Y>
void mirrored(X const &x, Y const &y) {
    g_rel = bits3("r");
    unsigned i = val(invert(rel(g_rel)));
    g_asked = 0;
    irv_assert(val(x.relate(y)) == i && g_self == &y && g_arg == &x, "x.relate(y) is the inverse of y.relate(x)");
    irv_assert(val(static_cast<Region const &>(x).relate(static_cast<Region const &>(y))) == i && g_self == &y && g_arg == &x, "as regions");
    irv_assert(val(static_cast<Region const &>(y).relate(static_cast<Region const &>(x))) == g_rel && g_self == &y && g_arg == &x, "as regions, the other way round");
    irv_assert(g_asked == 3, "one implementation is asked each time");
}
}  // namespace
// both sides replace the ellipse by its bounding circle, of which the polygon relates to it
SPEC(mirror_ellipse_polygon) {
    Ellipse x;
    ConvexPolygon y = triangle();
    g_rel = bits3("r");
    g_asked = 0;
    unsigned k = val(y.relate(x));
    irv_assert(g_asked == 1, "the polygon is related to the bounding circle");
    irv_assert(irv_imp(k & 1, g_rel & 1) & irv_imp(k & 2, g_rel & 2), "DISJOINT from and CONTAINS the ellipse if so for its bounding circle");
    irv_assert((k & 4) == 0, "a polygon within the bounding circle is not thereby within the ellipse");
    irv_assert(val(x.relate(y)) == val(invert(rel(k))), "x.relate(y) is the inverse of y.relate(x)");
    irv_assert(val(static_cast<Region const &>(x).relate(static_cast<Region const &>(y))) == val(invert(rel(k))), "as regions");
    irv_assert(val(static_cast<Region const &>(y).relate(static_cast<Region const &>(x))) == k, "as regions, the other way round");
}
#else
SPEC(mirror_ellipse_polygon) { mirrored(Ellipse(), triangle()); }
#endif
SPEC(mirror_circle_box) { Circle x; Box y; mirrored(x, y); }
SPEC(mirror_box_polygon) { Box x; ConvexPolygon y = triangle(); mirrored(x, y); }
SPEC(mirror_circle_polygon) { Circle x; ConvexPolygon y = triangle(); mirrored(x, y); }
SPEC(mirror_box_ellipse) { Box x; Ellipse y; mirrored(x, y); }
SPEC(mirror_circle_ellipse) { Circle x; Ellipse y; mirrored(x, y); }

// ---- bounds
namespace {
struct Pt3 { double v[3]; };
bool in1(Interval1d const &i, double p) { return (i.getA() <= p) & (p <= i.getB()); }
bool in3(Box3d const &b, Pt3 const &p) { return in1(b.x(), p.v[0]) & (int)in1(b.y(), p.v[1]) & (int)in1(b.z(), p.v[2]); }
bool em3(Interval1d const &i) { return !(i.getA() <= i.getB()); }
Box3d box3(char const *n) {
    Box3d b;
    for (int i = 0; i < 3; ++i) {
        double x = irv_double(n), y = irv_double(n);
        b._intervals[i] = Interval1d(x, y);
    }
    int x = em3(b.x()), y = em3(b.y()), z = em3(b.z());
#ifdef IRV_NATIVE
    b._enforceInvariants();
    return b;
#endif
    irv_assume(x ? y & z : !(y | z));
    return b;
}
template <typename T>
T bounded_by(Box const &a, Box const &b) {
    Mock m1(1), m2(2);
    m1.box = a;
    m2.box = b;
    return T(m1, m2);
}
template <typename T>
T bounded_by(Box3d const &a, Box3d const &b) {
    Mock m1(1), m2(2);
    m1.box3 = a;
    m2.box3 = b;
    return T(m1, m2);
}
}  // namespace
SPEC(union_box) {
    Box a = boxA(), b = boxB();
    Box k = bounded_by<UnionRegion>(a, b).getBoundingBox();
    irv_assert(inv(k), "a valid box");
    irv_assert(subset(a, k) && subset(b, k), "the bounding box of a union contains those of its operands");
}
SPEC(intersection_box) {
    Box a = boxA(), b = boxB();
    Box k = bounded_by<IntersectionRegion>(a, b).getBoundingBox();
    BP p = bp();
    irv_assert(inv(k), "a valid box");
    irv_assert(irv_imp(has(a, p) & (int)has(b, p), has(k, p)), "the bounding box of an intersection contains the common part of its operands' boxes");
    irv_assert(sublat(k.getLat(), a.getLat()) && sublat(k.getLat(), b.getLat()), "its latitudes are in both");
    irv_assert(sublon(k.getLon(), a.getLon()) || sublon(k.getLon(), b.getLon()), "its longitudes are in one of them");
}
SPEC(union_box3d) {
    Box3d a = box3("a"), b = box3("b");
    Box3d k = bounded_by<UnionRegion>(a, b).getBoundingBox3d();
    Pt3 p;
    for (int i = 0; i < 3; ++i) p.v[i] = irv_double("p");
    irv_assert(irv_imp(in3(a, p) | (int)in3(b, p), in3(k, p)), "the bounding box of a union contains those of its operands");
}
SPEC(intersection_box3d) {
    Box3d a = box3("a"), b = box3("b");
    Box3d k = bounded_by<IntersectionRegion>(a, b).getBoundingBox3d();
    Pt3 p;
    for (int i = 0; i < 3; ++i) p.v[i] = irv_double("p");
    irv_assert(in3(k, p) == (in3(a, p) & (int)in3(b, p)), "the bounding box of an intersection is the common part of its operands'");
}
// Bounding circles: through the contracts of Circle::expandTo and Circle::clipTo.  A circle is known
// by a tag (its opening angle) and by whether it contains an arbitrary point.
#ifndef IRV_NATIVE
namespace {
bool g_in[8];
int g_next;
int tag(Circle const &c) { return int(c._openingAngle.asRadians()); }
Circle tagged(int t) {
    Circle c;
    c._openingAngle = Angle(double(t));
    return c;
}
}  // namespace
namespace lsst { namespace sphgeom {
Circle &contract_expand(Circle *self, Circle const &x) {
    bool u = g_in[tag(*self)] | g_in[tag(x)];
    int t = g_next++;
    g_in[t] = irv_bool("post");
    irv_assume(irv_imp(u, g_in[t]));
    *self = tagged(t);
    return *self;
}
Circle &contract_clip(Circle *self, Circle const &x) {
    bool u = g_in[tag(*self)] & g_in[tag(x)], either = g_in[tag(*self)] | g_in[tag(x)];
    int t = g_next++;
    g_in[t] = irv_bool("post");
    irv_assume(irv_imp(u, g_in[t]));
    irv_assume(irv_imp(g_in[t], either));
    *self = tagged(t);
    return *self;
}
}}
#endif
namespace {
template <typename T>
void bounding_circle(bool both) {
    Mock m1(1), m2(2);
#ifdef IRV_NATIVE
    double x = irv_in("x", -1, 1), y = irv_in("y", -1, 1), l1 = irv_in("l1", -0.5, 4.5), l2 = irv_in("l2", -0.5, 4.5);
    m1.circle = Circle(UnitVector3d(LonLat::fromRadians(x, y)), l1);
    m2.circle = Circle(UnitVector3d(LonLat::fromRadians(y, x)), l2);
    T r(m1, m2);
    Circle k = r.getBoundingCircle();
    UnitVector3d p(LonLat::fromRadians(irv_in("p", 0, 6), irv_in("q", -1.5, 1.5)));
    double e = 1e-12;
    auto in = [&](Circle const &c, double t) { return !c.isEmpty() && (p - c.getCenter()).getSquaredNorm() <= c.getSquaredChordLength() + t; };
    bool u = both ? in(m1.circle, -e) && in(m2.circle, -e) : in(m1.circle, -e) || in(m2.circle, -e);
    irv_assert(!u || in(k, e), both ? "contains the common points" : "contains the points of both");
#else
    m1.circle = tagged(1);
    m2.circle = tagged(2);
    g_next = 3;
    g_in[1] = irv_bool("in1");
    g_in[2] = irv_bool("in2");
    T r(m1, m2);
    Circle k = r.getBoundingCircle();
    int t = tag(k);
    irv_assert(irv_imp(both ? g_in[1] & g_in[2] : g_in[1] | g_in[2], g_in[t]), both ? "contains the common points" : "contains the points of both");
#endif
}
}  // namespace
SPEC(union_circle) { bounding_circle<UnionRegion>(false); }
SPEC(intersection_circle) { bounding_circle<IntersectionRegion>(true); }
