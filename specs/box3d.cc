// Contracts of Box3d: the product of three closed intervals (denotation of an interval as
// in interval.cc).  Vectors with a NaN component denote no point.
#include "irv.h"
#include "lsst/sphgeom/Box3d.h"
#include "lsst/sphgeom/Vector3d.h"

using namespace lsst::sphgeom;

namespace {
bool nan(double x) { return x != x; }
bool in1(Interval1d const &i, double p) { return i.getA() <= p && p <= i.getB(); }
struct P3 { double v[3]; };
bool in(Box3d const &b, P3 const &p) { return (int)in1(b.x(), p.v[0]) & (int)in1(b.y(), p.v[1]) & (int)in1(b.z(), p.v[2]); }
bool bitD(Relationship r) { return (r & DISJOINT) != 0; }
bool bitC(Relationship r) { return (r & CONTAINS) != 0; }
bool bitW(Relationship r) { return (r & WITHIN) != 0; }
bool em(Interval1d const &i) { return !(i.getA() <= i.getB()); }
// representation invariant: all components are empty or none is
bool inv(Box3d const &b) {
    int x = em(b.x()), y = em(b.y()), z = em(b.z());
    return x ? (y & z) : !(y | z);
}
Interval1d iv(char const *a, char const *b) {
    double x = irv_double(a), y = irv_double(b);
    return Interval1d(x, y);
}
// any box that satisfies the representation invariant
Box3d input(char const *const *n) {
    Box3d b;
    b._intervals[0] = iv(n[0], n[1]);
    b._intervals[1] = iv(n[2], n[3]);
    b._intervals[2] = iv(n[4], n[5]);
#ifdef IRV_NATIVE
    if (!inv(b)) b._enforceInvariants();
#endif
    irv_assume(inv(b));
    return b;
}
char const *const A[6] = {"ax1", "ax2", "ay1", "ay2", "az1", "az2"};
char const *const B[6] = {"bx1", "bx2", "by1", "by2", "bz1", "bz2"};
char const *const O[6] = {"ox1", "ox2", "oy1", "oy2", "oz1", "oz2"};
P3 point(char const *a, char const *b, char const *c) {
    P3 p;
    p.v[0] = irv_double(a);
    p.v[1] = irv_double(b);
    p.v[2] = irv_double(c);
    return p;
}
bool anynan(P3 const &p) { return (int)nan(p.v[0]) | (int)nan(p.v[1]) | (int)nan(p.v[2]); }
// inclusion of closed intervals, by endpoints
bool sub1(Interval1d const &i, Interval1d const &j) {
    return em(i) || (j.getA() <= i.getA() && i.getB() <= j.getB());
}
bool subset(Box3d const &i, Box3d const &j) { return (int)sub1(i.x(), j.x()) & (int)sub1(i.y(), j.y()) & (int)sub1(i.z(), j.z()); }
bool meet1(Interval1d const &i, Interval1d const &j) {
    return !em(i) && !em(j) && i.getA() <= j.getB() && j.getA() <= i.getB();
}
bool meet(Box3d const &i, Box3d const &j) { return (int)meet1(i.x(), j.x()) & (int)meet1(i.y(), j.y()) & (int)meet1(i.z(), j.z()); }
bool same1(Interval1d const &i, Interval1d const &j) {
    return (i.getA() == j.getA() && i.getB() == j.getB()) || (em(i) && em(j));
}
bool sameset(Box3d const &i, Box3d const &j) { return (int)same1(i.x(), j.x()) & (int)same1(i.y(), j.y()) & (int)same1(i.z(), j.z()); }
Vector3d vec(P3 const &p) { return Vector3d(p.v[0], p.v[1], p.v[2]); }
}  // namespace

SPEC(b3_ctor) {
    Interval1d x = iv("x1", "x2"), y = iv("y1", "y2"), z = iv("z1", "z2");
    Box3d b(x, y, z);
    irv_assert(inv(b), "component intervals are empty together");
    bool e = x.isEmpty() || y.isEmpty() || z.isEmpty();
    irv_assert(b.isEmpty() == e, "a box is empty iff a component is");
    if (!e) irv_assert(same1(b.x(), x) && same1(b.y(), y) && same1(b.z(), z), "the components are the constructor arguments");
    if (!e) irv_assert(b(0) == x && b(1) == y && b(2) == z, "components by index");
    irv_assert(Box3d::empty().isEmpty() && Box3d().isEmpty() && inv(Box3d()), "empty() and the default are empty");
    P3 p = point("px", "py", "pz");
    irv_assert(anynan(p) || in(Box3d::full(), p), "full() contains every point");
    irv_assert(Box3d::full().isFull(), "full() is full");
    irv_assert(b.isFull() == (x.isFull() && y.isFull() && z.isFull()), "isFull iff all components are");
    irv_assert(irv_imp(b.isFull() && !anynan(p), in(b, p)), "a full box contains every point");
    Box3d s = Box3d::aroundUnitSphere();
    irv_assert(in(s, p) == (p.v[0] >= -1 && p.v[0] <= 1 && p.v[1] >= -1 && p.v[1] <= 1 && p.v[2] >= -1 && p.v[2] <= 1), "aroundUnitSphere is [-1,1]^3");
    if (e) irv_cover("empty");
}

SPEC(b3_ctor_vec) {
    P3 p = point("px", "py", "pz"), q = point("qx", "qy", "qz");
    Box3d b(vec(p), vec(q));
    irv_assert(inv(b), "a box of two corners: components are empty together");
    bool e = !(p.v[0] <= q.v[0]) || !(p.v[1] <= q.v[1]) || !(p.v[2] <= q.v[2]);
    irv_assert(b.isEmpty() == e, "a box of two corners is empty iff a pair is reversed");
    if (!e) irv_assert(b.x().getA() == p.v[0] && b.x().getB() == q.v[0] && b.y().getA() == p.v[1] && b.y().getB() == q.v[1] &&
                       b.z().getA() == p.v[2] && b.z().getB() == q.v[2], "a box of two corners has these bounds");
    Box3d c(vec(p));
    irv_assert(inv(c) && c.isEmpty() == anynan(p), "the box of one point");
    P3 r = point("rx", "ry", "rz");
    irv_assert(in(c, r) == (r.v[0] == p.v[0] && r.v[1] == p.v[1] && r.v[2] == p.v[2]), "the box of one point contains just it");
    double w = irv_double("w"), h = irv_double("h"), d = irv_double("d");
    Box3d k(vec(p), w, h, d);
    Interval1d x = Interval1d(p.v[0]).dilatedBy(w), y = Interval1d(p.v[1]).dilatedBy(h), z = Interval1d(p.v[2]).dilatedBy(d);
    irv_assert(inv(k), "a box around a point: components are empty together");
    irv_assert(sameset(k, Box3d(x, y, z)), "a box around a point has the half-widths given");
}

SPEC(b3_point) {
    Box3d b = input(A);
    P3 p = point("px", "py", "pz");
    irv_assume(!anynan(p));
    bool m = in(b, p);
    Vector3d v = vec(p);
    irv_assert(b.contains(v) == m, "contains(v) iff v is in the product");
    irv_assert(b.contains(p.v[0], p.v[1], p.v[2]) == m, "contains(x, y, z) iff in the product");
    irv_assert(b.intersects(v) == m, "intersects(v) iff v is in the product");
    irv_assert(b.isDisjointFrom(v) == !m, "isDisjointFrom(v) iff v is not in the product");
    bool one = b.x().getA() == p.v[0] && b.x().getB() == p.v[0] && b.y().getA() == p.v[1] && b.y().getB() == p.v[1] && b.z().getA() == p.v[2] && b.z().getB() == p.v[2];
    bool e = em(b.x());
    irv_assert(b.isEmpty() == e, "isEmpty iff the product is empty");
    irv_assert(b.isWithin(v) == (one || e), "isWithin(v) iff the box is {v} or empty");
    Relationship r = b.relate(v);
    irv_assert(bitC(r) == m, "relate(v) has CONTAINS iff contains(v)");
    irv_assert(bitD(r) == !m, "relate(v) has DISJOINT iff disjoint");
    irv_assert(bitW(r) == (one || e), "relate(v) has WITHIN iff isWithin(v)");
    irv_assert((b == v) == one, "comparison with a point");
    irv_assert((b != v) == !one, "!= with a point");
    if (m) irv_cover("inside");
}

// set inclusion and intersection of products, by endpoints, agree with the points
SPEC(b3_oracle) {
    Box3d b = input(A), c = input(B);
    P3 p = point("px", "py", "pz");
    if (subset(b, c)) irv_assert(irv_imp(in(b, p), in(c, p)), "oracle: included products");
    else {
        // a corner of b is outside c
        P3 lo = {{b.x().getA(), b.y().getA(), b.z().getA()}}, hi = {{b.x().getB(), b.y().getB(), b.z().getB()}};
        irv_assert((in(b, lo) && !in(c, lo)) || (in(b, hi) && !in(c, hi)), "oracle: a corner outside");
    }
    if (!meet(b, c)) irv_assert(!(in(b, p) && in(c, p)), "oracle: disjoint products");
    else {
        P3 q = {{b.x().getA() >= c.x().getA() ? b.x().getA() : c.x().getA(), b.y().getA() >= c.y().getA() ? b.y().getA() : c.y().getA(),
                 b.z().getA() >= c.z().getA() ? b.z().getA() : c.z().getA()}};
        irv_assert(in(b, q) && in(c, q), "oracle: a common point");
    }
}

SPEC(b3_pair) {
    Box3d b = input(A), c = input(B);
    bool C = subset(c, b), W = subset(b, c), D = !meet(b, c);
    irv_assert(b.contains(c) == C, "contains(B) iff every point of B is in A");
    irv_assert(b.isWithin(c) == W, "isWithin(B) iff every point of A is in B");
    irv_assert(b.isDisjointFrom(c) == D, "isDisjointFrom(B) iff no common point");
    irv_assert(b.intersects(c) == !D, "intersects(B) iff a common point");
    Relationship r = b.relate(c);
    irv_assert(bitC(r) == C, "relate has CONTAINS iff contains");
    irv_assert(bitW(r) == W, "relate has WITHIN iff isWithin");
    irv_assert(bitD(r) == D, "relate has DISJOINT iff disjoint");
    bool eq = b == c;
    irv_assert(eq == (C && W), "equality iff the same points");
    irv_assert((b != c) == !eq, "!= is the negation of ==");
    if (C && !eq) irv_cover("contains");
    if (!D && !C && !W) irv_cover("overlaps");
}

SPEC(b3_clip) {
    Box3d b = input(A), c = input(B);
    Box3d k = b.clippedTo(c);
    irv_assert(inv(k), "clipTo keeps components empty together");
    P3 p = point("px", "py", "pz");
    irv_assert(in(k, p) == (in(b, p) && in(c, p)), "clipTo is the intersection");
    irv_assert(k.isEmpty() == !meet(b, c), "clipTo is empty iff disjoint");
    Box3d m = b;
    Box3d *ret = &m.clipTo(c);
    irv_assert(ret == &m && sameset(m, k), "clipTo agrees with clippedTo");
}

SPEC(b3_clip_point) {
    Box3d b = input(A);
    P3 q = point("qx", "qy", "qz"), p = point("px", "py", "pz");
    Box3d k = b.clippedTo(vec(q));
    irv_assert(inv(k), "clipTo a point keeps components empty together");
    bool here = p.v[0] == q.v[0] && p.v[1] == q.v[1] && p.v[2] == q.v[2];
    irv_assert(in(k, p) == (in(b, p) && here), "clipTo a point is the intersection");
    Box3d m = b;
    m.clipTo(vec(q));
    irv_assert(sameset(m, k), "clipTo a point agrees with clippedTo");
}

SPEC(b3_expand) {
    Box3d b = input(A), c = input(B);
    Box3d k = b.expandedTo(c);
    irv_assert(inv(k), "expandTo keeps components empty together");
    irv_assert(subset(b, k) && subset(c, k), "expandTo contains both operands");
    Box3d o = input(O);
    irv_assert(irv_imp(subset(b, o) && subset(c, o), subset(k, o)), "expandTo is the smallest box that contains both operands");
    Box3d m = b;
    Box3d *ret = &m.expandTo(c);
    irv_assert(ret == &m && sameset(m, k), "expandTo agrees with expandedTo");
}

SPEC(b3_expand_point) {
    Box3d b = input(A);
    P3 q = point("qx", "qy", "qz");
    Box3d k = b.expandedTo(vec(q)), o = b.expandedTo(Box3d(vec(q)));
    irv_assert(inv(k), "expandTo a point keeps components empty together");
    irv_assert(sameset(k, o), "expandTo a point is expandTo the box of the point");
    irv_assert(anynan(q) || in(k, q), "expandTo a point contains the point");
    irv_assert(subset(b, k), "expandTo a point contains the box");
    Box3d m = b;
    m.expandTo(vec(q));
    irv_assert(sameset(m, k), "expandTo a point agrees with expandedTo");
}

SPEC(b3_dilate) {
    Box3d b = input(A);
    double w = irv_double("w"), h = irv_double("h"), d = irv_double("d");
    Box3d k = b.dilatedBy(w, h, d);
    irv_assert(inv(k), "dilateBy keeps components empty together");
    Interval1d x = b.x().dilatedBy(w), y = b.y().dilatedBy(h), z = b.z().dilatedBy(d);
    bool e = x.isEmpty() || y.isEmpty() || z.isEmpty();
    irv_assert(k.isEmpty() == e, "a dilated box is empty iff an axis is eroded away");
    if (!e) irv_assert(same1(k.x(), x) && same1(k.y(), y) && same1(k.z(), z), "dilateBy acts on every axis independently");
    if (e && !b.isEmpty()) irv_cover("eroded away");
    Box3d m = b;
    Box3d *ret = &m.dilateBy(w, h, d);
    irv_assert(ret == &m && sameset(m, k), "dilateBy agrees with dilatedBy");
}

SPEC(b3_dilate1) {
    Box3d b = input(A);
    double r = irv_double("r");
    Box3d k = b.dilatedBy(r), o = b.dilatedBy(r, r, r);
    irv_assert(sameset(k, o), "dilating uniformly is dilating every axis by the same amount");
    Box3d m = b;
    m.dilateBy(r);
    irv_assert(sameset(m, k), "uniform dilateBy agrees with dilatedBy");
}

SPEC(b3_erode) {
    Box3d b = input(A);
    double w = irv_double("w"), h = irv_double("h"), d = irv_double("d");
    Box3d o = b.dilatedBy(-w, -h, -d);
    irv_assert(sameset(b.erodedBy(w, h, d), o), "eroding is dilating by the negative");
    Box3d m = b;
    m.erodeBy(w, h, d);
    irv_assert(sameset(m, o), "erodeBy agrees with erodedBy");
    Box3d n = b;
    n.erodeBy(w);
    irv_assert(sameset(n, b.dilatedBy(-w)), "uniform erodeBy");
    irv_assert(sameset(b.erodedBy(w), b.dilatedBy(-w)), "uniform erodedBy");
}

SPEC(b3_size) {
    Box3d b = input(A);
    irv_assert(irv_same(b.getWidth(), b.x().getSize()) && irv_same(b.getHeight(), b.y().getSize()) && irv_same(b.getDepth(), b.z().getSize()),
               "width, height and depth are the sizes of the axes");
    Vector3d c = b.getCenter();
    irv_assert(irv_same(c.x(), b.x().getCenter()) && irv_same(c.y(), b.y().getCenter()) && irv_same(c.z(), b.z().getCenter()), "the center is the center of every axis");
    irv_assert(irv_imp(!b.isEmpty(), b.getWidth() >= 0 && b.getHeight() >= 0 && b.getDepth() >= 0 || nan(b.getWidth()) || nan(b.getHeight()) || nan(b.getDepth())), "sizes are not negative");
}
