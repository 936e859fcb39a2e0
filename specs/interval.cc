// Contracts of Interval1d and AngleInterval (the closed intervals of IEEE doubles).
//
// Abstraction: an interval [a, b] denotes { p : a <= p <= b }; it is empty when
// !(a <= b), in particular when a bound is NaN.  A NaN scalar argument denotes the
// empty set.  Every contract below is stated over an arbitrary point p.
#include "irv.h"
#include "lsst/sphgeom/AngleInterval.h"
#include "lsst/sphgeom/Interval1d.h"
#include "lsst/sphgeom/Relationship.h"

using namespace lsst::sphgeom;

namespace {
struct I1 {
    typedef Interval1d T;
    typedef double S;
    static S mk(double x) { return x; }
    static double rad(S x) { return x; }
};
struct AI {
    typedef AngleInterval T;
    typedef Angle S;
    static S mk(double x) { return Angle(x); }
    static double rad(S x) { return x.asRadians(); }
};
bool nan(double x) { return x != x; }
bool in(double a, double b, double p) { return a <= p && p <= b; }
bool bitD(Relationship r) { return (r & DISJOINT) != 0; }
bool bitC(Relationship r) { return (r & CONTAINS) != 0; }
bool bitW(Relationship r) { return (r & WITHIN) != 0; }

template <typename X>
typename X::T input(char const *na, char const *nb, double &a, double &b) {
    a = irv_double(na);
    b = irv_double(nb);
    return typename X::T(X::mk(a), X::mk(b));
}

template <typename X>
void basic() {
    double a, b;
    typename X::T i = input<X>("a", "b", a, b);
    double p = irv_double("p");
    irv_assert(irv_same(X::rad(i.getA()), a) && irv_same(X::rad(i.getB()), b), "the bounds are the constructor arguments");
    irv_assert(i.isEmpty() == !(a <= b), "isEmpty iff not a <= b");
    irv_assert(i.contains(X::mk(p)) == (nan(p) || in(a, b, p)), "contains(p) iff a <= p <= b (or p is NaN)");
    irv_assert(i.intersects(X::mk(p)) == in(a, b, p), "intersects(p) iff a <= p <= b");
    irv_assert(i.isDisjointFrom(X::mk(p)) == !in(a, b, p), "isDisjointFrom(p) iff not in the interval");
    irv_assert(i.isWithin(X::mk(p)) == ((a == p && b == p) || !(a <= b)), "isWithin(p) iff the interval is {p} or empty");
    typename X::T one(X::mk(p));
    irv_assert(one.contains(X::mk(p)) && one.isEmpty() == nan(p), "the interval of one point");
    irv_assert(X::T::empty().isEmpty() && typename X::T().isEmpty(), "empty() and the default are empty");
    irv_assert(X::T::full().contains(X::mk(p)) && !X::T::full().isEmpty(), "full() contains every point");
    irv_assert(!X::T::empty().intersects(X::mk(p)), "empty() has no point");
    irv_assert((i == X::mk(p)) == ((a == p && b == p) || (nan(p) && !(a <= b))), "comparison with a point");
    irv_assert((i != X::mk(p)) == !(i == X::mk(p)), "!= with a point");
    Relationship r = i.relate(X::mk(p));
    irv_assert(bitC(r) == i.contains(X::mk(p)), "relate(p) has CONTAINS iff contains(p)");
    irv_assert(bitD(r) == i.isDisjointFrom(X::mk(p)), "relate(p) has DISJOINT iff disjoint");
    irv_assert(bitW(r) == i.isWithin(X::mk(p)), "relate(p) has WITHIN iff isWithin(p)");
    if (!i.isEmpty()) irv_cover("nonempty");
}

template <typename X>
void pair() {
    double a, b, c, d;
    typename X::T i = input<X>("a", "b", a, b);
    typename X::T j = input<X>("c", "d", c, d);
    double p = irv_double("p");
    bool ei = !(a <= b), ej = !(c <= d);
    // contains / within, against the points
    bool C = i.contains(j), W = i.isWithin(j), D = i.isDisjointFrom(j);
    irv_assert(irv_imp(C && in(c, d, p), in(a, b, p)), "A.contains(B): every point of B is in A");
    irv_assert(irv_imp(!C, !ej && (!in(a, b, c) || !in(a, b, d))), "not A.contains(B): an endpoint of B is outside A");
    irv_assert(irv_imp(W && in(a, b, p), in(c, d, p)), "A.isWithin(B): every point of A is in B");
    irv_assert(irv_imp(!W, !ei && (!in(c, d, a) || !in(c, d, b))), "not A.isWithin(B): an endpoint of A is outside B");
    irv_assert(!(D && in(a, b, p) && in(c, d, p)), "A.isDisjointFrom(B): no common point");
    irv_assert(irv_imp(!D, (in(a, b, c) && in(c, d, c)) || (in(a, b, a) && in(c, d, a))), "not A.isDisjointFrom(B): a common point");
    irv_assert(i.intersects(j) == !D, "intersects is the negation of isDisjointFrom");
    Relationship r = i.relate(j), s = j.relate(i);
    irv_assert(bitC(r) == C, "relate has CONTAINS iff contains");
    irv_assert(bitW(r) == W, "relate has WITHIN iff isWithin");
    irv_assert(bitD(r) == D, "relate has DISJOINT iff isDisjointFrom");
    irv_assert(s == invert(r), "relate of the swapped pair is the inverse");
    bool eq = i == j;
    irv_assert(eq == (C && W), "equality iff the same set of points");
    irv_assert((i != j) == !eq, "!= is the negation of ==");
    if (C && !eq) irv_cover("contains");
    if (D && !ei && !ej) irv_cover("disjoint");
}

template <typename X>
void clip() {
    double a, b, c, d;
    typename X::T i = input<X>("a", "b", a, b);
    typename X::T j = input<X>("c", "d", c, d);
    double p = irv_double("p");
    typename X::T k = i.clippedTo(j);
    irv_assert(k.intersects(X::mk(p)) == (in(a, b, p) && in(c, d, p)), "clippedTo is the intersection");
    irv_assert(!k.isEmpty() == i.intersects(j), "clippedTo is empty iff disjoint");
    typename X::T m = i;
    m.clipTo(j);
    irv_assert(m == k, "clipTo agrees with clippedTo");
    typename X::T n = i.clippedTo(X::mk(c));
    irv_assert(n.intersects(X::mk(p)) == (in(a, b, p) && p == c), "clippedTo a point");
    m = i;
    m.clipTo(X::mk(c));
    irv_assert(m == n, "clipTo a point agrees with clippedTo");
    if (!k.isEmpty() && !(k == i) && !(k == j)) irv_cover("proper");
}

template <typename X>
void expand() {
    double a, b, c, d, e, f;
    typename X::T i = input<X>("a", "b", a, b);
    typename X::T j = input<X>("c", "d", c, d);
    typename X::T w = input<X>("e", "f", e, f);
    typename X::T k = i.expandedTo(j);
    irv_assert(k.contains(i) && k.contains(j), "expandedTo contains both intervals");
    irv_assert(irv_imp(w.contains(i) && w.contains(j), w.contains(k)), "expandedTo is the smallest such interval");
    typename X::T m = i;
    m.expandTo(j);
    irv_assert(m == k, "expandTo agrees with expandedTo");
    typename X::T n = i.expandedTo(X::mk(c));
    irv_assert(n.contains(i) && n.contains(X::mk(c)), "expandedTo a point contains the interval and the point");
    irv_assert(irv_imp(w.contains(i) && w.contains(X::mk(c)), w.contains(n)), "expandedTo a point is the smallest such interval");
    m = i;
    m.expandTo(X::mk(c));
    irv_assert(m == n, "expandTo a point agrees with expandedTo");
}

template <typename X>
void dilate() {
    double a, b;
    typename X::T i = input<X>("a", "b", a, b);
    double x = irv_double("x");
    typename X::T k = i.dilatedBy(X::mk(x));
    if (x != x || i.isEmpty()) {
        irv_assert(k == i, "dilating an empty interval, or by NaN, changes nothing");
    } else {
        irv_assert(irv_same(X::rad(k.getA()), a - x), "the lower bound moves down by x");
        irv_assert(irv_same(X::rad(k.getB()), b + x), "the upper bound moves up by x");
    }
    typename X::T m = i;
    m.dilateBy(X::mk(x));
    irv_assert(m == k, "dilateBy agrees with dilatedBy");
    typename X::T e = i.erodedBy(X::mk(x)), g = i;
    g.erodeBy(X::mk(x));
    irv_assert(e == i.dilatedBy(X::mk(-x)) && g == e, "eroding by x is dilating by -x");
}

template <typename X>
void dilate_contains() {
    double a, b;
    typename X::T i = input<X>("a", "b", a, b);
    double x = irv_double("x");
    irv_assume(x >= 0 && x <= 1e300);
    irv_assume(a > -1e300 && b < 1e300);
    irv_assert(i.dilatedBy(X::mk(x)).contains(i), "dilating by x >= 0 contains the interval");
    irv_assert(i.contains(i.erodedBy(X::mk(x))), "eroding by x >= 0 stays inside the interval");
}

template <typename X>
void size() {
    double a, b;
    typename X::T i = input<X>("a", "b", a, b);
    irv_assert(irv_same(X::rad(i.getSize()), b - a), "getSize is b - a");
    irv_assert(irv_same(X::rad(i.getCenter()), 0.5 * (a + b)), "getCenter is the midpoint");
}
}  // namespace

SPEC(i1_basic) { basic<I1>(); }
SPEC(i1_pair) { pair<I1>(); }
SPEC(i1_clip) { clip<I1>(); }
SPEC(i1_expand) { expand<I1>(); }
SPEC(i1_dilate) { dilate<I1>(); }
SPEC(i1_dilate_contains) { dilate_contains<I1>(); }
SPEC(i1_size) { size<I1>(); }
SPEC(ai_basic) { basic<AI>(); }
SPEC(ai_pair) { pair<AI>(); }
SPEC(ai_clip) { clip<AI>(); }
SPEC(ai_expand) { expand<AI>(); }
SPEC(ai_dilate) { dilate<AI>(); }
SPEC(ai_dilate_contains) { dilate_contains<AI>(); }
SPEC(ai_size) { size<AI>(); }

SPEC(i1_full) {
    double a, b;
    Interval1d i = input<I1>("a", "b", a, b);
    double p = irv_double("p");
    irv_assert(irv_imp(i.isFull(), i.contains(p)), "isFull: every point is in the interval");
    irv_assert(irv_imp(!i.isFull(), !i.intersects(irv_bits(0x7ff0000000000000)) || !i.intersects(irv_bits(0xfff0000000000000))),
               "not isFull: an infinity is missing");
}

SPEC(ai_factories) {
    double a = irv_double("a"), b = irv_double("b");
    AngleInterval i = AngleInterval::fromRadians(a, b);
    irv_assert(irv_same(i.getA().asRadians(), a) && irv_same(i.getB().asRadians(), b), "fromRadians keeps its arguments");
    AngleInterval j = AngleInterval::fromDegrees(a, b);
    irv_assert(irv_same(j.getA().asRadians(), Angle::fromDegrees(a).asRadians()) &&
               irv_same(j.getB().asRadians(), Angle::fromDegrees(b).asRadians()), "fromDegrees converts both bounds");
}
