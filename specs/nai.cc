// Contracts of NormalizedAngleInterval and NormalizedAngle (denotation: nai_oracle.h).
#include "nai_oracle.h"

// The endpoint characterisation of inclusion used below agrees with the points.
SPEC(nai_oracle) {
    double a, b, c, d;
    input("a", "b", a, b);
    input("c", "d", c, d);
    if (subset(c, d, a, b)) {
        Pt q = point();
        irv_assert(!in(c, d, q) || in(a, b, q), "oracle: included sets have included points");
    } else {
        // a witness: c, d, just above b, 0 or 2PI
        Pt u = {b, true}, z = {0.0, false}, t = {TWOPI, false}, pc = {c, false}, pd = {d, false};
        Pt zu = {0.0, true};
        bool w = false;
        if (!emptyb(a, b)) w = (b < TWOPI && in(c, d, u) && !in(a, b, u)) || (in(c, d, zu) && !in(a, b, zu));
        w = w || (in(c, d, z) && !in(a, b, z)) || (in(c, d, t) && !in(a, b, t)) || (in(c, d, pc) && !in(a, b, pc)) ||
            (in(c, d, pd) && !in(a, b, pd));
        irv_assert(w, "oracle: a point of the set that is not included");
    }
}

SPEC(nai_basic) {
    double a, b;
    NAI i = input("a", "b", a, b);
    double p = irv_in("p", 0.0, TWOPI, true);
    NormalizedAngle x = na(p);
    irv_assert(irv_same(lo(i), a) && irv_same(hi(i), b), "the bounds are the constructor arguments");
    irv_assert(i.isEmpty() == emptyb(a, b), "isEmpty iff a bound is NaN");
    irv_assert(i.wraps() == (a > b), "wraps iff a > b");
    irv_assert(i.isFull() == (a == 0.0 && b == TWOPI), "isFull iff [0, 2PI]");
    bool m = !nan(p) && inv(a, b, p);
    irv_assert(i.contains(x) == (nan(p) || m), "contains(x) iff x is a point of the interval");
    irv_assert(i.intersects(x) == m, "intersects(x) iff x is a point of the interval");
    irv_assert(i.isDisjointFrom(x) == !m, "isDisjointFrom(x) iff x is not a point of the interval");
    irv_assert(i.isWithin(x) == ((a == p && b == p) || emptyb(a, b)), "isWithin(x) iff the interval is {x} or empty");
    Relationship r = i.relate(x);
    irv_assert(bitC(r) == i.contains(x), "relate(x) has CONTAINS iff contains(x)");
    irv_assert(bitD(r) == i.isDisjointFrom(x), "relate(x) has DISJOINT iff disjoint");
    irv_assert(bitW(r) == i.isWithin(x), "relate(x) has WITHIN iff isWithin(x)");
    irv_assert((i == x) == ((a == p && b == p) || (nan(p) && emptyb(a, b))), "comparison with a point");
    irv_assert((i != x) == !(i == x), "!= with a point");
    irv_assert(NAI::empty().isEmpty() && NAI().isEmpty(), "empty() and the default are empty");
    irv_assert(NAI::full().isFull() && (nan(p) || NAI::full().intersects(x)), "full() contains every angle");
    irv_assert(NAI(x).contains(x) && NAI(x).isEmpty() == nan(p), "the interval of one point");
    if (i.wraps()) irv_cover("wraps");
    if (!i.wraps() && !i.isEmpty()) irv_cover("plain");
}

SPEC(nai_pair) {
    double a, b, c, d;
    NAI i = input("a", "b", a, b), j = input("c", "d", c, d);
    bool C = i.contains(j), W = i.isWithin(j), D = i.isDisjointFrom(j);
    irv_assert(C == subset(c, d, a, b), "A.contains(B) iff every angle of B is in A");
    irv_assert(W == subset(a, b, c, d), "A.isWithin(B) iff every angle of A is in B");
    irv_assert(i.intersects(j) == !D, "intersects is the negation of isDisjointFrom");
    Relationship r = i.relate(j), s = j.relate(i);
    irv_assert(bitC(r) == C, "relate has CONTAINS iff contains");
    irv_assert(bitW(r) == W, "relate has WITHIN iff isWithin");
    irv_assert(bitD(r) == D, "relate has DISJOINT iff isDisjointFrom");
    irv_assert(s == invert(r), "relate of the swapped pair is the inverse");
    bool eq = i == j;
    irv_assert(eq == ((a == c && b == d) || (emptyb(a, b) && emptyb(c, d))), "equality compares bounds");
    irv_assert(irv_imp(C && W, eq || (i.isFull() || j.isFull())), "equality iff the same angles");
    irv_assert((i != j) == !eq, "!= is the negation of ==");
    if (C && !eq) irv_cover("contains");
    if (D && !i.isEmpty() && !j.isEmpty()) irv_cover("disjoint");
    if (i.wraps() && j.wraps()) irv_cover("wrapping pair");
}

SPEC(nai_disjoint) {
    double a, b, c, d;
    NAI i = input("a", "b", a, b), j = input("c", "d", c, d);
    if (i.isDisjointFrom(j)) {
        Pt q = point();
        irv_assert(!(in(a, b, q) && in(c, d, q)), "A.isDisjointFrom(B): no common angle");
    } else {
        irv_assert(!emptyb(a, b) && !emptyb(c, d), "empty intervals are disjoint from everything");
        irv_assert(inv(c, d, a) || inv(a, b, c), "not A.isDisjointFrom(B): a common angle");
    }
}

SPEC(nai_clip) {
    double a, b, c, d;
    NAI i = input("a", "b", a, b), j = input("c", "d", c, d);
    NAI k = i;
    k.clipTo(j);
    bool twoArcs = i.contains(j.getA()) && i.contains(j.getB()) && !i.contains(j) && !i.isEmpty() && !j.isEmpty();
    irv_assert(valid(k), "clipTo gives a valid interval");
    irv_assert(k.isEmpty() == i.isDisjointFrom(j), "clipTo is empty iff disjoint");
    irv_assert(subset(lo(k), hi(k), a, b) || subset(lo(k), hi(k), c, d), "clipTo stays inside one of the operands");
    Pt q = point();
    bool both = in(a, b, q) & in(c, d, q), r = has(k, q);
    irv_assert(!both || r, "clipTo contains every common angle");
    if (!twoArcs) irv_assert(!r || both || q.p == 0.0 && !q.up || q.p == TWOPI, "clipTo is exact when the intersection is one interval");
    if (twoArcs) irv_cover("two arcs");
    NAI m = i.clippedTo(j);
    irv_assert(m == k, "clippedTo agrees with clipTo");
}

SPEC(nai_clip_point) {
    double a, b;
    NAI i = input("a", "b", a, b);
    double x = irv_in("x", 0.0, TWOPI, true);
    NAI k = i.clippedTo(na(x));
    Pt q = point();
    irv_assert(has(k, q) == (in(a, b, q) && !nan(x) && q.p == x && !q.up), "clipping to a point is the intersection");
    NAI m = i;
    m.clipTo(na(x));
    irv_assert(m == k, "clipTo a point agrees with clippedTo");
}

SPEC(nai_expand) {
    double a, b, c, d;
    NAI i = input("a", "b", a, b), j = input("c", "d", c, d);
    NAI k = i;
    k.expandTo(j);
    irv_assert(valid(k), "expandTo gives a valid interval");
    irv_assert(k.isEmpty() == (i.isEmpty() && j.isEmpty()), "expandTo is empty iff both operands are");
    irv_assert(subset(a, b, lo(k), hi(k)), "expandTo contains the interval");
    irv_assert(subset(c, d, lo(k), hi(k)), "expandTo contains its argument");
    if (i.isEmpty() || j.isEmpty()) {
        irv_assert(k == (i.isEmpty() ? j : i), "expanding with an empty interval");
    } else if (i.intersects(j)) {
        Pt q = point();
        irv_assert(!has(k, q) || in(a, b, q) || in(c, d, q), "expandTo of intersecting intervals is their union");
        irv_cover("intersecting");
    } else {
        double gap1 = na(b).getAngleTo(na(c)).asRadians(), gap2 = na(d).getAngleTo(na(a)).asRadians();
        bool r1 = irv_same(lo(k), a) && irv_same(hi(k), d), r2 = irv_same(lo(k), c) && irv_same(hi(k), b);
        irv_assert(r1 || r2, "expandTo of disjoint intervals bridges one of the gaps");
        irv_assert(irv_imp(r1 && !r2, gap1 <= gap2) && irv_imp(r2 && !r1, gap2 <= gap1), "expandTo bridges the smaller gap");
        irv_cover("disjoint");
    }
    NAI m = i.expandedTo(j);
    irv_assert(m == k, "expandedTo agrees with expandTo");
}

SPEC(nai_expand_point) {
    double a, b;
    NAI i = input("a", "b", a, b);
    double x = irv_in("x", 0.0, TWOPI, true);
    NAI k = i;
    k.expandTo(na(x));
    irv_assert(valid(k), "expandTo a point gives a valid interval");
    irv_assert(subset(a, b, lo(k), hi(k)), "expandTo a point contains the interval");
    irv_assert(nan(x) || inv(lo(k), hi(k), x), "expandTo a point contains the point");
    if (i.isEmpty()) {
        irv_assert(nan(x) ? k.isEmpty() : (lo(k) == x && hi(k) == x), "expanding an empty interval gives the point");
    } else if (nan(x) || inv(a, b, x)) {
        irv_assert(k == i, "expanding to a contained point changes nothing");
    } else {
        double gap1 = na(b).getAngleTo(na(x)).asRadians(), gap2 = na(x).getAngleTo(na(a)).asRadians();
        bool r1 = irv_same(lo(k), a) && irv_same(hi(k), x), r2 = irv_same(lo(k), x) && irv_same(hi(k), b);
        irv_assert(r1 || r2, "expandTo a point moves one bound");
        irv_assert(irv_imp(r1 && !r2, gap1 <= gap2) && irv_imp(r2 && !r1, gap2 <= gap1), "expandTo a point bridges the smaller gap");
    }
    irv_assert(i.expandedTo(na(x)) == k, "expandedTo a point agrees with expandTo");
}

SPEC(nai_dilate) {
    double a, b;
    NAI i = input("a", "b", a, b);
    double x = irv_double("x");
    NAI k = i.dilatedBy(Angle(x));
    irv_assert(valid(k), "dilatedBy gives a valid interval");
    if (nan(x) || x == 0.0 || i.isEmpty() || i.isFull()) {
        irv_assert(k == i, "dilation of an empty or full interval, or by 0 or NaN, changes nothing");
    } else if (x > 0.0) {
        irv_assert(!k.isEmpty(), "dilation is not empty");
        irv_assert(subset(a, b, lo(k), hi(k)) || (b == TWOPI && a > 0.0), "dilation contains the interval");
        Pt q = point();
        irv_assert(irv_imp(in(a, b, q) && q.p < TWOPI && (q.p > 0.0 || q.up), has(k, q)), "dilation contains every angle of the interval");
        irv_cover("dilate");
    } else {
        irv_assert(subset(lo(k), hi(k), a, b) , "erosion stays inside the interval");
        irv_cover("erode");
    }
    NAI m = i;
    m.dilateBy(Angle(x));
    irv_assert(m == k, "dilateBy agrees with dilatedBy");
}

SPEC(nai_dilate_amount) {
    double a, b;
    NAI i = input("a", "b", a, b);
    double x = irv_double("x");
    irv_assume(!i.isEmpty() && !i.isFull() && x != 0.0 && x == x);
    NAI k = i.dilatedBy(Angle(x));
    double na_ = a - x, nb = b + x;
    if (k.isFull()) {
        double size = i.getSize().asRadians();
        irv_assert(x > 0.0, "only dilation can give the full interval");
        irv_assert(size + 2.0 * x >= TWOPI - 1e-13 || b == TWOPI && a == 0.0, "full only if the dilated size reaches 2 PI");
        irv_cover("full");
    } else if (k.isEmpty()) {
        double size = i.getSize().asRadians();
        irv_assert(x < 0.0, "only erosion can give the empty interval");
        irv_assert(size + 2.0 * x <= 1e-13, "empty only if the eroded size is not positive");
        irv_cover("empty");
    } else {
        double ra = lo(k), rb = hi(k);
        irv_assert(ra == na_ || ra == na_ + TWOPI || ra == na_ - TWOPI, "the lower bound moves by x");
        irv_assert(rb == nb || rb == nb + TWOPI || rb == nb - TWOPI, "the upper bound moves by x");
    }
}

SPEC(nai_erode) {
    double a, b;
    NAI i = input("a", "b", a, b);
    double x = irv_double("x");
    irv_assert(i.erodedBy(Angle(x)) == i.dilatedBy(Angle(-x)), "eroding by x is dilating by -x");
    NAI m = i;
    m.erodeBy(Angle(x));
    irv_assert(m == i.dilatedBy(Angle(-x)), "erodeBy agrees with erodedBy");
}

SPEC(nai_ctor) {
    double x = irv_double("x"), y = irv_double("y");
    bool threw = false;
    NAI i;
    try {
        i = NAI(Angle(x), Angle(y));
    } catch (std::invalid_argument &) {
        threw = true;
    }
    bool nx = ranged(x) && ranged(y);
    irv_assert(threw == (!nan(x) && !nan(y) && !nx && x > y), "the constructor throws iff unnormalized bounds are reversed");
    if (threw) { irv_cover("throws"); return; }
    irv_assert(valid(i), "the constructor gives a valid interval");
    if (nan(x) || nan(y)) {
        irv_assert(i.isEmpty(), "NaN bounds give the empty interval");
    } else if (nx) {
        irv_assert(irv_same(lo(i), x) && irv_same(hi(i), y), "normalized bounds are kept");
    } else if (y - x >= TWOPI) {
        irv_assert(i.isFull(), "bounds 2 PI or more apart give the full interval");
    } else {
        irv_assert(irv_imp(!i.isEmpty(), irv_same(lo(i), NormalizedAngle(x).asRadians()) && irv_same(hi(i), NormalizedAngle(y).asRadians())),
                   "other bounds are normalized");
        irv_cover("normalizes");
    }
    NAI j;
    j = NAI::fromRadians(x, y);
    irv_assert(j == i, "fromRadians agrees with the constructor");
}

SPEC(nai_ctor_degrees) {
    double x = irv_double("x"), y = irv_double("y");
    NAI i, j;
    int ti = 0, tj = 0;
    try { i = NAI::fromDegrees(x, y); } catch (std::invalid_argument &) { ti = 1; }
    try { j = NAI(Angle(x * RAD_PER_DEG), Angle(y * RAD_PER_DEG)); } catch (std::invalid_argument &) { tj = 1; }
    irv_assert(ti == tj && irv_same(lo(i), lo(j)) && irv_same(hi(i), hi(j)), "fromDegrees converts both bounds");
}

SPEC(nai_point_ctor) {
    double x = irv_double("x");
    NAI i((Angle(x)));
    double n = NormalizedAngle(x).asRadians();
    irv_assert(irv_same(lo(i), n) && irv_same(hi(i), n), "an interval built from one angle is that normalized angle");
    irv_assert(valid(i), "an interval built from one angle is valid");
}

SPEC(nai_dilate_post) {
    double a, b;
    NAI i = input("a", "b", a, b);
    double x = irv_double("x");
    NAI k = i.dilatedBy(Angle(x));
    Pt q = point();
    irv_assert(dilate_post(a, b, x, lo(k), hi(k), q), "the postcondition of dilatedBy that callers rely on");
}

SPEC(nai_center) {
    double a, b;
    NAI i = input("a", "b", a, b);
    double c = i.getCenter().asRadians();
    if (i.isEmpty()) irv_assert(nan(c), "the center of an empty interval is NaN");
    else irv_assert(ranged(c) && inv(a, b, c), "the center of a non-empty interval is in it");
    double s = i.getSize().asRadians();
    if (i.isEmpty()) irv_assert(nan(s), "the size of an empty interval is NaN");
    else {
        irv_assert(s >= 0.0 && s <= TWOPI, "the size of an interval is in [0, 2 PI]");
        double t = a <= b ? b - a : b - a + TWOPI, e = s - t;
        irv_assert(e < 1e-13 && e > -1e-13, "the size of an interval is the angle from a to b");
        // the center is half way from a to b
        double h = a <= c ? c - a : c - a + TWOPI, f = 2.0 * h - t;
        irv_assert((f < 1e-13 && f > -1e-13) || (f - 2 * TWOPI < 1e-13 && f - 2 * TWOPI > -1e-13), "the center is half way between the bounds");
    }
}
