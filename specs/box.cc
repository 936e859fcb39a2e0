// Contracts of Box.
#include "box_oracle.h"

namespace {
Pt the_point;
}  // namespace

#ifndef IRV_NATIVE
// NormalizedAngleInterval::dilatedBy by its contract (verified in nai_dilate_post)
extern "C" NAI contract_dilatedBy(NAI const *self, Angle x) {
    double a = lo(*self), b = hi(*self);
    double c = irv_uf3("dilated_a", a, b, x.asRadians()), d = irv_uf3("dilated_b", a, b, x.asRadians());
    irv_assume(dilate_post(a, b, x.asRadians(), c, d, the_point));
    return NAI(na(c), na(d));
}
#endif

SPEC(box_ctor) {
    double a, b;
    NAI lon = input("lon1", "lon2", a, b);
    double c = irv_double("lat1"), d = irv_double("lat2");
    AngleInterval lat((Angle(c)), Angle(d));
    Box x(lon, lat);
    irv_assert(inv(x), "constructor: latitudes in [-pi/2, pi/2] and both components empty together");
    bool e = !(c <= d) || c > HP || d < -HP || emptyb(a, b);
    irv_assert(x.isEmpty() == e, "a box is empty iff a component (clipped to valid latitudes) is");
    if (!e) {
        irv_assert(samelon(x.getLon(), lon), "constructor keeps the longitudes");
        irv_assert(x.getLat().getA().asRadians() == (c < -HP ? -HP : c) && x.getLat().getB().asRadians() == (d > HP ? HP : d),
                   "constructor clips the latitudes to [-pi/2, pi/2]");
    }
    irv_assert(x.isFull() == (a == 0.0 && b == TWOPI && c <= -HP && d >= HP), "isFull iff all longitudes and latitudes");
    irv_assert(Box().isEmpty() && Box::empty().isEmpty() && inv(Box()), "the default box and empty() are empty");
    irv_assert(Box::full().isFull() && inv(Box::full()), "full() is full");
    if (e && !emptyb(a, b) && c <= d) irv_cover("latitudes out of range");
}

SPEC(box_ctor_points) {
    LonLat p = lonlat("p1", "p2"), q = lonlat("q1", "q2"), r = lonlat("r1", "r2");
    Box x(p);
    irv_assert(inv(x) && x.isEmpty() == isnan_(p), "the box of one point");
    irv_assert(has(x, r) == (p._lon.asRadians() == r._lon.asRadians() && p._lat.asRadians() == r._lat.asRadians()), "the box of one point contains just it");
    Box y(p, q);
    irv_assert(inv(y), "a box of two corners satisfies the invariants");
    bool e = isnan_(p) || isnan_(q) || !(p._lat <= q._lat);
    irv_assert(y.isEmpty() == e, "a box of two corners is empty iff its latitudes are reversed (or NaN)");
    if (!e) irv_assert(lo(y.getLon()) == p._lon.asRadians() && hi(y.getLon()) == q._lon.asRadians() && y.getLat().getA() == p._lat && y.getLat().getB() == q._lat,
                       "a box of two corners has these bounds");
}

SPEC(box_ctor_around) {
    LonLat p = lonlat("p1", "p2");
    double w = irv_double("w"), h = irv_double("h");
    Pt q = {p._lon.asRadians(), false};
    the_point = q;
    Box z(p, Angle(w), Angle(h));
    irv_assert(inv(z), "a box around a point satisfies the invariants");
    irv_assert(same(z, Box(NAI(p._lon).dilatedBy(Angle(w)), AngleInterval(p._lat).dilatedBy(Angle(h)))), "a box around a point has the half-widths given");
    if (!isnan_(p) && w >= 0 && h >= 0 && inner(q)) irv_assert(has(z, p), "a box around a point contains it");
}

SPEC(box_ctor_convert) {
    double a = irv_double("a"), b = irv_double("b"), c = irv_double("c"), d = irv_double("d");
    Box x, y;
    int tx = 0, ty = 0;
    try { x = Box::fromRadians(a, b, c, d); } catch (std::invalid_argument &) { tx = 1; }
    try { y = Box(NAI(Angle(a), Angle(c)), AngleInterval(Angle(b), Angle(d))); } catch (std::invalid_argument &) { ty = 1; }
    irv_assert(tx == ty && same(x, y), "fromRadians(lon1, lat1, lon2, lat2)");
    irv_assert(inv(x), "fromRadians satisfies the invariants");
}

SPEC(box_ctor_degrees) {
    double a = irv_double("a"), b = irv_double("b"), c = irv_double("c"), d = irv_double("d");
    Box x, y;
    int tx = 0, ty = 0;
    try { x = Box::fromDegrees(a, b, c, d); } catch (std::invalid_argument &) { tx = 1; }
    try { y = Box::fromRadians(a * RAD_PER_DEG, b * RAD_PER_DEG, c * RAD_PER_DEG, d * RAD_PER_DEG); } catch (std::invalid_argument &) { ty = 1; }
    irv_assert(tx == ty && same(x, y), "fromDegrees(lon1, lat1, lon2, lat2) converts all bounds");
}

SPEC(box_point) {
    Box b = boxA();
    LonLat p = lonlat("p1", "p2");
    bool m = has(b, p);
    irv_assert(b.isEmpty() == em(b.getLat()), "isEmpty iff the product is empty");
    irv_assert(b.contains(p) == (isnan_(p) || m), "contains(p) iff p is in the product");
    irv_assert(b.intersects(p) == m, "intersects(p) iff p is in the product");
    irv_assert(b.isDisjointFrom(p) == !m, "isDisjointFrom(p) iff p is not in the product");
    double x = p._lon.asRadians(), y = p._lat.asRadians();
    bool one = lo(b.getLon()) == x && hi(b.getLon()) == x && b.getLat().getA().asRadians() == y && b.getLat().getB().asRadians() == y;
    irv_assert(b.isWithin(p) == (one || b.isEmpty()), "isWithin(p) iff the box is {p} or empty");
    irv_assert((b == p) == (one || (isnan_(p) && b.isEmpty())), "comparison with a point");
    irv_assert((b != p) == !(b == p), "!= with a point");
    Relationship r = b.relate(p);
    irv_assert(bitC(r) == b.contains(p), "relate(p) has CONTAINS iff contains(p)");
    irv_assert(bitD(r) == !m, "relate(p) has DISJOINT iff disjoint");
    irv_assert(bitW(r) == (one || b.isEmpty()), "relate(p) has WITHIN iff isWithin(p)");
    if (m) irv_cover("inside");
}

SPEC(box_pair) {
    Box a = boxA(), b = boxB();
    bool C = subset(b, a), W = subset(a, b), D = !meet(a, b);
    irv_assert(a.contains(b) == C, "A.contains(B) iff every point of B is in A");
    irv_assert(a.isWithin(b) == W, "A.isWithin(B) iff every point of A is in B");
    irv_assert(a.isDisjointFrom(b) == D, "A.isDisjointFrom(B) iff no common point");
    irv_assert(a.intersects(b) == !D, "A.intersects(B) iff a common point");
    Relationship r = a.relate(b);
    irv_assert(bitC(r) == C, "relate has CONTAINS iff contains");
    irv_assert(bitW(r) == W, "relate has WITHIN iff isWithin");
    irv_assert(bitD(r) == D, "relate has DISJOINT iff disjoint");
    bool eq = a == b;
    irv_assert(eq == same(a, b), "equality compares both components");
    irv_assert((a != b) == !eq, "!= is the negation of ==");
    Region const &ra = a, &rb = b;
    irv_assert(ra.relate(rb) == r, "relate through Region agrees");
    if (C && !eq) irv_cover("contains");
    if (!D && !C && !W) irv_cover("overlaps");
    if (D && !a.isEmpty() && !b.isEmpty()) irv_cover("disjoint");
}

// inclusion and intersection of products, by endpoints, agree with the points
SPEC(box_oracle) {
    Box a = boxA(), b = boxB();
    BP p = bp();
    if (subset(a, b)) irv_assert(irv_imp(has(a, p), has(b, p)), "oracle: included boxes");
    if (!meet(a, b)) irv_assert(!(has(a, p) && has(b, p)), "oracle: disjoint boxes");
    else {
        double l = a.getLat().getA() >= b.getLat().getA() ? a.getLat().getA().asRadians() : b.getLat().getA().asRadians();
        BP q = {{lo(a.getLon()), false}, l}, s = {{lo(b.getLon()), false}, l};
        irv_assert((has(a, q) && has(b, q)) || (has(a, s) && has(b, s)), "oracle: a common point");
    }
}

SPEC(box_clip) {
    Box a = boxA(), b = boxB();
    Box k = a.clippedTo(b);
    irv_assert(inv(k), "clipTo keeps the invariants");
    BP p = bp();
    irv_assert(irv_imp(has(a, p) && has(b, p), has(k, p)), "clipTo contains every common point");
    irv_assert(sublat(k.getLat(), a.getLat()) && sublat(k.getLat(), b.getLat()), "clipped latitudes are in both operands");
    irv_assert(sublon(k.getLon(), a.getLon()) || sublon(k.getLon(), b.getLon()), "clipped longitudes are in one of the operands");
    irv_assert(k.isEmpty() == !meet(a, b), "clipTo is empty iff disjoint");
    bool two = a.getLon().contains(b.getLon().getA()) && a.getLon().contains(b.getLon().getB()) && !a.getLon().contains(b.getLon());
    if (!two && !k.isEmpty()) irv_assert(samelon(k.getLon(), a.getLon().clippedTo(b.getLon())), "clipTo clips the longitudes");
    Box m = a;
    Box *ret = &m.clipTo(b);
    irv_assert(ret == &m && same(m, k), "clipTo agrees with clippedTo");
}

SPEC(box_clip_point) {
    Box a = boxA();
    LonLat q = lonlat("q1", "q2"), p = lonlat("p1", "p2");
    Box k = a.clippedTo(q);
    irv_assert(inv(k), "clipTo a point keeps the invariants");
    bool here = p._lon.asRadians() == q._lon.asRadians() && p._lat.asRadians() == q._lat.asRadians();
    irv_assert(has(k, p) == (has(a, p) && here), "clipTo a point is the intersection");
    Box m = a;
    m.clipTo(q);
    irv_assert(same(m, k), "clipTo a point agrees with clippedTo");
}

SPEC(box_expand) {
    Box a = boxA(), b = boxB();
    Box k = a.expandedTo(b);
    irv_assert(inv(k), "expandTo keeps the invariants");
    irv_assert(subset(a, k) && subset(b, k), "expandTo contains both operands");
    irv_assert(k.isEmpty() == (a.isEmpty() && b.isEmpty()), "expandTo is empty iff both operands are");
    if (!a.isEmpty() && !b.isEmpty()) {
        double la = a.getLat().getA().asRadians(), lb = b.getLat().getA().asRadians(), ua = a.getLat().getB().asRadians(), ub = b.getLat().getB().asRadians();
        irv_assert(k.getLat().getA().asRadians() == (la < lb ? la : lb) && k.getLat().getB().asRadians() == (ua > ub ? ua : ub), "the expanded latitudes are minimal");
        irv_assert(samelon(k.getLon(), a.getLon().expandedTo(b.getLon())), "the expanded longitudes are those of expandTo");
    } else {
        irv_assert(same(k, a.isEmpty() ? b : a), "expanding with an empty box");
    }
    Box m = a;
    Box *ret = &m.expandTo(b);
    irv_assert(ret == &m && same(m, k), "expandTo agrees with expandedTo");
}

SPEC(box_expand_point) {
    Box a = boxA();
    LonLat q = lonlat("q1", "q2");
    Box k = a.expandedTo(q);
    irv_assert(inv(k), "expandTo a point keeps the invariants");
    irv_assert(subset(a, k), "expandTo a point contains the box");
    irv_assert(isnan_(q) || has(k, q), "expandTo a point contains the point");
    if (isnan_(q)) irv_assert(same(k, a), "expanding to the NaN point changes nothing");
    else if (a.isEmpty()) irv_assert(same(k, Box(q)), "expanding an empty box gives the point");
    else {
        double la = a.getLat().getA().asRadians(), ua = a.getLat().getB().asRadians(), y = q._lat.asRadians();
        irv_assert(k.getLat().getA().asRadians() == (la < y ? la : y) && k.getLat().getB().asRadians() == (ua > y ? ua : y), "the expanded latitudes are minimal");
        irv_assert(samelon(k.getLon(), a.getLon().expandedTo(q._lon)), "the expanded longitudes are those of expandTo");
    }
    Box m = a;
    m.expandTo(q);
    irv_assert(same(m, k), "expandTo a point agrees with expandedTo");
}

SPEC(box_dilate_wh) {
    Box a = boxA();
    double w = irv_double("w"), h = irv_double("h");
    Box k = a.dilatedBy(Angle(w), Angle(h));
    irv_assert(inv(k), "dilateBy(w, h) keeps the invariants");
    if (a.isEmpty() || a.isFull()) {
        irv_assert(same(k, a), "dilating an empty or full box changes nothing");
        return;
    }
    NAI lon = a.getLon().dilatedBy(Angle(w));
    double c = a.getLat().getA().asRadians(), d = a.getLat().getB().asRadians();
    double c2 = (nan(h) || c <= -HP) ? c : c - h, d2 = (nan(h) || d >= HP) ? d : d + h;
    irv_assert(same(k, Box(lon, AngleInterval(Angle(c2), Angle(d2)))), "dilateBy(w, h) moves the bounds that are not at a pole");
    if (!(h < 0.0) && !(w < 0.0)) irv_assert(!k.isEmpty() && sublat(a.getLat(), k.getLat()), "dilating by w, h >= 0 contains the latitudes");
    if (!(h > 0.0)) irv_assert(sublat(k.getLat(), a.getLat()), "h <= 0 or NaN adds no latitude");
    if (!(w > 0.0)) irv_assert(sublon(k.getLon(), a.getLon()), "w <= 0 or NaN adds no longitude");
    if (k.isEmpty()) irv_cover("eroded away");
    Box m = a;
    Box *ret = &m.dilateBy(Angle(w), Angle(h));
    irv_assert(ret == &m && same(m, k), "dilateBy(w, h) agrees with dilatedBy");
}

SPEC(box_dilate_grow) {
    Box a = boxA();
    double w = irv_double("w"), h = irv_double("h");
    irv_assume(w >= 0.0 && h >= 0.0);
    BP p = bp();
    the_point = p.lon;
    Box k = a.dilatedBy(Angle(w), Angle(h));
    irv_assert(irv_imp((int)has(a, p) & (int)inner(p.lon), has(k, p)), "dilating by w, h >= 0 contains the box");
}

SPEC(box_dilate_r) {
    Box a = boxA();
    double r = irv_double("r");
    BP p = bp();
    the_point = p.lon;
    Box k = a.dilatedBy(Angle(r));
    irv_assert(inv(k), "dilateBy(r) keeps the invariants");
    double c = a.getLat().getA().asRadians(), d = a.getLat().getB().asRadians();
    if (a.isEmpty() || a.isFull() || !(r > 0.0)) {
        irv_assert(subset(k, a) && same(k, a), "dilating an empty or full box, or by r <= 0 or NaN, changes nothing");
    } else {
        irv_assert(!k.isEmpty(), "a dilated box is not empty");
        irv_assert(k.getLat().getA().asRadians() == (c - r < -HP ? -HP : c - r) && k.getLat().getB().asRadians() == (d + r > HP ? HP : d + r),
                   "dilateBy(r) moves the latitudes by r, up to the poles");
        bool pole = k.getLat().getA().asRadians() == -HP || k.getLat().getB().asRadians() == HP;
        irv_assert(irv_imp(pole, k.getLon().isFull()), "a box that touches a pole after dilation is full in longitude");
        irv_assert(irv_imp((int)has(a, p) & (int)inner(p.lon), has(k, p)), "dilateBy(r) contains the box");
        if (pole) irv_cover("pole"); else irv_cover("no pole");
    }
    Box m = a;
    Box *ret = &m.dilateBy(Angle(r));
    irv_assert(ret == &m && same(m, k), "dilateBy(r) agrees with dilatedBy");
}

SPEC(box_erode) {
    Box a = boxA();
    double w = irv_double("w"), h = irv_double("h");
    Box o = a.dilatedBy(Angle(-w), Angle(-h));
    irv_assert(same(a.erodedBy(Angle(w), Angle(h)), o), "eroding by (w, h) is dilating by the negatives");
    Box m = a;
    m.erodeBy(Angle(w), Angle(h));
    irv_assert(same(m, o), "erodeBy(w, h) agrees with erodedBy");
}

SPEC(box_erode_r) {
    Box a = boxA();
    double r = irv_double("r");
    Box o = a.dilatedBy(Angle(-r));
    irv_assert(same(a.erodedBy(Angle(r)), o), "eroding by r is dilating by -r");
    Box m = a;
    m.erodeBy(Angle(r));
    irv_assert(same(m, o), "erodeBy(r) agrees with erodedBy");
}

SPEC(box_halfwidth) {
    double r = irv_double("r"), lat = irv_double("lat");
    double w = Box::halfWidthForCircle(Angle(r), Angle(lat)).asRadians();
    if (r <= 0.0) irv_assert(w == 0.0, "halfWidthForCircle of r <= 0 is 0");
    else if (!nan(r) && !nan(lat) && fabs(lat) + r >= HP) irv_assert(w == PI, "halfWidthForCircle is pi for a circle that contains a pole");
    else irv_assert(nan(w) || (w >= 0.0 && w <= HP), "halfWidthForCircle of another circle is in [0, pi/2]");
}

SPEC(box_region) {
    Box a = boxA();
    std::unique_ptr<Region> c = a.clone();
    Box *b = dynamic_cast<Box *>(c.get());
    irv_assert(b != nullptr && b != &a && same(*b, a), "clone is an equal box");
    irv_assert(same(a.getBoundingBox(), a), "the bounding box of a box is itself");
    irv_assert(irv_same(a.getWidth().asRadians(), a.getLon().getSize().asRadians()) && irv_same(a.getHeight().asRadians(), a.getLat().getSize().asRadians()), "width and height are the sizes of the components");
}

SPEC(box_center) {
    Box a = boxA();
    if (a.isEmpty()) {     // any empty box that can be constructed
        a._lat = AngleInterval(Angle(irv_double("c")), Angle(irv_double("d")));
        a._enforceInvariants();
        LonLat c = a.getCenter();
        irv_assert(isnan_(c) || !a.isEmpty(), "the center of an empty box is NaN");
    } else irv_assert(has(a, a.getCenter()), "the center of a non-empty box is in it");
}
