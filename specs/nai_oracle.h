// Denotation of NormalizedAngleInterval, shared by the contracts that use it.
// Contracts of NormalizedAngleInterval and NormalizedAngle.
//
// Abstraction.  Angles on the circle are the reals in [0, 2PI] (2PI being the double;
// 0 and 2PI are distinct representations).  An interval with a <= b denotes [a, b], one
// with a > b denotes [a, 2PI] u [0, b], one with a NaN bound the empty set.  The order of
// the reals is dense while that of doubles is not, so a point is a double p together with
// a flag: up = false is p itself, up = true a real infinitesimally above p.
#pragma once
#include <stdexcept>
#include "irv.h"
#include "lsst/sphgeom/Angle.h"
#include "lsst/sphgeom/NormalizedAngle.h"
#include "lsst/sphgeom/NormalizedAngleInterval.h"
#include "lsst/sphgeom/constants.h"

using namespace lsst::sphgeom;
typedef NormalizedAngleInterval NAI;

namespace {
double const TWOPI = 2.0 * PI;

struct Pt { double p; bool up; };

bool nan(double x) { return x != x; }
bool le(Pt q, double x) { return q.up ? q.p < x : q.p <= x; }   // q <= x
bool ge(Pt q, double x) { return q.p >= x; }                    // q >= x
bool in(double a, double b, Pt q) {
    bool lo = ge(q, a), hi = le(q, b);
    return (a <= b) ? (lo & hi) : ((a > b) & (lo | hi));
}
bool inv(double a, double b, double x) {
    Pt q = {x, false};
    return in(a, b, q);
}
Pt point() {
    Pt q;
    q.p = irv_in("p", 0.0, TWOPI);
    q.up = irv_bool("up");
    irv_assume(!(q.up && q.p >= TWOPI));
    return q;
}
NormalizedAngle na(double x) {
    NormalizedAngle n;
    n._a = Angle(x);
    return n;
}
NAI input(char const *na_, char const *nb_, double &a, double &b) {
    a = irv_in(na_, 0.0, TWOPI, true);
    b = irv_in(nb_, 0.0, TWOPI, true);
    return NAI(na(a), na(b));
}
double lo(NAI const &i) { return i.getA().asRadians(); }
double hi(NAI const &i) { return i.getB().asRadians(); }
bool has(NAI const &i, Pt q) { return in(lo(i), hi(i), q); }
bool bitD(Relationship r) { return (r & DISJOINT) != 0; }
bool bitC(Relationship r) { return (r & CONTAINS) != 0; }
bool bitW(Relationship r) { return (r & WITHIN) != 0; }
bool emptyb(double a, double b) { return nan(a) | nan(b); }
bool ranged(double x) { return x >= 0.0 && x <= TWOPI; }
bool valid(NAI const &i) { return i.isEmpty() || (ranged(lo(i)) && ranged(hi(i))); }
// set inclusion of the denotations, decided by endpoints (proved sound and complete in nai_oracle)
bool subset(double c, double d, double a, double b) {
    if (emptyb(c, d)) return true;
    if (emptyb(a, b)) return false;
    if (a == 0.0 && b == TWOPI) return true;
    if (c <= d) return (a <= b) ? (a <= c && d <= b) : (c >= a || d <= b);
    return a > b && a <= c && d <= b;
}
bool inner(Pt q) { return q.p < TWOPI && (q.p > 0.0 || q.up); }   // 0 and 2PI may be exchanged by renormalization

// Postcondition of NormalizedAngleInterval::dilatedBy: [a, b] dilated by x gives [c, d].
bool dilate_post(double a, double b, double x, double c, double d, Pt q) {
    bool e = emptyb(a, b), f = a == 0.0 && b == TWOPI, ke = emptyb(c, d), kf = c == 0.0 && d == TWOPI;
    if (nan(x) || x == 0.0 || e || f) return (c == a && d == b) || (e && ke);
    if (!ke && !(ranged(c) && ranged(d))) return false;
    if (x > 0.0) {
        return !ke && irv_imp(x >= PI, kf) && (subset(a, b, c, d) || (b == TWOPI && a > 0.0)) &&
               irv_imp((int)in(a, b, q) & (int)inner(q), in(c, d, q));
    }
    return subset(c, d, a, b);
}
}  // namespace
