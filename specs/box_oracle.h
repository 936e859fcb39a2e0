// Denotation of a Box: the product of a NormalizedAngleInterval (longitude, nai_oracle.h) and an
// AngleInterval (latitude, [a, b] denotes a <= p <= b).
#pragma once
#include "nai_oracle.h"
#include "lsst/sphgeom/AngleInterval.h"
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/LonLat.h"

namespace {
double const HP = 0.5 * PI;
bool em(AngleInterval const &i) { return !(i.getA() <= i.getB()); }
bool inlat(AngleInterval const &i, double p) { return i.getA().asRadians() <= p && p <= i.getB().asRadians(); }
// representation invariant
bool inv(Box const &b) {
    double c = b.getLat().getA().asRadians(), d = b.getLat().getB().asRadians();
    bool le = em(b.getLat()), oe = b.getLon().isEmpty();
    return valid(b.getLon()) && (le ? oe : (!oe && c >= -HP && d <= HP));
}
Box input(char const *n1, char const *n2, char const *n3, char const *n4) {
    double a, b;
    Box x;
    x._lon = input(n1, n2, a, b);
    double c = irv_double(n3), d = irv_double(n4);
#ifdef IRV_NATIVE
    if (!(c <= d && c >= -HP && d <= HP)) {
        double u = std::fmod(c, HP), v = std::fmod(d, HP);
        c = u <= v ? u : v;
        d = u <= v ? v : u;
        if (x._lon.isEmpty()) c = d = Angle::nan().asRadians();
    }
#endif
    x._lat = AngleInterval(Angle(c), Angle(d));
#ifdef IRV_NATIVE
    if (!inv(x)) x._enforceInvariants();
#endif
    irv_assume(inv(x));
    return x;
}
Box boxA() { return input("a1", "a2", "a3", "a4"); }
Box boxB() { return input("b1", "b2", "b3", "b4"); }
// any valid point of the sphere, or the NaN point
LonLat lonlat(char const *n1, char const *n2) {
    LonLat p;
    double x = irv_in(n1, 0.0, TWOPI, true), y = irv_in(n2, -HP, HP, true);
#ifdef IRV_NATIVE
    if (nan(x)) y = x;
    if (nan(y)) x = y;
#endif
    irv_assume(nan(x) == nan(y));
    p._lon = na(x);
    p._lat = Angle(y);
    return p;
}
bool isnan_(LonLat const &p) { return nan(p._lat.asRadians()); }
bool has(Box const &b, LonLat const &p) {
    return inv(lo(b.getLon()), hi(b.getLon()), p._lon.asRadians()) & (int)inlat(b.getLat(), p._lat.asRadians());
}
// a point that need not be a double in longitude (see nai_oracle.h)
struct BP { Pt lon; double lat; };
BP bp() {
    BP p;
    p.lon = point();
    p.lat = irv_in("plat", -HP, HP);
    return p;
}
bool has(Box const &b, BP const &p) { return (int)has(b.getLon(), p.lon) & (int)inlat(b.getLat(), p.lat); }
bool sublat(AngleInterval const &i, AngleInterval const &j) {
    return em(i) || (j.getA() <= i.getA() && i.getB() <= j.getB());
}
bool meetlat(AngleInterval const &i, AngleInterval const &j) {
    return !em(i) && !em(j) && i.getA() <= j.getB() && j.getA() <= i.getB();
}
bool sublon(NAI const &i, NAI const &j) { return subset(lo(i), hi(i), lo(j), hi(j)); }
bool meetlon(NAI const &i, NAI const &j) {
    return !i.isEmpty() && !j.isEmpty() && ((int)inv(lo(j), hi(j), lo(i)) | (int)inv(lo(i), hi(i), lo(j)));
}
bool subset(Box const &i, Box const &j) { return sublat(i.getLat(), j.getLat()) & (int)sublon(i.getLon(), j.getLon()); }
bool meet(Box const &i, Box const &j) { return meetlat(i.getLat(), j.getLat()) & (int)meetlon(i.getLon(), j.getLon()); }
bool samelat(AngleInterval const &i, AngleInterval const &j) {
    return (i.getA() == j.getA() && i.getB() == j.getB()) || (em(i) && em(j));
}
bool samelon(NAI const &i, NAI const &j) { return (lo(i) == lo(j) && hi(i) == hi(j)) || (i.isEmpty() && j.isEmpty()); }
bool same(Box const &i, Box const &j) { return samelat(i.getLat(), j.getLat()) & (int)samelon(i.getLon(), j.getLon()); }

}  // namespace
