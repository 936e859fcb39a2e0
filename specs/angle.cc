// Contracts of Angle, NormalizedAngle and LonLat.
#include <stdexcept>
#include "irv.h"
#include "lsst/sphgeom/Angle.h"
#include "lsst/sphgeom/LonLat.h"
#include "lsst/sphgeom/NormalizedAngle.h"
#include "lsst/sphgeom/UnitVector3d.h"
#include "lsst/sphgeom/Vector3d.h"

using namespace lsst::sphgeom;

namespace {
double const TWOPI = 2.0 * PI, HP = 0.5 * PI;
bool nan(double x) { return x != x; }
bool both(double a, double b) { return irv_same(a, b) || (nan(a) && nan(b)); }
double rad(Angle a) { return a.asRadians(); }
NormalizedAngle na(double x) {
    NormalizedAngle n;
    n._a = Angle(x);
    return n;
}
bool close(double x, double y) { return x - y < 1e-14 && y - x < 1e-14; }
bool near(double x, double y) { return x - y < 1e-13 && y - x < 1e-13; }
LonLat lonlat(double x, double y) {
    LonLat p;
    p._lon = na(x);
    p._lat = Angle(y);
    return p;
}
bool domain(LonLat const &p) {
    double x = p.getLon().asRadians(), y = p.getLat().asRadians();
    return nan(x) ? nan(y) : (x >= 0.0 && x <= TWOPI && y >= -HP && y <= HP);
}
}  // namespace

SPEC(angle_compare) {
    double x = irv_double("x"), y = irv_double("y");
    Angle a(x), b(y);
    irv_assert(irv_same(a.asRadians(), x), "asRadians gives the radians");
    irv_assert(irv_same(Angle::fromRadians(x).asRadians(), x), "fromRadians");
    irv_assert((a == b) == (x == y) && (a != b) == (x != y), "== and != compare radians");
    irv_assert((a < b) == (x < y) && (a > b) == (x > y), "< and > compare radians");
    irv_assert((a <= b) == (x <= y) && (a >= b) == (x >= y), "<= and >= compare radians");
    irv_assert(a.isNan() == nan(x), "isNan iff the radians are NaN");
    irv_assert(Angle::nan().isNan() && rad(Angle()) == 0.0, "nan() and the default angle");
    irv_assert(a.isNormalized() == (x >= 0.0 && x <= TWOPI), "isNormalized iff in [0, 2 pi]");
    if (x >= 0.0 && x <= TWOPI) {
        NormalizedAngle m = na(x);
        irv_assert((m == b) == (x == y) && (m != b) == (x != y) && (m < b) == (x < y) && (m > b) == (x > y) && (m <= b) == (x <= y) && (m >= b) == (x >= y),
                   "normalized angles compare by radians");
        irv_assert(irv_same(m.asRadians(), x) && !m.isNan(), "normalized radians");
        Angle const &c = m;
        irv_assert(irv_same(c.asRadians(), x), "conversion to Angle keeps the radians");
        irv_assert(irv_same(abs(m).asRadians(), x), "abs of a normalized angle");
    }
}

SPEC(angle_add) {
    double x = irv_double("x"), y = irv_double("y");
    Angle a(x), b(y);
    irv_assert(both(rad(a + b), x + y), "+ adds radians");
    irv_assert(both(rad(a - b), x - y), "- subtracts radians");
    irv_assert(both(rad(-a), -x), "unary - negates radians");
    Angle c = a;
    irv_assert(&(c += b) == &c && both(rad(c), x + y), "+= adds in place");
    c = a;
    irv_assert(&(c -= b) == &c && both(rad(c), x - y), "-= subtracts in place");
    irv_assert(both(rad(abs(a)), x < 0.0 || (x == 0.0) ? fabs(x) : x), "abs gives the magnitude");
    NormalizedAngle m = na(x);
    irv_assert(both(rad(m + b), x + y) && both(rad(m - b), x - y) && both(rad(-m), -x), "arithmetic of normalized angles");
}

SPEC(angle_mul) {
    double x = irv_double("x"), y = irv_double("y");
    Angle a(x), b(y);
    irv_assert(both(rad(a * y), x * y) && both(rad(y * a), x * y), "* scales radians");
    irv_assert(both(rad(a / y), x / y), "/ divides radians");
    irv_assert(both(a / b, x / y), "the quotient of angles is that of their radians");
    Angle c = a;
    irv_assert(&(c *= y) == &c && both(rad(c), x * y), "*= scales in place");
    c = a;
    irv_assert(&(c /= y) == &c && both(rad(c), x / y), "/= divides in place");
    NormalizedAngle m = na(x);
    irv_assert(both(rad(m * y), x * y) && both(rad(m / y), x / y) && both(m / b, x / y), "scaling of normalized angles");
}

SPEC(angle_degrees) {
    double x = irv_double("x");
    double d = rad(Angle::fromDegrees(x)), e = Angle(x).asDegrees();
    irv_assert(both(d, x * RAD_PER_DEG), "fromDegrees multiplies by pi/180");
    irv_assert(both(e, x * DEG_PER_RAD), "asDegrees multiplies by 180/pi");
    irv_assert(RAD_PER_DEG == 0x1.1df46a2529d39p-6 && DEG_PER_RAD == 0x1.ca5dc1a63c1f8p+5 && PI == 0x1.921fb54442d18p+1, "the constants are the doubles nearest to pi/180, 180/pi and pi");
    irv_assert(both(na(x).asDegrees(), e), "asDegrees of a normalized angle");
    irv_assert(both(NormalizedAngle::fromDegrees(x).asRadians(), NormalizedAngle(d).asRadians()), "NormalizedAngle::fromDegrees normalizes");
}

SPEC(nangle_ctor) {
    double x = irv_double("x");
    NormalizedAngle n(x);
    double r = n.asRadians();
    irv_assert(nan(r) == (nan(x) || x - x != 0.0), "a normalized angle is NaN iff its argument is not finite");
    irv_assert(nan(r) || (r >= 0.0 && r <= TWOPI), "a normalized angle is in [0, 2 pi]");
    irv_assert(irv_imp(x >= 0.0 && x <= TWOPI, irv_same(r, x)), "an angle in range is kept");
    if (x < 0.0 && x > -TWOPI) { irv_assert(r == x + TWOPI, "normalization of a negative angle adds 2 pi"); irv_cover("negative"); }
    if (x > TWOPI && x < 2 * TWOPI) { irv_assert(close(r, x - TWOPI), "normalization of a large angle subtracts 2 pi"); irv_cover("large"); }
    if (x < -TWOPI || x > TWOPI) {
        double f = std::fmod(x, TWOPI);
        irv_assert(irv_imp(!nan(f), r == (x < 0.0 ? f + TWOPI : f)), "normalization is reduction modulo 2 pi");
    }
    irv_assert(both(NormalizedAngle(Angle(x)).asRadians(), r) && both(NormalizedAngle::fromRadians(x).asRadians(), r), "all constructors normalize alike");
    irv_assert(NormalizedAngle::nan().isNan() && NormalizedAngle().asRadians() == 0.0, "nan() and the default");
    irv_assert(n.isNan() == nan(r), "isNan");
}

SPEC(nangle_to) {
    double a = irv_in("a", 0.0, TWOPI), b = irv_in("b", 0.0, TWOPI);
    double d = na(a).getAngleTo(na(b)).asRadians(), e = na(b).getAngleTo(na(a)).asRadians();
    irv_assert(d >= 0.0 && d <= TWOPI, "getAngleTo is in [0, 2 pi]");
    irv_assert(a <= b ? d == b - a : d == TWOPI + (b - a), "getAngleTo is the positive rotation from a to b");
    double m = NormalizedAngle::between(na(a), na(b)).asRadians();
    irv_assert(m >= 0.0 && m <= PI + 1e-15, "between is in [0, pi]");
    irv_assert(m == NormalizedAngle::between(na(b), na(a)).asRadians(), "between is symmetric");
    double lo = d < e ? d : e;
    irv_assert(close(m, lo), "between is the smaller of the two rotations");
}

SPEC(nangle_center) {
    double a = irv_in("a", 0.0, TWOPI), b = irv_in("b", 0.0, TWOPI);
    NormalizedAngle c = NormalizedAngle::center(na(a), na(b));
    double m = c.asRadians();
    irv_assert(m >= 0.0 && m <= TWOPI, "center is in [0, 2 pi]");
    double f = na(a).getAngleTo(c).asRadians(), g = c.getAngleTo(na(b)).asRadians();
    irv_assert(near(f, g) || near(f - g, TWOPI) || near(g - f, TWOPI), "center is half way from a to b");
    irv_assert(irv_imp(a <= b, m >= a && m <= b), "center is between a and b");
}

SPEC(nangle_vectors) {
    Vector3d u(irv_double("ux"), irv_double("uy"), irv_double("uz")), v(irv_double("vx"), irv_double("vy"), irv_double("vz"));
    double r = NormalizedAngle(u, v).asRadians();
    irv_assert(nan(r) || (r >= 0.0 && r <= PI), "the angle between vectors is in [0, pi]");
}

SPEC(nangle_lonlats) {
    LonLat p = lonlat(irv_in("p1", 0.0, TWOPI), irv_in("p2", -HP, HP)), q = lonlat(irv_in("q1", 0.0, TWOPI), irv_in("q2", -HP, HP));
    double r = NormalizedAngle(p, q).asRadians();
    irv_assert(!nan(r) && r >= 0.0 && r <= PI, "the angle between points is in [0, pi]");
}

SPEC(lonlat_ctor) {
    double x = irv_in("lon", 0.0, TWOPI, true), y = irv_double("lat");
    bool threw = false;
    LonLat p;
    try { p = LonLat(na(x), Angle(y)); } catch (std::invalid_argument &) { threw = true; }
    irv_assert(threw == (y > HP || y < -HP), "the constructor throws iff the latitude is out of [-pi/2, pi/2]");
    if (threw) { irv_cover("throws"); return; }
    irv_assert(domain(p), "coordinates are in their domains, or both NaN");
    if (nan(x) || nan(y)) irv_assert(nan(p.getLon().asRadians()) && nan(p.getLat().asRadians()), "a NaN coordinate makes both NaN");
    else irv_assert(irv_same(p.getLon().asRadians(), x) && irv_same(p.getLat().asRadians(), y), "coordinates are kept");
    irv_assert(LonLat().getLon().asRadians() == 0.0 && LonLat().getLat().asRadians() == 0.0, "the default is (0, 0)");
}

SPEC(lonlat_from) {
    double x = irv_double("lon"), y = irv_double("lat");
    bool t1 = false, t2 = false, t3 = false, t4 = false;
    LonLat p, q, r, s;
    try { p = LonLat::fromRadians(x, y); } catch (std::invalid_argument &) { t1 = true; }
    try { q = LonLat(NormalizedAngle(x), Angle(y)); } catch (std::invalid_argument &) { t2 = true; }
    irv_assert(t1 == t2 && both(p.getLon().asRadians(), q.getLon().asRadians()) && both(p.getLat().asRadians(), q.getLat().asRadians()), "fromRadians(lon, lat) normalizes the longitude");
    irv_assert(domain(p), "fromRadians gives coordinates in their domains");
    try { r = LonLat::fromDegrees(x, y); } catch (std::invalid_argument &) { t3 = true; }
    try { s = LonLat::fromRadians(x * RAD_PER_DEG, y * RAD_PER_DEG); } catch (std::invalid_argument &) { t4 = true; }
    irv_assert(t3 == t4 && both(r.getLon().asRadians(), s.getLon().asRadians()) && both(r.getLat().asRadians(), s.getLat().asRadians()), "fromDegrees converts both coordinates");
    irv_assert(domain(r), "fromDegrees gives coordinates in their domains");
}

SPEC(lonlat_equal) {
    double x = irv_double("x"), y = irv_double("y"), u = irv_double("u"), v = irv_double("v");
    LonLat p = lonlat(x, y), q = lonlat(u, v);
    irv_assert((p == q) == (x == u && y == v), "== compares both coordinates");
    irv_assert((p != q) == !(p == q), "!= is the negation of ==");
}

SPEC(lonlat_vector) {
    double x = irv_double("x"), y = irv_double("y"), z = irv_double("z");
    LonLat p((Vector3d(x, y, z)));
    irv_assert(domain(p), "the coordinates of a vector are in their domains, or both NaN");
    irv_assert(irv_imp(!nan(x) && !nan(y) && !nan(z), !nan(p.getLon().asRadians())), "the coordinates of a vector without NaN are not NaN");
    double lat = LonLat::latitudeOf(Vector3d(x, y, z)).asRadians(), lon = LonLat::longitudeOf(Vector3d(x, y, z)).asRadians();
    if (!nan(x) && !nan(y) && !nan(z)) {
        irv_assert(irv_same(lat, p.getLat().asRadians()) && irv_same(lon, p.getLon().asRadians()), "latitudeOf and longitudeOf agree with the conversion");
        irv_assert(irv_imp(z > 0.0, lat >= 0.0) && irv_imp(z < 0.0, lat <= 0.0) && irv_imp(z == 0.0, lat == 0.0), "the latitude has the sign of z");
        irv_assert(irv_imp(x == 0.0 && y == 0.0, lon == 0.0), "the longitude of a pole is 0");
        irv_assert(irv_imp(y > 0.0, lon <= PI) && irv_imp(y < 0.0, lon >= PI || lon == 0.0), "the longitude is in the half plane of y");
    }
}

// the conventions of the class documentation
SPEC(lonlat_axes) {
    irv_assert(LonLat::latitudeOf(Vector3d(1, 0, 0)).asRadians() == 0.0 && LonLat::longitudeOf(Vector3d(1, 0, 0)).asRadians() == 0.0, "(1, 0, 0) is (0, 0)");
    irv_assert(LonLat::latitudeOf(Vector3d(0, 1, 0)).asRadians() == 0.0 && LonLat::longitudeOf(Vector3d(0, 1, 0)).asRadians() == HP, "(0, 1, 0) is (90, 0)");
    irv_assert(LonLat::latitudeOf(Vector3d(0, 0, 1)).asRadians() == HP && LonLat::longitudeOf(Vector3d(0, 0, 1)).asRadians() == 0.0, "(0, 0, 1) is (0, 90)");
    irv_assert(LonLat::latitudeOf(Vector3d(0, 0, -1)).asRadians() == -HP && LonLat::longitudeOf(Vector3d(0, -1, 0)).asRadians() == 1.5 * PI, "(0, 0, -1) and (0, -1, 0)");
}

#ifdef IRV_SIMD
extern "C" double portable_normalize(double *v);

SPEC(vec_normalize_nan) {
    double x = irv_double("x"), y = irv_double("y"), z = irv_double("z");
    irv_assume(nan(x) | nan(y) | nan(z));
    irv_split(fabs(x) > fabs(z)); irv_split(fabs(x) > fabs(y)); irv_split(fabs(y) > fabs(z));
    Vector3d v(x, y, z);
    double w[3] = {x, y, z};
    try { v.normalize(); } catch (std::runtime_error &) { return; }
    portable_normalize(w);
    irv_assert(nan(v.x()) | nan(v.y()) | nan(v.z()), "a vector with a NaN component does not become a vector without");
    irv_assert(nan(w[0]) | nan(w[1]) | nan(w[2]), "a vector with a NaN component does not become a vector without (portable)");
}

SPEC(vec_normalize) {
    double x = irv_double("x"), y = irv_double("y"), z = irv_double("z");
    irv_split(fabs(x) > fabs(z)); irv_split(fabs(x) > fabs(y)); irv_split(fabs(y) > fabs(z));
    Vector3d v(x, y, z);
    bool threw = false;
    double n = 0.0;
    try { n = v.normalize(); } catch (std::runtime_error &) { threw = true; }
    irv_assert(nan(x) | nan(y) | nan(z) | (threw == ((x == 0.0) & (y == 0.0) & (z == 0.0))), "normalize throws iff the vector is zero");
    double w[3] = {x, y, z}, m = 0.0;
    bool t2 = false;
    try { m = portable_normalize(w); } catch (std::runtime_error &) { t2 = true; }
    irv_assert(threw == t2, "the SIMD and the portable normalize throw alike");
    if (threw) { irv_cover("zero"); return; }
    irv_assert(both(n, m) && both(v.x(), w[0]) && both(v.y(), w[1]) && both(v.z(), w[2]), "the SIMD and the portable normalize agree");
    double big = fabs(x) >= fabs(y) ? (fabs(x) >= fabs(z) ? fabs(x) : fabs(z)) : (fabs(y) >= fabs(z) ? fabs(y) : fabs(z));
    if (!nan(x) && !nan(y) && !nan(z) && big - big == 0.0) {
        irv_assert(fabs(v.x()) <= 1.0 && fabs(v.y()) <= 1.0 && fabs(v.z()) <= 1.0, "normalized components are in [-1, 1]");
        irv_assert(irv_imp(x > 0.0, v.x() >= 0.0) && irv_imp(x < 0.0, v.x() <= 0.0) && irv_imp(x == 0.0, v.x() == 0.0), "normalize keeps the sign of x");
        irv_assert(irv_imp(y > 0.0, v.y() >= 0.0) && irv_imp(y < 0.0, v.y() <= 0.0) && irv_imp(y == 0.0, v.y() == 0.0), "normalize keeps the sign of y");
        irv_assert(irv_imp(z > 0.0, v.z() >= 0.0) && irv_imp(z < 0.0, v.z() <= 0.0) && irv_imp(z == 0.0, v.z() == 0.0), "normalize keeps the sign of z");
        irv_assert(irv_imp(fabs(x) <= fabs(y), fabs(v.x()) <= fabs(v.y())) && irv_imp(fabs(y) <= fabs(z), fabs(v.y()) <= fabs(v.z())) &&
                   irv_imp(fabs(z) <= fabs(x), fabs(v.z()) <= fabs(v.x())), "normalize keeps the order of the magnitudes");
        irv_assert(n >= big, "the norm is at least the largest component");
#ifdef IRV_NATIVE
        double s = v.x() * v.x() + v.y() * v.y() + v.z() * v.z();
        irv_assert(s > 1 - 1e-15 && s < 1 + 1e-15, "the normalized vector has norm 1");
#endif
    }
}
#endif
