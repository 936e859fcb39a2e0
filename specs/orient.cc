// Contracts of the orientation predicates: the sign of the exact determinant.  The verifier sees that sign as an
// uninterpreted function "det" whose meaning the back end for rounding errors knows.
#include "irv.h"
#include "lsst/sphgeom/UnitVector3d.h"
#include "lsst/sphgeom/orientation.h"
using namespace lsst::sphgeom;
typedef std::uint64_t u64;
#ifdef IRV_NATIVE
#include <boost/multiprecision/cpp_int.hpp>
#include <cmath>
namespace {
typedef boost::multiprecision::cpp_int Int;
// the sign of a . (b x c), over the integers
int det_sign(double const *a, double const *b, double const *c) {
    double v[9] = {a[0], a[1], a[2], b[0], b[1], b[2], c[0], c[1], c[2]};
    std::int64_t m[9];
    int e[9];
    for (int i = 0; i < 9; ++i) {
        double f = std::frexp(v[i], &e[i]);
        m[i] = (std::int64_t)std::ldexp(f, 53);
        e[i] -= 53;
    }
    static int const T[6][4] = {{0, 4, 8, 1}, {0, 5, 7, -1}, {1, 5, 6, 1}, {1, 3, 8, -1}, {2, 3, 7, 1}, {2, 4, 6, -1}};
    Int p[6];
    int x[6], low = 100000;
    for (int k = 0; k < 6; ++k) {
        p[k] = Int(m[T[k][0]]) * m[T[k][1]] * m[T[k][2]] * T[k][3];
        x[k] = e[T[k][0]] + e[T[k][1]] + e[T[k][2]];
        if (p[k] != 0 && x[k] < low) low = x[k];
    }
    Int s = 0;
    for (int k = 0; k < 6; ++k)
        if (p[k] != 0) s += p[k] << (x[k] - low);
    return s.sign();
}
}
#else
namespace {
int det_sign(double const *a, double const *b, double const *c) {
    u64 s = irv_uf9i("det", a[0], a[1], a[2], b[0], b[1], b[2], c[0], c[1], c[2]);
    irv_assume((s == 0) | (s == 1) | (s == ~u64(0)));
    return int(s);
}
}
namespace lsst { namespace sphgeom {
int contract_exact(Vector3d const &a, Vector3d const &b, Vector3d const &c) { return det_sign(&a._v[0], &b._v[0], &c._v[0]); }
}}
#endif
namespace {
double const U = 1.0000001, N = 1.0000000001;
struct V {
    double v[3];
    UnitVector3d unit() const { return UnitVector3d::fromNormalized(v[0], v[1], v[2]); }
    Vector3d vec() const { return Vector3d(v[0], v[1], v[2]); }
};
V unit(char const *x, char const *y, char const *z) {
    V r = {{irv_in(x, -U, U), irv_in(y, -U, U), irv_in(z, -U, U)}};
#ifdef IRV_NATIVE
    double n = std::sqrt(r.v[0] * r.v[0] + r.v[1] * r.v[1] + r.v[2] * r.v[2]);
    if (n > 1.00000000001) for (double &d : r.v) d /= n;
#endif
    irv_assume(r.v[0] * r.v[0] + r.v[1] * r.v[1] + r.v[2] * r.v[2] <= N);
    return r;
}
#ifdef IRV_NATIVE
double nudge(double x, int k) {
    for (; k > 0; --k) x = std::nextafter(x, 2);
    for (; k < 0; ++k) x = std::nextafter(x, -2);
    return x;
}
// nearly degenerate triples
void native(V &a, V &b, V &c) {
    unsigned mode = irv_u8("mode") % 8;
    u64 k = irv_u64("k");
    auto small = [&](int s) { return double(int((k >> s) & 15) - 7); };
    if (mode == 0) return;
    if (mode <= 2) {     // a combination of two
        double s = small(0), t = small(4), n = 0;
        for (int i = 0; i < 3; ++i) { c.v[i] = s * a.v[i] + t * b.v[i]; n += c.v[i] * c.v[i]; }
        if (n > 0) for (double &d : c.v) d /= std::sqrt(n);
        for (int i = 0; i < 3; ++i) c.v[i] = nudge(c.v[i], int((k >> (8 + 2 * i)) & 3) - 1);
    } else if (mode == 3) {     // small integers
        V *p[3] = {&a, &b, &c};
        for (int j = 0; j < 3; ++j)
            for (int i = 0; i < 3; ++i) p[j]->v[i] = small(4 * (3 * j + i)) / 16;
    } else if (mode == 4) {     // equal but for a few ulps
        b = a;
        for (int i = 0; i < 3; ++i) b.v[i] = nudge(b.v[i], int((k >> (2 * i)) & 3) - 1);
        if (k >> 63) for (double &d : b.v) d = -d;
        if ((k >> 62) & 1) for (int i = 0; i < 3; ++i) c.v[i] = nudge(a.v[i], int((k >> (8 + 2 * i)) & 3) - 1);
    } else if (mode == 5) {     // two small components
        for (double *v : {a.v, b.v, c.v})
            for (int i = 0; i < 3; ++i)
                if ((k >> i) & 1) v[i] = std::ldexp(v[i], -int((k >> 8) & 1023));
    } else if (mode == 6) {     // in a plane
        int i = k % 3;
        a.v[i] = b.v[i] = 0;
        c.v[i] = std::ldexp(1.0, -int((k >> 8) & 1023) - 40) * small(4);
    } else {     // a permutation
        for (int i = 0; i < 3; ++i) b.v[i] = a.v[(i + 1) % 3];
        for (int i = 0; i < 3; ++i) c.v[i] = nudge((a.v[i] + b.v[i]) / 2, int((k >> (2 * i)) & 3) - 1);
    }
}
#else
void native(V &, V &, V &) {}
#endif
}
SPEC(orient) {
    V a = unit("ax", "ay", "az"), b = unit("bx", "by", "bz"), c = unit("cx", "cy", "cz");
    native(a, b, c);
    int s = det_sign(a.v, b.v, c.v);
    irv_assert(orientation(a.unit(), b.unit(), c.unit()) == s, "the sign of the determinant");
}
namespace {
template <int K>
void axis() {
    V a = {{K == 0, K == 1, K == 2}}, b = unit("bx", "by", "bz"), c = unit("cx", "cy", "cz");
#ifdef IRV_NATIVE
    V d = a;
    native(d, b, c);
    if (irv_u8("plane") & 1) {
        double const f = double(1 + irv_u8("f") % 7) / double(1 + irv_u8("g") % 7);
        for (int i = 0; i < 3; ++i) c.v[i] = nudge(f * b.v[i], int((irv_u8("n") >> (2 * i)) & 3) - 1);
    }
#endif
    int s = det_sign(a.v, b.v, c.v);
    UnitVector3d p = b.unit(), q = c.unit();
    irv_assert((K == 0 ? orientationX(p, q) : K == 1 ? orientationY(p, q) : orientationZ(p, q)) == s, "the sign of the determinant");
}
}
SPEC(orient_x) { axis<0>(); }
SPEC(orient_y) { axis<1>(); }
SPEC(orient_z) { axis<2>(); }

#ifndef IRV_NATIVE
// ---- orientationExact, over the contracts of BigInteger (C04) and frexp.  The value of a BigInteger is followed as a sum of
// products of mantissas, each shifted by a number of bits.
#include "lsst/sphgeom/BigInteger.h"
namespace {
struct Term {
    std::int64_t f[3];
    int nf, sign;
    unsigned shift;
};
struct Value {
    Term t[6];
    int n;
    unsigned base;      // base + shift bounds its length
    unsigned shift;
};
Value g_val[60];
unsigned g_nval;
Value const *g_asked;
double g_in[9];
std::int64_t g_m[9];
int g_e[9];
u64 bits(double d) {
    u64 u;
    std::memcpy(&u, &d, 8);
    return u;
}
Value &val(BigInteger const *i) { return g_val[i->_size]; }
Value &fresh(BigInteger *i) {
    irv_assert(g_nval < 60, "as many numbers as a determinant has");
    i->_size = g_nval;
    i->_sign = 1;
    g_val[g_nval].n = 0;
    g_val[g_nval].base = g_val[g_nval].shift = 0;
    return g_val[g_nval++];
}
// digits for nbits bits, more for the operation
void capacity(BigInteger const *i, unsigned nbits, unsigned more) { irv_assert(int(nbits) <= int(32 * (i->_capacity - more)), "enough capacity"); }
}
extern "C" double contract_frexp(double d, int *e) {
    u64 k = irv_uf1("frexp exponent", bits(d));
    int x = std::int16_t(k);
    irv_assume(x >= -1073);
    irv_assume(x <= 1024);
    *e = x;
    double f = irv_bits(irv_uf1("frexp fraction", bits(d)));
    irv_assume((f > -1) & (f < 1));
    return f;
}
namespace lsst { namespace sphgeom {
void contract_set(BigInteger *i, std::int64_t x) {
    irv_assert(i->_capacity >= 2, "enough capacity");
    Value &v = fresh(i);
    v.n = 1;
    v.t[0].f[0] = x;
    v.t[0].nf = v.t[0].sign = 1;
    v.t[0].shift = 0;
    v.base = 64;
    v.shift = 0;
}
BigInteger *contract_assign(BigInteger *i, BigInteger const *j) {
    Value w = val(j);
    capacity(i, w.base + w.shift, 0);
    fresh(i) = w;
    return i;
}
BigInteger *contract_multiply(BigInteger *i, BigInteger const *j) {
    Value a = val(i), b = val(j);
    irv_assert(a.n == 1 && b.n == 1 && a.t[0].nf + b.t[0].nf <= 3, "products of three components");
    irv_assert(a.shift == 0 && b.shift == 0, "products of three components");
    capacity(i, a.base, (b.base + 31) >> 5);
    for (int k = 0; k < b.t[0].nf; ++k) a.t[0].f[a.t[0].nf + k] = b.t[0].f[k];
    a.t[0].nf += b.t[0].nf;
    a.t[0].sign *= b.t[0].sign;
    a.t[0].shift += b.t[0].shift;
    a.base += b.base;
    fresh(i) = a;
    return i;
}
void contract_negate(BigInteger *i) {
    Value a = val(i);
    for (int k = 0; k < a.n; ++k) a.t[k].sign = -a.t[k].sign;
    fresh(i) = a;
}
BigInteger *contract_pow2(BigInteger *i, unsigned n) {
    Value a = val(i);
    irv_assert(int(n) >= 0, "shifts by a difference of exponents");
    irv_assert(int(n) < 16384, "shifts by a difference of exponents");
    capacity(i, a.base + a.shift + n, 1);
    for (int k = 0; k < a.n; ++k) a.t[k].shift += n;
    a.shift += n;
    fresh(i) = a;
    return i;
}
BigInteger *contract_add(BigInteger *i, BigInteger const *j) {
    Value a = val(i), b = val(j);
    irv_assert(a.n + b.n <= 6, "a sum of six products");
    irv_assert(irv_known(b.shift == 0), "the second number is not shifted");
    if (a.base < b.base) a.base = b.base;
    capacity(i, a.base + a.shift, 1);
    for (int k = 0; k < b.n; ++k) a.t[a.n + k] = b.t[k];
    a.n += b.n;
    a.base += 1;
    fresh(i) = a;
    return i;
}
BigInteger *contract_subtract(BigInteger *i, BigInteger const *j) {
    Value b = val(j), old = b;
    for (int k = 0; k < b.n; ++k) b.t[k].sign = -b.t[k].sign;
    val(j) = b;
    contract_add(i, j);
    val(j) = old;
    return i;
}
int contract_sign(BigInteger const *i) {
    g_asked = &val(i);
    u64 s = irv_uf1("sign", 0);
    return int(s);
}
}}
SPEC(exact) {
    static int const T[6][4] = {{0, 4, 8, 1}, {0, 5, 7, -1}, {1, 5, 6, 1}, {1, 3, 8, -1}, {2, 3, 7, 1}, {2, 4, 6, -1}};
    static char const *const NAME[9] = {"ax", "ay", "az", "bx", "by", "bz", "cx", "cy", "cz"};
    for (int i = 0; i < 9; ++i) g_in[i] = irv_double(NAME[i]);
    for (int i = 0; i < 9; ++i) irv_assume((bits(g_in[i]) >> 52 & 2047) != 2047);
    for (int i = 0; i < 9; ++i) g_m[i] = static_cast<std::int64_t>(contract_frexp(g_in[i], &g_e[i]) * 9007199254740992.0);
    int x[6];
    for (int k = 0; k < 6; ++k) x[k] = g_e[T[k][0]] + g_e[T[k][1]] + g_e[T[k][2]];
    int first = irv_range("first", 0, 5);
    for (int k = 0; k < 6; ++k) irv_assume(k < first ? x[k] < x[first] : x[k] <= x[first]);
    g_nval = 0;
    g_asked = nullptr;
    Vector3d a(g_in[0], g_in[1], g_in[2]), b(g_in[3], g_in[4], g_in[5]), c(g_in[6], g_in[7], g_in[8]);
    int s = orientationExact(a, b, c);
    irv_assert(g_asked != nullptr, "asks for the sign of a number");
    irv_assert(s == int(irv_uf1("sign", 0)), "the sign of the number");
    Value const &v = *g_asked;
    irv_assert(v.n == 6, "six products");
    bool used[6] = {false, false, false, false, false, false};
    unsigned common = 0;
    for (int k = 0; k < 6; ++k) {
        int at = -1;
        for (int q = 0; q < 6; ++q) {
            if (used[q] || at >= 0 || v.t[q].nf != 3 || v.t[q].sign != T[k][3]) continue;
            bool got[3] = {false, false, false};
            int n = 0;
            for (int f = 0; f < 3; ++f)
                for (int g = 0; g < 3; ++g)
                    if (!got[g] && irv_known(v.t[q].f[g] == g_m[T[k][f]])) {
                        got[g] = true;
                        ++n;
                        break;
                    }
            if (n == 3) at = q;
        }
        irv_assert(at >= 0, "has each product of the determinant");
        used[at] = true;
        unsigned d = v.t[at].shift - unsigned(x[k]);
        if (k == 0) common = d;
        else irv_assert(d == common, "in proportion");
    }
}
// the value of frexp(d) * 2^53
SPEC(mantissa) {
    double d = irv_double("d");
    u64 u = bits(d), f = u & ((u64(1) << 52) - 1);
    int ex = int(u >> 52 & 2047);
    irv_assume(ex != 2047);
    // frexp by its definition
    u64 m = 0;
    double r = d;
    if (ex != 0) {
        m = f | u64(1) << 52;
        r = irv_bits((u & ~(u64(2047) << 52)) | u64(1022) << 52);
    } else if (f != 0) {
        int k = irv_range("k", 1, 52);
        irv_assume((f >> (52 - k)) == 1);
        m = f << k;
        r = irv_bits((u & u64(1) << 63) | u64(1022) << 52 | (m & ((u64(1) << 52) - 1)));
    }
    irv_assert(static_cast<std::int64_t>(r * 9007199254740992.0) == (u >> 63 ? -std::int64_t(m) : std::int64_t(m)), "the mantissa of a double as an integer");
}
#else
SPEC(exact) {
    V a, b, c;
    unsigned mode = irv_u8("mode") % 4;
    V *p[3] = {&a, &b, &c};
    static char const *const NAME[9] = {"ax", "ay", "az", "bx", "by", "bz", "cx", "cy", "cz"};
    for (int i = 0; i < 9; ++i) p[i / 3]->v[i % 3] = irv_double(NAME[i]);
    u64 k = irv_u64("k");
    int unused;
    for (int i = 0; i < 9; ++i) {
        double &d = p[i / 3]->v[i % 3];
        if (!std::isfinite(d)) d = 1;
        if (mode == 1) d = double(int((k >> (4 * i)) & 15) - 7);
        if (mode >= 2) d = std::ldexp(std::frexp(d, &unused), int((k >> (5 * i)) & 31) - 16);
    }
    if (mode == 3) c = a;
    if (mode == 3) for (double &d : c.v) d *= 3;
    if (mode == 3 && (k >> 50) % 3 == 0) c.v[0] = nudge(c.v[0], 1);
    irv_assert(orientationExact(a.vec(), b.vec(), c.vec()) == det_sign(a.v, b.v, c.v), "the sign of the determinant");
}
#endif
