// Contracts of BigInteger: exact integers, normalized, within the digit buffer.  Values are compared as two's complement
// numbers wide enough for the results.
#include "irv.h"
#include "lsst/sphgeom/BigInteger.h"
using namespace lsst::sphgeom;
typedef std::uint32_t u32;
typedef std::uint64_t u64;
namespace {
#ifdef IRV_NATIVE
int const ADD = 12, MUL = 8, SELF = 8, POW = 8, SHIFT = 300;
#else
int const ADD = 4, MUL = 4, SELF = 2, POW = 3, SHIFT = 100, MAXSUM = 5;
#endif
int const W = 24;
struct Buf {
    u32 *d;
    unsigned cap;
    Buf(unsigned c) : d(new u32[c]), cap(c) {}
    Buf(Buf const &) = delete;
    ~Buf() { delete[] d; }
};
// a number of n digits in a buffer of the given capacity, whose other digits are arbitrary
void number(BigInteger &i, Buf &b, char const *name, unsigned n, bool negative) {
    for (unsigned k = 0; k < b.cap; ++k) b.d[k] = irv_u32(name);
    if (n > 0) irv_assume(b.d[n - 1] != 0);
    i._size = n;
    i._sign = n == 0 ? 0 : negative ? -1 : 1;
}
// |i| (in W digits), negated when asked
struct Value {
    u32 v[W];
};
void value(Value &r, u32 const *d, unsigned cap, unsigned size, bool negative) {
    u64 c = negative ? 1 : 0;
    for (unsigned k = 0; k < W; ++k) {
        u32 x = 0;
        if (k < cap) x = d[k] & (u32(0) - u32(k < size));
        c += u32(negative ? ~x : x);
        r.v[k] = u32(c);
        c >>= 32;
    }
}
Value value(BigInteger const &i) {
    Value r;
    value(r, i._digits, i._capacity, i._size, i._sign < 0);
    return r;
}
void same(BigInteger const &i, Value const &e, Buf const &b) {
    irv_assert(i._digits == b.d, "keeps its buffer");
    irv_assert(i._capacity == b.cap, "keeps its capacity");
    irv_assert(i._size <= b.cap, "within the capacity");
    irv_assert(i._sign == 0 || i._sign == 1 || i._sign == -1, "the sign is -1, 0 or 1");
    irv_assert((i._size == 0) == (i._sign == 0), "zero has no digits");
    bool top = true;
    for (unsigned k = 0; k < b.cap; ++k) top &= !(i._size == k + 1) | (b.d[k] != 0);
    irv_assert(top, "no leading zero digit");
    Value g = value(i);
    bool eq = true;
    for (unsigned k = 0; k < W; ++k) eq &= g.v[k] == e.v[k];
    irv_assert(eq, "the exact value");
    irv_assert(i.getSign() == i._sign && i.getSize() == i._size && i.getCapacity() == i._capacity && i.getDigits() == i._digits, "accessors");
}
Value plus(Value const &a, Value const &b, bool minus) {
    Value r;
    u64 c = minus;
    for (unsigned k = 0; k < W; ++k) {
        c += u64(a.v[k]) + u32(minus ? ~b.v[k] : b.v[k]);
        r.v[k] = u32(c);
        c >>= 32;
    }
    return r;
}
template <bool MINUS>
void sum() {
    unsigned n = irv_range("an", 0, ADD), m = irv_range("bn", 0, ADD);
    unsigned big = n > m ? n : m;
    bool an = irv_range("as", 0, 1), bn = irv_range("bs", 0, 1);
    irv_assume((n > 0) | !an);
    irv_assume((m > 0) | !bn);
    Buf p(n + irv_range("more", 0, 1) + (big - n)), q(m);
    BigInteger a(p.d, p.cap), b(q.d, q.cap);
    number(a, p, "a", n, an);
    number(b, q, "b", m, bn);
    Value x = value(a), y = value(b), e = plus(x, y, MINUS);
    bool threw = false;
    try {
        BigInteger &r = MINUS ? a.subtract(b) : a.add(b);
        irv_assert(&r == &a, "returns the number");
    } catch (std::runtime_error const &) { threw = true; }
    if (!threw) same(a, e, p);
    else irv_assert(p.cap < big + 1, "enough capacity");
    same(b, y, q);
}
}
SPEC(bi_add) { sum<false>(); }
SPEC(bi_subtract) { sum<true>(); }
SPEC(bi_small_capacity) {
    // fewer digits than the result has: throws
    unsigned n = irv_range("an", 0, 3), m = irv_range("bn", 1, 4), cap = irv_range("cap", 0, 4);
    irv_assume(cap >= n);
    bool neg = irv_range("as", 0, 1), bneg = irv_range("bs", 0, 1);
    irv_assume((n > 0) | !neg);
    Buf p(cap), q(m);
    BigInteger a(p.d, p.cap), b(q.d, q.cap);
    number(a, p, "a", n, neg);
    number(b, q, "b", m, bneg);
    int op = irv_range("op", 0, 3);
    irv_assume((op != 2) | (n + m <= 3));
    bool threw = false;
    try {
        if (op == 0) a.add(b);
        else if (op == 1) a.subtract(b);
        else if (op == 2) a.multiply(b);
        else a = b;
    } catch (std::runtime_error const &) { threw = true; }
    irv_assert(threw | (a._size <= cap), "throws when the result does not fit");
    unsigned need = op == 2 ? (n ? n + m : 0) : op == 3 ? m : (n > m ? n : m) + 1;
    irv_assert(!threw | (cap < need), "does not throw otherwise");
    irv_assert((op != 3) | (threw == (cap < m)), "an assignment needs its digits");
}
SPEC(bi_add_self) {
    unsigned n = irv_range("an", 0, ADD);
    bool neg = irv_range("as", 0, 1);
    irv_assume((n > 0) | !neg);
    Buf p(n + irv_range("more", 0, 1));
    BigInteger a(p.d, p.cap);
    number(a, p, "a", n, neg);
    Value x = value(a), e = plus(x, x, false);
    bool threw = false;
    try {
        a.add(a);
    } catch (std::runtime_error const &) { threw = true; }
    if (threw) irv_assert(p.cap < n + 1, "enough capacity");
    else same(a, e, p);
}
SPEC(bi_subtract_self) {
    unsigned n = irv_range("an", 0, ADD);
    bool neg = irv_range("as", 0, 1);
    irv_assume((n > 0) | !neg);
    Buf p(n);
    BigInteger a(p.d, p.cap);
    number(a, p, "a", n, neg);
    a.subtract(a);
    Value e = {};
    same(a, e, p);
}
SPEC(bi_negate) {
    unsigned n = irv_range("an", 0, ADD);
    bool neg = irv_range("as", 0, 1);
    irv_assume((n > 0) | !neg);
    Buf p(n), q(ADD + 1);
    BigInteger a(p.d, p.cap), c(q.d, q.cap);
    number(a, p, "a", n, neg);
    Value zero = {}, x = value(a);
    same(c, zero, q);
    c = a;
    same(c, x, q);
    same(a, x, p);
    BigInteger &self = a;
    a = self;
    same(a, x, p);
    a.negate();
    same(a, plus(zero, x, true), p);
    same(c, x, q);
    a.setToZero();
    same(a, zero, p);
}
SPEC(bi_set) {
    unsigned cap = irv_range("cap", 0, 3), n = irv_range("an", 0, 3);
    irv_assume(n <= cap);
    Buf p(cap);
    BigInteger a(p.d, p.cap);
    number(a, p, "a", n, false);
    u64 x = irv_u64("x");
    bool is = irv_range("signed", 0, 1), threw = false;
    try {
        if (is) a.setTo(std::int64_t(x));
        else a.setTo(x);
    } catch (std::runtime_error const &) { threw = true; }
    irv_assert(threw == (cap < 2), "throws when the capacity is too small");
    if (threw) return;
    u32 ext = is && (x >> 63) ? ~u32(0) : 0;
    Value e;
    for (unsigned k = 0; k < W; ++k) e.v[k] = ext;
    e.v[0] = u32(x);
    e.v[1] = u32(x >> 32);
    same(a, e, p);
}
SPEC(bi_pow2) {
    unsigned s = irv_range("s", 0, SHIFT), n = irv_range("an", 0, POW), z = s / 32;
    bool neg = irv_range("as", 0, 1);
    irv_assume((n > 0) | !neg);
    Buf p(n + z + irv_range("more", 0, 1));
    BigInteger a(p.d, p.cap);
    number(a, p, "a", n, neg);
    Value x = value(a), e;
    for (unsigned k = 0; k < W; ++k) {
        u32 hi = k >= z ? x.v[k - z] : 0, lo = k > z ? x.v[k - z - 1] : 0;
        e.v[k] = s % 32 ? (hi << s % 32) | (lo >> (32 - s % 32)) : hi;
    }
    bool threw = false;
    try {
        irv_assert(&a.multiplyPow2(s) == &a, "returns the number");
    } catch (std::runtime_error const &) { threw = true; }
    if (threw) irv_assert(p.cap < n + z + 1, "enough capacity");
    else same(a, e, p);
}
// shifts of any size by more than the buffer
SPEC(bi_pow2_large) {
    unsigned s = irv_u32("s"), n = irv_range("an", 1, 3), cap = n + irv_range("more", 0, 2);
    irv_assume(s / 32 + n > cap);
    Buf p(cap);
    BigInteger a(p.d, p.cap);
    number(a, p, "a", n, false);
    Value x = value(a);
    bool threw = false;
    try {
        a.multiplyPow2(s);
    } catch (std::runtime_error const &) { threw = true; }
    irv_assert(threw, "throws");
    same(a, x, p);
}
namespace {
// the digits of a * b, least significant first
struct Product {
    u32 t[2 * MUL + 1];
    Product(u32 const *a, unsigned n, u32 const *b, unsigned m) : t() {
        for (unsigned i = n; i-- > 0;) {
            u64 c = 0;
            for (unsigned j = 0; i + j < n + m; ++j) {
                c += t[i + j];
                if (j < m) c += u64(b[j]) * u64(a[i]);
                t[i + j] = u32(c);
                c >>= 32;
            }
        }
    }
};
void is_product(BigInteger const &i, Product const &e, unsigned size, int sign, Buf const &b) {
    irv_assert(i._digits == b.d && i._capacity == b.cap, "keeps its buffer");
    irv_assert(i._sign == sign, "the sign");
    if (sign == 0) {
        irv_assert(i._size == 0, "zero has no digits");
        return;
    }
    irv_assert(i._size == size || i._size == size - 1, "as many digits as the factors have, or one less");
    for (unsigned k = 0; k < size - 1; ++k) irv_assert(b.d[k] == e.t[k], "the exact value");
    irv_assert((i._size == size ? b.d[size - 1] : 0) == e.t[size - 1], "the exact value");
    irv_assert(b.d[i._size - 1] != 0, "no leading zero digit");
}
}
SPEC(bi_multiply) {
    unsigned n = irv_range("an", 0, MUL), m = irv_range("bn", 0, MUL);
    bool an = irv_range("as", 0, 1), bn = irv_range("bs", 0, 1);
    irv_assume((n > 0) | !an);
    irv_assume((m > 0) | !bn);
#ifndef IRV_NATIVE
    irv_assume(n + m <= MAXSUM);
#endif
    Buf p(n + (n ? m : 0)), q(m);
    BigInteger a(p.d, p.cap), b(q.d, q.cap);
    number(a, p, "a", n, an);
    number(b, q, "b", m, bn);
    Value y = value(b);
    Product e(p.d, n, q.d, m);
    irv_assert(&a.multiply(b) == &a, "returns the number");
    is_product(a, e, n + m, n == 0 || m == 0 ? 0 : an != bn ? -1 : 1, p);
    same(b, y, q);
}
SPEC(bi_multiply_self) {
    unsigned n = irv_range("an", 0, SELF);
    bool neg = irv_range("as", 0, 1);
    irv_assume((n > 0) | !neg);
    Buf p(2 * n);
    BigInteger a(p.d, p.cap);
    number(a, p, "a", n, neg);
    Product e(p.d, n, p.d, n);
    irv_assert(&a.multiply(a) == &a, "returns the number");
    is_product(a, e, 2 * n, n != 0, p);
}
#ifdef IRV_NATIVE
#include <boost/multiprecision/cpp_int.hpp>
#endif
// any sequence of operations
SPEC(bi_history) {
#ifdef IRV_NATIVE
    typedef boost::multiprecision::cpp_int Int;
    static u32 buf[3][200];
    BigInteger b[3] = {BigInteger(buf[0], 200), BigInteger(buf[1], 200), BigInteger(buf[2], 200)};
    Int v[3];
    int steps = irv_range("steps", 1, 24);
    for (int t = 0; t < steps; ++t) {
        unsigned op = irv_u8("op") % 8, i = irv_u8("i") % 3, j = irv_u8("j") % 3;
        if (op == 0 || (op >= 4 && b[i]._size + b[j]._size > 60)) {
            std::int64_t x = std::int64_t(irv_u64("x"));
            b[i].setTo(x);
            v[i] = x;
        } else if (op == 1) { b[i].negate(); v[i] = -v[i]; }
        else if (op == 2) { b[i].add(b[j]); v[i] += Int(v[j]); }
        else if (op == 3) { b[i].subtract(b[j]); v[i] -= Int(v[j]); }
        else if (op == 4) { b[i].multiply(b[j]); v[i] *= Int(v[j]); }
        else if (op == 5) {
            unsigned s = irv_u8("s");
            b[i].multiplyPow2(s);
            v[i] <<= s;
        } else if (op == 6) { b[i] = b[j]; v[i] = v[j]; }
        else { b[i].add(b[j]); v[i] += Int(v[j]); b[i].subtract(b[(j + 1) % 3]); v[i] -= Int(v[(j + 1) % 3]); }
        Int g = 0;
        for (unsigned k = b[i]._size; k > 0; --k) g = (g << 32) + b[i]._digits[k - 1];
        if (b[i]._sign < 0) g = -g;
        irv_assert(g == v[i], "the exact value");
        irv_assert(b[i]._sign == v[i].sign() && (b[i]._size == 0 || b[i]._digits[b[i]._size - 1] != 0) && (b[i]._size == 0) == (b[i]._sign == 0), "normalized");
    }
#endif
}
