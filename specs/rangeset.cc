// Contracts of RangeSet over every valid representation of bounded size with arbitrary contents.
#include "irv.h"
#include "lsst/sphgeom/RangeSet.h"
#include <utility>
#include <sstream>
using namespace lsst::sphgeom;
typedef std::uint64_t u64;
namespace {
#ifndef MA
#define MA 5
#define MB 4
#endif
// The representation: bookends, and strictly increasing values between them.
bool valid(std::vector<u64> const &v) {
    if (v.size() < 2) return false;
    bool ok = (v[0] == 0) & (v[v.size() - 1] == 0);
    for (std::size_t i = 1; i + 1 < v.size(); ++i) ok = ok & (v[i] > v[i - 1]);
    return ok;
}
bool valid(RangeSet const &s) { return valid(s._ranges); }
// Membership of u: inside when an odd number of toggles lies at or below u.
bool has(RangeSet const &s, u64 u) {
    bool r = !s._offset;
    for (std::size_t i = 1; i + 1 < s._ranges.size(); ++i) r = r ^ (s._ranges[i] <= u);
    return r;
}
// The points at which membership in s may change (and 0).
template <typename F>
bool all(RangeSet const &s, F f) {
    bool r = f(0);
    for (std::size_t i = 1; i + 1 < s._ranges.size(); ++i) r = r & f(s._ranges[i]);
    return r;
}
// every u with property f, a property that changes only where membership in a or b (or x or y) changes
template <typename F>
bool every(RangeSet const &a, RangeSet const &b, F f) { return all(a, f) & all(b, f); }
// An arbitrary set whose representation has n values; every such set of at most max values.
RangeSet any(char const *name, int lo, int hi, RangeSet const *near = nullptr) {
    RangeSet s;
#ifdef IRV_NATIVE
    // evaluated also for larger sets
    int n = irv_range(name, lo, hi + 6);
#else
    int n = irv_range(name, lo, hi);
#endif
    s._ranges.assign(n, 0);
    u64 last = 0;
    for (int i = 1; i + 1 < n; ++i) {
        u64 v = irv_u64(name);
#ifdef IRV_NATIVE
        // a value next to one of the other set, or next to the last one, more often than not
        if (near && (v & 3) == 1) {
            std::size_t k = i + ((v >> 2) & 3) - 1;
            v = (k && k + 1 < near->_ranges.size() ? near->_ranges[k] : last) + ((v >> 4) % 3) - 1;
        } else if (v & 1) v = last + 1 + (v >> 60);
        if (v <= last) v = last + 1;
#endif
        irv_assume(v > last);
        s._ranges[i] = v;
        last = v;
    }
    s._offset = irv_bool(name);
    return s;
}
RangeSet any_a(int hi = MA) { return any("a", 2, hi); }
RangeSet any_b(RangeSet const &a, int hi = MB) { return any("b", 2, hi, &a); }
// u in the range from f to l (the whole universe when they are equal, wrapping when l is below f)
bool in(u64 f, u64 l, u64 u) { return (f == l) | (u - f < l - f); }
u64 arg(char const *n, RangeSet const &s) {
    u64 v = irv_u64(n);
#ifdef IRV_NATIVE
    // a value near one of the set, more often than not
    std::size_t k = v & 15;
    if (k < s._ranges.size()) v = s._ranges[k] + ((v >> 4) % 3) - 1;
#endif
    return v;
}
}
// ---- C01: the operations are those of sets
SPEC(rs_insert) {
    RangeSet s = any_a(), o = s;
    u64 f = arg("f", o), l = arg("l", o), u = arg("u", o);
    s.insert(f, l);
    irv_assert(valid(s), "leaves a valid representation");
    irv_assert(has(s, u) == (has(o, u) | in(f, l, u)), "adds the range and nothing else");
}
SPEC(rs_insert_one) {
    RangeSet s = any_a(MA - 1), o = s;
    u64 f = arg("f", o), u = arg("u", o);
    s.insert(f);
    irv_assert(valid(s), "leaves a valid representation");
    irv_assert(has(s, u) == (has(o, u) | (u == f)), "adds the integer and nothing else");
}
SPEC(rs_insert_tuple) {
    RangeSet s = any_a(3), o = s;
    u64 f = arg("f", o), l = arg("l", o), u = arg("u", o);
    s.insert(std::make_tuple(f, l));
    irv_assert(valid(s), "leaves a valid representation");
    irv_assert(has(s, u) == (has(o, u) | in(f, l, u)), "adds the range and nothing else");
    RangeSet t = o;
    t.erase(std::make_tuple(f, l));
    irv_assert(valid(t), "leaves a valid representation");
    irv_assert(has(t, u) == (has(o, u) & !in(f, l, u)), "removes the range and nothing else");
}
SPEC(rs_erase) {
    RangeSet s = any_a(), o = s;
    u64 f = arg("f", o), l = arg("l", o), u = arg("u", o);
    s.erase(f, l);
    irv_assert(valid(s), "leaves a valid representation");
    irv_assert(has(s, u) == (has(o, u) & !in(f, l, u)), "removes the range and nothing else");
}
SPEC(rs_erase_one) {
    RangeSet s = any_a(MA - 1), o = s;
    u64 f = arg("f", o), u = arg("u", o);
    s.erase(f);
    irv_assert(valid(s), "leaves a valid representation");
    irv_assert(has(s, u) == (has(o, u) & (u != f)), "removes the integer and nothing else");
}
SPEC(rs_complement) {
    RangeSet s = any_a(), o = s, c = s.complemented(), n = ~s;
    u64 u = arg("u", o);
    irv_assert(&s.complement() == &s, "returns the set");
    irv_assert(valid(s) & valid(c) & valid(n), "valid representations");
    irv_assert(has(s, u) == !has(o, u), "complement");
    irv_assert(has(c, u) == !has(o, u), "complemented");
    irv_assert(has(n, u) == !has(o, u), "operator~");
}
#define BINARY(name, method, op, expr)                                                  \
    SPEC(rs_##name) {                                                                   \
        RangeSet a = any_a(), b = any_b(a);                                              \
        u64 w = arg("u", a);                                                            \
        RangeSet c = a.method(b);                                                       \
        irv_assert(valid(c), "has a valid representation");                             \
        bool x = has(a, w), y = has(b, w);                                              \
        irv_assert(has(c, w) == (expr), "is the set operation");                        \
    }                                                                                   \
    SPEC(rs_##name##_forms) {                                                           \
        RangeSet a = any_a(3), b = any_b(a, 3);                                            \
        u64 w = arg("u", a);                                                            \
        RangeSet d = a op b, e = a;                                                     \
        irv_assert(&(e op##= b) == &e, "returns the set");                              \
        bool x = has(a, w), y = has(b, w);                                              \
        irv_assert(valid(d) & valid(e), "valid representations");                       \
        irv_assert(has(d, w) == (expr), "the operator agrees");                         \
        irv_assert(has(e, w) == (expr), "the assignment agrees");                       \
        RangeSet f = a, g = a.method(a);                                                \
        f op##= f;                                                                      \
        y = x;                                                                          \
        irv_assert(valid(f) & valid(g), "valid representations");                       \
        irv_assert((has(f, w) == (expr)) & (has(g, w) == (expr)), "also with itself");  \
    }
BINARY(and, intersection, &, x &y)
BINARY(or, join, |, x | y)
BINARY(minus, difference, -, x & !y)
BINARY(xor, symmetricDifference, ^, x != y)

SPEC(rs_intersects) {
    RangeSet a = any_a(), b = any_b(a, MA);
    bool e = !every(a, b, [&](u64 u) { return !(has(a, u) & has(b, u)); });
    irv_assert(a.intersects(b) == e, "intersects exactly when there is a common integer");
    irv_assert(a.isDisjointFrom(b) == !e, "is disjoint exactly when there is none");
}
SPEC(rs_contains) {
    RangeSet a = any_a(), b = any_b(a, MA);
    bool e = every(a, b, [&](u64 u) { return irv_imp(has(b, u), has(a, u)); });
    irv_assert(a.contains(b) == e, "contains exactly when every integer is");
    irv_assert(b.isWithin(a) == e, "is within exactly when every integer is");
}
SPEC(rs_equal) {
    RangeSet a = any_a(), b = any_b(a);
    bool e = every(a, b, [&](u64 u) { return has(b, u) == has(a, u); });
    irv_assert((a == b) == e, "equal exactly when the integers are the same");
    irv_assert((a != b) == !e, "unequal exactly when they are not");
}
namespace {
// a range as a set (by the definition of has)
bool in_set(RangeSet const &a, u64 f, u64 l, bool within, bool some) {
    // over the points where anything changes: f, l, 0 and those of a
    auto g = [&](u64 u) {
        bool x = has(a, u), y = in(f, l, u);
        return some ? !(x & y) : within ? irv_imp(x, y) : irv_imp(y, x);
    };
    return all(a, g) & g(f) & g(l);
}
}
SPEC(rs_intersects_range) {
    RangeSet a = any_a();
    u64 f = arg("f", a), l = arg("l", a);
    bool e = !in_set(a, f, l, false, true);
    irv_assert(a.intersects(f, l) == e, "intersects exactly when there is a common integer");
    irv_assert(a.isDisjointFrom(f, l) == !e, "is disjoint exactly when there is none");
    irv_assert(a.intersects(f) == has(a, f), "intersects an integer");
    irv_assert(a.isDisjointFrom(f) == !has(a, f), "is disjoint from an integer");
}
SPEC(rs_contains_range) {
    RangeSet a = any_a();
    u64 f = arg("f", a), l = arg("l", a);
    irv_assert(a.contains(f, l) == in_set(a, f, l, false, false), "contains exactly when every integer is");
    irv_assert(a.contains(f) == has(a, f), "contains an integer");
}
SPEC(rs_within_range) {
    RangeSet a = any_a();
    u64 f = arg("f", a), l = arg("l", a);
    irv_assert(a.isWithin(f, l) == in_set(a, f, l, true, false), "is within exactly when every integer is");
    irv_assert(a.isWithin(f) == in_set(a, f, f + 1, true, false), "is within an integer");
}
SPEC(rs_construct) {
    u64 f = irv_u64("f"), l = irv_u64("l"), u = irv_u64("u");
    RangeSet e;
    irv_assert(valid(e) & !has(e, u), "default: empty");
    RangeSet one(f);
    irv_assert(valid(one) & (has(one, u) == (u == f)), "an integer");
    RangeSet r(f, l);
    irv_assert(valid(r) & (has(r, u) == in(f, l, u)), "a range");
    RangeSet t(std::make_tuple(f, l));
    irv_assert(valid(t) & (has(t, u) == in(f, l, u)), "a tuple");
    RangeSet c = r;
    c.clear();
    irv_assert(valid(c) & !has(c, u), "clear");
    c.fill();
    irv_assert(valid(c) & has(c, u), "fill");
}
SPEC(rs_list) {
    u64 a = irv_u64("a"), b = irv_u64("b"), u = irv_u64("u");
    RangeSet i({a, b});
    irv_assert(valid(i), "a valid representation");
    irv_assert(has(i, u) == ((u == a) | (u == b)), "a list of integers");
}
SPEC(rs_list_ranges) {
    u64 a = irv_u64("a"), b = irv_u64("b"), c = irv_u64("c"), d = irv_u64("d"), u = irv_u64("u");
    RangeSet p({std::make_pair(a, b), std::make_pair(c, d)});
    irv_assert(valid(p), "a valid representation");
    irv_assert(has(p, u) == (in(a, b, u) | in(c, d, u)), "a list of ranges");
}
SPEC(rs_iterator_pair) {
    u64 a = irv_u64("a"), b = irv_u64("b"), u = irv_u64("u");
    u64 v[2] = {a, b};
    RangeSet q(v, v + 2);
    irv_assert(valid(q), "a valid representation");
    irv_assert(has(q, u) == ((u == a) | (u == b)), "iterators");
}
// ---- C02: what the set shows of itself
SPEC(rs_iterate) {
    RangeSet a = any_a();
    u64 u = arg("u", a), prev = 0, n = 0, card = 0;
    bool first = true, member = false, sorted = true, wrap = false;
    for (RangeSet::Iterator i = a.begin(), e = a.end(); i != e; ++i, ++n) {
        u64 f = std::get<0>(*i), l = std::get<1>(*i);
        irv_assert(!wrap, "only the last range may end at the end of the universe");
        sorted = sorted & (first | (f > prev)) & ((l == 0) | (f < l));
        member = member | in(f, l, u);
        wrap = irv_split(l == 0);
        card += l - f;
        prev = l;
        first = false;
    }
    irv_assert(sorted, "the ranges are sorted, not empty, and do not touch");
    irv_assert(member == has(a, u), "the ranges make up the set");
    irv_assert(a.size() == n, "size is the number of ranges");
    irv_assert(a.empty() == (n == 0), "empty exactly without ranges");
    irv_assert(a.cardinality() == card, "cardinality is the number of integers (modulo 2^64)");
    irv_assert(a.isValid(), "is valid");
    irv_assert(a.cbegin() == a.begin() && a.cend() == a.end(), "constant iterators");
}
SPEC(rs_iterate_complement) {
    RangeSet a = any_a();
    u64 u = arg("u", a), prev = 0, n = 0;
    bool first = true, member = false, sorted = true;
    for (RangeSet::Iterator i = a.beginc(), e = a.endc(); i != e; ++i, ++n) {
        u64 f = std::get<0>(*i), l = std::get<1>(*i);
        sorted = sorted & (first | (f > prev)) & ((l == 0) | (f < l));
        member = member | in(f, l, u);
        prev = l;
        first = false;
    }
    irv_assert(sorted, "the ranges are sorted, not empty, and do not touch");
    irv_assert(member == !has(a, u), "the ranges make up the complement");
    irv_assert(a.full() == (n == 0), "full exactly when the complement has no ranges");
}
SPEC(rs_valid) {
    RangeSet a;
    int n = irv_range("n", 0, 5);
    a._ranges.assign(n, 0);
    for (int i = 0; i < n; ++i) a._ranges[i] = irv_u64("v");
    a._offset = irv_bool("o");
    irv_assert(a.isValid() == valid(a), "valid exactly when the invariant of the representation holds");
}
SPEC(rs_simplify) {
    RangeSet a = any_a(), o = a;
    u64 u = arg("u", a);
    std::uint32_t n = irv_u32("n");
#ifdef IRV_NATIVE
    if (n & 1) n = (n >> 1) % 66;
#endif
    irv_assert(&a.simplify(n) == &a, "returns the set");
    irv_assert(valid(a), "leaves a valid representation");
    // an integer belongs to the result exactly when one of its block of 2^n does
    u64 m = n >= 64 ? ~u64(0) : (u64(1) << n) - 1, lo = u & ~m;
    bool e = has(o, lo);
    for (std::size_t i = 1; i + 1 < o._ranges.size(); ++i) e = e | (has(o, o._ranges[i]) & ((o._ranges[i] & ~m) == lo));
    irv_assert(has(a, u) == e, "has exactly the blocks of 2^n integers that meet the set");
    RangeSet s = o.simplified(n);
    irv_assert(s == a, "simplified agrees");
}
SPEC(rs_scale) {
    RangeSet a = any_a(MA - 1), o = a;
    u64 k = irv_range("k", 0, 3);
    k = k == 3 ? irv_u64("i") : k;
    u64 v = irv_u64("v");
#ifdef IRV_NATIVE
    if (v & 1) k >>= (v >> 1) & 63;
#endif
    irv_assert(&a.scale(k) == &a, "returns the set");
    irv_assert(valid(a), "leaves a valid representation");
    RangeSet s = o.scaled(k);
    irv_assert(s == a, "scaled agrees");
    irv_assume(k != 0);
    u64 q = v / k;
    irv_assert(has(a, v) == has(o, q), "has exactly the integers whose quotient belongs to the set");
}
SPEC(rs_scale_zero) {
    RangeSet a = any_a(MA - 1);
    a.scale(0);
    irv_assert(valid(a) & a.empty(), "scaling by 0 leaves nothing");
}
SPEC(rs_copies) {
    RangeSet a = any_a(MA - 1), b = any_b(a, 3);
    u64 u = arg("u", a);
    RangeSet c(a);
    irv_assert(c == a, "a copy is equal");
    c.insert(0, 0);
    irv_assert(valid(a) & has(c, u), "and independent");
    RangeSet d(b);
    d = a;
    irv_assert(d == a, "assignment");
    RangeSet e(std::move(d));
    irv_assert(e == a, "move");
    d = b;
    irv_assert(d == b, "a moved-from set can be assigned");
    d = std::move(e);
    irv_assert(d == a, "move assignment");
    RangeSet x = a, y = b;
    x.swap(y);
    irv_assert((x == b) & (y == a), "swap");
    using std::swap;
    swap(x, y);
    irv_assert((x == a) & (y == b), "swap");
}
SPEC(rs_iterators) {
    RangeSet a = any_a();
    RangeSet::Iterator b = a.begin(), e = a.end();
    std::ptrdiff_t n = e - b;
    irv_assert(n == std::ptrdiff_t(a.size()), "distance");
    irv_assert((b + n == e) & (e - n == b) & (n + b == e), "arithmetic");
    irv_assert((b <= e) & (e >= b) & ((b < e) == (n > 0)) & ((e > b) == (n > 0)), "order");
    RangeSet::Iterator i = b;
    i += n;
    irv_assert(i == e, "+=");
    i -= n;
    irv_assert(i == b, "-=");
    if (n > 0) {
        RangeSet::Iterator j = i++;
        irv_assert((j == b) & (i - b == 1), "post-increment");
        irv_assert((i-- == b + 1) & (i == b), "post-decrement");
        irv_assert((++i == b + 1), "pre-increment");
        irv_assert((--i == b), "pre-decrement");
        irv_assert((std::get<0>(b[n - 1]) == std::get<0>(*(e - 1))) & (std::get<1>(b[n - 1]) == std::get<1>(*(e - 1))), "subscript");
    }
}
