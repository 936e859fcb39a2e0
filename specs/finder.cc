// Contracts of the pixel finders.  A set of pixels is seen through one arbitrary index U: whether it belongs to the set.
// visit() is verified against its contract with its recursive calls replaced by that contract, so that the
// statements hold at every depth; the relation of a pixel to the region is arbitrary.
#include "irv.h"
#include <stdexcept>
#include "lsst/sphgeom/UnitVector3d.h"
#include "lsst/sphgeom/Relationship.h"
#include "lsst/sphgeom/RangeSet.h"
#include "lsst/sphgeom/Circle.h"
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/Ellipse.h"
#include "lsst/sphgeom/CompoundRegion.h"
typedef std::uint64_t u64;
namespace {
// what a finder is asked to search: the answers about its pixels are arbitrary
struct Answer {};
bool g_asked;
lsst::sphgeom::UnitVector3d const *g_pixel;
unsigned g_rel;      // the answer about the pixel that is visited
u64 U;               // the index that is followed
unsigned g_leaf;     // the relation of the pixel U to the region
bool g_interior;
u64 g_size, g_max;   // the number of ranges in the set, and its limit
bool g_trivial;      // the set is empty or full
u64 g_first, g_last; // the range that was inserted last
bool g_have;
int g_D;             // the level
}  // namespace
#if defined(HTM)
#define PIX HtmPixelization
#define FINDER HtmPixelFinder
#define NV 3
#elif defined(MQ3C)
#define PIX Mq3cPixelization
#define FINDER Mq3cPixelFinder
#define NV 4
#else
#define PIX Q3cPixelization
#define FINDER Q3cPixelFinder
#define NV 4
#endif
#ifndef IRV_NATIVE
namespace lsst { namespace sphgeom { namespace detail {
template <typename It>
Relationship relate(It const begin, It const end, Answer const &) {
    irv_assert(end - begin == NV, "as many vertices as a pixel has");
    irv_assert(begin == g_pixel, "asks about the pixel that is visited");
    g_asked = true;
    return Relationship(g_rel);
}
}}}
#endif
#if defined(HTM)
#include "../src/HtmPixelization.cc"
#elif defined(MQ3C)
#include "../src/Mq3cPixelization.cc"
#else
#include "../src/Q3cPixelization.cc"
#endif
using namespace lsst::sphgeom;
namespace {
int const MAXL = PIX::MAX_LEVEL;
#if defined(HTM)
u64 const LO = 8, HI = 16;
#elif defined(MQ3C)
u64 const LO = 10, HI = 16;
#else
u64 const LO = 0, HI = 6;
#endif
}
#ifndef IRV_NATIVE
namespace {
bool disjoint(unsigned r) { return (r & 1) != 0; }
bool within(unsigned r) { return (r & 4) != 0; }
// the pixel (index, level) is an ancestor of U, or U itself
bool under(u64 index, int level) { return (U >> (2 * (g_D - level))) == index; }
// U lies in the pixel of level l that (index, level) lies in
bool in_block(u64 index, int level, int l) {
    l = l < level ? l : level;
    return (U >> (2 * (g_D - l))) == (index >> (2 * (level - l)));
}
// what U has to do with the region
bool wanted() { return g_interior ? within(g_leaf) : !disjoint(g_leaf); }
bool member(RangeSet const &s) { return !s._offset; }
void set_member(RangeSet &s, bool m) { s._offset = !m; }
void set_size() {
    g_size = irv_u64("size");
    irv_assume(!(g_trivial & (g_size > 1)));
}
bool valid(u64 index, int level) { return ((index >> (2 * level)) >= LO) & ((index >> (2 * level)) < HI); }
template <bool I> using Base = detail::PixelFinder<FINDER<Answer, I>, Answer, I, NV>;
}
namespace lsst { namespace sphgeom {
// ---- the contracts of RangeSet (C01, C02) for U
void contract_insert(RangeSet *s, u64 f, u64 l) {
    irv_assert(f != l, "a range that is not everything");
    bool in = U - f < l - f;
    set_member(*s, member(*s) | in);
    g_first = f;
    g_last = l;
    g_have = true;
    g_trivial = false;
    set_size();
}
u64 contract_size(RangeSet const *) { return g_size; }
RangeSet *contract_complement(RangeSet *s) {
    set_member(*s, !member(*s));
    g_have = false;
    set_size();
    return s;
}
RangeSet *contract_simplify(RangeSet *s, std::uint32_t n) {
    bool all = n >= 64;
    u64 m = all ? ~u64(0) : (u64(1) << (n & 63)) - 1, lo = U & ~m, hi = U | m;
    // the block of U meets the range that was inserted last
    bool meets = g_have & (all | ((lo <= g_last - 1) & (g_first <= hi)));
    set_member(*s, member(*s) | meets | irv_bool("simplified"));
    g_trivial = all;
    set_size();
    return s;
}
// ---- the contract of visit
struct State {
    bool m;
    int level;
};
template <bool I>
void visit_pre(Base<I> const &f, u64 index, int level) {
    irv_assert((level >= 0) & (level <= g_D), "a level of the pixelization");
    irv_assert(valid(index, level), "a pixel of the level");
    irv_assert((f._level >= 0) & (f._level <= g_D), "the current level is one of the pixelization");
    irv_assert(I | !(f._level < level) | !in_block(index, level, f._level) | member(*f._ranges), "nothing is skipped that is not in the set");
    irv_assert(g_size <= g_max, "no more ranges than the limit");
}
template <bool I>
bool visit_post(bool old, int oldlevel, Base<I> const &f, u64 index, int level) {
    bool m = member(*f._ranges), u = under(index, level);
    bool ok = (f._level >= 0) & (f._level <= oldlevel) & (g_size <= g_max);
    if (g_max == ~u64(0)) return ok & (f._level == oldlevel) & (m == (old | (u & wanted())));
    if (I) return ok & irv_imp(m, old | (u & wanted()));
    return ok & irv_imp(old, m) & irv_imp(u & wanted(), m) & irv_imp((f._level < level) & in_block(index, level, f._level), m);
}
template <bool I>
void visit_contract(Base<I> *f, UnitVector3d const *pixel, u64 index, int level) {
    visit_pre<I>(*f, index, level);
#ifndef HTM
    for (int k = 0; k < NV; ++k)
        irv_assert(irv_same(pixel[k].x(), irv_uf3i("quad", index, level, k) ? 1.0 : 0.0), "the vertices of the pixel");
#endif
    bool old = member(*f->_ranges);
    int oldlevel = f->_level;
    if (g_max != ~u64(0)) f->_level = int(irv_u8("level"));
    set_member(*f->_ranges, irv_bool("member"));
    g_size = irv_u64("size");
    g_trivial = g_have = false;
    irv_assume(visit_post<I>(old, oldlevel, *f, index, level));
}
void contract_visit(void *f, UnitVector3d const *pixel, u64 index, int level) {
    if (g_interior) visit_contract<true>(static_cast<Base<true> *>(f), pixel, index, level);
    else visit_contract<false>(static_cast<Base<false> *>(f), pixel, index, level);
}
// ---- the contract of _insert (the pixel visited is wanted as a whole)
template <bool I>
bool insert_post(bool old, int oldlevel, Base<I> const &f, u64 index, int level) {
    bool m = member(*f._ranges), u = under(index, level);
    bool ok = (f._level >= 0) & (f._level <= oldlevel) & (g_size <= g_max);
    if (I) return ok & irv_imp(m, old | u);
    return ok & irv_imp(old | u, m) & irv_imp((f._level < level) & in_block(index, level, f._level), m);
}
template <bool I>
void insert_contract(Base<I> *f, u64 index, int level) {
    irv_assert((level >= 0) & (level <= f->_level) & (f->_level <= g_D), "a level that is visited");
    irv_assert(valid(index, level), "a pixel of the level");
    bool old = member(*f->_ranges);
    int oldlevel = f->_level;
    f->_level = int(irv_u8("level"));
    set_member(*f->_ranges, irv_bool("member"));
    g_size = irv_u64("size");
    g_trivial = g_have = false;
    irv_assume(insert_post<I>(old, oldlevel, *f, index, level));
}
void contract_finder_insert(void *f, u64 index, int level) {
    if (g_interior) insert_contract<true>(static_cast<Base<true> *>(f), index, level);
    else insert_contract<false>(static_cast<Base<false> *>(f), index, level);
}
void contract_quad(u64 i, int level, UnitVector3d *v) {
    irv_assert(valid(i, level), "the vertices of a pixel that exists");
    for (int k = 0; k < NV; ++k) v[k] = UnitVector3d::fromNormalized(irv_uf3i("quad", i, level, k) ? 1.0 : 0.0, 0, 0);
}
}}
namespace {
// the set before a visit
void start(RangeSet &s, bool interior, bool limited) {
    g_interior = interior;
    g_D = irv_u8("D");
    irv_assume((g_D >= 0) & (g_D <= MAXL));
    U = irv_u64("U");
    g_leaf = irv_u8("leaf") & 7;
    irv_assume(!(disjoint(g_leaf) & within(g_leaf)));
    g_max = limited ? irv_u64("max") : 0;
    irv_assume(!limited | (g_max != 0));
    g_have = g_trivial = g_asked = false;
    (void)s;
}
template <bool I>
void check_visit(bool limited) {
    RangeSet s;
    start(s, I, limited);
    Answer a;
    FINDER<Answer, I> find(s, a, g_D, g_max);
    if (!limited) g_max = ~u64(0);
    irv_assert((find._desiredLevel == g_D) & (find._level == g_D) & (find._maxRanges == g_max) & (find._ranges == &s) & (find._region == &a), "a finder of the given search");
    // any state in which visit may be called
    set_member(s, irv_bool("member"));
    int level = irv_u8("l"), cur = irv_u8("cur");
    irv_assume(level <= g_D);
    irv_assume(cur <= g_D);
    irv_assume(limited | (cur == g_D));
    find._level = cur;
    u64 index = irv_u64("i");
    irv_assume(valid(index, level));
    irv_assume(I | !(cur < level) | !in_block(index, level, cur) | member(s));
    g_size = irv_u64("size");
    irv_assume(g_size <= g_max);
    // consistent answers: a pixel that is disjoint from (within) the region has only pixels that are
    g_rel = irv_u8("rel") & 7;
    irv_assume(!(disjoint(g_rel) & within(g_rel)));
    bool u = under(index, level);
    irv_assume(irv_imp(u & disjoint(g_rel), disjoint(g_leaf)));
    irv_assume(irv_imp(u & within(g_rel), within(g_leaf)));
    irv_assume(irv_imp(u & (level == g_D), g_rel == g_leaf));
    UnitVector3d p[NV];
    g_pixel = p;
    bool old = member(s);
    find.visit(p, index, level);
    int now = find._level;
    irv_assert((now >= 0) & (now <= cur), "the level is only lowered");
    irv_assert(g_size <= g_max, "no more ranges than the limit");
    bool m = member(s);
    if (!limited) {
        irv_assert(now == cur, "without a limit the level stays");
        irv_assert(m == (old | (u & wanted())), "adds exactly the wanted pixels below the one visited");
    } else if (I) {
        irv_assert(irv_imp(m, old | (u & wanted())), "adds only wanted pixels below the one visited");
    } else {
        irv_assert(irv_imp(old, m), "loses nothing");
        irv_assert(irv_imp(u & wanted(), m), "adds all wanted pixels below the one visited");
        irv_assert(irv_imp((now < level) & in_block(index, level, now), m), "a pixel of a lowered level is complete");
    }
}
template <bool I>
void check_insert() {
    RangeSet s;
    start(s, I, true);
    Answer a;
    FINDER<Answer, I> find(s, a, g_D, g_max);
    set_member(s, irv_bool("member"));
    int d = irv_range("d", 0, MAXL), cur = irv_u8("cur"), level = g_D - d;
    irv_assume(level >= 0);
    irv_assume((level <= cur) & (cur <= g_D));
    find._level = cur;
    u64 index = irv_u64("i");
    irv_assume((index >> (2 * level)) < 16);      // of any of the pixelizations
    g_size = irv_u64("size");
    irv_assume(g_size <= g_max);
    bool old = member(s);
    find._insert(index, level);
    irv_assert((find._level >= 0) & (find._level <= cur), "the level is only lowered");
    irv_assert(g_size <= g_max, "no more ranges than the limit");
    irv_assert(insert_post<I>(old, cur, find, index, level), I ? "adds only the pixels below the one given" : "adds the pixels below the one given, and whole blocks of a lowered level");
}
// all roots, visit by its contract
template <bool I>
void check_roots(bool limited) {
    RangeSet s;
    start(s, I, limited);
    Answer a;
    FINDER<Answer, I> find(s, a, g_D, g_max);
    if (!limited) g_max = ~u64(0);
    g_size = 0;
    bool exists = valid(U, g_D);
    find();
    bool m = member(s);
    irv_assert(g_size <= g_max, "no more ranges than the limit");
    if (!limited) irv_assert(m == (exists & wanted()), "finds exactly the wanted pixels");
    else if (I) irv_assert(irv_imp(m, exists & wanted()), "finds only wanted pixels");
    else irv_assert(irv_imp(exists & wanted(), m), "finds all wanted pixels");
}
}
SPEC(visit_envelope) { check_visit<false>(false); }
SPEC(visit_interior) { check_visit<true>(false); }
SPEC(visit_envelope_limited) { check_visit<false>(true); }
SPEC(visit_interior_limited) { check_visit<true>(true); }
SPEC(insert_envelope) { check_insert<false>(); }
SPEC(insert_interior) { check_insert<true>(); }
SPEC(roots_envelope) { check_roots<false>(false); }
SPEC(roots_interior) { check_roots<true>(false); }
SPEC(roots_envelope_limited) { check_roots<false>(true); }
SPEC(roots_interior_limited) { check_roots<true>(true); }

// ---- findPixels and the public interface
namespace {
unsigned g_runs;
int g_type;
void const *g_region[4];
bool g_found[4];
u64 g_arg_max;
int g_arg_level;
Circle g_circle;
Region const *g_finds[4];
unsigned g_nfinds;
u64 unlimited(u64 m) { return m == 0 ? ~u64(0) : m; }
}
namespace lsst { namespace sphgeom {
template <typename R>
void run(Base<false> *f, int type) {
    irv_assert(g_runs < 4, "as many searches as regions");
    irv_assert(f->_level == g_arg_level && f->_desiredLevel == g_arg_level, "searches at the level");
    irv_assert(f->_maxRanges == unlimited(g_arg_max), "searches for no more ranges than the limit");
    g_region[g_runs] = f->_region;
    g_type = type;
    if (type == 0) g_circle = *reinterpret_cast<Circle const *>(f->_region);
    bool m = irv_bool("found");
    set_member(*f->_ranges, m);
    g_size = irv_u64("size");
    irv_assume(g_size <= unlimited(g_arg_max));
    g_found[g_runs++] = m;
}
void contract_run_circle(void *f) { run<Circle>(static_cast<Base<false> *>(f), 0); }
void contract_run_box(void *f) { run<Box>(static_cast<Base<false> *>(f), 1); }
void contract_run_polygon(void *f) { run<ConvexPolygon>(static_cast<Base<false> *>(f), 2); }
void contract_find(RangeSet *out, Region const *r, u64 maxRanges, int level) {
    irv_assert(g_nfinds < 4, "as many searches as regions");
    irv_assert(maxRanges == g_arg_max, "with the given limit");
    irv_assert(level == g_arg_level, "at the given level");
    g_finds[g_nfinds] = r;
    new (out) RangeSet();
    bool m = irv_bool("found");
    set_member(*out, m);
    g_size = irv_u64("size");
    irv_assume(g_size <= unlimited(maxRanges));
    g_found[g_nfinds++] = m;
}
void contract_find_env(RangeSet *out, Region const *r, u64 m, int l) {
    irv_assert(!g_interior, "looks for the interior");
    contract_find(out, r, m, l);
}
void contract_find_int(RangeSet *out, Region const *r, u64 m, int l) {
    irv_assert(g_interior, "looks for the envelope");
    contract_find(out, r, m, l);
}
void contract_join(RangeSet *out, RangeSet const *a, RangeSet const *b) {
    bool m = member(*a) | member(*b);
    new (out) RangeSet();
    set_member(*out, m);
    g_have = g_trivial = false;
    set_size();
}
void contract_meet(RangeSet *out, RangeSet const *a, RangeSet const *b) {
    bool m = member(*a) & member(*b);
    new (out) RangeSet();
    set_member(*out, m);
    g_have = g_trivial = false;
    set_size();
}
}}
namespace {
void arguments() {
    g_runs = g_nfinds = 0;
    g_have = g_trivial = false;
    g_arg_max = irv_u64("max");
    g_arg_level = irv_range("level", 0, 1) ? MAXL : irv_u8("l");
    irv_assume((g_arg_level >= 0) & (g_arg_level <= MAXL));
    g_D = g_arg_level;
    U = irv_u64("U");
}
template <bool I>
void check_find(Region const &r, void const *region, int type) {
    arguments();
    g_interior = I;
    RangeSet s = detail::findPixels<FINDER, I>(r, g_arg_max, g_arg_level);
    irv_assert(g_runs == 1, "searches once");
    irv_assert(g_type == type, "searches the region by its type");
    irv_assert(region == nullptr || g_region[0] == region, "searches the region");
    irv_assert(member(s) == g_found[0], "returns what is found");
    irv_assert(g_size <= unlimited(g_arg_max), "no more ranges than the limit");
}
template <bool I, typename T>
void check_compound(bool both) {
    Circle a, b;
    T x(a, b);
    arguments();
    g_interior = I;
    RangeSet s = detail::findPixels<FINDER, I>(x, g_arg_max, g_arg_level);
    irv_assert(g_nfinds == 2, "searches both operands");
    irv_assert((g_finds[0] == &x.getOperand(0) && g_finds[1] == &x.getOperand(1)) || (g_finds[1] == &x.getOperand(0) && g_finds[0] == &x.getOperand(1)), "searches each operand");
    bool m = member(s), w = both ? g_found[0] & g_found[1] : g_found[0] | g_found[1];
    if (I) irv_assert(irv_imp(m, w), "the interior has only pixels that the operands call for");
    else irv_assert(irv_imp(w, m), "the envelope has all pixels that the operands call for");
    irv_assert(g_arg_max != 0 || m == w, "without a limit exactly those");
    irv_assert(g_size <= unlimited(g_arg_max), "no more ranges than the limit");
}
template <bool I>
void check_public() {
    arguments();
    g_interior = I;
    PIX p(g_arg_level);
    Circle c;
    Pixelization const &q = p;
    g_nfinds = 0;
    RangeSet s = I ? q.interior(c, g_arg_max) : q.envelope(c, g_arg_max);
    irv_assert(g_nfinds == 1, "searches once");
    irv_assert(g_finds[0] == &c, "searches the given region");
    bool m = member(s), e = valid(U, g_D);
    irv_assert(irv_imp(e, m == g_found[0]), "returns what is found");
    irv_assert(irv_imp(m, g_found[0]), "returns only what is found");
#ifndef HTM
    if (!I) irv_assert(irv_imp(m, e), "returns only indexes of pixels");
#endif
}
Ellipse an_ellipse() {
    Ellipse e;
    e._a = Angle(irv_double("a"));
    e._b = Angle(irv_double("b"));
    e._gamma = Angle(irv_double("g"));
    return e;
}
bool same(Circle const &a, Circle const &b) {
    return irv_same(a._center.x(), b._center.x()) & irv_same(a._center.y(), b._center.y()) & irv_same(a._center.z(), b._center.z()) &
           irv_same(a._squaredChordLength, b._squaredChordLength) & irv_same(a._openingAngle.asRadians(), b._openingAngle.asRadians());
}
}
SPEC(find_circle) {
    Circle c;
    check_find<false>(c, &c, 0);
    check_find<true>(c, &c, 0);
}
SPEC(find_box) {
    Box b;
    check_find<false>(b, &b, 1);
    check_find<true>(b, &b, 1);
}
SPEC(find_polygon) {
    ConvexPolygon p(UnitVector3d::X(), UnitVector3d::Y(), UnitVector3d::Z());
    check_find<false>(p, &p, 2);
    check_find<true>(p, &p, 2);
}
SPEC(find_ellipse) {
    Ellipse e = an_ellipse();
    double a = e.getAlpha().asRadians(), b = e.getBeta().asRadians();
    irv_assume((a >= 0) & (a <= PI));
    irv_assume((b >= 0) & (b <= PI));
    Circle c = e.getBoundingCircle();
    check_find<false>(e, nullptr, 0);
    irv_assert(same(g_circle, c), "the pixels of the bounding circle");
    check_find<true>(e, nullptr, 0);
    irv_assert(irv_same(g_circle._center.x(), c._center.x()) & irv_same(g_circle._center.y(), c._center.y()) & irv_same(g_circle._center.z(), c._center.z()), "the pixels of a circle with the center of the ellipse");
    double r = g_circle._openingAngle.asRadians();
    irv_assert((r <= a) & (r <= b), "that lies in the ellipse");
}
SPEC(find_union) { check_compound<false, UnionRegion>(false); }
SPEC(find_union_interior) { check_compound<true, UnionRegion>(false); }
SPEC(find_intersection) { check_compound<false, IntersectionRegion>(true); }
SPEC(find_intersection_interior) { check_compound<true, IntersectionRegion>(true); }
SPEC(envelope) { check_public<false>(); }
SPEC(interior) { check_public<true>(); }
#else
// ---- natively: the pixels of small levels one by one
namespace {
struct Pixels {
    int level;
    u64 max;
    std::vector<UnitVector3d> corners(u64 i, int l) const {
        std::unique_ptr<Region> r = PIX(l).pixel(i);
        return static_cast<ConvexPolygon &>(*r).getVertices();
    }
    // by the relations a traversal consults
    template <typename R>
    void search(R const &r, u64 i, int l, std::vector<u64> &env, std::vector<u64> &in) const {
        std::vector<UnitVector3d> v = corners(i, l);
        UnitVector3d const *p = v.data();
        Relationship k = detail::relate(p, p + NV, r);
        if ((k & DISJOINT) != 0) return;
        if ((k & WITHIN) != 0 || l == level) {
            u64 n = u64(1) << (2 * (level - l));
            for (u64 j = i * n; j != (i + 1) * n; ++j) {
                env.push_back(j);
                if ((k & WITHIN) != 0) in.push_back(j);
            }
            return;
        }
        for (int c = 0; c < 4; ++c) search(r, i * 4 + c, l + 1, env, in);
    }
    template <typename R>
    void sets(R const &r, RangeSet &env, RangeSet &in) const {
        std::vector<u64> e, n;
        for (u64 i = LO; i < HI; ++i) search(r, i, 0, e, n);
        for (u64 i : e) env.insert(i);
        for (u64 i : n) in.insert(i);
    }
    template <typename R>
    void sets(RangeSet &env, RangeSet &in, R const &r) const { sets(r, env, in); }
};
UnitVector3d dir(char const *n) {
    u64 k = irv_u64(n);
    double x = double(k & 1023) - 512, y = double((k >> 10) & 1023) - 512, z = double((k >> 20) & 1023) - 512;
    if ((k >> 60) == 0) { x = k & 1; y = (k >> 1) & 1; z = !(k & 3); }
    if (x == 0 && y == 0 && z == 0) x = 1;
    return UnitVector3d(x, y, z);
}
double size_of(char const *n) {
    static double const S[8] = {0.01, 0.05, 0.1, 0.3, 0.7, 1.2, 1.8, 2.8};
    return S[irv_u8(n) & 7];
}
void result(Pixels const &p, RangeSet const &env, RangeSet const &in, RangeSet const &e, RangeSet const &n) {
    RangeSet u = PIX(p.level).universe();
    irv_assert(e.contains(env), "the envelope has all pixels that are not disjoint");
    irv_assert(in.contains(n), "the interior has only pixels within");
    irv_assert(e.contains(n), "the envelope contains the interior");
    irv_assert(u.contains(e) && u.contains(n), "in the universe");
    if (p.max == 0) irv_assert(e == env && n == in, "exactly those without a limit");
    else irv_assert(e.size() <= p.max && n.size() <= p.max, "no more ranges than the limit");
}
Pixels pixels() {
    Pixels p;
    p.level = irv_range("level", 0, 4);
    p.max = irv_u8("max") % 9;
    return p;
}
template <typename R>
void check(R const &r) {
    Pixels p = pixels();
    RangeSet env, in;
    p.sets(r, env, in);
    PIX x(p.level);
    result(p, env, in, x.envelope(r, p.max), x.interior(r, p.max));
}
}
SPEC(find_circle) { check(Circle(dir("c"), Angle(size_of("r")))); }
SPEC(find_box) {
    check(Box(LonLat(dir("c")), Angle(size_of("w")), Angle(size_of("h") / 2)));
}
SPEC(find_polygon) {
    UnitVector3d a = dir("a"), b = dir("b"), c = dir("c");
    int o = orientation(a, b, c);
    irv_assume(o != 0);
    check(o > 0 ? ConvexPolygon(a, b, c) : ConvexPolygon(a, c, b));
}
SPEC(find_ellipse) {
    double a = size_of("a"), b = size_of("b");
    irv_assume((a < 1.5) == (b < 1.5));
    Ellipse e(dir("c"), Angle(a), Angle(b), Angle(irv_u8("o") / 40.0));
    Pixels p = pixels();
    PIX x(p.level);
    RangeSet env = x.envelope(e, p.max), in = x.interior(e, p.max);
    irv_assert(env.contains(in), "the envelope contains the interior");
    irv_assert(p.max == 0 || (env.size() <= p.max && in.size() <= p.max), "no more ranges than the limit");
    for (auto t : in)
        for (u64 i = std::get<0>(t); i != std::get<1>(t); ++i) {
            Vector3d m;
            for (UnitVector3d const &v : p.corners(i, p.level)) {
                irv_assert(e.contains(v), "the pixels of the interior are inside the ellipse");
                m += v;
            }
            irv_assert(e.contains(UnitVector3d(m)), "the pixels of the interior are inside the ellipse");
        }
    for (int k = 0; k < 20; ++k) {
        UnitVector3d v = dir("v");
        irv_assert(!e.contains(v) || env.contains(x.index(v)), "the pixels of the points of the ellipse are in the envelope");
    }
}
namespace {
template <typename T>
void check_compound(bool both) {
    Circle a(dir("c"), Angle(size_of("r"))), b(dir("d"), Angle(size_of("s")));
    Pixels p = pixels();
    RangeSet e1, e2, i1, i2;
    p.sets(a, e1, i1);
    p.sets(b, e2, i2);
    PIX x(p.level);
    T r(a, b);
    result(p, both ? e1 & e2 : e1 | e2, both ? i1 & i2 : i1 | i2, x.envelope(r, p.max), x.interior(r, p.max));
}
}
SPEC(find_union) { check_compound<UnionRegion>(false); }
SPEC(find_union_interior) { check_compound<UnionRegion>(false); }
SPEC(find_intersection) { check_compound<IntersectionRegion>(true); }
SPEC(find_intersection_interior) { check_compound<IntersectionRegion>(true); }
// a failed contract of the traversal is looked for in whole searches
namespace {
void check_any() {
    switch (irv_u8("kind") % 4) {
        case 0: check(Circle(dir("c"), Angle(size_of("r")))); break;
        case 1: check(Box(LonLat(dir("c")), Angle(size_of("w")), Angle(size_of("h") / 2))); break;
        case 2: check_compound<UnionRegion>(false); break;
        default: check_compound<IntersectionRegion>(true);
    }
}
}
#define ANY(name) SPEC(name) { check_any(); }
ANY(visit_envelope) ANY(visit_interior) ANY(visit_envelope_limited) ANY(visit_interior_limited)
ANY(insert_envelope) ANY(insert_interior)
ANY(roots_envelope) ANY(roots_interior) ANY(roots_envelope_limited) ANY(roots_interior_limited)
ANY(envelope) ANY(interior)
#endif
