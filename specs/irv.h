// Contract language of the verifier.  Each SPEC is a contract (precondition by
// irv_assume, postcondition by irv_assert) over the real sphgeom API, for all
// values of the irv_* inputs.  The same file is compiled natively (native/irv_rt.cc)
// to replay counterexamples and to search for failing inputs.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
extern "C" {
uint8_t irv_u8(char const *name);
uint16_t irv_u16(char const *name);
uint32_t irv_u32(char const *name);
uint64_t irv_u64(char const *name);
double irv_double(char const *name);
bool irv_bool(char const *name);
void irv_bytes(void *dst, size_t n, char const *name);
// n arbitrary bytes for an arbitrary n (the hints only steer the native search).
uint8_t const *irv_buf(char const *name, size_t *n, size_t hint, int first);
// (verifier only) whether the n bytes at p may be read
bool irv_readable(void const *p, size_t n);
// An int between lo and hi inclusive; the verifier treats every value as its own case.
int irv_range(char const *name, int lo, int hi);
void irv_assume(bool c);
void irv_assert(bool c, char const *what);
void irv_cover(char const *name);
// Returns c; the verifier continues with the two cases separately.
bool irv_split(bool c);
// (verifier only) whether c holds by the form of its terms alone.
bool irv_known(bool c);
// (verifier only) an uninterpreted function of its arguments: the result of a function that
// is known by its contract alone.
double irv_uf3(char const *name, double a, double b, double c);
uint64_t irv_uf1(char const *name, uint64_t a);
uint64_t irv_uf2(char const *name, uint64_t a, uint64_t b);
uint64_t irv_uf3i(char const *name, uint64_t a, uint64_t b, uint64_t c);
uint64_t irv_uf9i(char const *name, double a, double b, double c, double d, double e, double f, double g, double h, double i);
double irv_uf9(char const *name, double a, double b, double c, double d, double e, double f, double g, double h, double i);
}
#ifdef IRV_NATIVE
void irv_register(char const *name, void (*f)());
struct IrvReg { IrvReg(char const *n, void (*f)()) { irv_register(n, f); } };
#define SPEC(name)                                  \
    extern "C" void spec_##name();                  \
    static IrvReg irv_reg_##name(#name, spec_##name); \
    extern "C" void spec_##name()
#else
#define SPEC(name) extern "C" void spec_##name()
#endif
static inline bool irv_same(double a, double b) {
    uint64_t x, y;
    std::memcpy(&x, &a, 8);
    std::memcpy(&y, &b, 8);
    return x == y;
}
static inline double irv_bits(uint64_t b) {
    double d;
    std::memcpy(&d, &b, 8);
    return d;
}
static inline bool irv_imp(bool a, bool b) { return !a || b; }
#include <cmath>
// A double in [lo, hi] (or NaN when nanok).
static inline double irv_in(char const *name, double lo, double hi, bool nanok = false) {
    double v = irv_double(name);
#ifdef IRV_NATIVE
    if (v != v && nanok) return v;
    if (!(v >= lo && v <= hi)) {   // brings random values into the domain; replayed values are already there
        double w = std::fmod(std::fabs(v), hi - lo) + lo;
        v = (w >= lo && w <= hi) ? w : lo;
    }
#endif
    irv_assume((nanok && v != v) || (v >= lo && v <= hi));
    return v;
}
