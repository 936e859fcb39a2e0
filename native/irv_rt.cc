// Native runtime of the contracts in specs/: replays a counterexample of the
// verifier against the real code, and searches for failing inputs.
//   prog list
//   prog replay SPEC FILE
//   prog search SPEC SECONDS SEED OUTFILE
// Exit status of replay: 0 contract holds, 3 contract broken, 4 input discarded.
#include "irv.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <csignal>
#include <unistd.h>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <limits>
#include <map>
#include <random>
#include <string>
#include <vector>

namespace {
struct Failed { };
struct Discarded { };

std::map<std::string, void (*)()> &specs() {
    static std::map<std::string, void (*)()> m;
    return m;
}

struct Rec { char name[40]; char kind; uint64_t v; };
struct Shared {
    volatile uint64_t evals, runs, n;
    Rec rec[8192];
    char what[256];
    char cov[64][48];
    volatile uint64_t ncov;
};
Shared *sh;
bool replaying = false;
std::vector<std::pair<std::string, uint64_t>> feed;
size_t feedPos = 0;
std::mt19937_64 rng;
std::vector<double> dpool;
std::vector<uint64_t> upool;
int style;
std::vector<void *> bufs;

void note(char const *name, char kind, uint64_t v) {
    if (sh->n < 8192) {
        Rec &r = sh->rec[sh->n];
        std::snprintf(r.name, sizeof r.name, "%s", name);
        r.kind = kind;
        r.v = v;
        sh->n = sh->n + 1;
    }
}
uint64_t R() { return rng(); }
uint64_t R(uint64_t n) { return rng() % n; }

bool fed(uint64_t &v) {
    if (!replaying) return false;
    if (feedPos >= feed.size()) { v = 0; return true; }
    v = feed[feedPos++].second;
    return true;
}

uint64_t genU(int w) {
    uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1;
    uint64_t v;
    switch (R(10)) {
        case 0: v = R(4); break;
        case 1: v = R(20); break;
        case 2: v = (1ull << R(w)) + R(3) - 1; break;
        case 3: v = m - R(4); break;
        case 4: case 5: case 6:
            if (!upool.empty()) { v = upool[R(upool.size())] + R(5) - 2; break; }
            v = R(12); break;
        case 7: v = R() >> R(64); break;
        case 8: v = (R() & R()) ; break;
        default: v = R(); break;
    }
    if (style == 1 && R(4)) v = R(12);
    if (style == 2 && R(4)) v = m - R(12);
    v &= m;
    upool.push_back(v);
    return v;
}
double ulps(double x, int n) {
    if (!std::isfinite(x)) return x;
    for (; n > 0; --n) x = std::nextafter(x, std::numeric_limits<double>::infinity());
    for (; n < 0; ++n) x = std::nextafter(x, -std::numeric_limits<double>::infinity());
    return x;
}
double genD() {
    static double const pi = 3.14159265358979323846;
    static double const sp[] = {0.0, -0.0, 1.0, -1.0, 0.5, 2.0, pi, 2 * pi, pi / 2, -pi / 2, 1.5 * pi, -pi,
        std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(),
        std::numeric_limits<double>::quiet_NaN(), 1e-300, -1e-300, 5e-324, -5e-324, 2.2250738585072014e-308,
        1.7976931348623157e308, -1.7976931348623157e308, 2.220446049250313e-16, 1e-8, -1e-8, 1e16, 4.0, 3.0, 0.25,
        pi / 4, 0.1, 6.0, 1e3};
    double v;
    uint64_t r = R(100);
    if (style == 1) r = 62 + R(38) % 38;
    if (r < 28 && !dpool.empty()) v = dpool[R(dpool.size())];
    else if (r < 40 && !dpool.empty()) v = ulps(dpool[R(dpool.size())], int(R(7)) - 3);
    else if (r < 45 && !dpool.empty()) {
        static double const off[] = {pi, 2 * pi, pi / 2, 1.0, -pi, -2 * pi, -pi / 2, 1e-15, -1e-15};
        v = dpool[R(dpool.size())] + off[R(9)];
    } else if (r < 48 && !dpool.empty()) v = -dpool[R(dpool.size())];
    else if (r < 60) v = sp[R(sizeof sp / sizeof *sp)];
    else if (r < 65) v = ulps(sp[R(12)], int(R(7)) - 3);
    else if (r < 80) v = std::uniform_real_distribution<double>(0.0, 2 * pi)(rng);
    else if (r < 90) v = std::uniform_real_distribution<double>(-2.0, 2.0)(rng);
    else if (r < 94) v = std::uniform_real_distribution<double>(-10.0, 10.0)(rng);
    else if (r < 97) v = double(int64_t(R(21)) - 10) * 0.5;
    else { uint64_t b = R(); std::memcpy(&v, &b, 8); }
    dpool.push_back(v);
    return v;
}
void reset() {
    sh->n = 0;
    dpool.clear();
    upool.clear();
    style = int(R(5));
    feedPos = 0;
    for (void *b : bufs) std::free(b);
    bufs.clear();
}
// 0 held, 3 broken, 4 discarded
int runOnce(void (*f)()) {
    try {
        f();
    } catch (Discarded &) {
        return 4;
    } catch (Failed &) {
        return 3;
    } catch (std::exception &e) {
        std::snprintf(sh->what, sizeof sh->what, "uncaught exception: %s", e.what());
        return 3;
    } catch (...) {
        std::snprintf(sh->what, sizeof sh->what, "uncaught exception");
        return 3;
    }
    return 0;
}
void dump(char const *spec, char const *out, char const *why) {
    FILE *f = std::fopen(out, "w");
    if (!f) return;
    std::fprintf(f, "spec %s\nwhy %s\n", spec, why);
    for (uint64_t i = 0; i < sh->n; ++i) {
        Rec &r = sh->rec[i];
        if (r.kind == 'd') {
            double d;
            uint64_t v = r.v;
            std::memcpy(&d, &v, 8);
            std::fprintf(f, "in %s %c 0x%016llx # %.17g\n", r.name, r.kind, (unsigned long long)r.v, d);
        } else {
            std::fprintf(f, "in %s %c 0x%llx\n", r.name, r.kind, (unsigned long long)r.v);
        }
    }
    std::fclose(f);
}
}  // namespace

void irv_register(char const *name, void (*f)()) { specs()[name] = f; }

extern "C" {
#define GENU(fn, T, w, k)                         \
    T fn(char const *name) {                      \
        uint64_t v;                               \
        if (!fed(v)) v = genU(w);                 \
        note(name, k, v);                         \
        return T(v);                              \
    }
GENU(irv_u8, uint8_t, 8, 'u')
GENU(irv_u16, uint16_t, 16, 'u')
GENU(irv_u32, uint32_t, 32, 'u')
GENU(irv_u64, uint64_t, 64, 'u')
double irv_double(char const *name) {
    uint64_t v;
    double d;
    if (fed(v)) std::memcpy(&d, &v, 8);
    else d = genD();
    std::memcpy(&v, &d, 8);
    note(name, 'd', v);
    return d;
}
bool irv_bool(char const *name) {
    uint64_t v;
    if (!fed(v)) v = R(2);
    note(name, 'b', v & 1);
    return v & 1;
}
void irv_bytes(void *dst, size_t n, char const *name) {
    uint8_t *p = static_cast<uint8_t *>(dst);
    int mode = int(R(4));
    for (size_t i = 0; i < n; ++i) {
        uint64_t v;
        if (!fed(v)) {
            if (mode == 0) v = R(256);
            else if (mode == 1) v = R(4) ? 0 : R(256);
            else if (mode == 2) v = R(3) ? R(5) : R(256);
            else v = R(2) ? R(256) : (R(2) ? 0x7f : 0xff);
        }
        note(name, 'y', v & 0xff);
        p[i] = uint8_t(v);
    }
}
uint8_t const *irv_buf(char const *name, size_t *n, size_t hint, int first) {
    uint64_t v;
    if (!fed(v)) v = R(3) ? hint : (R(3) ? R(160) : hint + R(5) - 2);
    note(name, 'u', v);
    if (v > 8000) throw Discarded();
    *n = v;
    uint8_t *p = static_cast<uint8_t *>(std::malloc(v ? v : 1));
    bufs.push_back(p);
    uint64_t before = sh->n;
    irv_bytes(p, v, name);
    if (!replaying && v && R(4)) {
        p[0] = uint8_t(first);
        if (before < 8192) sh->rec[before].v = p[0];
    }
    return v ? p : p + 1;      // no byte may be read of an empty buffer
}
int irv_range(char const *name, int lo, int hi) {
    uint64_t v;
    if (!fed(v)) v = uint32_t(lo + int(R(uint64_t(hi - lo + 1))));
    note(name, 'r', v & 0xffffffff);
    int x = int(uint32_t(v));
    if (x < lo || x > hi) throw Discarded();
    return x;
}
void irv_assume(bool c) { if (!c) throw Discarded(); }
void irv_assert(bool c, char const *what) {
    if (!c) {
        std::snprintf(sh->what, sizeof sh->what, "%s", what);
        throw Failed();
    }
}
void irv_cover(char const *name) {
    for (uint64_t i = 0; i < sh->ncov; ++i)
        if (std::strncmp(sh->cov[i], name, 47) == 0) return;
    if (sh->ncov < 64) {
        std::snprintf(sh->cov[sh->ncov], 48, "%s", name);
        sh->ncov = sh->ncov + 1;
    }
}
bool irv_split(bool c) { return c; }
}

int main(int argc, char **argv) {
    sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (argc < 2) return 2;
    std::string cmd = argv[1];
    if (cmd == "list") {
        for (auto &s : specs()) std::printf("%s\n", s.first.c_str());
        return 0;
    }
    if (argc < 4) return 2;
    auto it = specs().find(argv[2]);
    if (it == specs().end()) { std::printf("no spec %s\n", argv[2]); return 2; }
    void (*f)() = it->second;
    if (cmd == "replay") {
        replaying = true;
        FILE *fp = std::fopen(argv[3], "r");
        if (!fp) return 2;
        char line[512], nm[64], k;
        unsigned long long v;
        while (std::fgets(line, sizeof line, fp))
            if (std::sscanf(line, "in %63s %c %llx", nm, &k, &v) == 3) feed.emplace_back(nm, v);
        std::fclose(fp);
        sh->n = 0;
        int r = runOnce(f);
        if (r == 3) std::printf("BROKEN %s: %s\n", argv[2], sh->what);
        else if (r == 4) std::printf("DISCARDED\n");
        else std::printf("HELD\n");
        std::fflush(stdout);
        _exit(r);
    }
    if (cmd == "search") {
        double secs = std::atof(argv[3]);
        uint64_t seed = std::strtoull(argv[4], nullptr, 10);
        char const *out = argv[5];
        pid_t pid = fork();
        if (pid == 0) {
            rng.seed(seed * 0x9E3779B97F4A7C15ull + std::hash<std::string>()(argv[2]));
            auto t0 = std::chrono::steady_clock::now();
            alarm(unsigned(secs) + 60);
            for (uint64_t i = 0;; ++i) {
                if ((i & 31) == 0 &&
                    std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
                reset();
                sh->runs = sh->runs + 1;
                int r = runOnce(f);
                if (r == 0) sh->evals = sh->evals + 1;
                if (r == 3) { dump(argv[2], out, sh->what); _exit(3); }
            }
            _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        std::printf("evals %llu runs %llu\n", (unsigned long long)sh->evals, (unsigned long long)sh->runs);
        for (uint64_t i = 0; i < sh->ncov; ++i) std::printf("cover %s\n", sh->cov[i]);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return 0;    // ended from outside (memory)
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { std::printf("BROKEN %s\n", sh->what); return 3; }
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
            dump(argv[2], out, "the code does not terminate on this input");
            std::printf("BROKEN no termination\n");
            return 3;
        }
        dump(argv[2], out, "crash (sanitizer report or signal)");
        std::printf("BROKEN crash\n");
        return 3;
    }
    return 2;
}
