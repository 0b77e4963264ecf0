// Native runtime of the contract language: executes a contract on the real compiled code with sampled or replayed inputs.
#include "vp.hpp"
#include <chrono>
#include <cmath>
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <limits>
#include <map>
#include <random>
#include <sstream>
#include <vector>
#include <dlfcn.h>
#include <unistd.h>
#include <csignal>
#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#define VP_ASAN 1
#endif

static std::map<std::string, double> replay;
static bool have_replay = false;
static std::mt19937_64 rng;
static int style = 0;
static jmp_buf skip;
static std::vector<std::pair<std::string, double>> log_;
static std::map<std::string, double> memo;
static std::string entry_name;
static unsigned long cur_seed = 0;
static int big = 0;
static long evaluated = 0, ensures = 0;
static std::map<std::string, long> covers;

static void dump(const char* label, const char* why) {
    std::printf("FAIL entry=%s label=%s seed=%lu why=%s\n", entry_name.c_str(), label, cur_seed, why);
    for (auto& p : log_) std::printf("INPUT %s %.17g\n", p.first.c_str(), p.second);
    std::printf("END\n");
    std::fflush(stdout);
}
static void fail(const char* label, const char* why) {
    dump(label, why);
    _exit(1);
}
static void on_death() { dump("safety/memory-error", "the address sanitizer stopped the program"); }

static double sample_real() {
    std::uniform_real_distribution<double> u(-1, 1);
    std::normal_distribution<double> g(0, 1);
    switch (style) {
        case 0: return 2.0 * u(rng);
        case 1: return double(int(rng() % 7) - 3);
        case 2: return g(rng) * 3.0;
        case 3: return (rng() % 4 == 0) ? 0.0 : u(rng);
        case 4: { static const double s[] = {0, 1, -1, 0.5, -0.5, 2, -2, 3, 10, -10}; return s[rng() % 10]; }
        default: return u(rng) * 10.0;
    }
}
static double get(const std::string& n, double (*gen)()) {
    auto m = memo.find(n);
    if (m != memo.end()) return m->second;
    double v;
    auto it = replay.find(n);
    if (have_replay && it != replay.end()) v = it->second;
    else v = gen();
    memo[n] = v;
    log_.push_back({n, v});
    return v;
}
static std::string nm(const char* n, long i) { return std::string(n) + "[" + std::to_string(i) + "]"; }

static long glo, ghi;
static double gen_int() {
    long lo = glo, hi = ghi;
    unsigned long span = (unsigned long)(hi - lo);
    if (span > 1000000) {
        switch (rng() % 4) {
            case 0: { long c = (long)(rng() % 21) - 10; if (c < lo) c = lo; if (c > hi) c = hi; return double(c); }
            case 1: return double(rng() % 2 ? lo : hi);
            case 2: { long c = (long)(rng() % 2000001) - 1000000; if (c < lo) c = lo + (rng() % 100); if (c > hi) c = hi; return double(c); }
            default: return double(lo + (long)(rng() % (span ? span : 1)));
        }
    }
    if (rng() % 8 == 0) return double(rng() % 2 ? lo : hi);
    return double(lo + (long)(rng() % (span + 1)));
}
static double gen_bool() { return double(rng() % 2); }
static double gen_any() {
    if (rng() % 4 == 0) {
        switch (rng() % 3) {
            case 0: return std::numeric_limits<double>::quiet_NaN();
            case 1: return std::numeric_limits<double>::infinity();
            default: return -std::numeric_limits<double>::infinity();
        }
    }
    return sample_real();
}

extern "C" {
double vp_real(const char* n) { return get(n, sample_real); }
double vp_real_any(const char* n) { return get(n, gen_any); }
double vp_real_i(const char* n, long i) { return get(nm(n, i), sample_real); }
double vp_real_any_i(const char* n, long i) { return get(nm(n, i), gen_any); }
double vp_real_ij(const char* n, long i, long j) { return get(nm(n, i) + "[" + std::to_string(j) + "]", sample_real); }
long vp_int(const char* n, long lo, long hi) { if (hi < lo) longjmp(skip, 1); glo = lo; ghi = hi; long v = (long)get(n, gen_int); if (v < lo || v > hi) longjmp(skip, 1); return v; }
long vp_enum(const char* n, long lo, long hi) noexcept { return vp_int(n, lo, hi); }
long vp_int_i(const char* n, long i, long lo, long hi) { return vp_int(nm(n, i).c_str(), lo, hi); }
long vp_increasing(const char* n, long i, long lo, long hi) {
    if (i < 0) longjmp(skip, 1);
    if (i == 0) return vp_int(nm(n, 0).c_str(), lo, hi);
    const long before = vp_increasing(n, i - 1, lo, hi);
    if (before >= hi) longjmp(skip, 1);
    long far = before + (rng() % 4 ? 1000000000l : 3l);
    if (far > hi) far = hi;
    return vp_int(nm(n, i).c_str(), before + 1, far);
}
static double nlo, nhi;
static double gen_near() {
    if (rng() % 16 == 0) return sample_real();
    const double w = nhi - nlo;
    if (rng() % 2) return nlo + 0.25 * double(rng() % (unsigned long)(4 * w + 1));
    return nlo + w * (double(rng() % 1000001) / 1000000.0);
}
double vp_real_near(const char* n, double lo, double hi) { nlo = lo; nhi = hi; return get(n, gen_near); }
double vp_real_near_i(const char* n, long i, double lo, double hi) { return vp_real_near(nm(n, i).c_str(), lo, hi); }
double vp_real_near_ij(const char* n, long i, long j, double lo, double hi) { return vp_real_near((nm(n, i) + "[" + std::to_string(j) + "]").c_str(), lo, hi); }
static double gen_pixel() {
    switch (rng() % 4) { case 0: return double(rng() % 3); case 1: return double(255 - rng() % 3); default: return double(rng() % 256); }
}
long vp_pixel(const char* n, long i, long j) { double v = get(nm(n, i) + "[" + std::to_string(j) + "]", gen_pixel); if (!(v >= 0 && v <= 255)) longjmp(skip, 1); return (long)v; }
bool vp_bool(const char* n) { return get(n, gen_bool) != 0; }
bool vp_bool_i(const char* n, long i) { return get(nm(n, i), gen_bool) != 0; }
long vp_len(const char* n, long lo, long hi) {
    glo = lo; ghi = hi;
    // now and then a size well beyond the usual ones
    if (cur_seed % 53 == 0 && rng() % 3 == 0) ghi = std::max(hi, lo + (++big == 1 ? 800 : 12));
    else if (cur_seed % 11 == 0 && rng() % 2) ghi = std::max(hi, lo + 60);
    long v = (long)get(n, gen_int);
    if (v > 4096) v = 4096;
    if (v < lo) longjmp(skip, 1);
    return v;
}
long vp_any_index(const char* n, long size) { if (size <= 0) longjmp(skip, 1); glo = 0; ghi = size - 1; long v = (long)get(n, gen_int); if (v < 0 || v >= size) longjmp(skip, 1); return v; }
void vp_assume(bool c) { if (!c) longjmp(skip, 1); }
void vp_ensure(bool c, const char* label) { ++ensures; if (!c) fail(label, "condition is false"); }
static void eq_tol(double a, double b, double tol, const char* label) {
    ++ensures;
    if (std::isnan(a) && std::isnan(b)) { fail(label, "both sides are NaN"); }
    if (a == b) return;
    double s = 1.0 + std::fabs(a) + std::fabs(b);
    if (!(std::fabs(a - b) <= tol * s)) {
        char w[160];
        std::snprintf(w, sizeof w, "%.17g differs from expected %.17g", a, b);
        fail(label, w);
    }
}
void vp_eq(double a, double b, const char* label) { eq_tol(a, b, 1e-6, label); }
void vp_eqf(double a, double b, const char* label) { eq_tol(a, b, 2e-3, label); }
void vp_same(double a, double b, const char* label) {
    ++ensures;
    if (std::isnan(a) && std::isnan(b)) return;
    if (!(a == b)) { char w[160]; std::snprintf(w, sizeof w, "%.17g is not %.17g", a, b); fail(label, w); }
}
void vp_ieq(long a, long b, const char* label) {
    ++ensures;
    if (a != b) { char w[160]; std::snprintf(w, sizeof w, "%ld is not %ld", a, b); fail(label, w); }
}
void vp_cover(const char* label) { ++covers[label]; }
static void unit(const char* n, double* o, int k) {
    static const char* c[] = {".x", ".y", ".z", ".w"};
    double s = 0;
    for (int i = 0; i < k; ++i) { o[i] = get(std::string(n) + c[i], sample_real); s += o[i] * o[i]; }
    s = std::sqrt(s);
    if (!(s > 1e-3)) longjmp(skip, 1);
    for (int i = 0; i < k; ++i) o[i] /= s;
}
void vp_unit4(const char* n, double* o) { unit(n, o, 4); }
void vp_unit3(const char* n, double* o) { unit(n, o, 3); }
bool vp_finite(double x) { return std::isfinite(x); }
void vp_note(const char*) {}
void vp_print(const char* n, double v) { if (std::getenv("VP_PRINT")) std::printf("PRINT %s %.17g\n", n, v); }
double vp_fn1(const char* n, double x) { unsigned h = 7; for (const char* p = n; *p; ++p) h = h * 31 + *p; return std::sin(x * 1.7 + h % 10) + 0.3 * x; }
double vp_fn2(const char* n, double x, double y) { return vp_fn1(n, x) + std::cos(1.3 * y) * (1 + 0.2 * x); }
double vp_fn3(const char* n, double x, double y, double z) { return vp_fn2(n, x, y) + std::cos(0.7 * z) * (1 + 0.1 * y); }
double vp_fn4(const char* n, double x, double y, double z, double w) { return vp_fn2(n, x, y) + vp_fn2(n, z, w + 0.5) + 0.1 * std::sin(x * w); }
void vp_map(const char* n, const double* in, long k, double* out, long m) { for (long j = 0; j < m; ++j) { out[j] = 0; for (long i = 0; i < k; ++i) out[j] += vp_fn2(n, in[i], i + 0.3 * j); } }
long vp_ifn3(const char* n, double x, double y, double z, long lo, long hi) { return lo + long(std::fabs(vp_fn3(n, x, y, z)) * 100) % (hi - lo + 1); }
bool vp_native() { return true; }
void vp_string_impl(const char* n, void* s) {
    static const char* pool[] = {"", "x", "None", "UNKNOWN", "identity"};
    static std::vector<std::string> extra = [] {
        std::vector<std::string> v(pool, pool + 5);
        if (const char* f = std::getenv("VP_STRINGS")) { std::stringstream ss(f); std::string t; while (std::getline(ss, t, '|')) v.push_back(t); }
        // near misses of every known name
        for (std::size_t i = 0, n = v.size(); i < n; ++i) {
            const std::string s = v[i];
            if (s.empty()) continue;
            std::string low = s, mid = s;
            for (char& c : low) c = char(std::tolower(c));
            mid[mid.size() / 2] = '?';
            for (const std::string& t : {s + "X", s + " ", " " + s, "X" + s, s.substr(1), s.substr(0, s.size() - 1), low, mid, s + "_" + s, s.substr(0, 1)}) v.push_back(t);
        }
        return v;
    }();
    glo = 0; ghi = (long)extra.size() - 1;
    long i = (long)get(n, gen_int);
    if (i < 0 || i > ghi) i = 1;
    *static_cast<std::string*>(s) = extra[i];
}
}

// usage: prog ENTRY rand SEED SECONDS MAXRUNS | prog ENTRY replay FILE
static void on_alarm(int) { dump("safety/no-termination", "the call did not return"); _exit(1); }

int main(int argc, char** argv) {
#ifdef VP_ASAN
    __sanitizer_set_death_callback(on_death);
#endif
    if (argc < 4) return 2;
    entry_name = argv[1];
    std::signal(SIGALRM, on_alarm);
    alarm(!std::strcmp(argv[2], "replay") ? 20 : 40 + (argc > 4 ? std::atoi(argv[4]) : 2));
    void* h = dlopen(nullptr, RTLD_NOW);
    void (*f)() = (void (*)())dlsym(h, argv[1]);
    if (!f) { std::printf("NOENTRY %s\n", argv[1]); return 2; }
    if (!std::strcmp(argv[2], "replay")) {
        have_replay = true;
        std::ifstream in(argv[3]);
        std::string k; std::string v;
        while (in >> k >> v) replay[k] = std::strtod(v.c_str(), nullptr);
        rng.seed(1);
        if (setjmp(skip) == 0) { f(); std::printf("PASS\n"); }
        else std::printf("SKIP\n");
        return 0;
    }
    unsigned long seed = std::strtoul(argv[3], nullptr, 10);
    double secs = argc > 4 ? std::atof(argv[4]) : 2;
    long maxruns = argc > 5 ? std::atol(argv[5]) : 1000000;
    auto t0 = std::chrono::steady_clock::now();
    static volatile long i;
    for (i = 0; i < maxruns; ++i) {
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
        cur_seed = seed * 1000003ul + (unsigned long)i;
        rng.seed(cur_seed);
        style = int(rng() % 6);
        log_.clear();
        memo.clear();
        big = 0;
        if (setjmp(skip) == 0) { f(); ++evaluated; }
    }
    std::printf("OK runs=%ld evaluated=%ld ensures=%ld\n", (long)i, evaluated, ensures);
    for (auto& c : covers) std::printf("COVER %s %ld\n", c.first.c_str(), c.second);
    return 0;
}
