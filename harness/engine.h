// Choice-tape property-based testing engine.
//  * every random decision of a case is one draw() recorded on a tape of integers;
//  * a case is a pure function of its tape (random run, shrinking, replay and the
//    libFuzzer front end all execute the same code);
//  * cases run in forked workers; any failure (property, assertion, sanitizer, signal,
//    CPU-time hang) is shrunk on the tape, replayed three times and saved.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <cstdarg>

namespace pbt {

struct Source {
    enum Mode { Random, Replay, Bytes } mode;
    uint64_t rng[2];
    const uint64_t *in; size_t in_len, in_pos;
    const uint8_t *bytes; size_t b_len, b_pos;
    uint64_t *tape; size_t tape_cap; volatile uint64_t *tape_len;

    uint64_t draw(uint64_t bound);                 // [0,bound), simplest = 0
    int range(int lo, int hi);                     // inclusive, simplest = lo
    bool chance(int num, int den);                 // simplest = false
    double real(double lo, double hi);             // mixes uniform, grid and "nice" values; simplest = closest to 0
    double uniform(double lo, double hi);          // plain uniform; simplest = lo
    double logreal(double lo, double hi);          // log-uniform (positive), simplest = 1 (clamped)
    double sym(double a) { return real(-a, a); }
    template <class T, size_t N> T pick(const T (&a)[N]) { return a[draw(N)]; }
    template <class T> T pick(const std::vector<T> &a) { return a[draw(a.size())]; }
    int weighted(const std::vector<int> &w);       // index by weight, simplest = 0
};

struct Case {
    Source &s;
    bool verbose;
    std::string trace;
    bool is_nontrivial = false;
    std::map<std::string, uint64_t> labels;
    std::map<std::string, double> ratios;          // worst observed error / tolerance per comparison (reported in the evidence)
    void ratio(const char *n, double v) { double &r = ratios[n]; if (!(v <= r)) r = v; }
    explicit Case(Source &src, bool v) : s(src), verbose(v) {}
    void label(const std::string &l) { labels[l]++; }
    void nontrivial() { is_nontrivial = true; }
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};

[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define REQUIRE(c, ...) do { if (!(c)) ::pbt::fail(__VA_ARGS__); } while (0)

// |got - want| <= tol, with the worst ratio recorded
void near(Case &c, const char *name, double got, double want, double tol, const char *fmt = "", ...) __attribute__((format(printf, 6, 7)));

// heap instrumentation (engine.cpp replaces operator new/delete)
void set_heap_fill(uint64_t pattern);              // every new block is filled with it
uint64_t current_heap_fill();
struct Track {                                     // allocations made inside count as "tracked"
    bool old; Track(); ~Track();
};
long tracked_live();                               // tracked blocks still alive
long tracked_live_bytes();

extern const uint64_t FILL_PATTERNS[]; extern const int N_FILL;

} // namespace pbt

// Supplied by each property file.
extern const char *PROPERTY_ID;
extern const char *PROPERTY_RULE;
void run_case(pbt::Case &c);
// Optional sizes: cases in quick and thorough tier
extern const long QUICK_CASES, THOROUGH_CASES;
