#include "engine.h"
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <new>
#include <chrono>
#include <fstream>
#include <sstream>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>

#if defined(__SANITIZE_ADDRESS__) || defined(PBT_LIBFUZZER)
extern "C" const char *__asan_default_options() {
    return "exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:"
           "handle_segv=1:handle_abort=0:symbolize=1:max_malloc_fill_size=0:quarantine_size_mb=8:malloc_context_size=4";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:exitcode=99"; }
#endif

// ------------------------------------------------------------------ heap
namespace {
struct Slot { void *p; uint32_t bytes; uint8_t kind; uint8_t tracked; };
const size_t TBL = 1u << 18;
Slot *g_tbl = nullptr;                 // open addressing, p==nullptr empty, p==(void*)1 tombstone
uint64_t g_fill = 0; bool g_track = false;
long g_live = 0, g_live_bytes = 0; size_t g_used = 0;
size_t hash_ptr(void *p) { uint64_t x = (uint64_t)p; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 32; return (size_t)x & (TBL - 1); }
void tbl_init() { if (!g_tbl) { g_tbl = (Slot *)mmap(nullptr, TBL * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); } }
void *do_new(size_t n, int kind) {
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    size_t words = n / 8; uint64_t *w = (uint64_t *)p;
    if (words > 65536) words = 65536;
    for (size_t i = 0; i < words; ++i) w[i] = g_fill;
    if (words * 8 < n && n < 65536 * 8) memcpy((char *)p + words * 8, &g_fill, n - words * 8);
    tbl_init();
    if (g_used < TBL * 3 / 4) {
        size_t h = hash_ptr(p);
        while (g_tbl[h].p && g_tbl[h].p != (void *)1) h = (h + 1) & (TBL - 1);
        if (!g_tbl[h].p) ++g_used;
        g_tbl[h] = Slot{ p, (uint32_t)n, (uint8_t)kind, (uint8_t)g_track };
        if (g_track) { ++g_live; g_live_bytes += (long)n; }
    }
    return p;
}
void do_delete(void *p, int kind) {
    if (!p) return;
    if (g_tbl) {
        size_t h = hash_ptr(p);
        while (g_tbl[h].p && g_tbl[h].p != p) h = (h + 1) & (TBL - 1);
        if (g_tbl[h].p == p) {
            if (g_tbl[h].kind != kind) pbt::fail("mismatched new/delete (scalar versus array form)");
            if (g_tbl[h].tracked) { --g_live; g_live_bytes -= g_tbl[h].bytes; }
            g_tbl[h].p = (g_tbl[(h + 1) & (TBL - 1)].p == nullptr) ? nullptr : (void *)1;
            if (!g_tbl[h].p) --g_used;
        }
    }
    free(p);
}
}
void *operator new(size_t n) { return do_new(n, 1); }
void *operator new[](size_t n) { return do_new(n, 2); }
void operator delete(void *p) noexcept { do_delete(p, 1); }
void operator delete[](void *p) noexcept { do_delete(p, 2); }
void operator delete(void *p, size_t) noexcept { do_delete(p, 1); }
void operator delete[](void *p, size_t) noexcept { do_delete(p, 2); }

namespace pbt {
const uint64_t FILL_PATTERNS[] = {
    0x0000000000000000ULL, 0x7ff8dead7ff8deadULL /*NaN*/, 0x7e37e43c8800759cULL /*1e300*/,
    0xc059000000000000ULL /*-100*/, 0x3ff8000000000000ULL /*1.5*/, 0xffffffffffffffffULL, 0x4141414141414141ULL };
const int N_FILL = 7;
void set_heap_fill(uint64_t p) { g_fill = p; }
uint64_t current_heap_fill() { return g_fill; }
Track::Track() : old(g_track) { g_track = true; }
Track::~Track() { g_track = old; }
long tracked_live() { return g_live; }
long tracked_live_bytes() { return g_live_bytes; }

// ------------------------------------------------------------------ source
static inline uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31);
}
uint64_t Source::draw(uint64_t bound) {
    uint64_t v = 0;
    if (bound > 1) {
        if (mode == Random) {
            uint64_t s1 = rng[0], s0 = rng[1], r = s0 + s1;          // xoroshiro-like
            rng[0] = s0; s1 ^= s1 << 23; rng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
            v = r % bound;
        }
        else if (mode == Replay) { v = in_pos < in_len ? in[in_pos] % bound : 0; }
        else {
            int nb = bound <= 256 ? 1 : bound <= 65536 ? 2 : 4;
            for (int i = 0; i < nb && b_pos < b_len; ++i) v = (v << 8) | bytes[b_pos++];
            v %= bound;
        }
    }
    if (mode == Replay) ++in_pos;
    if (tape && *tape_len < tape_cap) { tape[*tape_len] = v; *tape_len = *tape_len + 1; }
    else if (tape && mode == Random) v = 0;                          // tape exhausted: simplest choices only
    return v;
}
int Source::range(int lo, int hi) { return lo + (int)draw((uint64_t)((long long)hi - lo + 1)); }
bool Source::chance(int num, int den) { return (int)draw(den) >= den - num; }
double Source::uniform(double lo, double hi) { return lo + (hi - lo) * ((double)draw(1ull << 32) / 4294967296.0); }
static double clampd(double x, double lo, double hi) { return x < lo ? lo : x > hi ? hi : x; }
double Source::real(double lo, double hi) {
    static const double nice[] = { 0, 1, -1, 0.5, -0.5, 2, -2, 0.1, -0.1, 10, -10, 3, 1.5707963267948966, -3.141592653589793 };
    const double zero = clampd(0, lo, hi);
    switch (draw(8)) {
    case 0: { double x = nice[draw(sizeof(nice) / sizeof(nice[0]))]; return (x < lo || x > hi) ? zero : x; }
    case 1: return lo + (hi - lo) * ((double)draw(9) / 8.0);
    case 2: { // small magnitude around zero
        double x = (((double)draw(1 << 20)) / (1 << 20) - 0.5) * 1e-3 * (hi - lo); return clampd(x, lo, hi); }
    default: { uint64_t k = draw(1ull << 32); if (k == 0) return zero;
        return lo + (hi - lo) * ((double)k / 4294967296.0); }
    }
}
double Source::logreal(double lo, double hi) {
    uint64_t k = draw(1ull << 24);
    if (k == 0) return clampd(1.0, lo, hi);
    return std::exp(std::log(lo) + (std::log(hi) - std::log(lo)) * ((double)k / (double)(1ull << 24)));
}
int Source::weighted(const std::vector<int> &w) {
    int t = 0; for (int x : w) t += x;
    int r = (int)draw(t); for (size_t i = 0; i < w.size(); ++i) { if (r < w[i]) return (int)i; r -= w[i]; }
    return 0;
}
void Case::note(const char *fmt, ...) {
    if (!verbose) return;
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (trace.size() < 200000) { trace += b; trace += '\n'; }
}

// ------------------------------------------------------------------ shared state of one worker / child
struct Shm {
    volatile uint64_t case_no, done, tape_len; volatile int failed;
    char msg[4096]; uint64_t tape[1 << 16];
};
static const size_t TAPE_CAP = 1 << 16;
static Shm *g_shm = nullptr;
static bool g_replay_verbose = false;
static Case *g_case = nullptr;
static volatile int *g_stop = nullptr;

static void write_failure(const char *m) {
    if (g_shm) { strncpy(g_shm->msg, m, sizeof(g_shm->msg) - 1); g_shm->failed = 1; }
    fprintf(stderr, "FAILURE: %s\n", m);
    if (g_replay_verbose && g_case) { fprintf(stderr, "%s", g_case->trace.c_str()); }
    fflush(stderr);
#ifdef PBT_LIBFUZZER
    abort();
#endif
    if (g_case && g_case->verbose && getenv("PBT_TRACE_FILE")) {
        FILE *f = fopen(getenv("PBT_TRACE_FILE"), "w"); if (f) { fwrite(g_case->trace.data(), 1, g_case->trace.size(), f); fclose(f); }
    }
    _exit(70);
}
void fail(const char *fmt, ...) {
    char b[4000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    write_failure(b); abort();
}
void near(Case &c, const char *name, double got, double want, double tol, const char *fmt, ...) {
    static const double strict = getenv("PBT_STRICT") ? atof(getenv("PBT_STRICT")) : 1;      // development aid: tighter tolerances show how much room is left
    double e = std::fabs(got - want); if (strict != 1) tol /= strict;
    if (e <= tol) { c.ratio(name, tol > 0 ? e / tol : 0); return; }
    char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    fail("%s: %s got %.17g, expected %.17g (error %.3g, tolerance %.3g)", name, b, got, want, e, tol);
}
static void on_signal(int sig) {
    if (sig == SIGVTALRM) write_failure("case did not finish within the CPU-time limit (hang)");
    char b[64]; snprintf(b, sizeof b, "fatal signal %d", sig); write_failure(b);
}
static void on_terminate() { write_failure("std::terminate (uncaught exception)"); }

static void arm(int secs) {
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = secs; setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
static const int CASE_CPU_S = 40;

static void exec_case(Source &src, bool verbose, Case **out = nullptr) {
    static Case *keep = nullptr; delete keep; keep = new Case(src, verbose);
    g_case = keep;
    g_live = 0; g_live_bytes = 0; g_track = false;
    set_heap_fill(FILL_PATTERNS[src.draw(N_FILL)]);
    run_case(*keep);
    set_heap_fill(0);
    if (out) *out = keep;
}
static void seed_source(Source &s, uint64_t seed, uint64_t no) {
    memset(&s, 0, sizeof s); s.mode = Source::Random;
    uint64_t x = seed * 0x9e3779b97f4a7c15ULL + 0x1234567; uint64_t h = splitmix(x);
    for (const char *p = PROPERTY_ID; *p; ++p) { h ^= (uint64_t)*p; h = splitmix(h); }
    h ^= no * 0xd1342543de82ef95ULL; s.rng[0] = splitmix(h); s.rng[1] = splitmix(h) | 1;
}
static void bind_tape(Source &s, Shm *m) { m->tape_len = 0; s.tape = m->tape; s.tape_cap = TAPE_CAP; s.tape_len = &m->tape_len; }
static Shm *new_shm() { return (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
static void install_handlers() {
    signal(SIGVTALRM, on_signal); signal(SIGABRT, on_signal);
#if !defined(__SANITIZE_ADDRESS__)
    signal(SIGSEGV, on_signal); signal(SIGBUS, on_signal);
#endif
    signal(SIGFPE, on_signal); signal(SIGILL, on_signal);
    std::set_terminate(on_terminate);
}
static std::string tail_file(const std::string &p, size_t n = 1500) {
    std::ifstream f(p); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
    size_t k = s.find("ERROR: AddressSanitizer"); if (k == std::string::npos) k = s.find("runtime error:");
    if (k != std::string::npos) { size_t b = s.rfind('\n', k); s = s.substr(b == std::string::npos ? 0 : b + 1, n); }
    else if (s.size() > n) s = s.substr(s.size() - n);
    return s;
}
static std::string json_escape(const std::string &s) {
    std::string o; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; } else o += ch; } return o;
}
// Runs one tape in a child. Returns true when it fails.
static bool tape_fails(const std::vector<uint64_t> &t, std::vector<uint64_t> *used, std::string *msg, const std::string &errfile, std::string *trace = nullptr) {
    Shm *m = new_shm(); m->failed = 0; m->msg[0] = 0;
    std::string tf = errfile + ".trace"; unlink(tf.c_str());
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2);
        g_shm = m; install_handlers(); arm(CASE_CPU_S);
        if (trace) setenv("PBT_TRACE_FILE", tf.c_str(), 1);
        Source s; memset(&s, 0, sizeof s); s.mode = Source::Replay; s.in = t.data(); s.in_len = t.size(); bind_tape(s, m);
        exec_case(s, trace != nullptr); _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (bad && msg) { if (m->failed) *msg = m->msg; else *msg = "crash: " + tail_file(errfile); }
    if (used) used->assign(m->tape, m->tape + m->tape_len);
    if (trace) { std::ifstream f(tf); std::stringstream ss; ss << f.rdbuf(); *trace = ss.str(); unlink(tf.c_str()); }
    munmap(m, sizeof(Shm));
    return bad;
}
static void trim(std::vector<uint64_t> &t) { while (!t.empty() && t.back() == 0) t.pop_back(); }

static std::vector<uint64_t> shrink(std::vector<uint64_t> best, const std::string &errfile, double budget_s, int budget_n, int *execs) {
    auto t0 = std::chrono::steady_clock::now(); int n = 0;
    auto ok = [&]() { return n < budget_n && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget_s; };
    auto attempt = [&](const std::vector<uint64_t> &cand) {
        ++n; std::vector<uint64_t> used; std::string m;
        if (!tape_fails(cand, &used, &m, errfile)) return false;
        trim(used); std::vector<uint64_t> c2 = cand; trim(c2);
        best = used.size() <= c2.size() ? used : c2; return true;
    };
    trim(best);
    bool progress = true;
    while (progress && ok()) {
        progress = false;
        for (size_t chunk = std::max<size_t>(1, best.size() / 2); chunk >= 1 && ok(); chunk /= 2) {    // delete chunks
            for (size_t pos = best.size(); pos-- > 0 && ok();) {
                if (pos % chunk) continue;
                if (pos + chunk > best.size()) continue;
                std::vector<uint64_t> c = best; c.erase(c.begin() + pos, c.begin() + pos + chunk);
                if (c.size() < best.size() && attempt(c)) progress = true;
            }
            if (chunk == 1) break;
        }
        for (size_t chunk = 8; chunk >= 1 && ok(); chunk /= 2) {                                       // zero chunks
            for (size_t pos = 0; pos + chunk <= best.size() && ok(); pos += chunk) {
                bool any = false; for (size_t k = 0; k < chunk; ++k) any |= best[pos + k] != 0;
                if (!any) continue;
                std::vector<uint64_t> c = best; for (size_t k = 0; k < chunk; ++k) c[pos + k] = 0;
                if (attempt(c)) progress = true;
            }
            if (chunk == 1) break;
        }
        for (size_t pos = 0; pos < best.size() && ok(); ++pos) {                                       // lower values
            uint64_t lo = 0; 
            while (pos < best.size() && best[pos] > lo && ok()) {
                uint64_t mid = lo + (best[pos] - lo) / 2; if (mid == best[pos]) break;
                std::vector<uint64_t> c = best; c[pos] = mid;
                uint64_t before = best[pos]; size_t bl = best.size();
                if (attempt(c)) { progress = true; if (best.size() != bl) break; if (best[pos] >= before) break; } else { lo = mid + 1; }
                if (best.size() > pos && best[pos] - lo > (1u << 20) && n % 7 == 6) break;
            }
        }
    }
    if (execs) *execs = n;
    return best;
}

// A failure that needs earlier cases in the same process (state kept outside the objects of a case).
static bool cases_fail(uint64_t seed, const std::vector<uint64_t> &nos, std::string *msg, const std::string &errfile) {
    Shm *m = new_shm(); m->failed = 0; m->msg[0] = 0;
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2);
        g_shm = m; install_handlers();
        for (uint64_t no : nos) { Source s; seed_source(s, seed, no); bind_tape(s, m); arm(CASE_CPU_S); exec_case(s, false); }
        _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (bad && msg) { if (m->failed) *msg = m->msg; else *msg = "crash: " + tail_file(errfile); }
    munmap(m, sizeof(Shm));
    return bad;
}
static int report_history(uint64_t seed, uint64_t first, uint64_t jobs, uint64_t no, const std::string &out) {
    std::string err = out + "/shrink.err", m; std::vector<uint64_t> nos;
    for (uint64_t i = first + (no - first) % jobs; i <= no; i += jobs) nos.push_back(i);
    if (!cases_fail(seed, nos, &m, err)) return 0;
    for (size_t drop = nos.size() / 2; drop >= 1; drop /= 2)                    // drop earlier cases
        while (nos.size() > drop) { std::vector<uint64_t> c(nos.begin() + drop, nos.end()); if (cases_fail(seed, c, &m, err)) nos = c; else break; }
    int reps = 0; for (int i = 0; i < 3; ++i) reps += cases_fail(seed, nos, &m, err);
    if (reps < 3) return 0;
    FILE *f = fopen((out + "/violation.json").c_str(), "w");
    fprintf(f, "{\"property\": \"%s\", \"seed\": %llu, \"case\": %llu, \"found_by\": \"random generation, several cases in one process\", \"message\": \"%s\", \"cases\": [",
        PROPERTY_ID, (unsigned long long)seed, (unsigned long long)no, json_escape(m).c_str());
    for (size_t i = 0; i < nos.size(); ++i) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)nos[i]);
    fprintf(f, "]}\n"); fclose(f);
    fprintf(stdout, "FAILED case=%llu (after %zu earlier cases in one process): %s\n", (unsigned long long)no, nos.size() - 1, m.c_str());
    return 1;
}
static std::vector<uint64_t> read_list(const char *path, const char *key) {
    std::ifstream f(path); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
    std::vector<uint64_t> t; size_t k = s.find(std::string("\"") + key + "\": ["); if (k == std::string::npos) return t;
    k = s.find('[', k); size_t e = s.find(']', k); std::string body = s.substr(k + 1, e - k - 1);
    std::stringstream bs(body); std::string item; while (std::getline(bs, item, ',')) if (!item.empty()) t.push_back(strtoull(item.c_str(), nullptr, 10));
    return t;
}
static uint64_t read_num(const char *path, const char *key) {
    std::ifstream f(path); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
    size_t k = s.find(std::string("\"") + key + "\": "); return k == std::string::npos ? 0 : strtoull(s.c_str() + k + strlen(key) + 4, nullptr, 10);
}
#ifndef PBT_LIBFUZZER
static int report(std::vector<uint64_t> tape, const std::string &msg0, const std::string &out, uint64_t seed, uint64_t no, const char *how) {
    std::string err = out + "/shrink.err", msg = msg0, m; std::vector<uint64_t> used; 
    if (!tape_fails(tape, &used, &m, err)) {
        // retry a few times: heap-layout dependent failures
        int again = 0; for (int i = 0; i < 3; ++i) again += tape_fails(tape, &used, &m, err);
        if (!again) { fprintf(stdout, "UNREPRODUCED case=%llu %s\n", (unsigned long long)no, msg0.c_str()); return 0; }
    }
    int execs = 0; std::vector<uint64_t> best = shrink(tape, err, 40.0, 1500, &execs);
    std::string trace; int reps = 0; for (int i = 0; i < 3; ++i) reps += tape_fails(best, nullptr, &m, err, i == 0 ? &trace : nullptr);
    if (reps < 3) { best = tape; reps = 0; for (int i = 0; i < 3; ++i) reps += tape_fails(best, nullptr, &m, err, i == 0 ? &trace : nullptr); }
    if (!reps) { fprintf(stdout, "UNREPRODUCED case=%llu %s\n", (unsigned long long)no, msg0.c_str()); return 0; }
    std::string path = out + "/violation.json"; FILE *f = fopen(path.c_str(), "w");
    fprintf(f, "{\"property\": \"%s\", \"seed\": %llu, \"case\": %llu, \"found_by\": \"%s\", \"shrink_executions\": %d, \"replays_failing\": %d,\n \"message\": \"%s\",\n \"trace\": \"%s\",\n \"tape\": [",
        PROPERTY_ID, (unsigned long long)seed, (unsigned long long)no, how, execs, reps, json_escape(m).c_str(), json_escape(trace).c_str());
    for (size_t i = 0; i < best.size(); ++i) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)best[i]);
    fprintf(f, "]}\n"); fclose(f);
    fprintf(stdout, "FAILED case=%llu: %s\n", (unsigned long long)no, m.c_str());
    return 1;
}
#endif
} // namespace pbt

extern "C" void verif_assert_fail(const char *expr, const char *file, int line) {
    pbt::fail("assertion in the library failed: %s (%s:%d)", expr, file, line);
}

#ifdef PBT_LIBFUZZER
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    static pbt::Shm *m = nullptr; if (!m) m = pbt::new_shm();
    pbt::Source s; memset(&s, 0, sizeof s); s.mode = pbt::Source::Bytes; s.bytes = data; s.b_len = size; pbt::bind_tape(s, m);
    pbt::exec_case(s, false);
    return 0;
}
#else
using namespace pbt;
int main(int argc, char **argv) {
    uint64_t seed = 1; long cases = -1; int jobs = 8; std::string out = "."; const char *replay = nullptr, *frombytes = nullptr; bool thorough = false;
    long first = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() { return argv[++i]; };
        if (a == "--seed") seed = strtoull(next(), nullptr, 10); else if (a == "--cases") cases = atol(next());
        else if (a == "--jobs") jobs = atoi(next()); else if (a == "--out") out = next(); else if (a == "--replay") replay = next();
        else if (a == "--first") first = atol(next());
        else if (a == "--from-bytes") frombytes = next(); else if (a == "--thorough") thorough = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    if (cases < 0) cases = thorough ? THOROUGH_CASES : QUICK_CASES;
    if (replay) {
        std::vector<uint64_t> nos = read_list(replay, "cases");
        if (!nos.empty()) {
            std::string m; bool bad = cases_fail(read_num(replay, "seed"), nos, &m, "/dev/stderr");
            printf(bad ? "replay fails: %s\n" : "replay: property held\n", m.c_str()); return bad ? 70 : 0;
        }
        std::vector<uint64_t> t = read_list(replay, "tape"); g_replay_verbose = true; g_shm = new_shm(); install_handlers(); arm(CASE_CPU_S);
        Source s; memset(&s, 0, sizeof s); s.mode = Source::Replay; s.in = t.data(); s.in_len = t.size(); bind_tape(s, g_shm);
        Case *c = nullptr; exec_case(s, true, &c); printf("%s", c->trace.c_str()); printf("replay: property held\n"); return 0;
    }
    mkdir(out.c_str(), 0755);
    unlink((out + "/violation.json").c_str());
    if (frombytes) {
        std::ifstream f(frombytes, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); std::string data = ss.str();
        Shm *m = new_shm(); pid_t pid = fork();
        if (pid == 0) { int fd = open((out + "/bytes.err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); g_shm = m; install_handlers(); arm(CASE_CPU_S);
            Source s; memset(&s, 0, sizeof s); s.mode = Source::Bytes; s.bytes = (const uint8_t *)data.data(); s.b_len = data.size(); bind_tape(s, m); exec_case(s, false); _exit(0); }
        int st; waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { printf("bytes: property held\n"); return 0; }
        return report(std::vector<uint64_t>(m->tape, m->tape + m->tape_len), m->failed ? m->msg : "crash", out, seed, 0, "libFuzzer");
    }
    auto t0 = std::chrono::steady_clock::now();
    std::vector<Shm *> shm(jobs); std::vector<pid_t> pids(jobs);
    int *stop = (int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); g_stop = stop;
    std::vector<long> begin(jobs); for (int w = 0; w < jobs; ++w) begin[w] = first + w;
    int rc = 0; bool open_failure = false;
    for (int round = 0; round < 5; ++round) {          // a failure that does not reproduce does not end the search
    *stop = 0;
    for (int w = 0; w < jobs; ++w) {
        shm[w] = new_shm(); shm[w]->case_no = (uint64_t)begin[w];
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            std::string ef = out + "/worker" + std::to_string(w) + ".err"; int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2);
            g_shm = shm[w]; install_handlers();
            std::map<std::string, uint64_t> labels; std::map<std::string, double> ratios; std::unordered_set<uint64_t> hashes; uint64_t nontriv = 0, done = 0; std::string samples; int ns = 0;
            for (long i = begin[w]; i < first + cases; i += jobs) {
                if (*g_stop) break;
                g_shm->case_no = (uint64_t)i; Source s; seed_source(s, seed, (uint64_t)i); bind_tape(s, g_shm);
                bool want = ns < 2; Case *c = nullptr; arm(CASE_CPU_S);
                exec_case(s, want, &c);
                ++done; for (auto &l : c->labels) labels[l.first]++;
                for (auto &r : c->ratios) { double &x = ratios[r.first]; if (!(r.second <= x)) x = r.second; }
                if (c->is_nontrivial) {
                    ++nontriv; uint64_t h = 1469598103934665603ULL; for (uint64_t k = 1; k < g_shm->tape_len; ++k) { h ^= g_shm->tape[k]; h *= 1099511628211ULL; h ^= h >> 31; }
                    hashes.insert(h);
                    if (want) { ++ns; std::string t = c->trace; if (t.size() > 1500) t = t.substr(0, 1500) + " ..."; samples += (samples.empty() ? "" : ",") + std::string("\"case ") + std::to_string(i) + ": " + json_escape(t) + "\""; }
                }
                if (g_shm->tape_len >= TAPE_CAP) labels["~tape_overflow"]++;
            }
            FILE *f = fopen((out + "/worker" + std::to_string(w) + ".json").c_str(), "w");
            fprintf(f, "{\"done\": %llu, \"nontrivial\": %llu, \"samples\": [%s], \"labels\": {", (unsigned long long)done, (unsigned long long)nontriv, samples.c_str());
            bool fst = true; for (auto &l : labels) { fprintf(f, "%s\"%s\": %llu", fst ? "" : ", ", json_escape(l.first).c_str(), (unsigned long long)l.second); fst = false; }
            fprintf(f, "}, \"ratios\": {"); fst = true;
            for (auto &r : ratios) { fprintf(f, "%s\"%s\": %.6g", fst ? "" : ", ", json_escape(r.first).c_str(), r.second); fst = false; }
            fprintf(f, "}}\n"); fclose(f);
            f = fopen((out + "/worker" + std::to_string(w) + ".hash").c_str(), "wb"); for (uint64_t h : hashes) fwrite(&h, 8, 1, f); fclose(f);
            _exit(0);
        }
        pids[w] = pid;
    }
    int left = jobs; uint64_t bestcase = ~0ull; int bestw = -1; std::string bestmsg;
    while (left > 0) {
        int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) break; int w = -1; for (int k = 0; k < jobs; ++k) if (pids[k] == p) w = k; if (w < 0) continue;
        --left;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            *stop = 1; std::string m = shm[w]->failed ? std::string(shm[w]->msg) : "crash: " + tail_file(out + "/worker" + std::to_string(w) + ".err");
            printf("worker %d: case %llu: %s\n", w, (unsigned long long)shm[w]->case_no, m.substr(0, 400).c_str());
            if (shm[w]->case_no < bestcase) { bestcase = shm[w]->case_no; bestw = w; bestmsg = m; }
        }
    }
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    printf("search: %.1f s\n", wall);
    if (bestw >= 0) {
        // try every failing worker's case until one reproduces
        rc = report(std::vector<uint64_t>(shm[bestw]->tape, shm[bestw]->tape + shm[bestw]->tape_len), bestmsg, out, seed, bestcase, "random generation");
        for (int w = 0; !rc && w < jobs; ++w) if (w != bestw && shm[w]->failed)
            rc = report(std::vector<uint64_t>(shm[w]->tape, shm[w]->tape + shm[w]->tape_len), shm[w]->msg, out, seed, shm[w]->case_no, "random generation");
        for (int w = 0; !rc && w < jobs; ++w) if (w == bestw || shm[w]->failed)
            rc = report_history(seed, (uint64_t)first, (uint64_t)jobs, shm[w]->case_no, out);
        if (!rc) { open_failure = true; for (int w = 0; w < jobs; ++w) begin[w] = (long)shm[w]->case_no + jobs; continue; }
    }
    break; }
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (!rc && open_failure) rc = 3;   // failing but not reproducible
    FILE *f = fopen((out + "/summary.json").c_str(), "w"); fprintf(f, "{\"wall\": %.3f, \"rc\": %d, \"rule\": \"%s\"}\n", wall, rc, json_escape(PROPERTY_RULE).c_str()); fclose(f);
    return rc;
}
#endif
