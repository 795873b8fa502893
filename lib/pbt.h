// Minimal property-based-testing engine used by every C++ suite in /verif.
//
// * Every random decision of a case is a draw from a "choice sequence" (Src). A case is therefore a pure
//   function of its choice sequence; a random case derives the sequence from (seed, suite, index), a replay
//   reads it from a file, and shrinking edits the sequence (delete / zero / halve / decrement), so every
//   generator shrinks for free.
// * Cases run in forked workers: a crash, sanitizer abort or hang of the code under test is attributed to the
//   exact case that was running and then shrunk like any other failure (each shrink attempt is forked too).
// * Coverage accounting (labels, non-trivial cases by each suite's own rule, distinct cases by hash of the
//   described input, samples) is kept in shared memory and written to a JSON result for the driver.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <stdexcept>
#include <atomic>
#include <algorithm>
#include <chrono>
#include <cerrno>
#include <new>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/types.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>

namespace pbt {

struct Failure { std::string msg, key; };
struct Discard {};

[[noreturn]] inline void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void fail(const char *fmt, ...) {
    char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    throw Failure{buf, ""};
}
#define PBT_CHECK(cond, ...) do { if (!(cond)) pbt::fail(__VA_ARGS__); } while (0)

static inline uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static inline uint64_t fnv(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ULL) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ULL; }
    return h;
}

// ---------------------------------------------------------------- choice source
class Src {
  public:
    bool replay = false;
    uint64_t st = 0;
    std::vector<uint64_t> in;     // replay input
    size_t pos = 0;
    std::vector<uint64_t> log;    // what was used (already reduced mod bound)
    static constexpr size_t kMax = 400000;

    explicit Src(uint64_t seed) : st(seed) {}
    explicit Src(const std::vector<uint64_t> &v) : replay(true), in(v) {}

    uint64_t raw(uint64_t bound) {   // [0,bound); bound==0: full 64 bits
        uint64_t v;
        if (replay) { v = pos < in.size() ? in[pos] : 0; pos++; if (bound) v %= bound; }
        else { v = splitmix(st); if (bound) v = (uint64_t)(((unsigned __int128)v * bound) >> 64); }
        if (log.size() < kMax) log.push_back(v);
        return v;
    }
    // smallest value is the simplest one
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + raw(hi - lo + 1); }
    int64_t irange(int64_t lo, int64_t hi) { return lo + (int64_t)raw((uint64_t)(hi - lo) + 1); }
    bool chance(unsigned num, unsigned den) { return raw(den) >= den - num; }  // 0 => false (simple)
    template <class T> const T &pick(const std::vector<T> &v) { return v[raw(v.size())]; }
    uint64_t u64() { return raw(0); }
    // log-uniform in [lo,hi]: sizes of all magnitudes
    uint64_t logrange(uint64_t lo, uint64_t hi) {
        uint64_t span = hi - lo; int nb = 0; while (span >> nb && nb < 63) nb++;
        int b = (int)raw(nb + 1);
        uint64_t m = b ? ((b >= 63 ? ~0ULL : (1ULL << b) - 1)) : 0;
        if (m > span) m = span;
        return lo + (m ? raw(m + 1) : 0);
    }
    std::vector<uint8_t> bytes(size_t n) {
        std::vector<uint8_t> r(n);
        for (size_t i = 0; i < n; i += 8) {
            uint64_t v = raw(0);
            for (size_t j = 0; j < 8 && i + j < n; j++) r[i + j] = (uint8_t)(v >> (8 * j));
        }
        return r;
    }
};

// ---------------------------------------------------------------- shared accounting
enum { MAXLAB = 96, LABLEN = 48, MAXSAMP = 12, SAMPLEN = 1200 };
struct Shared {
    std::atomic<uint64_t> next, done, nontriv, discarded, known;
    std::atomic<uint32_t> nlab; std::atomic<uint32_t> lablock;
    char lab[MAXLAB][LABLEN]; std::atomic<uint64_t> labcnt[MAXLAB];
    std::atomic<uint32_t> nsamp; char samp[MAXSAMP][SAMPLEN];
    std::atomic<uint64_t> nhash; uint64_t hashcap;
    std::atomic<uint32_t> stop;
    struct Slot { std::atomic<int64_t> idx; std::atomic<uint64_t> t0; std::atomic<uint32_t> failed; char msg[4096]; char key[128]; char desc[8192]; } slot[64];
    char knownkeys[16][128]; std::atomic<uint32_t> nknown;
    // result area for single forked runs
    std::atomic<uint32_t> one_state; uint64_t one_n; char one_msg[4096]; char one_key[128]; char one_desc[8192];
    uint64_t one_choices[Src::kMax];
};
inline Shared *&shm() { static Shared *p = nullptr; return p; }
inline uint64_t *&hashes() { static uint64_t *p = nullptr; return p; }
inline std::vector<std::string> &known_list() { static std::vector<std::string> v; return v; }

struct Ctx {
    Src &s; std::string desc; bool nt = false; bool quiet = false; std::vector<std::string> labs;
    explicit Ctx(Src &src) : s(src) {}
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        if (!desc.empty()) desc += "; ";
        desc += buf;
        publish();
    }
    void hex(const char *name, const std::vector<uint8_t> &v, size_t max = 200) {
        std::string h; char b[3];
        for (size_t i = 0; i < v.size() && i < max; i++) { snprintf(b, 3, "%02x", v[i]); h += b; }
        if (v.size() > max) h += "...";
        note("%s[%zu]=%s", name, v.size(), h.c_str());
        if (v.size() > max) note("fnv=%016llx", (unsigned long long)fnv(v.data(), v.size()));
    }
    void label(const std::string &l) { labs.push_back(l); }
    void labelf(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        char buf[LABLEN]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); labs.push_back(buf);
    }
    void nontrivial(bool b = true) { nt = nt || b; }
    void discard() { throw Discard{}; }
    // A failure that is the listed known finding `key` is counted and the search continues.
    [[noreturn]] void known(const std::string &key, const std::string &msg) { throw Failure{msg, key}; }
    char *pubdesc = nullptr; size_t publen = 0;
    void publish() { if (pubdesc) { size_t n = std::min(desc.size(), publen - 1); memcpy(pubdesc, desc.data(), n); pubdesc[n] = 0; } }
};

typedef std::function<void(Ctx &)> Prop;
struct Suite {
    std::string name; Prop prop; uint64_t quick, thorough;
    std::string rule;             // what makes a case non-trivial
    int timeout_s = 60;          // generous: a case that takes this long has hung
    bool isolate = false;         // one forked process per case
    int maxjobs = 64;
    bool nondet = false;          // schedules are part of the input: a wrong result counts even if it does not recur
};

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline uint64_t case_seed(uint64_t seed, const std::string &suite, uint64_t idx) {
    uint64_t h = fnv(suite.data(), suite.size()); h ^= seed * 0x9e3779b97f4a7c15ULL; splitmix(h); h ^= idx * 0xd6e8feb86659fd93ULL; splitmix(h); return h;
}
inline bool is_known(const std::string &k) { if (k.empty()) return false; for (auto &x : known_list()) if (x == k) return true; return false; }

// run one case; returns 0 ok, 1 failed, 2 discarded
inline int run_case(const Suite &su, Src &s, std::string &msg, std::string &key, std::string &desc, bool account, char *pub, size_t publen) {
    Ctx c(s); c.pubdesc = pub; c.publen = publen; if (pub) pub[0] = 0;
    int r = 0;
    try { su.prop(c); }
    catch (Failure &f) { msg = f.msg; key = f.key; r = 1; }
    catch (Discard &) { r = 2; }
    catch (std::exception &e) { msg = std::string("unexpected exception: ") + e.what(); r = 1; }
    catch (...) { msg = "unexpected exception of unknown type"; r = 1; }
    desc = c.desc;
    if (account && r != 1) {
        Shared *g = shm();
        if (r == 2) { g->discarded++; return r; }
        for (auto &l : c.labs) {
            uint32_t exp = 0; while (!g->lablock.compare_exchange_weak(exp, 1)) exp = 0;
            uint32_t i, n = g->nlab; for (i = 0; i < n; i++) if (!strncmp(g->lab[i], l.c_str(), LABLEN - 1)) break;
            if (i == n && n < MAXLAB) { strncpy(g->lab[i], l.c_str(), LABLEN - 1); g->nlab = n + 1; }
            g->lablock = 0;
            if (i < MAXLAB) g->labcnt[i]++;
        }
        if (c.nt) {
            g->nontriv++;
            uint64_t k = g->nhash++; if (k < g->hashcap) hashes()[k] = fnv(c.desc.data(), c.desc.size());
            if (g->nsamp < MAXSAMP && (g->nontriv < 4 || (g->nontriv % 7) == 0)) {
                uint32_t i = g->nsamp++; if (i < MAXSAMP) { strncpy(g->samp[i], c.desc.c_str(), SAMPLEN - 1); } else g->nsamp = MAXSAMP;
            }
        }
        g->done++;
    }
    return r;
}

struct FailRec { std::string suite, msg, key, desc; std::vector<uint64_t> choices; uint64_t idx = 0; bool hang = false, flaky = false; };

inline std::string tail_of(const std::string &path, size_t n = 1500) {
    FILE *f = fopen(path.c_str(), "rb"); if (!f) return ""; std::string s; char b[4096]; size_t k;
    while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k);
    fclose(f);
    size_t p = s.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = s.find("runtime error:");
    if (p == std::string::npos) p = s.find("WARNING: ThreadSanitizer");
    if (p != std::string::npos) return s.substr(p > 80 ? p - 80 : 0, n);
    return s.size() > n ? s.substr(s.size() - n) : s;
}

// Run one choice sequence in a forked child. 0 ok, 1 fail, 2 discard.
inline int run_forked(const Suite &su, bool replay, uint64_t seed, const std::vector<uint64_t> &ch, FailRec &out, int timeout_s) {
    Shared *g = shm(); g->one_state = 0; g->one_n = 0; g->one_msg[0] = g->one_key[0] = g->one_desc[0] = 0;
    char errp[64]; snprintf(errp, sizeof errp, "/tmp/pbt.%d.err", (int)getpid());
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        setpgid(0, 0);
        int fd = open(errp, O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
        Src s0 = replay ? Src(ch) : Src(seed);
        std::string m, k, d;
        // keep the log visible even if we crash: copy lazily through publish of choices
        struct Watch { Src *s; } w{&s0}; (void)w;
        // draw log is copied by a crash handler (signal-safe enough for our purpose)
        static Src *gs; gs = &s0;
        auto dump = [](int sig) { Shared *g = shm(); size_t n = std::min(gs->log.size(), (size_t)Src::kMax); memcpy(g->one_choices, gs->log.data(), n * 8); g->one_n = n; if (sig) { signal(sig, SIG_DFL); raise(sig); } };
        for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGTERM, SIGTRAP}) signal(sg, dump);
        int r = run_case(su, s0, m, k, d, false, g->one_desc, sizeof g->one_desc);
        for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGTERM, SIGTRAP}) signal(sg, SIG_DFL);
        dump(0);
        strncpy(g->one_msg, m.c_str(), sizeof g->one_msg - 1); strncpy(g->one_key, k.c_str(), sizeof g->one_key - 1);
        strncpy(g->one_desc, d.c_str(), sizeof g->one_desc - 1);
        g->one_state = 1 + r;
        _exit(0);
    }
    setpgid(p, p);
    double t0 = now(); int st = 0; bool hang = false;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG); if (r == p) break;
        if (now() - t0 > timeout_s) { hang = true; kill(p, SIGTERM); usleep(300000); kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); break; }
        usleep(now() - t0 < 0.05 ? 200 : 5000);
    }
    kill(-p, SIGKILL);
    std::vector<uint64_t> used(g->one_choices, g->one_choices + std::min<uint64_t>(g->one_n, Src::kMax));
    out.suite = su.name; out.desc = g->one_desc; out.hang = hang;
    int res;
    if (hang) { out.msg = "did not terminate within " + std::to_string(timeout_s) + " s"; out.key = ""; res = 1; }
    else if (g->one_state == 0) {
        out.msg = (WIFSIGNALED(st) ? "crashed with signal " + std::to_string(WTERMSIG(st)) : "process exited with status " + std::to_string(WEXITSTATUS(st))) + ": " + tail_of(errp);
        out.key = ""; res = 1;
    } else { res = (int)g->one_state - 1; out.msg = g->one_msg; out.key = g->one_key; }
    unlink(errp);
    // a crash inside sanitizer runtime may skip our handler: fall back to the given choices
    out.choices = used.empty() ? ch : used;
    if (replay && used.empty()) out.choices = ch;
    return res;
}

inline void shrink(const Suite &su, FailRec &best, double budget) {
    double end = now() + budget; int attempts = 0;
    int tmo = best.hang ? su.timeout_s : std::min(su.timeout_s, 60);
    auto attempt = [&](const std::vector<uint64_t> &c) -> bool {
        if (now() > end || attempts > 1500) return false;
        attempts++;
        FailRec r; if (run_forked(su, true, 0, c, r, tmo) != 1 || is_known(r.key)) return false;
        r.idx = best.idx; if (r.choices.size() > c.size()) r.choices = c; best = r; return true;
    };
    if (best.hang) return;
    bool prog = true;
    while (prog && now() < end) {
        prog = false;
        for (size_t blk = std::max<size_t>(1, best.choices.size() / 2); blk >= 1; blk /= 2) {
            for (size_t i = 0; i + blk <= best.choices.size() && now() < end;) {
                auto c = best.choices; c.erase(c.begin() + i, c.begin() + i + blk);
                if (attempt(c)) prog = true; else i += blk;
            }
            if (blk == 1) break;
        }
        for (size_t i = 0; i < best.choices.size() && now() < end; i++) {
            if (!best.choices[i]) continue;
            auto c = best.choices; c[i] = 0;
            if (attempt(c)) { prog = true; continue; }
            uint64_t lo = 0, hi = best.choices[i];
            while (lo + 1 < hi && now() < end) {
                uint64_t mid = lo + (hi - lo) / 2; c = best.choices; if (i >= c.size()) break; c[i] = mid;
                if (attempt(c)) { prog = true; hi = mid; if (i >= best.choices.size()) break; } else lo = mid;
            }
        }
        while (!best.choices.empty() && best.choices.back() == 0) { best.choices.pop_back(); }
    }
}

inline std::string jesc(const std::string &s) {
    std::string o; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o;
}

inline void worker(const Suite &su, uint64_t seed, uint64_t total, int w, double deadline) {
    Shared *g = shm(); auto &sl = g->slot[w];
    char errp[64]; snprintf(errp, sizeof errp, "/tmp/pbt.%d.w%d.err", (int)getppid(), w);
    int fd = open(errp, O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
    uint64_t ran = 0;
    while (!g->stop) {
        if (now() > deadline) break;
        uint64_t i = g->next++; if (i >= total) break;
        if (fd >= 0 && (ran & 15) == 0) { if (ftruncate(fd, 0)) {} }
        sl.t0 = (uint64_t)(now() * 1000); sl.idx = (int64_t)i;
        Src s(case_seed(seed, su.name, i)); std::string m, k, d;
        int r = run_case(su, s, m, k, d, true, sl.desc, sizeof sl.desc);
        if (r == 1) {
            if (is_known(k)) { g->known++; g->done++; uint32_t n; bool seen = false; for (n = 0; n < g->nknown && n < 16; n++) if (k == g->knownkeys[n]) seen = true;
                if (!seen) { uint32_t q = g->nknown++; if (q < 16) strncpy(g->knownkeys[q], k.c_str(), 127); } }
            else { strncpy(sl.msg, m.c_str(), sizeof sl.msg - 1); strncpy(sl.key, k.c_str(), sizeof sl.key - 1); sl.failed = 1; g->stop = 1; sl.t0 = 0; _exit(0); }
        }
        sl.idx = -1; sl.t0 = 0;
        ran++;
        if (su.isolate || ran >= 2000) _exit(7);  // recycle
    }
    _exit(0);
}

struct SuiteResult { std::string name, rule; uint64_t cases = 0, nontriv = 0, distinct = 0, discarded = 0, known = 0; std::map<std::string, uint64_t> labels; std::vector<std::string> samples, knownkeys; std::vector<FailRec> fails; double wall = 0; bool truncated = false; std::vector<std::string> flaky; };

inline SuiteResult run_suite(const Suite &su, uint64_t seed, uint64_t total, int jobs, double deadline) {
    SuiteResult R; R.name = su.name; R.rule = su.rule; double t0 = now();
    size_t cap = total + 16;
    Shared *g = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (g) Shared();
    uint64_t *hs = (uint64_t *)mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    shm() = g; hashes() = hs; g->hashcap = cap;
    for (auto &s : g->slot) { s.idx = -1; s.t0 = 0; s.failed = 0; }
    jobs = std::min(jobs, su.maxjobs); jobs = std::min<int>(jobs, 64); if ((uint64_t)jobs > total) jobs = (int)std::max<uint64_t>(1, total);
    std::vector<pid_t> pid(jobs, 0);
    fflush(stdout); fflush(stderr);
    auto spawn = [&](int w) { g->slot[w].idx = -1; g->slot[w].t0 = 0; pid_t p = fork(); if (p == 0) { setpgid(0, 0); worker(su, seed, total, w, deadline); } setpgid(p, p); pid[w] = p; };
    for (int w = 0; w < jobs; w++) spawn(w);
    std::vector<std::pair<uint64_t, std::string>> bad;  // idx, message
    std::set<uint64_t> hangidx;
    int alive = jobs;
    while (alive > 0) {
        bool any = false;
        for (int w = 0; w < jobs; w++) {
            if (!pid[w]) continue;
            int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
            auto &sl = g->slot[w];
            if (r == pid[w]) {
                any = true; kill(-pid[w], SIGKILL); pid[w] = 0;
                if (sl.failed) { bad.push_back({(uint64_t)sl.idx, sl.msg}); alive--; }
                else if (WIFEXITED(st) && WEXITSTATUS(st) == 7) { spawn(w); }
                else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sl.idx < 0) alive--;
                else { if (sl.idx >= 0) bad.push_back({(uint64_t)sl.idx, "crash"}); g->stop = 1; alive--; }
            } else {
                uint64_t t = sl.t0; if (t && now() * 1000 - t > su.timeout_s * 1000.0) {
                    bad.push_back({(uint64_t)sl.idx, "hang"}); hangidx.insert(sl.idx); g->stop = 1; kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); pid[w] = 0; alive--; any = true; }
            }
        }
        if (!any) usleep(2000);
    }
    for (int w = 0; w < jobs; w++) { char p[64]; snprintf(p, sizeof p, "/tmp/pbt.%d.w%d.err", (int)getpid(), w); unlink(p); }
    R.cases = g->done; R.nontriv = g->nontriv; R.discarded = g->discarded; R.known = g->known;
    { std::vector<uint64_t> v(hs, hs + std::min<uint64_t>(g->nhash, cap)); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); R.distinct = v.size(); }
    for (uint32_t i = 0; i < g->nlab; i++) R.labels[g->lab[i]] = g->labcnt[i];
    for (uint32_t i = 0; i < std::min<uint32_t>(g->nsamp, MAXSAMP); i++) R.samples.push_back(g->samp[i]);
    for (uint32_t i = 0; i < std::min<uint32_t>(g->nknown, 16); i++) R.knownkeys.push_back(g->knownkeys[i]);
    R.truncated = now() > deadline && g->next < total;
    std::sort(bad.begin(), bad.end());
    for (auto &b : bad) {
        if (!R.fails.empty()) break;
        FailRec f; f.idx = b.first;
        int r = run_forked(su, false, case_seed(seed, su.name, b.first), {}, f, su.timeout_s);
        f.idx = b.first;
        if (r != 1) {  // not reproduced in isolation: try a few more times before calling it flaky
            for (int k = 0; k < 4 && r != 1; k++) { r = run_forked(su, false, case_seed(seed, su.name, b.first), {}, f, su.timeout_s); f.idx = b.first; }
        }
        if (r != 1 && su.nondet && b.second != "hang" && b.second != "crash") {
            f.suite = su.name; f.msg = b.second + " (schedule-dependent: did not recur in 5 repetitions)"; f.flaky = true; R.fails.push_back(f); continue;
        }
        if (r != 1) { R.flaky.push_back("case " + std::to_string(b.first) + ": " + b.second); continue; }
        if (is_known(f.key)) { continue; }
        FailRec orig = f;
        shrink(su, f, 60);
        // replay three times
        int ok = 0; FailRec rr;
        if (f.hang) { if (run_forked(su, true, 0, f.choices, rr, su.timeout_s) == 1) ok = 3; }
        else for (int k = 0; k < 3; k++) { if (run_forked(su, true, 0, f.choices, rr, su.timeout_s) == 1) ok++; }
        if (ok < 3 && !f.hang) { f = orig; ok = 0; for (int k = 0; k < 3; k++) if (run_forked(su, true, 0, f.choices, rr, su.timeout_s) == 1) ok++; }
        if (ok == 0 && su.nondet && !f.hang) { f = orig; f.flaky = true; R.fails.push_back(f); continue; }
        if (ok == 0) { R.flaky.push_back("case " + std::to_string(b.first) + " (" + orig.msg.substr(0, 200) + ") did not replay"); continue; }
        f.flaky = ok < 3;
        R.fails.push_back(f);
    }
    R.wall = now() - t0;
    munmap(hs, cap * 8); munmap(g, sizeof(Shared)); shm() = nullptr;
    return R;
}

inline std::string fail_json(const FailRec &f) {
    std::string o = "{\"suite\":\"" + jesc(f.suite) + "\",\"index\":" + std::to_string(f.idx) + ",\"message\":\"" + jesc(f.msg) + "\",\"key\":\"" + jesc(f.key) + "\",\"input\":\"" + jesc(f.desc) + "\",\"flaky\":" + (f.flaky ? "true" : "false") + ",\"choices\":[";
    for (size_t i = 0; i < f.choices.size(); i++) { if (i) o += ','; o += '"' + std::to_string(f.choices[i]) + '"'; }
    return o + "]}";
}

// usage: prog list | run --seed N --tier quick|thorough [--suite s]* [--jobs J] [--budget S] [--scale F] [--known k]* --out FILE
//        prog replay SUITE FILE(choices, whitespace separated)
inline int main_(int argc, char **argv, const std::vector<Suite> &suites) {
    std::string cmd = argc > 1 ? argv[1] : "list";
    if (cmd == "list") { for (auto &s : suites) printf("%s\t%llu\t%llu\n", s.name.c_str(), (unsigned long long)s.quick, (unsigned long long)s.thorough); return 0; }
    if (cmd == "replay") {
        if (argc < 4) return 2;
        Shared *g = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (g) Shared(); shm() = g;
        FILE *f = fopen(argv[3], "r"); if (!f) return 2;
        std::vector<uint64_t> c; unsigned long long v; while (fscanf(f, "%llu", &v) == 1) c.push_back(v);
        fclose(f);
        for (auto &s : suites) if (s.name == argv[2]) {
            FailRec r; int x = run_forked(s, true, 0, c, r, s.timeout_s);
            printf("%s\ninput: %s\n%s\n", x == 1 ? "FAIL" : x == 2 ? "DISCARD" : "PASS", r.desc.c_str(), r.msg.c_str());
            return x == 1 ? 1 : 0;
        }
        return 2;
    }
    uint64_t seed = 1; std::string tier = "quick", out; std::set<std::string> only; int jobs = 8; double budget = 1e9, scale = 1;
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") seed = strtoull(v.c_str(), 0, 10); else if (a == "--tier") tier = v; else if (a == "--suite") only.insert(v);
        else if (a == "--jobs") jobs = atoi(v.c_str()); else if (a == "--budget") budget = atof(v.c_str()); else if (a == "--scale") scale = atof(v.c_str());
        else if (a == "--known") known_list().push_back(v); else if (a == "--out") out = v;
    }
    double start = now(); std::string js = "{\"suites\":["; bool first = true; int rc = 0;
    for (auto &s : suites) {
        if (!only.empty() && !only.count(s.name)) continue;
        uint64_t n = (uint64_t)((tier == "thorough" ? s.thorough : s.quick) * scale); if (n < 1) n = 1;
        auto R = run_suite(s, seed, n, jobs, start + budget);
        if (!R.fails.empty()) rc = 1;
        fprintf(stderr, "  %-34s %8llu cases %8llu non-trivial %8llu distinct  %.1fs%s%s\n", s.name.c_str(), (unsigned long long)R.cases, (unsigned long long)R.nontriv, (unsigned long long)R.distinct, R.wall, R.truncated ? " [budget]" : "", R.fails.empty() ? "" : "  FAILED");
        for (auto &l : R.labels) fprintf(stderr, "      %-44s %llu\n", l.first.c_str(), (unsigned long long)l.second);
        for (auto &f : R.flaky) fprintf(stderr, "      flaky: %s\n", f.c_str());
        for (auto &f : R.fails) fprintf(stderr, "      FAIL: %s\n        input: %s\n", f.msg.c_str(), f.desc.c_str());
        if (!first) js += ",";
        first = false;
        js += "{\"name\":\"" + jesc(R.name) + "\",\"rule\":\"" + jesc(R.rule) + "\",\"cases\":" + std::to_string(R.cases) + ",\"nontrivial\":" + std::to_string(R.nontriv) + ",\"distinct\":" + std::to_string(R.distinct) + ",\"discarded\":" + std::to_string(R.discarded) + ",\"planned\":" + std::to_string(n) + ",\"known\":" + std::to_string(R.known) + ",\"wall\":" + std::to_string(R.wall) + ",\"labels\":{";
        bool f1 = true; for (auto &l : R.labels) { if (!f1) js += ","; f1 = false; js += "\"" + jesc(l.first) + "\":" + std::to_string(l.second); }
        js += "},\"samples\":["; for (size_t i = 0; i < R.samples.size(); i++) js += (i ? ",\"" : "\"") + jesc(R.samples[i]) + "\"";
        js += "],\"knownkeys\":["; for (size_t i = 0; i < R.knownkeys.size(); i++) js += (i ? ",\"" : "\"") + jesc(R.knownkeys[i]) + "\"";
        js += "],\"flaky\":["; for (size_t i = 0; i < R.flaky.size(); i++) js += (i ? ",\"" : "\"") + jesc(R.flaky[i]) + "\"";
        js += "],\"fails\":["; for (size_t i = 0; i < R.fails.size(); i++) js += (i ? "," : "") + fail_json(R.fails[i]);
        js += "]}";
    }
    js += "]}\n";
    if (!out.empty()) { FILE *f = fopen(out.c_str(), "w"); if (f) { fputs(js.c_str(), f); fclose(f); } }
    return rc;
}

}  // namespace pbt
