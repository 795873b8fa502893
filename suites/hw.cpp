// C18, C19: the hardware path. Values of a modelled chip go through the intake and proof assembly directly, and over
// the bus and a socket through the whole program; the register coding is checked against a bus model.
#include "hw_proof.hpp"
#include "chia_driver.hpp"
#include "pll_freqs.hpp"
#include "pbt.h"
#include "model.h"
#include "gen.h"
#include "schedule.h"
#include <cmath>
#include <condition_variable>
#include <memory>
#include <arpa/inet.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
using namespace model; using pbt::Ctx;
#ifndef EMU
int chia_vdf_is_emu = 1;
#endif
int hw_main(int, char **);
static void hush() { static bool d = false; if (!d) { d = true; int f = open("/dev/null", O_WRONLY); dup2(f, 2); } }

// -D prime with an element g = (2, b, .) of order dividing m: its whole orbit under squaring is known.
struct Short { int bits, m; Z D; };
static std::vector<Short> &shorts() {
    static std::vector<Short> v;
    if (v.empty()) for (int m : {61, 125, 253, 381, 509, 701, 831, 1001, 1019, 1021}) for (Z b = 1;; b += 2) { Z D = b * b - (Z(1) << (m + 2)); if (!probab_prime(-D)) continue; v.push_back({(int)bits(D), m, D}); break; }
    return v;
}
struct Cycle {
    Z D; int n; std::vector<F> pw; uint64_t ord; uint32_t pre = 0, period = 1; std::vector<uint32_t> e; std::map<std::string, uint64_t> first;
    Cycle(const Z &D_, const F &x, uint64_t m) : D(D_), n((int)bits(D_)) {
        F one = identity(D), f = one; do { pw.push_back(f); f = compose(f, x, D); } while (!(f == one)); ord = pw.size(); (void)m;
        std::map<uint32_t, uint32_t> seen; uint32_t v = 1 % ord; while (!seen.count(v)) { seen[v] = (uint32_t)e.size(); e.push_back(v); v = (uint32_t)(2ULL * v % ord); } pre = seen[v]; period = (uint32_t)e.size() - pre;
    }
    uint32_t exp(uint64_t i) const { return i < e.size() ? e[i] : e[pre + (i - pre) % period]; }
    const F &at(uint64_t i) const { return pw[exp(i)]; }
    F proof(uint64_t start, uint64_t T, Z &B) const { B = get_b(D, at(start), at(start + T)); Z m = B * Z((unsigned long)ord), q = pow2mod(u64z(T), m) / B; q = q * Z((unsigned long)exp(start)) % Z((unsigned long)ord); return pw[mpz_get_ui(q.get_mpz_t())]; }
};
static Cycle *cycle(Ctx &c, int minm = 61) {   // cached per discriminant and start
    auto &s = c.s; std::vector<Short> ok; for (auto &x : shorts()) if (x.m >= minm) ok.push_back(x); Short q = ok[s.raw(3) ? s.raw(ok.size()) : ok.size() - 1 - s.raw(3)];
    uint64_t e = q.m >= 1001 ? s.range(1, q.m - 1) : 1; F g; make(g, 2, 1, q.D); F x = reduce(power(g, u64z(e), q.D)); c.note("D=2^%d-b^2 x=g^%llu", q.m + 2, (unsigned long long)e); c.labelf("%d bits", q.bits < 100 ? 60 : q.bits < 600 ? 500 : q.bits < 993 ? 800 : 1024);
    static std::map<std::pair<int, uint64_t>, Cycle *> cache; Cycle *&p = cache[{q.m, e}]; if (!p) p = new Cycle(q.D, x, q.m); return p;
}
static bool is_form(const Z &D, const Z &a, const Z &b) { if (a <= 0) return false; Z t = b * b - D, m = 4 * a; return mpz_divisible_p(t.get_mpz_t(), m.get_mpz_t()); }
// Another representative of the same class, as the chip may leave it.
static void unreduce(Ctx &c, const Z &D, Z &a, Z &b) {
    auto &s = c.s; for (int k = (int)s.raw(3); k--;) { Z u = (b * b - D) / (4 * a); if (s.raw(2) && bits(u) <= 540) { a = u; b = -b; } int sh = (int)s.raw(5) - 2; if (bits(a) <= 530) b += 2 * a * sh; }
}

// ------------------------------------------------------------------ C18: intake and assembly
struct Rig {
    Ctx &c; Cycle *cy; vdf_state *v; uint64_t hw = 0, offset = 0; struct Req { uint64_t T; bool done; }; std::vector<Req> reqs; int repeats = 0; uint64_t last = 0; unsigned bad = 0; bool lied = false;
    Rig(Ctx &c_, Cycle *cy_, vdf_state *v_) : c(c_), cy(cy_), v(v_) {}
    void start(uint64_t n_iters, int aux, int proofthreads) {
        vdf_proof_opts o{(uint8_t)aux, (uint8_t)proofthreads}; Bytes x = encode(cy->at(0), cy->n); x.resize(100); std::string d = c.s.raw(2) ? cy->D.get_str() : "-0x" + Z(-cy->D).get_str(16); init_vdf_state(v, &o, d.c_str(), x.data(), n_iters, 1);
        PBT_CHECK(Z(v->last_val.a) == cy->at(0).a && Z(v->D.impl) == cy->D, "the session starts from another element");
    }
    int give(const Z &a, const Z &b, uint64_t iters) { vdf_value t; init_vdf_value(&t); t.iters = iters; mpz_set(t.a, a.get_mpz_t()); mpz_set(t.b, b.get_mpz_t()); int r = hw_proof_add_value(v, &t); clear_vdf_value(&t); return r; }
    int good(uint64_t abs) { F f = cy->at(abs); Z a = f.a, b = f.b; unreduce(c, cy->D, a, b); PBT_CHECK(is_form(cy->D, a, b), "harness: not a form"); return give(a, b, abs - offset); }
    void restart() {   // what the client does with a refused value
        size_t pos = 0; form *f = hw_proof_last_good_form(v, &pos); uint64_t p = (uint64_t)pos * v->interval; PBT_CHECK(p <= v->cur_iters, "restart at %llu beyond the last value %llu", (unsigned long long)p, (unsigned long long)v->cur_iters);
        if (!lied) PBT_CHECK(Z(f->a.impl) == cy->at(p).a && Z(f->b.impl) == cy->at(p).b, "the form to restart from is not the one of iteration %llu", (unsigned long long)p); v->iters_offset = offset = p; hw = p; repeats = 0; c.label("restarted");
    }
    void accept(uint64_t abs) { hw = abs; int r = good(abs); PBT_CHECK(r == 0, "a good value for %llu is refused (%d)", (unsigned long long)abs, r); PBT_CHECK(v->cur_iters == abs, "current iteration %llu after a value for %llu", (unsigned long long)v->cur_iters, (unsigned long long)abs); last = abs; repeats = 0; }
    void refuse(const Z &a, const Z &b, uint64_t abs, const char *what) { uint64_t cur = v->cur_iters; unsigned nb = v->n_bad; int r = give(a, b, abs - offset); PBT_CHECK(r == -1, "%s for %llu is not refused (%d)", what, (unsigned long long)abs, r); PBT_CHECK(v->cur_iters == cur && v->n_bad == nb + 1, "%s counts as a value", what); c.label(what); bad++; }
    void again(bool zero) { uint64_t abs = zero ? offset : last; if (!zero && last < offset) return; F f = cy->at(abs); int r = give(f.a, f.b, abs - offset); repeats++; if (repeats > 10) { PBT_CHECK(r == -1, "the %dth repetition is not refused (%d)", repeats, r); repeats = 0; restart(); c.label("stuck"); } else PBT_CHECK(r == 1, "a repeated value gives %d", r); }
    void check(vdf_proof *p, int cnt) {
        uint64_t T = p->iters; size_t k = 0; while (k < reqs.size() && (reqs[k].done || reqs[k].T != T)) k++; PBT_CHECK(k < reqs.size(), "a proof for %llu, which is not owed", (unsigned long long)T); reqs[k].done = true; PBT_CHECK(cnt >= 0 && cnt <= 63, "%d parts", cnt + 1);
        std::vector<vdf_proof *> ch; for (vdf_proof *q = p;; q = &v->proofs[q->prev]) { ch.push_back(q); if (q->prev == HW_VDF_PROOF_NONE) break; PBT_CHECK(ch.size() < 100, "endless chain"); } PBT_CHECK((int)ch.size() == cnt + 1, "%d parts declared, %zu linked", cnt + 1, ch.size());
        uint64_t pos = 0; for (size_t i = ch.size(); i--;) {
            vdf_proof *q = ch[i]; PBT_CHECK(q->seg_iters && pos + q->seg_iters <= T && q->iters == pos + q->seg_iters, "part at %llu of %llu iterations ends at %llu, whole %llu", (unsigned long long)pos, (unsigned long long)q->seg_iters, (unsigned long long)q->iters, (unsigned long long)T); Z B; F w = cy->proof(pos, q->seg_iters, B);
            PBT_CHECK(Bytes(q->proof, q->proof + 100) == encode(w, cy->n), "part at %llu (%llu iterations) of the proof for %llu is wrong", (unsigned long long)pos, (unsigned long long)q->seg_iters, (unsigned long long)T); if (i) PBT_CHECK(from_be(q->B, 33) == B, "challenge of the part at %llu is wrong", (unsigned long long)pos); pos += q->seg_iters;
        }
        PBT_CHECK(pos == T && Bytes(p->y, p->y + 100) == encode(cy->at(T), cy->n), "the result for %llu is not x^(2^T)", (unsigned long long)T); c.labelf("%s parts", cnt == 0 ? "1" : cnt < 4 ? "2..4" : cnt < 10 ? "5..10" : ">10");
    }
    void collect() { vdf_proof *p; int n; while ((n = hw_retrieve_proof(v, &p)) >= 0) check(p, n); }
    void request(uint64_t T) { c.note("T=%llu", (unsigned long long)T); reqs.push_back({T, false}); hw_request_proof(v, T, false); }
    bool all() { for (auto &r : reqs) if (!r.done) return false; return true; }
};
struct Plan { uint64_t N; int per_step; uint64_t off_budget; bool faults, lie; };
static void drive(Ctx &c, Rig &R, Plan P, bool stop_early) {
    auto &s = c.s; vdf_state *v = R.v; uint64_t I = v->interval; int nreq = (int)s.range(1, 6); std::vector<std::pair<uint64_t, uint64_t>> todo;   // (when, count)
    for (int i = 0; i < nreq; i++) { uint64_t T; switch (s.raw(7)) { case 0: T = s.range(1, 30); break; case 1: T = I * s.range(1, std::max<uint64_t>(1, P.N / I)); break; case 2: T = I * s.range(1, std::max<uint64_t>(1, P.N / I)) + s.irange(-2, 2); break; case 3: T = P.N - s.raw(100); break; case 4: T = i ? todo[s.raw(i)].second : P.N / 2 + 1; break; default: T = s.range(1, P.N); } T = std::max<uint64_t>(1, std::min(T, P.N)); todo.push_back({s.raw(3) ? 0 : s.range(0, P.N), T}); }
    std::sort(todo.begin(), todo.end()); size_t nt = 0; uint64_t lie_at = P.lie ? I * s.range(0, P.N / I) : ~0ULL, quit = stop_early ? s.range(0, P.N) : ~0ULL; uint64_t burst = s.logrange(1, 400); int pace = (int)s.raw(4), nf = (int)s.range(1, 30); unsigned steps = 0;
    auto turn = [&] {   // one round of the event loop
        while (nt < todo.size() && todo[nt].first <= R.hw) R.request(todo[nt++].second);
        uint64_t next = R.hw / I * I + I * s.range(1, s.raw(5) == 0 ? 3 : 1);
        if (P.faults && nf && s.raw(12) == 0) {
            nf--;
            uint64_t at = R.hw + s.range(1, 3 * I); F f = R.cy->at(at); Z a = f.a, b = f.b; int kind = (int)s.raw(9);
            switch (kind) {
            case 0: R.refuse(0, b, at, "value with a = 0"); R.restart(); return;
            case 1: R.refuse(-a, b, at, "value with a < 0"); R.restart(); return;
            case 2: do { a = f.a; b = f.b; (s.raw(2) ? a : b) ^= Z(1) << s.raw(s.raw(2) ? bits(f.a) + 2 : 640); } while (is_form(R.cy->D, a, b) || a <= 0); R.refuse(a, b, at, "value with a flipped bit"); R.restart(); return;
            case 3: { Z k; do { a = gen::num(s, 540); b = gen::num(s, 560) * (s.raw(2) ? 1 : -1); } while (is_form(R.cy->D, a, b) || a <= 0); R.refuse(a, b, at, "arbitrary value"); R.restart(); return; }
            case 4: do { a = f.a; b = f.b + 2 * Z((unsigned long)s.range(1, 40)); if (s.raw(2)) { a = f.a * 2; b = f.b; } } while (is_form(R.cy->D, a, b)); R.refuse(a, b, at, "value off by a little"); R.restart(); return;
            case 5: { int k = (int)s.range(1, 13); bool z = s.raw(2); while (k--) { R.again(z); } return; }
            case 6: if (R.hw > R.offset + I) { uint64_t back = R.offset + s.range(1, R.hw - R.offset - 1); if (back != R.last && back > R.offset) { int r = R.good(back); PBT_CHECK(r == 0 || r == -1, "late value gives %d", r); if (r < 0) R.restart(); else { R.hw = R.last = back; R.repeats = 0; } c.label("value from the past"); } } return;
            case 7: { uint64_t t = v->target_iters + (s.raw(2) ? s.range(1, 2 * I) : s.logrange(1, 1ULL << 40)); f = R.cy->at(t); R.refuse(f.a, f.b, t, "value beyond the end"); R.restart(); return; }
            default: R.restart(); return;                    // the chip starts again without reason
            }
        }
        if (P.off_budget > 4 * I && s.raw(4) == 0) { uint64_t at = std::min(R.hw + s.range(1, 2 * I), v->target_iters); if (at > R.hw) { P.off_budget -= std::min(P.off_budget, at - R.hw + 2 * I); R.accept(at); c.label("value between two steps"); return; } }
        if (next > v->target_iters) next = v->target_iters; if (next <= R.hw) return;
        if (next >= lie_at && !R.lied && R.hw < lie_at) { R.lied = true; F f = R.cy->at(next + 1 + s.raw(R.cy->ord - 1)); if (f == R.cy->at(next)) f = R.cy->at(next + 1); R.hw = R.last = next; (void)R.give(f.a, f.b, next - R.offset); c.label("lie told"); return; }
        R.accept(next);
    };
    while (R.hw < P.N && R.hw < quit && !v->completed) { turn(); if (++steps % burst == 0) { if (pace) usleep(pace * 300); R.collect(); } }
    if (!stop_early) {
        while (nt < todo.size()) R.request(todo[nt++].second);
        bool ends = v->target_iters < P.N + 100 * I; P.faults = false; double t = pbt::now(), last = 0;
        while (!R.all() && pbt::now() - t < 100) { R.collect(); if (v->completed) { if (v->aux_threads_busy == 0 && ends) break; usleep(1000); continue; } if (pbt::now() - last > 0.002) { turn(); last = pbt::now(); } else usleep(200); }
        R.collect(); if (!ends) PBT_CHECK(R.all(), "a request was not answered although the chip went on to %llu", (unsigned long long)R.hw);
    }
}
static void proofs(Ctx &c, bool lie, int big = -1) {
    hush(); auto &s = c.s; vdf_state *v = new vdf_state(); int sessions = lie || big > 0 ? 1 : (int)s.range(1, 2); sched::nap = 0.02; bool answered = false;
    for (int k = 0; k < sessions; k++) {
        Cycle *cy = cycle(c); Rig R(c, cy, v); Plan P; P.faults = s.raw(3) != 0; P.lie = lie; bool large = big >= 0 ? big : s.raw(12) == 7; P.N = large ? s.range(1000000, big > 0 ? 5000000 : 2500000) : s.logrange(100, 300000); P.off_budget = cy->n > 600 ? 30000 : 120000; if (large) c.label("checkpoints"); if (lie && P.N < 8000) P.N += 8000;
        bool tight = s.raw(6) == 0; int aux = (int)s.range(2, 6); c.note("N=%llu%s, %d threads%s", (unsigned long long)P.N, tight ? " exactly" : "", aux, P.faults ? ", faults" : ""); R.start(tight ? P.N : 2000000000, aux, s.raw(2) ? 0 : (int)s.range(1, aux - 1)); PBT_CHECK(v->aux_threads_busy == 0 && v->n_proof_threads == 0, "a new session starts with %d busy threads", (int)v->n_proof_threads);
        sched::Scope sc(s.u64(), 0, 0); bool early = s.raw(5) == 0; if (early) c.label("stopped early"); drive(c, R, P, early); if (!R.reqs.empty() && R.all()) answered = true;
        double t = pbt::now(); hw_stop_proof(v); PBT_CHECK(pbt::now() - t < 60, "stopping took %.0f s", pbt::now() - t); PBT_CHECK(v->aux_threads_busy == 0 && v->n_proof_threads == 0 && v->wq.empty(), "after the stop %d proof threads are counted", (int)v->n_proof_threads);
        clear_vdf_state(v); if (P.faults && R.bad) c.label("faulty");
    }
    delete v; c.nontrivial(answered);
}
// A chip that delivers a valid element of the wrong iteration: the program may give up, it may not deliver a wrong proof.
static void lies(Ctx &c) {
    c.note("seed %llx", (unsigned long long)c.s.u64());
    int p[2]; if (pipe(p)) _exit(9); pid_t pid = fork();
    if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); for (int g : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE}) signal(g, SIG_DFL); close(p[0]); std::string m; try { proofs(c, true, 0); } catch (std::exception &e) { m = e.what(); } catch (...) { m = "failed"; } if (!m.empty()) { (void)!write(p[1], m.data(), m.size()); _exit(3); } _exit(0); }
    close(p[1]); std::string m; char b[4096]; ssize_t r; while ((r = read(p[0], b, sizeof b)) > 0) m.append(b, r); close(p[0]); int st; waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) { PBT_CHECK(WTERMSIG(st) == SIGABRT, "killed by signal %d", WTERMSIG(st)); c.label("gave up"); c.nontrivial(); return; }
    PBT_CHECK(WEXITSTATUS(st) == 0, "%s", m.empty() ? "child failed" : m.c_str()); c.label("nothing asked behind the lie");
}

// ------------------------------------------------------------------ the bus and the chip
static const int kLen[8] = {4, 16, 32, 64, 128, 256, 0, 0};
static void put32(uint8_t *p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
static uint32_t get32(const uint8_t *p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static Z coeffs(const uint8_t *p, size_t words, size_t n) {   // n signed fields of 19 bits, weights 2^16, in 32-bit words
    Z t; for (size_t i = words; i--;) t = (t << 32) + Z((unsigned long)get32(p + 4 * i)); Z v; for (size_t i = 0; i < n; i++) { Z w = t >> (19 * i); long f = (long)(mpz_get_ui(w.get_mpz_t()) & 0x7ffff); if (f >> 18) f -= 1 << 19; v += Z(f) << (16 * i); } return v;
}
static bool redundant(pbt::Src *s, uint64_t *seed, Z v, size_t words, size_t n, uint8_t *p) {   // some representation of v; a source or a seed decides which
    Z t; for (size_t i = 0; i < n; i++) { Z m = v & 0xffff; long f = (long)mpz_get_ui(m.get_mpz_t()); if (i + 1 < n) { long k = s ? s->irange(-4, 3) : (long)(pbt::splitmix(*seed) % 8) - 4; if (i + 3 >= n) k = f > 32767 ? -1 : 0; f += k << 16; v = (v - Z(f)) >> 16; } else { if (v < -(1 << 18) || v >= 1 << 18) return false; f = mpz_get_si(v.get_mpz_t()); } t += Z((unsigned long)(f & 0x7ffff)) << (19 * i); }
    for (size_t i = 0; i < words; i++) { Z w = t >> (32 * i); put32(p + 4 * i, (uint32_t)mpz_get_ui(w.get_mpz_t())); } return true;
}
struct Chip {
    std::map<uint32_t, uint32_t> reg; enum { NONE, SPI, I2C } mode = NONE; bool open = false; std::vector<std::string> log; std::vector<std::pair<uint32_t, int>> writes; int ack_after = 0, lock_after = 0, polls = 0; uint32_t pll = 0; uint8_t vr[16] = {}; int ptr38 = -1, ptr70 = -1; unsigned current = 0; bool cs_set = false; int i2c_writes = 0; int resets = 0; int io_fail = -1;
    struct Engine { bool clock = false, reset = true, busy = false; uint32_t id = 0; uint64_t iters = 0; Z a, f, d, l; uint8_t status[180] = {}; int starts = 0; } eng[3]; uint32_t temp = 0; std::function<void(int)> on_start, on_status; std::function<void()> on_pll;
    std::string bad; void err(const char *m) { if (bad.empty()) bad = m; }
    void word(uint32_t addr, uint32_t v) {
        reg[addr] = v; uint32_t e = (addr - 0x100000) >> 16; if (addr < 0x100000 || e > 2) { if (addr == 0) { if (v & 4) { polls = 0, pll |= 1; if (on_pll) on_pll(); } if (v == 0) polls = 0, pll = 2; } return; } uint32_t off = addr & 0xffff; Engine &g = eng[e];
        if (off == 0) { g.clock = v & 1; g.reset = v >> 4 & 1; if (g.reset) g.busy = false; }
        if (off == 0x1000 + 388 && v == 1) { if (!g.clock || g.reset) err("a job is started on an engine whose clock is off"); uint8_t j[392]; for (int i = 0; i < 98; i++) put32(j + 4 * i, reg[addr - 388 + 4 * i]); g.id = get32(j); g.iters = get32(j + 4) | (uint64_t)get32(j + 8) << 32; g.a = coeffs(j + 12, 21, 34); g.f = coeffs(j + 96, 21, 34); g.d = coeffs(j + 180, 41, 68); g.l = coeffs(j + 344, 11, 18); g.busy = true; g.starts++; if (on_start) on_start(e); }
    }
    uint8_t byte(uint32_t addr) {
        uint32_t e = (addr - 0x100000) >> 16; uint32_t off = addr & 0xffff; if (addr >= 0x100000 && e < 3 && off >= 0x2000 && off < 0x2000 + 180) return eng[e].status[off - 0x2000];
        if (addr >= 0x300000 && addr < 0x300004) { uint8_t b[4]; put32(b, temp); return b[addr - 0x300000]; } if (addr >= 0x300014 && addr < 0x300014 + 180) return eng[0].status[addr - 0x300014];
        uint8_t b[4]; put32(b, (addr & ~3u) == 0x1c ? status() : reg[addr & ~3u]); return b[addr & 3];
    }
    uint32_t status() { int p = polls / 4; return (p >= lock_after && pll == 2 ? 1 : 0) | (p >= ack_after ? 2 : 0); }
    int io(uint8_t *r, uint8_t *w, unsigned nw, unsigned nr) {
        if (mode != SPI || !open) err("bus transfer while the interface is not in SPI mode"); if (io_fail >= 0 && io_fail-- == 0) return 1; if (nw < 4) { err("short command"); return 0; } unsigned len = kLen[w[0] & 7], type = w[0] >> 5 & 3; bool wr = w[0] >> 7; uint32_t a = ((uint32_t)w[1] << 16 | w[2] << 8 | w[3]) << 2; if (!len) err("unknown length code");
        if (wr) { if (type != 0 || nw != len + 4 || nr) err("malformed write"); writes.emplace_back(a, (int)len); for (unsigned i = 0; i + 4 <= len; i += 4) word(a + i, get32(w + 4 + i)); }
        else { if (type != 3 || nw != 4 || nr != len + 4) err("malformed read"); if (on_status) for (int e = 0; e < 3; e++) if (a == 0x102000u + 0x10000 * e || (e == 0 && a == 0x300000)) on_status(e); memset(r, 0xa5, 4); for (unsigned i = 0; i < len; i++) r[4 + i] = byte(a + i); if (a == 0x1c) polls += 4; }
        return 0;
    }
};
static Chip *chip;
#ifndef EMU
extern "C" {
FT_STATUS FT_CreateDeviceInfoList(LPDWORD n) { *n = 1; return 0; }
FT_STATUS FT_GetDeviceInfoList(FT_DEVICE_LIST_INFO_NODE *d, LPDWORD n) { *n = 1; memset(d, 0, sizeof *d); d->Type = FT_DEVICE_4222H_0; strcpy(d->Description, "FT4222 A"); d->LocId = 0x77; return 0; }
FT_STATUS FT_OpenEx(PVOID l, DWORD f, FT_HANDLE *h) { if (f != FT_OPEN_BY_LOCATION) return 9; uintptr_t a = (uintptr_t)l; if (a == 0x77) { *h = (void *)0x100; chip->open = true; return 0; } if (a == 0x77 + 3) { *h = (void *)0x200; return 0; } return FT4222_DEVICE_NOT_FOUND; }
FT_STATUS FT_Close(FT_HANDLE h) { if (h == (void *)0x100) chip->open = false; return 0; }
FT_STATUS FT_SetUSBParameters(FT_HANDLE, ULONG, ULONG) { return 0; }
FT4222_STATUS FT4222_UnInitialize(FT_HANDLE h) { if (h == (void *)0x100) chip->mode = Chip::NONE; return FT4222_OK; }
FT4222_STATUS FT4222_SetClock(FT_HANDLE, FT4222_ClockRate) { return FT4222_OK; }
FT4222_STATUS FT4222_SPIMaster_Init(FT_HANDLE, FT4222_SPIMode m, FT4222_SPIClock, FT4222_SPICPOL, FT4222_SPICPHA, uint8) { if (m != SPI_IO_QUAD || chip->mode != Chip::NONE) chip->err("SPI initialisation"); chip->mode = Chip::SPI; return FT4222_OK; }
FT4222_STATUS FT4222_SPIMaster_SetCS(FT_HANDLE, SPI_ChipSelect) { return FT4222_OK; }
FT4222_STATUS FT4222_SPI_SetDrivingStrength(FT_HANDLE, SPI_DrivingStrength, SPI_DrivingStrength, SPI_DrivingStrength) { return FT4222_OK; }
FT4222_STATUS FT4222_SPIMaster_MultiReadWrite(FT_HANDLE, uint8 *r, uint8 *w, uint8 single, uint16 nw, uint16 nr, uint32 *got) { if (single) chip->err("single-line bytes"); if (chip->io(r, w, nw, nr)) return FT4222_IO_ERROR; *got = nr; return FT4222_OK; }
FT4222_STATUS FT4222_I2CMaster_Init(FT_HANDLE, uint32) { if (chip->mode != Chip::NONE) chip->err("I2C initialisation"); chip->mode = Chip::I2C; return FT4222_OK; }
FT4222_STATUS FT4222_I2CMaster_WriteEx(FT_HANDLE, uint16 dev, uint8 flag, uint8 *b, uint16 n, uint16 *got) {
    if (chip->mode != Chip::I2C) chip->err("I2C transfer while the interface is not in I2C mode"); if (dev != 0x38 && dev != 0x70) return FT4222_IO_ERROR; int &ptr = dev == 0x38 ? chip->ptr38 : chip->ptr70; if (!(flag & START) || n < 1) chip->err("I2C write without start"); ptr = b[0];
    if (n > 1) { if (!(flag & STOP)) chip->err("I2C write without stop"); if (dev == 0x38) { chip->vr[b[0] & 15] = b[1]; chip->i2c_writes++; } else if (b[0] == 0xa && b[1] == 2) chip->cs_set = true; } else if (flag & STOP) chip->err("address phase of a read ends the transfer"); *got = n; return FT4222_OK;
}
FT4222_STATUS FT4222_I2CMaster_ReadEx(FT_HANDLE, uint16 dev, uint8 flag, uint8 *b, uint16 n, uint16 *got) {
    if (chip->mode != Chip::I2C) chip->err("I2C transfer while the interface is not in I2C mode"); if (!(flag & STOP) || (flag & Repeated_START) != Repeated_START) chip->err("I2C read without repeated start and stop");
    if (dev == 0x38 && chip->ptr38 >= 0 && n == 1) b[0] = chip->vr[chip->ptr38 & 15]; else if (dev == 0x70 && chip->ptr70 == 0 && n == 2 && chip->cs_set) { b[0] = (uint8_t)(chip->current >> 4); b[1] = (uint8_t)(chip->current << 4 | 0xb * 0); } else return FT4222_IO_ERROR; *got = n; return FT4222_OK;
}
FT4222_STATUS FT4222_GPIO_Init(FT_HANDLE, GPIO_Dir *) { return FT4222_OK; }
FT4222_STATUS FT4222_GPIO_Read(FT_HANDLE, GPIO_Port, BOOL *v) { *v = 0; return FT4222_OK; }
FT4222_STATUS FT4222_GPIO_Write(FT_HANDLE, GPIO_Port p, BOOL v) { if (p == GPIO_PORT2 && !v) { chip->resets++; for (auto &e : chip->eng) { e.clock = false; e.reset = true; e.busy = false; } } return FT4222_OK; }
FT4222_STATUS FT4222_SetSuspendOut(FT_HANDLE, BOOL) { return FT4222_OK; }
FT4222_STATUS FT4222_SetWakeUpInterrupt(FT_HANDLE, BOOL) { return FT4222_OK; }
}
#endif
// ------------------------------------------------------------------ C18: the whole program between a timelord and a chip
#ifdef EMU
static const int kFaults[2] = {30, 300};
static const uint64_t kLong[2] = {30001, 90000};   // the emulator computes every squaring
#else
static const int kFaults[2] = {3, 60};
static const uint64_t kLong[2] = {1000001, 2500000};
#endif
// What the clock generator was told, and when, in the time the program sees.
struct Tuning { int n, late; struct { uint32_t r, f, q; double t; int faults; } e[20000]; };
struct ChipPlan { uint64_t seed; int faults, coarse; int64_t fail_io = -1; Tuning *tune = nullptr; double warp = 1, freq = 0, max = 0; int period = 0; };
static double warp = 1; static int64_t warp_base = 0;
extern "C" { int64_t __real__ZNSt6chrono3_V212system_clock3nowEv(); int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { int64_t t = __real__ZNSt6chrono3_V212system_clock3nowEv(); return warp == 1 ? t : warp_base + (int64_t)((double)(t - warp_base) * warp); } }
#ifndef EMU
static double seen() { return (double)(__wrap__ZNSt6chrono3_V212system_clock3nowEv() - warp_base) * 1e-9; }
static std::string decimal(double v, int d) { char b[40]; int64_t m = 1; for (int i = 0; i < d; i++) m *= 10; int64_t k = (int64_t)(v * m + 0.5); snprintf(b, 40, "%lld.%0*lld", (long long)(k / m), d, (long long)(k % m)); return b; }
static int entry(const Tuning *t, int i, int near) { for (int d : {0, 1, -1, 2, -2}) { int k = near + d; if (k >= 0 && k < VALID_PLL_FREQS && pll_entries[k].settings.divr == t->e[i].r && pll_entries[k].settings.divfi == t->e[i].f && pll_entries[k].settings.divq == t->e[i].q) return k; } return -1; }
#endif
static void run_hw(int port, int nvdf, int threads, int logfd, std::vector<Cycle *> cys, ChipPlan P) noexcept {
    prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(logfd, 1); dup2(logfd, 2); for (int g : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGALRM, SIGTERM}) signal(g, SIG_DFL); alarm(280); sched::nap = 0.02; sched::seed = P.seed; sched::on = 1;
    static Chip ch; chip = &ch; static struct Run { Cycle *cy = nullptr; uint64_t e0 = 0, at = 0; } run[3]; static uint64_t rnd; rnd = P.seed; static auto die = [](const char *m) { fprintf(stderr, "HARNESS: %s\n", m); _exit(7); };
    static std::multimap<std::string, Cycle *> byD; for (auto *c : cys) { byD.emplace(c->D.get_str(), c); if (c->first.empty()) for (size_t i = 0; i < c->pw.size(); i++) c->first[c->pw[i].a.get_str() + "," + c->pw[i].b.get_str()] = i; }
    ch.on_start = [](int e) { auto &g = chip->eng[e]; auto at = byD.equal_range(g.d.get_str()); if (at.first == at.second) die("job for an unknown discriminant"); F f; if (!is_form(g.d, g.a, g.f)) die("job with an invalid form"); make(f, g.a, g.f, g.d); f = reduce(f); bool known = false; for (auto it = at.first; it != at.second && !known; ++it) { auto k = it->second->first.find(f.a.get_str() + "," + f.b.get_str()); if (k == it->second->first.end()) continue; run[e] = {it->second, k->second, 0}; known = true; } if (!known) die("job with a form outside the session"); memset(g.status, 0, sizeof g.status); };
    static int told = 0, waiting[3]; static double last_change = 0;
    ch.on_status = [P](int e) {
        auto &g = chip->eng[e]; auto &r = run[e]; if (!g.busy || !r.cy || !g.clock) return;
#ifndef EMU
        if (P.tune) { if (seen() - last_change < P.period) waiting[e] = 0; else if (++waiting[e] > P.tune->late) P.tune->late = waiting[e]; }
#endif
        uint64_t z = pbt::splitmix(rnd), it = r.at; int fault = P.faults && z % P.faults == 0 ? 1 + (int)(z >> 20) % 6 : 0; told += fault != 0; if (fault == 6) return;                    // stands still
        uint64_t step = P.coarse == 0 ? 4000 : P.coarse == 1 ? 4000 * (1 + (z >> 32) % 3) : 1 + (z >> 32) % 9000; if (r.at < g.iters) it = r.at = std::min<uint64_t>(g.iters, r.at + step); Z x = pow2mod(u64z(it), Z((unsigned long)r.cy->ord)) * u64z(r.e0) % Z((unsigned long)r.cy->ord); F f = r.cy->pw[mpz_get_ui(x.get_mpz_t())]; Z a = f.a, b = f.b;
        for (int k = (int)(z >> 40) % 3; k--;) { Z u = (b * b - r.cy->D) / (4 * a); if (z >> 50 & 1 && bits(u) <= 530) { a = u; b = -b; } else b += 2 * a; }
        if (fault == 1) a ^= Z(1) << (z >> 24) % bits(a); else if (fault == 2) b += 2 * (1 + (z >> 24) % 9); else if (fault == 3) a = 0; else if (fault == 4) a = -a; else if (fault == 5) it += 1ULL << (31 + (z >> 24) % 33); if ((fault == 1 || fault == 2) && is_form(r.cy->D, a, b)) { a = f.a; b = f.b; }
        uint8_t st[180]; put32(st, g.id); put32(st + 4, (uint32_t)it); put32(st + 8, (uint32_t)(it >> 32)); uint64_t q = z; if (redundant(nullptr, &q, a, 21, 34, st + 12) && redundant(nullptr, &q, b, 21, 34, st + 96)) memcpy(g.status, st, 180);
    };
#ifdef EMU
    std::string prob = std::to_string(P.faults); setenv("EMU_ERROR_PROB", prob.c_str(), 1);   // the emulator is the chip, and tells its own lies
#endif
    std::string pt = std::to_string(port), nv = std::to_string(nvdf), th = std::to_string(threads); std::vector<std::string> av = {"hw", "--vdf-threads", th, pt, nv};
#ifndef EMU
    if (P.tune) {
        ch.on_pll = [P] { auto *t = P.tune; if (t->n < 20000) t->e[t->n++] = {chip->reg[4], chip->reg[8], chip->reg[0x10], last_change = seen(), told}; for (int &w : waiting) w = 0; t->late = 0; };
        av.push_back("--freq=" + decimal(P.freq, 3)); av.push_back("--auto-freq-period=" + std::to_string(P.period)); if (P.max > 0) av.push_back("--max-freq=" + decimal(P.max, 6)); warp_base = __real__ZNSt6chrono3_V212system_clock3nowEv(); warp = P.warp; sched::nap = 0.002;
    }
#endif
    std::vector<char *> pv; for (auto &x : av) pv.push_back(&x[0]); pv.push_back(nullptr); int rc = hw_main((int)av.size(), pv.data()); if (!ch.bad.empty()) die(ch.bad.c_str()); _exit(rc);
}
struct Conn {
    Ctx &c; int fd; Cycle *cy = nullptr; std::string in; size_t pos = 0; bool ok = false, stop = false, eof = false, cut = false; struct Req { uint64_t T; bool done; }; std::vector<Req> reqs; int verified = 0; double t0 = pbt::now();
    Conn(Ctx &c_, int f) : c(c_), fd(f) { int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); fcntl(fd, F_SETFL, O_NONBLOCK); } ~Conn() { if (fd >= 0) close(fd); }
    void message(const Bytes &m) {
        PBT_CHECK(m.size() >= 217, "a message of %zu bytes", m.size()); auto be64 = [](const uint8_t *p) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | p[i]; return v; }; uint64_t T = be64(&m[0]); PBT_CHECK(be64(&m[8]) == 100, "declared size of the result"); int k = m[116]; PBT_CHECK(k <= 63 && m.size() == 217 + 141 * (size_t)k, "%d further parts in %zu bytes", k, m.size());
        bool due = false; for (auto &r : reqs) if (!r.done && r.T == T) { r.done = due = true; break; } PBT_CHECK(due, "a proof for %llu, which is not owed", (unsigned long long)T); PBT_CHECK(Bytes(m.begin() + 16, m.begin() + 116) == encode(cy->at(T), cy->n), "the result for %llu is not x^(2^T)", (unsigned long long)T);
        uint64_t sum = 0; for (int i = 0; i < k; i++) { uint64_t g = be64(&m[217 + 141 * i]); PBT_CHECK(g && g < T - sum, "parts longer than the whole"); sum += g; } uint64_t end = T; for (int i = -1; i < k; i++) { uint64_t g = i < 0 ? T - sum : be64(&m[217 + 141 * i]); end -= g; Z B; F w = cy->proof(end, g, B); const uint8_t *p = i < 0 ? &m[117] : &m[217 + 141 * i + 41]; PBT_CHECK(Bytes(p, p + 100) == encode(w, cy->n), "part %d of the proof for %llu is wrong", i + 1, (unsigned long long)T); if (i >= 0) PBT_CHECK(from_be(&m[217 + 141 * i + 8], 33) == B, "challenge %d of the proof for %llu", i, (unsigned long long)T); }
        verified++; c.labelf("%s parts", k == 0 ? "1" : k < 4 ? "2..4" : ">4");
    }
    void pump(int ms) {
        if (fd < 0 || eof) { if (ms) usleep(ms * 1000); return; } pollfd p{fd, POLLIN, 0}; if (poll(&p, 1, ms) > 0) { char b[65536]; ssize_t r = read(fd, b, sizeof b); if (r > 0) in.append(b, r); else if (r == 0 || (errno != EAGAIN && errno != EINTR)) eof = true; }
        for (;;) { size_t left = in.size() - pos; if (stop) { PBT_CHECK(!left, "bytes after STOP"); return; } if (!ok) { if (left < 2) return; if (!in.compare(pos, 2, "OK")) { ok = true; pos += 2; continue; } }
            if (left < 4) return; if (!in.compare(pos, 4, "STOP")) { stop = true; pos += 4; continue; } PBT_CHECK(ok, "the session starts with something else than OK"); const uint8_t *p = (const uint8_t *)in.data() + pos; uint32_t n = get32(p); PBT_CHECK(n <= 30000 && n % 2 == 0, "message length %u", n); if (left < 4 + n) return;
            Bytes m; for (uint32_t i = 0; i < n; i += 2) { int v = 0; for (int q = 0; q < 2; q++) { char h = in[pos + 4 + i + q]; int d = h >= '0' && h <= '9' ? h - '0' : h >= 'a' && h <= 'f' ? h - 'a' + 10 : -1; PBT_CHECK(d >= 0, "message is not hexadecimal"); v = v * 16 + d; } m.push_back((uint8_t)v); } pos += 4 + n; message(m); }
    }
    void hangup(int how) { cut = true; if (how == 1) { linger l{1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); } close(fd); fd = -1; }
    void put(const std::string &s, bool split) { for (size_t i = 0; i < s.size() && fd >= 0 && !eof;) { size_t n = split ? std::min<size_t>(s.size() - i, c.s.logrange(1, s.size())) : s.size() - i; ssize_t r = send(fd, s.data() + i, n, MSG_NOSIGNAL); if (r > 0) i += r; else if (r < 0 && errno != EAGAIN) return; pump(split ? (int)c.s.raw(5) : 0); } }
    bool all() { for (auto &r : reqs) if (!r.done) return false; return true; }
};
static void whole_(Ctx &c, bool tune) {
    auto &s = c.s; hush(); int nvdf = (int)s.range(1, 3), nsess = nvdf + (int)s.raw(3); std::vector<Cycle *> cys; for (int i = 0; i < nsess; i++) cys.push_back(cycle(c)); ChipPlan P{s.u64(), s.raw(3) ? (int)s.range(kFaults[0], kFaults[1]) : 0, (int)s.raw(4)}; int threads = (int)s.range(2, 5); c.note("%d engines, %d threads, chip faults 1/%d, steps %d", nvdf, threads, P.faults, P.coarse); int from = 0, top = VALID_PLL_FREQS - 1, sure = top; std::unique_ptr<Tuning, void (*)(Tuning *)> log((Tuning *)nullptr, [](Tuning *t) { munmap(t, sizeof *t); });
#ifndef EMU
    if (tune) {
        log.reset((Tuning *)mmap(nullptr, sizeof(Tuning), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); P.tune = log.get(); P.period = (int)s.logrange(10, 100000); P.warp = P.period / (0.002 * (double)s.logrange(1, 30)); double want = s.raw(5) == 0 ? 200 : s.raw(5) == 0 ? 2190 + (double)s.raw(1001) / 100 : 200 + (double)s.raw(2000001) / 1000; P.freq = want; while (pll_entries[from].freq < want - 1e-9) from++;
        if (s.raw(2)) { P.max = s.raw(4) ? pll_entries[std::min(VALID_PLL_FREQS - 1, from + (int)s.raw(6))].freq + (double)s.raw(3) * 1e-3 : s.range(200, 2200); while (top > 0 && pll_entries[top].freq > P.max + 2e-6) top--; sure = top; while (sure > 0 && pll_entries[sure].freq > P.max - 2e-6) sure--; } c.note("%.3f MHz up to %.6f every %d s, time runs %.0f times as fast", P.freq, P.max, P.period, P.warp);
    }
#endif
    struct Child { pid_t pid = -1; int lfd, logfd; bool dead = false; int st = 0; ~Child() { if (pid > 0 && !dead) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); } close(lfd); close(logfd); } bool exited() { if (!dead && waitpid(pid, &st, WNOHANG) == pid) dead = true; return dead; } std::string log() { char b[1500]; off_t n = lseek(logfd, 0, SEEK_END), o = n > 1400 ? n - 1400 : 0; ssize_t r = pread(logfd, b, 1400, o); return std::string(b, r > 0 ? r : 0); } } ch;
    ch.lfd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t l = sizeof a; if (bind(ch.lfd, (sockaddr *)&a, sizeof a) || listen(ch.lfd, 8) || getsockname(ch.lfd, (sockaddr *)&a, &l)) pbt::fail("harness: listen"); ch.logfd = memfd_create("log", 0); int port = ntohs(a.sin_port); ch.pid = fork(); if (ch.pid == 0) { close(ch.lfd); run_hw(port, nvdf, threads, ch.logfd, cys, P); }
    auto alive = [&](const char *when) { if (ch.exited()) pbt::fail("the program ended (%s %d) %s; log: %s", WIFSIGNALED(ch.st) ? "signal" : "status", WIFSIGNALED(ch.st) ? WTERMSIG(ch.st) : WEXITSTATUS(ch.st), when, ch.log().c_str()); };
    struct Job { Cycle *cy; int bad = 0; std::vector<uint64_t> T; std::vector<int> when; int cut = -1, how = 0, end = 0; size_t next = 0; int state = 0; double t = 0; bool split = false; std::unique_ptr<Conn> k; };
    std::vector<Job> jobs(nsess); int healthy = 0; for (int i = 0; i < nsess; i++) { Job &j = jobs[i]; j.cy = cys[i]; j.split = s.raw(2); int q = (int)s.raw(8); if (q == 0) { j.bad = 1 + (int)s.raw(8); c.labelf("malformed challenge %d", j.bad); continue; } int n = (int)s.range(tune ? 3 : 1, tune ? 7 : 5); for (int k = 0; k < n; k++) { j.T.push_back(!tune && s.raw(6) == 0 ? s.range(kLong[0], kLong[1]) : s.raw(4) == 0 ? 4000 * s.range(1, 20) + s.irange(-1, 1) : s.logrange(1, kLong[0] < 100000 ? 30000 : 100000)); if (k && s.raw(6) == 0) j.T[k] = j.T[s.raw(k)]; j.when.push_back((int)s.raw(tune ? 120 : 40)); } if (q == 1) { j.cut = (int)s.raw(n + 1); j.how = (int)s.raw(2); c.label(j.how ? "connection reset" : "connection closed"); } else if (q == 2) { j.cut = (int)s.raw(n + 1); j.how = 2 + (int)s.raw(5); c.label("malformed request"); } else { healthy++; j.end = (int)s.raw(3); } }
    std::vector<Job *> live; size_t opened = 0; int done = 0, answered = 0; double t0 = pbt::now();
    while (done < nsess) {
        alive("in the middle of its sessions"); if (pbt::now() - t0 > 200) pbt::fail("%d of %d sessions done after 200 s; log: %s", done, nsess, ch.log().c_str());
        pollfd p{ch.lfd, POLLIN, 0}; if (opened < jobs.size() && poll(&p, 1, 0) > 0) { int fd = accept(ch.lfd, nullptr, nullptr); if (fd >= 0) { Job &j = jobs[opened++]; j.k.reset(new Conn(c, fd)); j.k->cy = j.cy; live.push_back(&j); } }
        for (auto *jp : live) {
            Job &j = *jp; if (j.state == 9) continue; Conn &k = *j.k; k.pump(1);
            if (j.state == 0) {
                std::string d = s.raw(2) ? j.cy->D.get_str() : "-0x" + Z(-j.cy->D).get_str(16); Bytes x = encode(j.cy->at(0), j.cy->n); x.resize(100); char h[8]; snprintf(h, 8, "%03zu", d.size()); std::string m = std::string(1, "TNS"[s.raw(3)]) + h + d + std::string(1, (char)100) + std::string(x.begin(), x.end());
                switch (j.bad) { case 1: m[0] = (char)s.raw(256); if (strchr("TNS", m[0])) m[0] = 'x'; break; case 2: memcpy(&m[1], "999", 3); m += std::string(300, '1'); break; case 3: memcpy(&m[1], "-10", 3); break; case 4: m = "T003-24" + m.substr(4 + d.size()); break; case 5: m.replace(4, 1, "1"); break; case 6: m[4 + d.size()] = (char)s.range(101, 255); m += std::string(200, 'a'); break; case 7: m += "x"; break; case 8: m = m.substr(0, 4 + d.size() + 1) + std::string(1, (char)s.raw(4)) + std::string(99, (char)0x55); break; }
                k.put(m, j.split && j.bad != 7); j.state = 1; j.t = pbt::now();   // (7): what is beyond a challenge is seen only if it arrives with the rest
            } else if (j.state == 1) {
                if (j.bad) { PBT_CHECK(!k.ok, "a malformed challenge (%d) is accepted", j.bad); if (k.eof || pbt::now() - j.t > 20) { PBT_CHECK(k.eof, "a malformed challenge (%d) is left hanging", j.bad); j.state = 9; done++; } } else if (k.ok) { j.state = 2; j.t = pbt::now(); } else { PBT_CHECK(!k.eof, "a valid challenge is refused; log: %s", ch.log().c_str()); PBT_CHECK(pbt::now() - j.t < 60, "no OK within 60 s"); }
            } else if (j.state == 2) {
                if (k.eof) pbt::fail("the program closed a healthy session; log: %s", ch.log().c_str());
                if (j.cut == (int)j.next) { if (j.how < 2) { k.hangup(j.how); j.state = 9; done++; } else { static const char *const w[] = {"99", "24", "50", "640", "25"}; k.put(std::string(w[j.how - 2]) + std::string(s.raw(60), '7'), j.split); j.state = 4; j.t = pbt::now(); } continue; }
                if (j.next < j.T.size()) { if (pbt::now() - j.t > j.when[j.next] * 1e-3) { std::string d = std::to_string(j.T[j.next]); char h[8]; snprintf(h, 8, "%02zu", d.size()); k.reqs.push_back({j.T[j.next], false}); j.next++; std::string m = h + d; if (j.next < j.T.size() && s.raw(3) == 0 && j.cut != (int)j.next) { d = std::to_string(j.T[j.next]); snprintf(h, 8, "%02zu", d.size()); k.reqs.push_back({j.T[j.next++], false}); m += h + d; } k.put(m, j.split); j.t = pbt::now(); } }
                else if (k.all() || j.end == 0) { k.put("010", j.split && s.raw(2)); j.state = 3; j.t = pbt::now(); }
            } else if (j.state == 3) {
                if (k.stop) { k.put("ACK", j.split && s.raw(3) == 0); answered += k.verified; j.state = 9; done++; } else { PBT_CHECK(!k.eof, "the session ends without STOP"); PBT_CHECK(pbt::now() - j.t < 60, "no STOP within 60 s"); }
            } else if (j.state == 4) { if (k.eof || k.stop || pbt::now() - j.t > 3) { j.state = 9; done++; if (!k.eof) k.hangup(0); } }
        }
    }
    c.label("all sessions done"); alive("after its sessions"); kill(ch.pid, SIGTERM); double t = pbt::now(); std::vector<int> extra; while (!ch.exited() && pbt::now() - t < 60) { pollfd p{ch.lfd, POLLIN, 0}; if (poll(&p, 1, 5) > 0) { int fd = accept(ch.lfd, nullptr, nullptr); if (fd >= 0) extra.push_back(fd); } for (auto *j : live) if (j->k->fd >= 0 && !j->k->eof) j->k->pump(0); } for (int f : extra) close(f);
    if (!ch.dead) pbt::fail("the program did not end within 60 s of the signal; log: %s", ch.log().c_str()); if (!WIFEXITED(ch.st) || WEXITSTATUS(ch.st) != 0) alive("instead of ending in order"); c.nontrivial(answered > 0);
#ifndef EMU
    if (!tune) return; int k = from, ups = 0, downs = 0; PBT_CHECK(log->n > 0, "the clock is never set"); k = entry(log.get(), 0, from); PBT_CHECK(k == from || (k >= 0 && fabs(pll_entries[k].freq - pll_entries[from].freq) < 1e-9), "the clock starts at entry %d, want %d", k, from);
    for (int i = 1; i < log->n; i++) {
        auto &e = log->e[i]; int m = entry(log.get(), i, k), d = m - k; PBT_CHECK(m >= 1 && (d == 1 || d == -1), "change %d of the clock leads from entry %d to %d", i, k, m);
        if (d > 0) { ups++; PBT_CHECK(m <= top, "the clock is raised to %.6f MHz, the limit is %.6f", pll_entries[m].freq, P.max > 0 ? P.max : pll_entries[VALID_PLL_FREQS - 1].freq); PBT_CHECK(e.t - log->e[i - 1].t >= P.period - 1e-6, "the clock is raised after %.3f s, the period is %d s", e.t - log->e[i - 1].t, P.period); }
        else { downs++; PBT_CHECK(downs <= e.faults, "the clock is lowered for the %dth time after %d wrong values", downs, e.faults); }
        k = m;
    }
    if (k < sure) PBT_CHECK(log->late < 1200, "the clock is not raised although its period passed %d readings ago", log->late); c.nontrivial(ups + downs > 0); c.label(ups ? "raised" : "not raised"); if (downs) c.label("lowered"); if (k >= top) c.label("at the limit");
#endif
}
static void whole(Ctx &c) { whole_(c, false); }
// ------------------------------------------------------------------ C19
struct M { mpz_t v; M() { mpz_init(v); } M(const Z &z) { mpz_init_set(v, z.get_mpz_t()); } ~M() { mpz_clear(v); } operator mpz_ptr() { return v; } Z z() { return Z(v); } };
static Z field(Ctx &c, size_t n) {   // a value the register can hold: 16(n-1)+19 bits with sign
    auto &s = c.s; int top = 16 * (int)(n - 1) + 18; Z lim = Z(1) << top, v;
    switch (s.raw(8)) { case 0: v = 0; break; case 1: v = s.irange(-3, 3); break; case 2: v = lim - 1 - Z((unsigned long)s.raw(3)); break; case 3: v = -lim + Z((unsigned long)s.raw(3)); break; case 4: v = (Z(1) << s.raw(top)) - Z((unsigned long)s.raw(2)); break; case 5: { for (size_t i = 0; i < n; i++) v += Z((long)(s.raw(3) == 0 ? 0xffff : s.raw(2) ? 0x8000 : s.raw(65536))) << (16 * i); break; } default: v = gen::num(s, (int)s.range(1, top)); }
    if (s.raw(2)) v = -v; if (v >= lim) v = lim - 1; if (v < -lim) v = -lim; return v;
}
static uint64_t any64(Ctx &c) { auto &s = c.s; switch (s.raw(5)) { case 0: return s.raw(4); case 1: return ~0ULL - s.raw(4); case 2: return (1ULL << s.raw(64)) - s.raw(2); case 3: return (uint64_t)s.raw(1 << 16) << s.raw(49); default: return s.u64(); } }
static void coding(Ctx &c) {
    auto &s = c.s; hush(); ChiaDriver d; Z a = field(c, 34), f = field(c, 34), D = field(c, 68), l = field(c, 18); uint32_t id = (uint32_t)any64(c); uint64_t it = any64(c); c.note("id=%x iterations=%llu a=%s f=%s d=%s l=%s", id, (unsigned long long)it, a.get_str(16).c_str(), f.get_str(16).c_str(), D.get_str(16).c_str(), l.get_str(16).c_str());
    size_t size = d.CmdSize(); PBT_CHECK(size == 392, "a job has %zu bytes", size); std::vector<uint8_t> b(size + 32, 0xcc); M ma(a), mf(f), mD(D), ml(l); d.SerializeJob(&b[16], id, it, ma, mf, mD, ml); uint8_t *p = &b[16]; for (int i = 0; i < 16; i++) PBT_CHECK(b[i] == 0xcc && b[16 + size + i] == 0xcc, "the job is written outside its buffer");
    PBT_CHECK(get32(p) == id && (get32(p + 4) | (uint64_t)get32(p + 8) << 32) == it && get32(p + 388) == 1, "id, count or start word"); PBT_CHECK(ma.z() == a && mf.z() == f && mD.z() == D && ml.z() == l, "the arguments were changed");
    Z da = coeffs(p + 12, 21, 34), df = coeffs(p + 96, 21, 34), dD = coeffs(p + 180, 41, 68), dl = coeffs(p + 344, 11, 18); PBT_CHECK(da == a, "a becomes %s", da.get_str(16).c_str()); PBT_CHECK(df == f, "f becomes %s", df.get_str(16).c_str()); PBT_CHECK(dD == D, "d becomes %s", dD.get_str(16).c_str()); PBT_CHECK(dl == l, "l becomes %s", dl.get_str(16).c_str());
    M ra, rf; uint32_t rid; uint64_t rit; d.DeserializeJob(p, rid, rit, ra, rf); PBT_CHECK(rid == id && rit == it && ra.z() == a && rf.z() == f, "read back as id=%x count=%llu a=%s f=%s", rid, (unsigned long long)rit, ra.z().get_str(16).c_str(), rf.z().get_str(16).c_str());
    // what the chip reports: any redundant representation
    uint8_t st[180]; put32(st, id); put32(st + 4, (uint32_t)it); put32(st + 8, (uint32_t)(it >> 32)); bool red = s.raw(3) && redundant(&s, nullptr, a, 21, 34, st + 12) && redundant(&s, nullptr, f, 21, 34, st + 96); if (!red) for (int i = 12; i < 180; i++) st[i] = (uint8_t)s.raw(256);
    Z va = coeffs(st + 12, 21, 34), vf = coeffs(st + 96, 21, 34); if (red) PBT_CHECK(va == a && vf == f, "harness"); d.DeserializeJob(st, rid, rit, ra, rf); PBT_CHECK(rid == id && rit == it, "status id or count"); PBT_CHECK(ra.z() == va && rf.z() == vf, "status coefficients read as %s, want %s", ra.z().get_str(16).c_str(), va.get_str(16).c_str()); c.label(red ? "redundant status" : "arbitrary status"); c.nontrivial(sgn(a) < 0 || sgn(f) < 0 || bits(a) > 16);
}
static std::unique_ptr<ChiaDriver> driver(Chip &ch) { chip = &ch; auto d = std::make_unique<ChiaDriver>(); PBT_CHECK(d->ftdi.Open() == 0, "the device does not open"); d->freq_idx = 1; return d; }
static void ok(Chip &ch) { PBT_CHECK(ch.bad.empty(), "%s", ch.bad.c_str()); }
static void bus(Ctx &c) {
    auto &s = c.s; hush(); sched::nap = 0.001; Chip ch; auto d = driver(ch); struct Job { Z D, a, b; uint64_t n; bool on = false; int starts = 0; } job[3]; vdf_value val[3]; Z wa[3], wb[3]; uint64_t wi[3] = {}; for (auto &v : val) init_vdf_value(&v); int reads = 0, started = 0;
    for (int op = (int)s.range(3, 25); op--;) {
        int e = (int)s.raw(3); ch.writes.clear(); c.note("%d", e);
        switch (s.raw(4)) {
        case 0: { Job &j = job[e]; j.D = -abs(field(c, 65)); if (j.D == 0) j.D = -7; j.a = field(c, 34); j.b = field(c, 34); j.n = any64(c); M D(j.D), a(j.a), b(j.b); PBT_CHECK(start_hw_vdf(d.get(), D, a, b, j.n, e) == 0, "start fails"); j.on = true; j.starts++; started++; for (auto &w : ch.writes) PBT_CHECK(w.first >= 0x100000u + 0x10000 * e && w.first + w.second <= 0x102000u + 0x10000 * e, "a write of %d bytes to %x while starting engine %d", w.second, w.first, e); Z L; mpz_root(L.get_mpz_t(), Z(-j.D).get_mpz_t(), 4); PBT_CHECK(ch.eng[e].l == L, "engine %d was given L=%s, want %s", e, ch.eng[e].l.get_str().c_str(), L.get_str().c_str()); break; }
        case 1: stop_hw_vdf(d.get(), e); job[e].on = false; for (auto &w : ch.writes) PBT_CHECK(w.first == 0x100000u + 0x10000 * e && w.second == 4, "a write to %x while stopping engine %d", w.first, e); break;
        default: {
            int mask = (int)s.raw(16); ch.temp = (uint32_t)s.raw(1024); for (int i = 0; i < 3; i++) { Z a, b; uint8_t *st = ch.eng[i].status; do a = field(c, 34); while (!redundant(&s, nullptr, a, 21, 34, st + 12)); do b = field(c, 34); while (!redundant(&s, nullptr, b, 21, 34, st + 96)); uint64_t it = any64(c); put32(st, 0xab); put32(st + 4, (uint32_t)it); put32(st + 8, (uint32_t)(it >> 32)); if (mask >> i & 1) { wa[i] = a; wb[i] = b; wi[i] = it; } }
            PBT_CHECK(read_hw_status(d.get(), (uint8_t)mask, val) == 0, "reading the status fails"); PBT_CHECK(ch.writes.empty(), "reading the status writes"); reads++;
            for (int i = 0; i < 3; i++) PBT_CHECK(val[i].iters == wi[i] && Z(val[i].a) == wa[i] && Z(val[i].b) == wb[i], "mask %x: engine %d is read as iterations=%llu a=%s, want %llu %s", mask, i, (unsigned long long)val[i].iters, Z(val[i].a).get_str(16).c_str(), (unsigned long long)wi[i], wa[i].get_str(16).c_str()); break; }
        }
        ok(ch); for (int i = 0; i < 3; i++) { auto &g = ch.eng[i]; PBT_CHECK(g.busy == job[i].on && g.starts == job[i].starts && (g.clock && !g.reset) == job[i].on, "engine %d: busy=%d after %d starts, want %d after %d", i, g.busy, g.starts, job[i].on, job[i].starts); if (job[i].starts) PBT_CHECK(g.iters == job[i].n && g.a == job[i].a && g.f == job[i].b && g.d == job[i].D, "engine %d holds another job", i); }
    }
    for (auto &v : val) clear_vdf_value(&v); c.nontrivial(reads && started);
}
static double freq_of(uint32_t r, uint32_t f, uint32_t q) { return 400.0 * (f + 1) / (2.0 * (r + 1) * (q + 1)); }
static void pll_state(Chip &ch, ChiaDriver &d, uint32_t idx) {
    PBT_CHECK(idx < VALID_PLL_FREQS, "table index %u", idx); uint32_t r = ch.reg[4], f = ch.reg[8], q = ch.reg[0x10], range = ch.reg[0x14]; double fr = freq_of(r, f, q); PBT_CHECK(r <= 0x3f && f <= 0x1ff && q <= 0x1f, "dividers %u %u %u do not fit", r, f, q); PBT_CHECK(fabs(fr - pll_entries[idx].freq) < 1e-6, "dividers give %.6f MHz, the table says %.6f", fr, pll_entries[idx].freq);
    static const double lo[] = {5, 7.5, 11, 18, 30, 50, 80, 130}, hi[] = {7.5, 11, 18, 30, 50, 80, 130, 200}; double ref = 100.0 / (r + 1); PBT_CHECK(range < 8 && ref >= lo[range] && ref < hi[range], "filter range %u for a reference of %.2f MHz", range, ref); PBT_CHECK(ch.reg[0] == 0, "the clock is left under control %x", ch.reg[0]);
    double g = d.GetPLLFrequency(); PBT_CHECK(fabs(g - fr) < 1e-6, "reads back %.6f MHz instead of %.6f", g, fr); PBT_CHECK(d.freq_idx == idx, "remembers entry %u, programmed %u", d.freq_idx, idx);
}
static void pll(Ctx &c) {
    auto &s = c.s; hush(); sched::nap = 0; static bool table = false; if (!table) { for (int i = 0; i < VALID_PLL_FREQS; i++) { auto &e = pll_entries[i]; PBT_CHECK(fabs(e.freq - freq_of(e.settings.divr, e.settings.divfi, e.settings.divq)) < 1e-6, "entry %d does not give its frequency", i); if (i) PBT_CHECK(e.freq >= pll_entries[i - 1].freq, "the table is not sorted at %d", i); } table = true; }
    Chip ch; auto d = driver(ch); ch.ack_after = ch.lock_after = 0; double f; switch (s.raw(5)) { case 0: f = pll_entries[s.raw(VALID_PLL_FREQS)].freq; break; case 1: f = pll_entries[s.raw(VALID_PLL_FREQS)].freq + 1e-9 * (double)s.irange(-1, 1); break; case 2: f = s.raw(2) ? 3000.0 : 18.0 + (double)s.raw(100) / 100; break; case 3: f = 3000.0 + (double)s.range(1, 100000) / 100; break; default: f = 18 + (double)s.range(0, 298200) / 100; }
    int want = 0; while (want < VALID_PLL_FREQS && pll_entries[want].freq < f) want++; c.note("%.9f MHz", f); int fail = (int)s.raw(6); if (fail == 4) ch.ack_after = 1000; if (fail == 5) ch.lock_after = 1000; if (fail < 4) { ch.ack_after = (int)s.raw(4); ch.lock_after = (int)s.raw(4); }
    d->freq_idx = 77; bool r = d->SetPLLFrequency(f, 0); ok(ch); if (want == VALID_PLL_FREQS) { PBT_CHECK(!r && ch.writes.empty(), "a frequency beyond the table is accepted"); c.label("beyond the table"); c.nontrivial(); return; }
    if (fail >= 4) { PBT_CHECK(!r && d->freq_idx == 77, "a clock that does not settle counts as set"); c.label("does not settle"); c.nontrivial(); return; }
    PBT_CHECK(r, "the frequency is refused"); PBT_CHECK(fabs(pll_entries[d->freq_idx].freq - pll_entries[want].freq) < 1e-9, "%.6f MHz chosen for %.6f, the next one is %.6f", pll_entries[d->freq_idx].freq, f, pll_entries[want].freq); pll_state(ch, *d, d->freq_idx);
    // steps up and down, with some engines running
    if (s.raw(3) == 0) { d->SetPLLFrequency(0, s.raw(2) ? 1 + (uint32_t)s.raw(3) : VALID_PLL_FREQS - 1 - (uint32_t)s.raw(3)); c.label("near an end of the table"); }
    int mask = (int)s.raw(8); for (int i = 0; i < 3; i++) if (mask >> i & 1) d->EnableEngine(0x100000 + 0x10000 * i); ch.resets = 0; ch.ack_after = ch.lock_after = 0;
    for (int k = (int)s.range(1, 8), dir = s.raw(2) ? 1 : -1; k--;) { if (s.raw(4) == 0) dir = -dir; uint32_t from = d->freq_idx; ch.writes.clear(); adjust_hw_freq(d.get(), (uint8_t)mask, dir); ok(ch); uint32_t to = d->freq_idx; PBT_CHECK(to < VALID_PLL_FREQS && (to == from || to == from + dir), "a step of %d leads from entry %u to %u", dir, from, to); bool edge = dir > 0 ? from >= VALID_PLL_FREQS - 1 : from <= 1; PBT_CHECK(to != from || edge, "a step of %d at entry %u does nothing", dir, from); PBT_CHECK(ch.resets == 0, "a frequency step resets the chip"); pll_state(ch, *d, to); for (int i = 0; i < 3; i++) PBT_CHECK(ch.eng[i].clock == (mask >> i & 1), "engine %d is %s after a frequency step", i, ch.eng[i].clock ? "on" : "off"); if (edge) c.label("end of the table"); }
    c.nontrivial();
}
static void supply(Ctx &c) {
    auto &s = c.s; hush(); sched::nap = 0; Chip ch; auto d = driver(ch); const double step = 0.00625;
    switch (s.raw(4)) {
    case 0: { int vid = (int)s.range(0x29, 0x79); ch.vr[7] = (uint8_t)vid; double v = d->GetBoardVoltage(); c.note("vid %d", vid); PBT_CHECK(fabs(v - (0.24375 + vid * step)) < 1e-9, "vid %d reads as %.6f V", vid, v); PBT_CHECK(d->SetBoardVoltage(v) == 0 && ch.vr[7] == vid, "setting the voltage read for vid %d gives vid %d", vid, ch.vr[7]); c.label("read and set"); break; }
    case 1: { double v = 0.5 + (double)s.raw(500001) / 1e6; c.note("%.6f V", v); PBT_CHECK(d->SetBoardVoltage(v) == 0, "%.6f V is refused", v); PBT_CHECK(ch.vr[7] >= 0x29 && ch.vr[7] <= 0x79 && ch.vr[8] == 0xe4, "vid %d, compensation %x", ch.vr[7], ch.vr[8]); double g = d->GetBoardVoltage(); PBT_CHECK(g <= v + 1e-5 && v - g < step + 1e-5, "%.6f V becomes %.6f V", v, g); c.label("in range"); break; }
    case 2: { double v; switch (s.raw(4)) { case 0: v = 0.5 - 1e-4 - (double)s.raw(50000) / 1e5; break; case 1: v = 1.0 + step + 1e-4 + (double)s.logrange(1, 100000000) / 1e5; break; case 2: v = -(double)s.raw(1000000) / 1e5; break; default: v = s.raw(2) ? NAN : INFINITY; } c.note("%.6f V", v); PBT_CHECK(d->SetBoardVoltage(v) != 0 && ch.i2c_writes == 0, "%.6f V is accepted as %.6f V", v, d->GetBoardVoltage()); c.label("out of range"); break; }
    default: { ch.current = (unsigned)s.raw(4096); double i = d->GetBoardCurrent(); PBT_CHECK(fabs(i - ch.current * 440.0 / 32768) < 1e-9, "a reading of %u is %.6f A", ch.current, i); ch.vr[7] = (uint8_t)s.range(0x29, 0x79); double p = d->GetPower(); PBT_CHECK(fabs(p - i * (0.24375 + ch.vr[7] * step)) < 1e-9, "power %.6f", p); c.label("current"); }
    }
    ok(ch); c.nontrivial();
}
static void temperature(Ctx &c) {
    auto &s = c.s; hush(); Chip ch; auto d = driver(ch); double t = -40 + (double)s.raw(165001) / 1000, u = t + (double)s.range(1, 3000) / 1000; uint32_t a = d->TempToValue(t), b = d->TempToValue(u); c.note("%.3f C", t); PBT_CHECK(a <= 0x3ff && a <= b, "codes %u for %.3f and %u for %.3f", a, t, b, u); double back = d->ValueToTemp(a); PBT_CHECK(fabs(back - t) < 0.8, "%.3f C is coded %u, which reads as %.3f C", t, a, back);
    uint32_t k = (uint32_t)s.raw(1023); PBT_CHECK(d->ValueToTemp(k) < d->ValueToTemp(k + 1), "code %u reads hotter than %u", k, k + 1);
    bool e = s.raw(2); if (s.raw(4) == 0) { double h = 180 + (double)s.raw(100000) / 100; PBT_CHECK(!(e ? d->SetTempAlarmEngine(h) : d->SetTempAlarmExternal(h)) && ch.writes.empty(), "an alarm at %.1f C is accepted", h); c.label("alarm out of range"); }
    else { PBT_CHECK(e ? d->SetTempAlarmEngine(t) : d->SetTempAlarmExternal(t), "an alarm at %.1f C is refused", t); double g = e ? d->GetTempAlarmEngine() : d->GetTempAlarmExternal(); PBT_CHECK(fabs(g - back) < 1e-9, "alarm reads back %.3f", g); uint32_t reg = e ? 0x10028 : 0x10024, other = e ? 0x10024 : 0x10028; PBT_CHECK(ch.writes.size() == 1 && ch.reg[reg] == a, "alarm register"); ch.reg[reg] |= 0x8000; PBT_CHECK((e ? d->IsTempAlarmEngineSet() : d->IsTempAlarmExternalSet()) && d->IsTempAlarmSet() && !(e ? d->IsTempAlarmExternalSet() : d->IsTempAlarmEngineSet()), "alarm status"); ch.reg[reg] &= 0x3ff; ch.reg[other] |= 0x7c00; PBT_CHECK(!d->IsTempAlarmSet(), "alarm status without alarm"); ch.reg[0x10010] = a; PBT_CHECK(fabs(d->GetPvtTemp() - back) < 1e-9, "temperature reads %.3f", d->GetPvtTemp()); c.label("alarm"); }
    ok(ch); c.nontrivial();
}
// ------------------------------------------------------------------ C26: the command line
struct Seen { int touched, opened; uint32_t r, f, q; int vid; };
static void options(Ctx &c) {
    auto &s = c.s; hush(); bool bad = false, info = false; std::vector<std::vector<std::string>> opt; double freq = 1100, volt = 0.88; std::string ip = "127.0.0.1"; int mask = 0, n = 3; unsigned aux = 4, prf = 0; auto dec = [](int k, int d) { int m = d == 2 ? 100 : 10000; char b[64]; snprintf(b, 64, "%d.%0*d", k / m, d, k % m); return std::string(b); };
    auto add = [&](const char *name, const std::string &v) { if (s.raw(2)) opt.push_back({std::string("--") + name + "=" + v}); else opt.push_back({std::string("--") + name, v}); };
    // what is out of range: just outside, far outside, or a number that is in range only after it has been cut to a few bits
    auto wide = [&](uint64_t good) { switch (s.raw(4)) { case 0: return std::to_string(good + 256 * s.range(1, 5)); case 1: return std::to_string(good + 65536); case 2: return std::to_string(good + (1ULL << 32)); default: return "-" + std::to_string(256 * s.range(1, 3) - good); } };
    int wrong = s.raw(2) ? -1 : (int)s.raw(9); std::string what = "valid";
    auto pick = [&](int k) { return wrong == k || s.raw(3) == 0; };
    if (pick(0)) { if (wrong == 0) { static const char *const w[] = {"199.99", "0", "-300", "2200.01", "1e9", "inf", "nan", "abc", "-nan"}; add("freq", w[s.raw(9)]); bad = true; what = "freq"; } else { int k = s.raw(4) == 0 ? (s.raw(2) ? 20000 : 220000) : 20000 + (int)s.raw(200001); freq = k / 100.0; add("freq", dec(k, 2)); } }
    if (pick(1)) { if (wrong == 1) { static const char *const w[] = {"0.699", "0", "-0.8", "1.001", "7", "inf", "nan", "abc"}; add("voltage", w[s.raw(8)]); bad = true; what = "voltage"; } else { int k = s.raw(4) == 0 ? (s.raw(2) ? 7000 : 10000) : 7000 + (int)s.raw(3001); volt = k / 10000.0; add("voltage", dec(k, 4)); } }
    if (pick(2)) { if (wrong == 2) { static const char *const w[] = {"256.0.0.1", "127.0.0", "host", "", "127.0.0.1.1", "127.0.0.x"}; add("ip", w[s.raw(6)]); bad = true; what = "ip"; } else { ip = "127." + std::to_string(s.raw(256)) + "." + std::to_string(s.raw(256)) + "." + std::to_string(s.range(1, 254)); add("ip", ip); } }
    if (pick(3)) { if (wrong == 3) { add("vdfs-mask", s.raw(2) ? std::to_string(s.range(8, 255)) : wide(s.range(1, 7))); bad = true; what = "vdfs-mask"; } else { mask = (int)s.range(1, 7); add("vdfs-mask", (s.raw(3) ? "" : "0x") + std::to_string(mask)); } }
    if (pick(4)) { if (wrong == 4) { add("vdf-threads", s.raw(2) ? std::to_string(s.raw(2) ? s.raw(2) : s.range(65, 255)) : wide(s.range(2, 64))); bad = true; what = "vdf-threads"; } else { aux = (unsigned)s.range(2, 64); add("vdf-threads", std::to_string(aux)); } }
    if (pick(5)) { if (wrong == 5) { add("proof-threads", s.raw(2) ? std::to_string(s.range(aux, 255)) : wide(s.range(1, aux - 1))); bad = true; what = "proof-threads"; } else { prf = (unsigned)s.raw(aux); add("proof-threads", std::to_string(prf)); } }
    if (s.raw(5) == 0) { if (s.raw(4) == 0) { add("auto-freq-period", std::to_string(s.raw(10))); bad = true; what = "auto-freq-period"; } else add("auto-freq-period", std::to_string(s.logrange(10, 4000000000ULL))); }
    if (wrong == 6) { static const char *const w[] = {"-x", "-5", "--frequency=300", "--list=1", "--version=", "--=5", "--vdf_threads=4", "--this-name-is-far-too-long-for-any-option=1", "-"}; opt.push_back({w[s.raw(9)]}); bad = true; what = "unknown"; }
    for (size_t i = opt.size(); i > 1; i--) std::swap(opt[i - 1], opt[s.raw(i)]);
    if (wrong == -1 && !bad && s.raw(10) == 0) { info = true; opt.insert(opt.begin() + s.raw(opt.size() + 1), {s.raw(2) ? "--version" : "--list"}); what = "information"; }
    int lfd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_ANY); socklen_t l = sizeof a; if (bind(lfd, (sockaddr *)&a, sizeof a) || listen(lfd, 8) || getsockname(lfd, (sockaddr *)&a, &l)) pbt::fail("harness: listen"); std::string port = std::to_string(ntohs(a.sin_port));
    std::vector<std::string> pos; std::string pn;
    if (wrong == 7) { static const char *const w[] = {"0", "65536", "abc", "", "80x", "99999999999", "0x50"}; int k = (int)s.raw(8); if (k < 7) pos.push_back(w[k]); bad = true; what = "port"; } else pos.push_back((s.raw(6) ? "" : std::string(s.range(1, 3), '0')) + port);
    if (!pos.empty() && (wrong == 8 || s.raw(2))) { if (wrong == 8) { static const char *const w[] = {"0", "4", "abc", "", "2x", "4294967297"}; pos.push_back(w[s.raw(6)]); bad = true; what = "count"; } else { n = (int)s.range(1, 3); pos.push_back(std::to_string(n)); } }
    std::vector<std::string> av = {"hw"}; size_t k = 0; for (auto &o : opt) { while (k < pos.size() && s.raw(4) == 0) av.push_back(pos[k++]); for (auto &x : o) av.push_back(x); } while (k < pos.size()) av.push_back(pos[k++]);
    if (wrong == -1 && !info && s.raw(12) == 0) { static const char *const w[] = {"--freq", "--ip", "--vdf-threads"}; av.push_back(w[s.raw(3)]); bad = true; what = "missing value"; }
    for (auto &x : av) c.note("%s", x.c_str()); c.label(what.c_str()); if (!mask) mask = (1 << n) - 1; int want = bad || info ? 0 : __builtin_popcount(mask);
    Seen *sh = (Seen *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); pid_t pid = fork();
    if (pid == 0) {
        [&]() noexcept { prctl(PR_SET_PDEATHSIG, SIGKILL); close(lfd); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2); for (int g : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGALRM, SIGTERM}) signal(g, SIG_DFL); alarm(60); sched::nap = 0; static Chip ch; chip = &ch; std::vector<char *> p; for (auto &x : av) p.push_back((char *)x.c_str()); p.push_back(nullptr);
            int rc = hw_main((int)av.size(), p.data()); sh->touched = (int)ch.writes.size() + ch.i2c_writes; sh->r = ch.reg[4]; sh->f = ch.reg[8]; sh->q = ch.reg[0x10]; sh->vid = ch.vr[7]; _exit(rc); }();
    }
    int st = 0; bool dead = false; std::vector<int> fds; std::string from; double t = pbt::now(); auto poll_once = [&] { pollfd p{lfd, POLLIN, 0}; if (poll(&p, 1, 2) > 0) { int fd = accept(lfd, nullptr, nullptr); if (fd >= 0) { sockaddr_in me{}; socklen_t ml = sizeof me; getsockname(fd, (sockaddr *)&me, &ml); char b[32]; inet_ntop(AF_INET, &me.sin_addr, b, 32); if (from.empty() || from == ip) from = b; fds.push_back(fd); } } if (!dead && waitpid(pid, &st, WNOHANG) == pid) dead = true; };
    struct Clean { pid_t pid; bool &dead; int lfd; std::vector<int> &fds; void *sh; ~Clean() { if (!dead) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); } close(lfd); for (int f : fds) close(f); munmap(sh, 4096); } } clean{pid, dead, lfd, fds, sh};
    if (want) {
        while (!dead && (int)fds.size() < want && pbt::now() - t < 30) poll_once(); PBT_CHECK(!dead, "the program ends (status %x) although its command line is valid", st); PBT_CHECK((int)fds.size() == want, "%d connections, want %d", (int)fds.size(), want);
        PBT_CHECK(from == ip, "connects to %s instead of %s", from.c_str(), ip.c_str()); double u = pbt::now(); while (pbt::now() - u < 0.02) poll_once(); PBT_CHECK((int)fds.size() == want, "%d connections, want %d", (int)fds.size(), want); kill(pid, SIGTERM); for (int f : fds) shutdown(f, SHUT_RDWR);
    }
    t = pbt::now(); while (!dead && pbt::now() - t < (want ? 50 : 15) && (want || fds.empty())) poll_once(); PBT_CHECK(dead, want ? "the program does not end after the signal" : "the program goes on with a command line that is to be refused"); PBT_CHECK(WIFEXITED(st), "killed by signal %d", WTERMSIG(st));
    if (bad) { PBT_CHECK(WEXITSTATUS(st) != 0, "a command line with a wrong %s is accepted", what.c_str()); PBT_CHECK(fds.empty() && !sh->touched, "the hardware or the timelord is contacted although the command line is refused"); c.nontrivial(); return; }
    PBT_CHECK(WEXITSTATUS(st) == 0, "exit status %d", WEXITSTATUS(st)); c.nontrivial(opt.size() > 0); if (info) { PBT_CHECK(fds.empty() && !sh->touched, "asking for information changes the hardware"); return; }
    int e = 0; while (pll_entries[e].freq < freq) e++; PBT_CHECK(fabs(freq_of(sh->r, sh->f, sh->q) - pll_entries[e].freq) < 1e-6, "the chip runs at %.6f MHz, wanted %.2f", freq_of(sh->r, sh->f, sh->q), freq); double v = 0.24375 + sh->vid * 0.00625; PBT_CHECK(v <= volt + 1e-5 && volt - v < 0.00625 + 1e-5, "the board runs at %.5f V, wanted %.4f", v, volt);
}
#ifndef EMU
int main(int argc, char **argv) {
    VdfBaseInit();
    std::vector<pbt::Suite> R;
    auto add = [&](const char *n, std::function<void(Ctx &)> f, uint64_t q, uint64_t t, const char *rule, int jobs = 4) { pbt::Suite u; u.name = n; u.prop = f; u.quick = q; u.thorough = t; u.rule = rule; u.timeout_s = 300; u.maxjobs = jobs; R.push_back(u); };
    add("C18.lies", lies, 100, 2000, "the wrong value was noticed");
    add("C18.proofs", [](Ctx &c) { proofs(c, false); }, 36, 3000, "every request of a session was answered");
    add("C18.chain", [](Ctx &c) { proofs(c, false, 1); }, 8, 200, "every request of a session with checkpoints was answered");
    add("C18.client", whole, 14, 600, "at least one proof was delivered and checked");
    add("C27.client", [](Ctx &c) { whole_(c, true); }, 40, 1500, "the clock was changed in a session", 4);
    add("C26.options", options, 600, 20000, "an option was given or the command line is wrong", 8);
    add("C19.coding", coding, 200000, 5000000, "a coefficient is negative or longer than one word", 8);
    add("C19.bus", bus, 30000, 500000, "a job was started and a status read", 8);
    add("C19.pll", pll, 1500, 30000, "the clock was programmed or refused", 8);
    add("C19.power", supply, 4000, 60000, "every case", 8);
    add("C19.temp", temperature, 40000, 600000, "every case", 8);
    return pbt::main_(argc, argv, R);
}
#endif
