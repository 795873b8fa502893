// C11..C16: the timelord's callbacks, provers and segment manager against the reference model.
#include "engine.h"
#include "schedule.h"
#include <condition_variable>
using namespace model; using namespace eng; using pbt::Ctx;
static std::string sf(const F &f) { return bits(f.a) < 100 ? str(f) : "a=" + f.a.get_str(16).substr(0, 24) + ".."; }

// The orbit as a cycle of forms: position i is x^(2^i); only for elements of known order.
struct Cycle {
    Z D; std::vector<F> pw; std::vector<form> fm; uint64_t ord; uint32_t pre, period; std::vector<uint32_t> e;   // e[i] = 2^i mod ord until it repeats
    Cycle(Orbit &o) : D(o.D), ord(mpz_get_ui(o.ord.get_mpz_t())) {
        F f = identity(D); for (uint64_t i = 0; i < ord; i++) { pw.push_back(f); fm.push_back(rp::toForm(f)); f = compose(f, o.x, D); }
        std::map<uint32_t, uint32_t> seen; uint32_t v = 1 % ord; while (!seen.count(v)) { seen[v] = (uint32_t)e.size(); e.push_back(v); v = (uint32_t)(2ULL * v % ord); }
        pre = seen[v]; period = (uint32_t)e.size() - pre;
    }
    uint32_t exp(uint64_t i) const { return i < e.size() ? e[i] : e[pre + (i - pre) % period]; }
    const F &at(uint64_t i) const { return pw[exp(i)]; }
    const form &form_at(uint64_t i) const { return fm[exp(i)]; }
    F proof(uint64_t start, uint64_t T, Z &B) const {   // proof of T squarings from position start
        B = get_b(D, at(start), at(start + T)); Z m = B * Z((unsigned long)ord), q = pow2mod(u64z(T), m) / B; q = q * Z((unsigned long)exp(start)) % Z((unsigned long)ord); return pw[mpz_get_ui(q.get_mpz_t())];
    }
};
static void feed(WesolowskiCallback &cb, const form &f, uint64_t iteration) {   // what the slow path reports after squaring number `iteration`
    vdf_original::form v; v.a[0] = f.a.impl[0]; v.b[0] = f.b.impl[0]; v.c[0] = f.c.impl[0]; cb.OnIteration(NL_FORM, &v, iteration - 1);
}
static Orbit known(Ctx &c, int minm = 300, int maxbits = 1024) {
    Orbit o; std::vector<Short> ok; for (auto &x : shorts()) if (x.m >= minm && x.bits <= maxbits) ok.push_back(x);
    Short &q = ok[c.s.raw(ok.size())]; o.D = q.D; uint64_t e = c.s.range(1, q.m - 1); o.x = power(q.g, Z((unsigned long)e), q.D); o.ord = q.m; c.note("D=2^%d-b^2 x=g^%llu", q.m + 2, (unsigned long long)e); return o;
}
// Takes a proof apart: first part last in the message. Checks every part against the model.
static void check_proof(const Cycle &cy, const Proof &p, uint64_t T, size_t n, int maxparts, int declared) {
    size_t fs = BQFC_FORM_SIZE, seg = 8 + 33 + fs; PBT_CHECK(p.y.size() == fs && p.proof.size() >= fs && (p.proof.size() - fs) % seg == 0, "proof for %llu has %zu+%zu bytes", (unsigned long long)T, p.y.size(), p.proof.size());
    int k = (int)((p.proof.size() - fs) / seg); PBT_CHECK(k + 1 <= maxparts, "proof for %llu has %d parts", (unsigned long long)T, k + 1); PBT_CHECK(declared < 0 || declared == k, "declared depth %d, message holds %d", declared, k);
    PBT_CHECK(Bytes(p.y) == encode(cy.at(T), n), "result for %llu is not x^(2^T)", (unsigned long long)T);
    uint64_t pos = 0; size_t i = p.proof.size();
    for (int j = 0; j < k; j++) {
        i -= seg; uint64_t len = be64(&p.proof[i]); PBT_CHECK(len <= T - pos, "parts of the proof for %llu exceed it (part %d: %llu at %llu)", (unsigned long long)T, j, (unsigned long long)len, (unsigned long long)pos); Z B; F w = cy.proof(pos, len, B);
        PBT_CHECK(from_be(&p.proof[i + 8], 33) == B, "part %d of the proof for %llu (%llu at %llu) carries a wrong challenge", j, (unsigned long long)T, (unsigned long long)len, (unsigned long long)pos);
        PBT_CHECK(Bytes(&p.proof[i + 41], &p.proof[i + 41] + fs) == encode(w, n), "part %d of the proof for %llu (%llu at %llu) is wrong", j, (unsigned long long)T, (unsigned long long)len, (unsigned long long)pos); pos += len;
    }
    Z B; F w = cy.proof(pos, T - pos, B); PBT_CHECK(Bytes(&p.proof[0], &p.proof[0] + fs) == encode(w, n), "last part of the proof for %llu (%llu at %llu) is wrong", (unsigned long long)T, (unsigned long long)(T - pos), (unsigned long long)pos);
    Bytes blob(p.y); blob.insert(blob.end(), p.proof.begin(), p.proof.end()); Bytes xs = encode(cy.at(0), n); integer D = rp::I(cy.D);
    PBT_CHECK(CheckProofOfTimeNWesolowski(D, xs.data(), blob.data(), blob.size(), T, n, k), "the verifier rejects the proof for %llu", (unsigned long long)T);
}
static void start_case() { fast_algorithm = false; two_weso = false; new_event = false; }

// ------------------------------------------------------------------ C12
static uint64_t one_count(Ctx &c, uint64_t max) {
    auto &s = c.s; uint64_t t; switch (s.raw(9)) { case 0: t = s.range(1, 30); break; case 1: t = s.logrange(1, 3000); break; case 2: t = 10 * s.range(1, 800) + s.raw(3); break; case 3: t = 65536 + s.irange(-20, 30); break; case 4: t = s.logrange(60000, 75000); break; default: t = s.range(1, 12000); }
    return std::min(t, max);
}
static void one_run(Ctx &c, bool live) {
    start_case(); uint64_t T = one_count(c, 80000); bool big = T > 20000; Orbit o = big && c.s.raw(6) ? orbit(c, 400, 520, false) : !big && c.s.raw(3) == 0 ? orbit(c, 64, 1024, false) : known(c, 61); variant(c); int n = (int)bits(o.D); integer D = rp::I(o.D), L = root(-D, 4); form x = rp::toForm(o.x);
    if (o.ord == 0 && !big) T = std::min<uint64_t>(T, n > 400 ? 1500 : 4000); c.note("T=%llu%s", (unsigned long long)T, live ? " concurrent" : ""); c.labelf("T %s", T < 100 ? "<100" : T < 65536 ? "<65536" : ">=65536");
    OneWesolowskiCallback cb(D, x, T); std::atomic<bool> stop{false}; Proof p;
    if (live) { sched::nap = 0.002; std::thread w([&] { repeated_square(0, x, D, L, &cb, nullptr, stop); }); p = ProveOneWesolowski(T, D, x, &cb, stop); stop = true; w.join(); }
    else { repeated_square(T, x, D, L, &cb, nullptr, stop); PBT_CHECK((uint64_t)cb.iterations >= T, "stopped at %lld", (long long)cb.iterations); p = ProveOneWesolowski(T, D, x, &cb, stop); }
    PBT_CHECK(rp::fromForm(cb.result) == o.at(T), "stored result is %s, want %s", sf(rp::fromForm(cb.result)).c_str(), sf(o.at(T)).c_str());
    PBT_CHECK(T / cb.kl < cb.forms_capacity, "checkpoints do not fit: %llu/%u in %zu", (unsigned long long)T, cb.kl, cb.forms_capacity);
    for (uint64_t i = 0; i * cb.kl <= T; i++) PBT_CHECK(rp::fromForm(cb.forms[i]) == o.at(i * cb.kl), "checkpoint %llu does not hold iteration %llu", (unsigned long long)i, (unsigned long long)(i * cb.kl));
    F w = o.proof(T, o.at(T)); PBT_CHECK(Bytes(p.y) == encode(o.at(T), n), "result differs"); PBT_CHECK(Bytes(p.proof) == encode(w, n), "proof differs"); PBT_CHECK(p.witness_type == 0, "witness type %d", p.witness_type);
    Bytes blob(p.y), xs = encode(o.x, n); blob.insert(blob.end(), p.proof.begin(), p.proof.end()); PBT_CHECK(CheckProofOfTimeNWesolowski(D, xs.data(), blob.data(), blob.size(), T, n, 0), "the verifier rejects the proof"); c.nontrivial(T > 10);
}
// Larger counts (several tables at 10^7 and above) without squaring: forms come from the cycle.
static void one_large(Ctx &c) {
    start_case(); Orbit o = known(c, 300, 520); Cycle cy(o); int n = (int)bits(o.D); integer D = rp::I(o.D); form x = cy.form_at(0); uint64_t T = c.s.raw(3) ? c.s.range(100000, 1500000) : c.s.raw(2) ? 9990000 + c.s.range(0, 20000) : c.s.range(10000000, 10400000); c.note("T=%llu", (unsigned long long)T);
    OneWesolowskiCallback cb(D, x, T); std::atomic<bool> stop{false};
    for (uint64_t i = 1; i <= T + 40; i++) if (i % cb.kl == 0 || i >= T - 1) feed(cb, cy.form_at(i), i);
    cb.iterations = (int64_t)T; Proof p = ProveOneWesolowski(T, D, x, &cb, stop); check_proof(cy, p, T, n, 1, 0); c.nontrivial(); c.label(T > 9999000 ? "10^7" : "10^5..10^6");
}

// ------------------------------------------------------------------ C13 (constants scaled by the verification build)
#ifdef CHIAVDF_VERIF_SCALE
static const bool scaled = true;
#else
static const bool scaled = false;
#endif
static uint64_t two_count(Ctx &c, uint64_t sw, uint64_t max) {
    auto &s = c.s; uint64_t t; switch (s.raw(7)) { case 0: t = s.range(1, 400); break; case 1: t = sw + s.irange(-300, 300); break; case 2: t = sw * 3 / 2 + s.irange(-300, 300); break; case 3: t = 9 * sw / 8 + s.irange(-400, 400); break; case 4: t = max - s.raw(1000); break; default: t = s.range(1, max); }
    return std::max<uint64_t>(1, std::min(t, max));
}
static void two_direct(Ctx &c) {   // callback fed from the model, switch at a generated point, proofs in any order and concurrently
    start_case(); Orbit o = known(c, 300, 700); Cycle cy(o); int n = (int)bits(o.D); integer D = rp::I(o.D); form x = cy.form_at(0); TwoWesolowskiCallback cb(D, x); std::atomic<bool> stop{false};
    uint64_t sw = kSwitchIters + 100 * c.s.range(0, 500); sw += (100 - sw % 100) % 100; uint64_t max = (uint64_t)kMaxItersAllowed - 500000, N = c.s.raw(3) ? c.s.range(sw / 2, max) : max; c.note("switch at %llu, %llu iterations", (unsigned long long)sw, (unsigned long long)N);
    int nreq = (int)c.s.range(1, 4); std::vector<uint64_t> req; for (int i = 0; i < nreq; i++) { req.push_back(two_count(c, sw, N)); c.note("T=%llu", (unsigned long long)req.back()); } bool conc = c.s.raw(2), early = c.s.raw(2); c.labelf("%s%s", conc ? "concurrent" : "one by one", early ? ", requested early" : ""); c.label(N < sw ? "before the switch" : "across the switch");
    sched::nap = 0.005; sched::Scope sc(c.s.u64(), 0, 0); std::vector<Proof> got(nreq); std::vector<std::thread> th; std::vector<std::string> err(nreq);
    auto one = [&](int i) { try { got[i] = ProveTwoWeso(D, x, req[i], 0, &cb, 0, stop); } catch (std::exception &e) { err[i] = e.what(); } };
    auto go = [&] { if (conc) for (int i = 0; i < nreq; i++) th.emplace_back(one, i); else th.emplace_back([&] { for (int i = 0; i < nreq; i++) one(i); }); };
    if (early) go();
    for (uint64_t i = 1; i <= N; i++) { feed(cb, cy.form_at(i), i); if (i == sw) cb.IncreaseConstants(i); if (i % 10000 == 0 || i == N) cb.iterations = (int64_t)i; }
    if (!early) go();
    for (auto &t : th) t.join();
    for (int i = 0; i < nreq; i++) { PBT_CHECK(err[i].empty(), "request for %llu failed: %s", (unsigned long long)req[i], err[i].c_str()); check_proof(cy, got[i], req[i], n, 3, 2); PBT_CHECK(got[i].witness_type == 2, "declared depth %d", got[i].witness_type); }
    for (uint64_t i = 0; i <= N; i += i < sw ? 10 : 100) PBT_CHECK(rp::fromForm(cb.GetFormCopy(i)) == cy.at(i), "iteration %llu reads back another one", (unsigned long long)i);
    c.nontrivial(N >= 100);
}
static void two_live(Ctx &c) {   // the real loop, up to the point where it stops itself
    start_case(); bool sh = c.s.raw(2); Orbit o = sh ? known(c, 300, 520) : orbit(c, 64, 320, false); variant(c); int n = (int)bits(o.D); integer D = rp::I(o.D), L = root(-D, 4); form x = rp::toForm(o.x); TwoWesolowskiCallback cb(D, x); std::atomic<bool> stop{false}, pstop{false};
    uint64_t max = (uint64_t)kMaxItersAllowed - 500000, lim = o.ord != 0 ? max : std::min<uint64_t>(max, 60000); int nreq = (int)c.s.range(1, 3); std::vector<uint64_t> req; for (int i = 0; i < nreq; i++) { req.push_back(two_count(c, 32768, lim)); c.note("T=%llu", (unsigned long long)req.back()); }
    two_weso = true; sched::nap = 0.005; bool whole = o.ord != 0 && c.s.raw(3) == 0; std::vector<Proof> got(nreq); std::vector<std::string> err(nreq); std::vector<std::thread> th;
    std::thread w([&] { repeated_square(0, x, D, L, &cb, nullptr, stop); });
    for (int i = 0; i < nreq; i++) th.emplace_back([&, i] { try { got[i] = ProveTwoWeso(D, x, req[i], 0, &cb, 0, pstop); } catch (std::exception &e) { err[i] = e.what(); } });
    for (auto &t : th) t.join();
    if (!whole) stop = true; w.join(); two_weso = false; c.labelf("%s", whole ? "ran to its limit" : "stopped"); int64_t it = cb.iterations;
    PBT_CHECK(!whole || ((uint64_t)it >= max && (uint64_t)it < (uint64_t)kMaxItersAllowed), "loop ended at %lld", (long long)it);
    bool cross = false; for (int i = 0; i < nreq; i++) { PBT_CHECK(err[i].empty(), "request for %llu failed: %s", (unsigned long long)req[i], err[i].c_str()); cross |= req[i] > (uint64_t)kSwitchIters; Proof &p = got[i]; Bytes blob(p.y), xs = encode(o.x, n); blob.insert(blob.end(), p.proof.begin(), p.proof.end());
        PBT_CHECK(p.witness_type == 2 && Bytes(p.y) == encode(o.at(req[i]), n), "result for %llu differs", (unsigned long long)req[i]); PBT_CHECK(CheckProofOfTimeNWesolowski(D, xs.data(), blob.data(), blob.size(), req[i], n, 2), "the verifier rejects the proof for %llu", (unsigned long long)req[i]);
        if (o.ord != 0) { Cycle cy(o); check_proof(cy, p, req[i], n, 3, 2); } }
    c.label(cross ? "beyond the switch" : "before the switch"); c.nontrivial();
}

// The parts a proof of T consists of, as the message format fixes them: two thirds (a multiple of 100), twice.
static std::vector<std::pair<uint64_t, uint64_t>> parts_of(uint64_t T) { std::vector<std::pair<uint64_t, uint64_t>> r; uint64_t pos = 0; for (int d = 0; d < 2; d++) { uint64_t a = T * 2 / 3; a -= a % 100; r.emplace_back(pos, a); pos += a; T -= a; } r.emplace_back(pos, T); return r; }
struct Probe : TwoWesolowskiProver { Probe(Segment s, integer D, TwoWesolowskiCallback *w, std::atomic<bool> &st) : TwoWesolowskiProver(s, D, w, st) {} uint64_t K() { return k; } uint64_t L() { return l; } };
static form marker(uint64_t it); static uint64_t mark(const form &f);
static void two_full(Ctx &c) {   // production constants: every table entry a prover reads is the one stored for that iteration
    integer D("-1000000007"); uint64_t sw = ((uint64_t)kSwitchIters + 99) / 100 * 100 + 100 * c.s.raw(scaled ? 600 : 400), max = (uint64_t)kMaxItersAllowed - 500000; c.note("switch at %llu", (unsigned long long)sw); TwoWesolowskiCallback cb(D, marker(0)); std::atomic<bool> stop{false}; form z = marker(0);
    std::vector<std::unique_ptr<Probe>> pr; struct Q { size_t p; uint64_t i, it; }; std::vector<Q> q; std::set<uint64_t> its; std::vector<uint64_t> ends;
    for (int j = 0; j < 24; j++) { uint64_t T = j < 8 ? two_count(c, sw, max) : j < 12 ? (uint64_t)((double)sw * (j < 10 ? 1.5 : 9.0 / 8)) + c.s.raw(2000) : c.s.raw(2) ? c.s.range(sw * 9 / 10, sw * 5 / 4) : c.s.logrange(1000, max); if (j < 6) c.note("T=%llu", (unsigned long long)T); ends.push_back(T - T % 100); its.insert(T - T % 100);
        for (auto &g : parts_of(T)) { if (!g.second) continue; pr.push_back(std::make_unique<Probe>(Segment(g.first, g.second, z, z), D, &cb, stop)); uint64_t st = pr.back()->K() * pr.back()->L(), lim = (g.second + st - 1) / st; for (int r = 0; r < 30; r++) { uint64_t i = r == 0 ? 0 : r == 1 ? lim - 1 : c.s.raw(lim); q.push_back({pr.size() - 1, i, g.first + i * st}); its.insert(g.first + i * st); } } }
    bool past = false; for (auto i : its) { if (!past && i > sw) { cb.IncreaseConstants(sw); past = true; } if (i) { feed(cb, marker(i), i); if (i % 100) continue; for (uint64_t o : {10, 50, 90}) if (past) feed(cb, marker(i + o), i + o); } }
    if (!past) cb.IncreaseConstants(sw);
    for (auto &x : q) { form f = pr[x.p]->GetForm(x.i); PBT_CHECK(mark(f) == x.it, "table entry %llu, wanted iteration %llu, holds %llu", (unsigned long long)x.i, (unsigned long long)x.it, (unsigned long long)mark(f)); }
    for (auto e : ends) PBT_CHECK(mark(cb.GetFormCopy(e)) == e, "iteration %llu reads back %llu", (unsigned long long)e, (unsigned long long)mark(cb.GetFormCopy(e)));
    c.nontrivial();
}
static void two_huge(Ctx &c) {   // whole proofs at production constants, several requests on one table
    start_case(); Orbit o = known(c, 60, 320); Cycle cy(o); int n = (int)bits(o.D); integer D = rp::I(o.D); form x = cy.form_at(0); TwoWesolowskiCallback cb(D, x); std::atomic<bool> stop{false}; uint64_t sw = 91000000 + 100 * c.s.raw(400), N = 0; std::vector<uint64_t> T; for (int i = 0; i < 4; i++) { T.push_back(i == 0 ? 91000000 + c.s.raw(60000) : i == 1 ? 90000000 + c.s.raw(3000000) : i == 2 ? c.s.range(85000000, 96000000) : c.s.range(1000000, 110000000)); N = std::max(N, T.back()); c.note("T=%llu", (unsigned long long)T.back()); }
    for (uint64_t i = 10; i <= N; i += i < sw ? 10 : 100) { feed(cb, cy.form_at(i), i); if (i == sw) cb.IncreaseConstants(i); } cb.iterations = (int64_t)N;
    std::vector<Proof> got(4); std::vector<std::thread> th; std::vector<std::string> err(4); for (int i = 0; i < 4; i++) th.emplace_back([&, i] { try { got[i] = ProveTwoWeso(D, x, T[i], 0, &cb, 0, stop); } catch (std::exception &e) { err[i] = e.what(); } }); for (auto &t : th) t.join();
    for (int i = 0; i < 4; i++) { PBT_CHECK(err[i].empty(), "request for %llu failed: %s", (unsigned long long)T[i], err[i].c_str()); check_proof(cy, got[i], T[i], n, 3, 2); } c.nontrivial();
}

// ------------------------------------------------------------------ C14
struct Stage {   // the squaring loop's side of the segment manager, fed from the cycle
    const Cycle &cy; FastAlgorithmCallback &cb; FastStorage *fs; uint64_t it = 0, last = 0;
    void advance(uint64_t n) {
        for (uint64_t k = 0; k < n; k++) { it++; feed(cb, cy.form_at(it), it); if (it % 8192 == 0 && it >= last) {
            cb.iterations = (int64_t)it; if (fs) fs->SubmitCheckpoint(cb.y_ret, last); else if (last % 65536 == 0) { { std::lock_guard<std::mutex> lk(new_event_mutex); new_event = true; } new_event_cv.notify_all(); } last += 1 << 15; } }
    }
};
static uint64_t many_count(Ctx &c, uint64_t max) {
    auto &s = c.s; uint64_t t; switch (s.raw(6)) { case 0: t = 65536 * s.range(1, max >> 16); break; case 1: t = 65536 * s.range(1, max >> 16) + s.irange(-2, 2); break; case 2: t = s.range(1, 65535); break; case 3: t = 262144 * s.range(1, std::max<uint64_t>(1, max >> 18)) + (s.raw(2) ? s.raw(70000) : 0); break; default: t = s.range(1, max); }
    return std::max<uint64_t>(1, std::min(t, max));
}
static void many(Ctx &c, bool storage, uint64_t maxseg) {
    start_case(); Orbit o = known(c, 300, storage ? 320 : 700); Cycle cy(o); int n = (int)bits(o.D); integer D = rp::I(o.D); form x = cy.form_at(0); int segs = (int)c.s.range(1, 4), thr = (int)c.s.range(1, 4); uint64_t K = c.s.range(2, maxseg); if (segs == 1) K = std::min<uint64_t>(K, 60); uint64_t N = K << 16; int nreq = (int)c.s.range(1, 6);
    struct Req { uint64_t T; uint64_t when; }; std::vector<Req> rq; for (int i = 0; i < nreq; i++) { Req r; r.T = many_count(c, N); r.when = c.s.raw(3) == 0 ? 0 : c.s.raw(K + 2); if (!storage && K > 16) r.when = std::min(r.when, r.T >> 16); rq.push_back(r); c.note("T=%llu at segment %llu", (unsigned long long)r.T, (unsigned long long)r.when); }
    int sm = c.s.raw(2) ? (int)c.s.range(2, 6) : 0, sk = sm ? (int)c.s.raw(sm) : 0, stall = sm ? (int)c.s.raw(4) * 300 : 0; uint64_t ss = c.s.u64(); if (stall) { segs = std::max(segs, 2); thr = std::max(thr, 3); } c.note("segments=%d threads=%d total=%llu slow=%d/%d stall=%d", segs, thr, (unsigned long long)N, sk, sm, stall); c.labelf("%d segment sizes", segs); c.label(!sm ? "even threads" : stall ? "stalled thread" : "starved thread");
    fast_algorithm = true; sched::nap = 0.0005; FastAlgorithmCallback cb(segs, D, x, storage); std::vector<Proof> got(nreq); std::vector<std::string> err(nreq); std::vector<std::atomic<int>> done(nreq); for (auto &d : done) d = 0;
    FastStorage *fs = storage ? new FastStorage(&cb) : nullptr; { ProverManager pm(D, &cb, fs, segs, thr); pm.start(); Stage st{cy, cb, fs}; std::vector<std::thread> th; std::vector<std::pair<uint64_t, std::shared_ptr<Proof>>> covers; sched::Scope sc(ss, sm, sk, stall);
        auto launch = [&](uint64_t seg) { for (int i = 0; i < nreq; i++) if (done[i] == 0 && rq[i].when <= seg) { done[i] = 1; th.emplace_back([&, i] { try { got[i] = pm.Prove(rq[i].T); } catch (std::exception &e) { err[i] = e.what(); } done[i] = 2; }); } };
        double t0 = pbt::now(); uint64_t seg = 0, covered = 0;
        auto pending = [&] { for (int i = 0; i < nreq; i++) if (done[i] < 2) return true; return false; };
        auto kick = [&] { { std::lock_guard<std::mutex> lk(new_event_mutex); new_event = true; } new_event_cv.notify_all(); };
        // Like the real loop, the stage never stands still while a request waits; but it stays inside the window.
        std::string bad; auto cover = [&](uint64_t T) { auto q = std::make_shared<Proof>(); auto ready = std::make_shared<std::atomic<int>>(0); th.emplace_back([&, T, q, ready] { *q = pm.Prove(T); *ready = 1; }); double t1 = pbt::now(), step = t1, busy = t1; uint64_t w = sched::works; while (!*ready && pbt::now() - t1 < 60) { usleep(2000); if (w != sched::works) { w = sched::works; busy = pbt::now(); } if (pbt::now() - step > 0.3) { step = pbt::now(); if (seg - covered < 18 || pbt::now() - busy > 2.5) { st.advance(65536); seg++; launch(seg); busy = pbt::now(); } else kick(); } }   // when no prover works, all that is stored is proved, and the next segment can come (the manager looks at larger segments only then)
            if (!*ready) { bad = "no proof for " + std::to_string(T) + " although the loop is at " + std::to_string(st.it); return; } covers.emplace_back(T, q); covered = T >> 16; };
        while (bad.empty() && pbt::now() - t0 < 100) {
            launch(seg); if (seg > K + 1 && !pending()) break;
            if (seg < K + 2) { if (seg - covered >= 12) cover((seg - 2) << 16); st.advance(65536); seg++; }
            else { double t1 = pbt::now(); while (pending() && pbt::now() - t1 < 0.5) usleep(2000); if (!pending()) break; if (seg - covered < 18) { st.advance(65536); seg++; } else cover((seg - 2) << 16); }
        }
        bool p = pending(); std::vector<uint64_t> open; for (int i = 0; i < nreq; i++) if (done[i] < 2) open.push_back(rq[i].T);
        sched::on = 0; pm.stop(); double t2 = pbt::now(); while (pending() && pbt::now() - t2 < 5) usleep(1000);
        if (pending()) { for (auto &t : th) t.detach(); pbt::fail("Prove(%llu) did not return after stop", (unsigned long long)(open.empty() ? 0 : open[0])); }
        for (auto &t : th) t.join();
        PBT_CHECK(bad.empty(), "%s", bad.c_str()); for (auto &q : covers) check_proof(cy, *q.second, q.first, n, 64, q.second->witness_type);
        PBT_CHECK(!p, "no proof for %llu although the loop is at %llu", (unsigned long long)open[0], (unsigned long long)st.it);
    } delete fs; fast_algorithm = false;
    for (int i = 0; i < nreq; i++) { PBT_CHECK(err[i].empty(), "request for %llu failed: %s", (unsigned long long)rq[i].T, err[i].c_str()); check_proof(cy, got[i], rq[i].T, n, 64, got[i].witness_type); }
    c.nontrivial(); c.labelf("%s", K <= 6 ? "up to 6 small segments" : K <= 20 ? "within the window" : "beyond the window");
}
static void many_live(Ctx &c) {   // the real loop at production settings
    start_case(); bool sh = c.s.raw(3) == 0, storage = c.s.raw(2); Orbit o = sh ? known(c, 300, 520) : orbit(c, 240, 520, false); variant(c); int n = (int)bits(o.D); integer D = rp::I(o.D), L = root(-D, 4); form x = rp::toForm(o.x); int nreq = (int)c.s.range(1, 3); std::vector<uint64_t> rq; for (int i = 0; i < nreq; i++) { rq.push_back(many_count(c, 65536 * 5)); c.note("T=%llu", (unsigned long long)rq.back()); } c.labelf("%s", storage ? "recomputed intermediates" : "stored intermediates");
    fast_algorithm = true; sched::nap = 0.0005; FastAlgorithmCallback cb(3, D, x, storage); FastStorage *fs = storage ? new FastStorage(&cb) : nullptr; std::atomic<bool> stop{false}; std::vector<Proof> got(nreq); std::vector<std::string> err(nreq);
    { ProverManager pm(D, &cb, fs, 3, 3); pm.start(); std::thread w([&] { repeated_square(0, x, D, L, &cb, fs, stop); }); std::vector<std::thread> th; for (int i = 0; i < nreq; i++) th.emplace_back([&, i] { try { got[i] = pm.Prove(rq[i]); } catch (std::exception &e) { err[i] = e.what(); } }); for (auto &t : th) t.join(); stop = true; w.join(); pm.stop(); }
    delete fs; fast_algorithm = false; uint64_t mx = *std::max_element(rq.begin(), rq.end()); F y = o.x; form yy = x; { uint64_t at = 0; std::vector<uint64_t> q = rq; std::sort(q.begin(), q.end()); std::map<uint64_t, Bytes> want; if (o.ord != 0) { for (auto t : q) want[t] = encode(o.at(t), n); } else { PulmarkReducer r; for (auto t : q) { while (at < t) { nudupl_form(yy, yy, D, L); r.reduce(yy); at++; } want[t] = encode(rp::fromForm(yy), n); } }
        for (int i = 0; i < nreq; i++) { PBT_CHECK(err[i].empty(), "request failed: %s", err[i].c_str()); Proof &p = got[i]; PBT_CHECK(Bytes(p.y) == want[rq[i]], "result for %llu differs", (unsigned long long)rq[i]); Bytes blob(p.y), xs = encode(o.x, n); blob.insert(blob.end(), p.proof.begin(), p.proof.end()); PBT_CHECK(p.witness_type < 64 && CheckProofOfTimeNWesolowski(D, xs.data(), blob.data(), blob.size(), rq[i], n, p.witness_type), "the verifier rejects the proof for %llu", (unsigned long long)rq[i]); } }
    (void)mx; (void)y; c.nontrivial();
}

// ------------------------------------------------------------------ C15
static form marker(uint64_t it) { form f; mpz_set_ui(f.a.impl, it + 2); mpz_set_ui(f.b.impl, 1); mpz_set_ui(f.c.impl, 1); mpz_mul_2exp(f.c.impl, f.c.impl, 80); return f; }   // reduced, names its iteration
static uint64_t mark(const form &f) { return mpz_get_ui(f.a.impl) - 2; }
static void slots_fast(Ctx &c) {
    integer D("-1000000007"); int segs = (int)c.s.range(1, 7); bool ext = c.s.raw(4) == 0; FastAlgorithmCallback cb(segs, D, marker(0), false); int b = (int)c.s.raw(segs); uint64_t len = 1ULL << (16 + 2 * b), kl = b ? 12 * (len >> 18) : 10;
    uint64_t cap = (1ULL << 34) - 2, first = c.s.raw(3) == 0 ? 0 : c.s.raw(cap / len > 40 ? cap / len - 40 : 1), nseg = c.s.range(1, std::min<uint64_t>(28, cap / len)); if ((first + nseg) * len > cap) first = 0; c.note("sizes=%d bucket=%d first=%llu segments=%llu", segs, b, (unsigned long long)first, (unsigned long long)nseg); c.labelf("bucket %d", b); (void)ext;
    for (uint64_t s = first; s < first + nseg; s++) for (uint64_t j = 0; j < len; j += kl) { uint64_t it = s * len + j; if (it == 0) continue; feed(cb, marker(it), it); }
    feed(cb, marker((first + nseg) * len), (first + nseg) * len);
    uint64_t lo = nseg > (uint64_t)kWindowSize - 1 ? first + nseg - (kWindowSize - 1) : first;     // the segment after the last one has begun
    std::set<form *> seen; form *base = cb.forms.get(), *end = base + cb.forms_capacity;
    for (uint64_t s = lo; s < first + nseg; s++) for (uint64_t j = 0; j < len; j += kl) { uint64_t it = s * len + j; form *f = cb.GetForm(it, b); PBT_CHECK(f >= base && f < end, "slot of iteration %llu lies outside the storage", (unsigned long long)it); PBT_CHECK(seen.insert(f).second, "slot of iteration %llu is shared", (unsigned long long)it); if (it) PBT_CHECK(mark(*f) == it, "slot of iteration %llu holds iteration %llu", (unsigned long long)it, (unsigned long long)mark(*f)); else PBT_CHECK(mark(*f) == 0 || mark(*f) == 0, "start"); }
    for (uint64_t s = first; s < first + nseg; s++) { uint64_t it = s * len; if (it && it >> 16 < (1 << 18)) PBT_CHECK(mark(cb.checkpoints[it >> 16]) == it, "checkpoint of iteration %llu holds %llu", (unsigned long long)it, (unsigned long long)mark(cb.checkpoints[it >> 16])); }
    // slots of different segment sizes are disjoint
    for (int k = 0; k < 30; k++) { int b2 = (int)c.s.raw(segs); if (b2 == b) continue; uint64_t l2 = 1ULL << (16 + 2 * b2), k2 = b2 ? 12 * (l2 >> 18) : 10; uint64_t it = c.s.raw(cap); it -= (it % l2) % k2; form *f = cb.GetForm(it, b2); PBT_CHECK(f >= base && f < end, "slot of iteration %llu (size %d) lies outside the storage", (unsigned long long)it, b2); PBT_CHECK(!seen.count(f), "sizes %d and %d share a slot", b, b2); }
    c.nontrivial(nseg > 1); c.label(nseg >= (uint64_t)kWindowSize ? "window wrapped" : "inside the window");
}
static void capacity(Ctx &c) {   // progress past the capacity is refused
    integer D("-1000000007"); int k = (int)c.s.raw(3); form x = marker(0); c.note("kind=%d", k); uint64_t it;
    if (k == 0) { uint64_t T = c.s.logrange(1, 200000); OneWesolowskiCallback cb(D, x, T); it = T + c.s.logrange(0, 1ULL << 40); c.note("T=%llu it=%llu", (unsigned long long)T, (unsigned long long)it); for (uint64_t i = it; i < it + 40; i++) feed(cb, marker(i), i); for (uint64_t i = T - T % cb.kl; i <= T; i++) if (i) feed(cb, marker(i), i); PBT_CHECK(mark(cb.result) == T, "result holds iteration %llu of %llu", (unsigned long long)mark(cb.result), (unsigned long long)T); c.label("one part"); }
    else if (k == 1) { FastAlgorithmCallback cb(1, D, x, c.s.raw(2)); it = (1ULL << 34) + 65536 * c.s.logrange(0, 1 << 20); c.note("it=%llu", (unsigned long long)it); bool thrown = false; try { feed(cb, marker(it), it); } catch (std::exception &) { thrown = true; } PBT_CHECK(thrown, "iteration %llu was accepted", (unsigned long long)it); it = (1ULL << 34) - 65536; feed(cb, marker(it), it); PBT_CHECK(mark(cb.checkpoints[(1 << 18) - 1]) == it, "last checkpoint differs"); c.label("many parts"); }
    else { TwoWesolowskiCallback cb(D, x); bool sw = c.s.raw(2); if (sw) cb.IncreaseConstants(((uint64_t)kSwitchIters + 99) / 100 * 100); uint64_t top = sw ? (uint64_t)kMaxItersAllowed : 10ULL * cb.forms_capacity; it = top - 100 * c.s.range(2, 50); feed(cb, marker(it), it); PBT_CHECK(mark(cb.GetFormCopy(it)) == it, "iteration %llu reads back %llu", (unsigned long long)it, (unsigned long long)mark(cb.GetFormCopy(it)));
        it = top + 100 * c.s.logrange(100, 1 << 20); c.note("switched=%d it=%llu", sw, (unsigned long long)it); bool thrown = false; try { feed(cb, marker(it), it); } catch (std::exception &) { thrown = true; } PBT_CHECK(thrown, "iteration %llu was accepted", (unsigned long long)it); thrown = false; try { cb.GetFormCopy(it); } catch (std::exception &) { thrown = true; } PBT_CHECK(thrown, "iteration %llu was read", (unsigned long long)it); c.label("two parts"); }
    c.nontrivial();
}
static void slots_two(Ctx &c) {
    integer D("-1000000007"); TwoWesolowskiCallback cb(D, marker(0)); uint64_t sw = ((uint64_t)kSwitchIters + 99) / 100 * 100 + 100 * c.s.logrange(0, scaled ? 600 : 300), top = (uint64_t)kMaxItersAllowed - 400000; c.note("switch at %llu", (unsigned long long)sw); std::set<uint64_t> its;
    for (int i = 0; i < 300; i++) { uint64_t b = c.s.raw(3) == 0 ? sw - 10 * c.s.range(1, 60) : 10 * c.s.raw(sw / 10); its.insert(b); } std::set<uint64_t> late; for (int i = 0; i < 300; i++) late.insert(c.s.raw(3) == 0 ? sw + 100 * c.s.raw(60) : sw + 100 * c.s.raw((top - sw) / 100));
    for (auto i : its) if (i) for (uint64_t j = i - 3; j <= i + 3; j++) if (j && (j == i || j % 10)) feed(cb, marker(j), j); feed(cb, marker(sw), sw); cb.IncreaseConstants(sw); for (auto i : late) for (uint64_t j = i - 3; j <= i + 13; j++) if (j > sw && (j == i || j % 100)) feed(cb, marker(j), j);
    for (auto i : its) PBT_CHECK(mark(cb.GetFormCopy(i)) == i, "iteration %llu reads back %llu", (unsigned long long)i, (unsigned long long)mark(cb.GetFormCopy(i))); for (auto i : late) PBT_CHECK(mark(cb.GetFormCopy(i)) == i, "iteration %llu reads back %llu", (unsigned long long)i, (unsigned long long)mark(cb.GetFormCopy(i))); PBT_CHECK(mark(cb.GetFormCopy(sw)) == sw, "the switch point reads back %llu", (unsigned long long)mark(cb.GetFormCopy(sw)));
    c.nontrivial();
}

// ------------------------------------------------------------------ C11
struct Par : ParallelProver {   // the parallel prover over a plain table
    std::vector<form> &v; bool quit = false; Par(Segment s, integer D, std::vector<form> &v_, uint32_t k_, uint32_t l_) : ParallelProver(s, D), v(v_) { k = k_; l = l_; }
    form GetForm(uint64_t i) override { return v.at(i); } void start() override { GenerateProof(); } void stop() override {} bool PerformExtraStep() override { return !quit; } void OnFinish() override { is_finished = true; }
};
struct Ser : Prover { std::vector<form> &v; Ser(Segment s, integer D, std::vector<form> &v_, uint32_t k_, uint32_t l_) : Prover(s, D), v(v_) { k = k_; l = l_; } form GetForm(uint64_t i) override { return v.at(i); } void start() override { GenerateProof(); } void stop() override {} bool PerformExtraStep() override { return true; } void OnFinish() override { is_finished = true; } };
static void agree(Ctx &c) {
    start_case(); bool sh = c.s.raw(3) != 0; Orbit o = sh ? known(c, 61) : orbit(c, 16, 1024, false); int n = (int)bits(o.D); integer D = rp::I(o.D), L = root(-D, 4); form x = rp::toForm(o.x); uint64_t T = one_count(c, o.ord == 0 ? (n > 400 ? 600 : 3000) : 70000); c.note("T=%llu", (unsigned long long)T);
    F Y = o.at(T), W = o.proof(T, Y); Bytes want = encode(W, n); form y = rp::toForm(Y); std::atomic<bool> stop{false}; int k = (int)c.s.raw(6); Bytes got; Segment sg(0, T, x, y);
    auto fin = [&](Prover &p, const char *name) { c.label(name); PBT_CHECK(p.IsFinished(), "%s did not finish", name); form f = p.GetProof(); got = SerializeForm(f, n); PBT_CHECK(got == want, "%s: proof differs", name); };
    auto table = [&](uint64_t st) { std::vector<form> v; for (uint64_t i = 0; i <= T; i += st) v.push_back(rp::toForm(o.at(i))); return v; };
    auto shape = [&](uint32_t &kk, uint32_t &ll, uint32_t lo) {   // rows narrower and wider than the challenge, last row of every length
        bool wide = c.s.raw(3) == 0; kk = (uint32_t)c.s.range(1, wide ? 9 : 12); ll = (uint32_t)(wide ? c.s.range(13, std::max(20u, std::min(300u, 500u >> (kk > 5 ? kk - 5 : 0)))) : c.s.range(lo, 12)); uint64_t kl = (uint64_t)kk * ll, t = T;
        switch (c.s.raw(5)) { case 0: t = t / kk * kk; break; case 1: t = t / kl * kl; break; case 2: t = t / kl * kl + kk * c.s.range(1, ll); break; case 3: t = t / kl * kl + c.s.raw(kl); break; default: break; }
        if (t && t != T) { T = t; Y = o.at(T); y = rp::toForm(Y); sg = Segment(0, T, x, y); W = o.proof(T, Y); want = encode(W, n); } c.note("k=%u l=%u T=%llu", kk, ll, (unsigned long long)T); if (kl > 264) c.label("row wider than the challenge"); };
    switch (k) {
    case 0: { OneWesolowskiCallback cb(D, x, T); auto v = table(cb.kl); for (size_t i = 0; i < v.size(); i++) cb.forms[i] = v[i]; OneWesolowskiProver p(sg, D, cb.forms.get(), stop); p.start(); fin(p, "one part"); break; }
    case 1: { uint64_t st = c.s.raw(5); FastAlgorithmCallback cb(1, D, x, false); uint64_t t = std::min<uint64_t>(T, 65536); if (t != T) { T = t; Y = o.at(T); y = rp::toForm(Y); W = o.proof(T, Y); want = encode(W, n); } uint64_t base = st * 65536; Segment s2(base, T, x, y); for (uint64_t i = 0; i < T; i += 10) *cb.GetForm(base + i, 0) = rp::toForm(o.at(i)); InterruptableProver p(s2, D, &cb); p.start(); int q = (int)c.s.raw(4); for (int i = 0; i < q; i++) { p.pause(); usleep(c.s.raw(300)); p.resume(); } while (!p.IsFullyFinished()) usleep(100); fin(p, "interruptible"); break; }
    case 2: { TwoWesolowskiCallback cb(D, x); uint64_t t = std::min<uint64_t>(T, kSwitchIters); if (t != T) { T = t; Y = o.at(T); y = rp::toForm(Y); sg = Segment(0, T, x, y); W = o.proof(T, Y); want = encode(W, n); } for (uint64_t i = 10; i <= T; i += 10) feed(cb, rp::toForm(o.at(i)), i); TwoWesolowskiProver p(sg, D, &cb, stop); p.start(); p.stop(); fin(p, "two part"); break; }
    case 3: { uint32_t kk, ll; shape(kk, ll, 2); auto v = table((uint64_t)kk * ll); Par p(sg, D, v, kk, ll); p.start(); fin(p, "parallel"); break; }
    case 4: { uint32_t kk, ll; shape(kk, ll, 1); auto v = table((uint64_t)kk * ll); Ser p(sg, D, v, kk, ll); p.start(); fin(p, "serial, any table shape"); break; }
    default: { if (T > 4000) { T = T % 4000 + 1; Y = o.at(T); W = o.proof(T, Y); want = encode(W, n); } form xx = x; auto r = ProveSlow(D, xx, T, ""); c.label("stand-alone"); PBT_CHECK(r.size() == 200 && Bytes(r.begin() + 100, r.end()) == want && Bytes(r.begin(), r.begin() + 100) == encode(Y, n), "stand-alone proof differs"); break; } }
    c.nontrivial(T > 10);
}

// ------------------------------------------------------------------ C16
static void pausing(Ctx &c) {   // pause/resume patterns never change the proof; stop at any moment ends the thread
    start_case(); Orbit o = known(c, 300, 700); Cycle cy(o); int n = (int)bits(o.D); integer D = rp::I(o.D); int b = (int)c.s.raw(2); uint64_t len = 1ULL << (16 + 2 * b), first = c.s.raw(40), kl = b ? 12 : 10; FastAlgorithmCallback cb(b + 1, D, cy.form_at(0), false);
    uint64_t base = first * len; for (uint64_t i = 0; i < len; i += kl) *cb.GetForm(base + i, b) = cy.form_at(base + i); form x = cy.form_at(base), y = cy.form_at(base + len); Segment sg(base, len, x, y); int ops = (int)c.s.range(1, 12); bool stopit = c.s.raw(3) == 0; c.note("bucket=%d start=%llu ops=%d%s", b, (unsigned long long)base, ops, stopit ? " then stop" : ""); c.label(stopit ? "stopped" : "finished");
    sched::Scope sc(c.s.u64(), 0, 0); InterruptableProver p(sg, D, &cb); p.start(); bool paused = false;
    for (int i = 0; i < ops; i++) { { std::lock_guard<std::mutex> lk(new_event_mutex); new_event = c.s.raw(2); } switch (c.s.raw(4)) { case 0: p.pause(); paused = true; break; case 1: p.resume(); paused = false; break; case 2: p.pause(); p.pause(); paused = true; break; default: usleep(c.s.raw(4000)); }
        PBT_CHECK(p.IsRunning() == !paused, "IsRunning says %d", p.IsRunning()); usleep(c.s.raw(1500)); }
    if (paused && !p.IsFinished()) { usleep(c.s.raw(20000)); }
    if (stopit) { double t0 = pbt::now(); p.stop(); PBT_CHECK(pbt::now() - t0 < 20, "stop took %.0f s", pbt::now() - t0); }
    else { p.resume(); double t0 = pbt::now(); while (!p.IsFullyFinished() && pbt::now() - t0 < 30) usleep(200); PBT_CHECK(p.IsFullyFinished(), "did not finish after the last resume"); PBT_CHECK(p.IsFinished(), "fully finished but not finished"); form f = p.GetProof(); Z B; PBT_CHECK(Bytes(SerializeForm(f, n)) == encode(cy.proof(base, len, B), n), "proof differs after pausing"); }
    c.nontrivial();
}
static void stopping(Ctx &c) {   // a stop at a generated moment ends every prover, which then delivers nothing wrong
    start_case(); Orbit o = known(c, 300, 700); Cycle cy(o); int n = (int)bits(o.D); integer D = rp::I(o.D); form x = cy.form_at(0); int kind = (int)c.s.raw(3); uint64_t ss = c.s.u64(); std::atomic<bool> stop{false}; sched::nap = 0.002; int after = (int)c.s.logrange(0, 60000); c.note("kind=%d after %d us", kind, after); std::atomic<int> done{0};
    auto bounded = [&](std::thread &t, const char *what) { double t0 = pbt::now(); while (!done && pbt::now() - t0 < 20) usleep(500); if (!done) { t.detach(); pbt::fail("%s still runs 20 s after the stop", what); } t.join(); };
    if (kind == 0) { c.label("one part"); uint64_t T = c.s.range(20000, 65535); OneWesolowskiCallback cb(D, x, T); for (uint64_t i = 10; i <= T; i += 10) feed(cb, cy.form_at(i), i); feed(cb, cy.form_at(T), T); bool reached = c.s.raw(4) != 0; c.note("T=%llu reached=%d", (unsigned long long)T, reached); if (reached) cb.iterations = (int64_t)T; Proof p; sched::Scope sc(ss, 0, 0); std::thread t([&] { p = ProveOneWesolowski(T, D, x, &cb, stop); done = 1; }); usleep(after); stop = true; bounded(t, "the one-part prover"); if (!p.y.empty()) { check_proof(cy, p, T, n, 1, 0); c.label("finished first"); } }
    else if (kind == 1) { c.label("two part"); TwoWesolowskiCallback cb(D, x); uint64_t N = kSwitchIters > 40000 ? 40000 : kSwitchIters, T = c.s.range(N / 4, N); uint64_t have = c.s.raw(2) ? N : c.s.range(1, N); c.note("T=%llu have=%llu", (unsigned long long)T, (unsigned long long)have); for (uint64_t i = 10; i <= have; i += 10) feed(cb, cy.form_at(i), i); cb.iterations = (int64_t)have; Proof p; std::string err; sched::Scope sc(ss, 0, 0); std::thread t([&] { try { p = ProveTwoWeso(D, x, T, 0, &cb, 0, stop); } catch (std::exception &e) { err = e.what(); } done = 1; }); usleep(after); stop = true; bounded(t, "the two-part prover"); PBT_CHECK(err.empty(), "stopping raised %s", err.c_str()); if (!p.y.empty()) { check_proof(cy, p, T, n, 3, 2); c.label("finished first"); } }
    else { c.label("many parts"); int segs = (int)c.s.range(1, 3), thr = (int)c.s.range(1, 3), nreq = (int)c.s.range(1, 4); bool storage = c.s.raw(3) == 0; uint64_t adv = c.s.range(0, 8); std::vector<uint64_t> rq; for (int i = 0; i < nreq; i++) rq.push_back(many_count(c, 10 << 16)); fast_algorithm = true; FastAlgorithmCallback cb(segs, D, x, storage); FastStorage *fs = storage ? new FastStorage(&cb) : nullptr; c.note("segments=%d threads=%d advance=%llu", segs, thr, (unsigned long long)adv);
        ProverManager *pm = new ProverManager(D, &cb, fs, segs, thr); std::vector<Proof> got(nreq); std::vector<std::thread> th; std::atomic<int> left{nreq}; { sched::Scope sc(ss, 0, 0); pm->start(); Stage st{cy, cb, fs}; int at = (int)c.s.raw(nreq + 1); for (int i = 0; i < nreq; i++) { if (i == at) st.advance(adv << 16); th.emplace_back([&, i] { got[i] = pm->Prove(rq[i]); left--; }); } if (at == nreq) st.advance(adv << 16); usleep(after);
            std::atomic<int> stopped{0}; std::thread stopper([&] { pm->stop(); stopped = 1; }); double t0 = pbt::now(); while ((!stopped || left) && pbt::now() - t0 < 20) usleep(500); bool ok = stopped && !left; if (!ok) { stopper.detach(); for (auto &t : th) t.detach(); pbt::fail("20 s after the stop: manager %s, %d requests still wait", (int)stopped ? "ended" : "runs", (int)left); } stopper.join(); for (auto &t : th) t.join(); }
        delete pm; delete fs; fast_algorithm = false; for (int i = 0; i < nreq; i++) if (!got[i].y.empty()) { check_proof(cy, got[i], rq[i], n, 64, got[i].witness_type); c.label("finished first"); } }
    c.nontrivial();
}

int main(int argc, char **argv) {
    eng::init(); eng::shorts();
    std::vector<pbt::Suite> S = {
        {"C11.agree", agree, 1000, 40000, "more than 10 iterations"},
        {"C12.run", [](Ctx &c) { one_run(c, false); }, 110, 20000, "more than 10 iterations", 120, false, 4},
        {"C12.live", [](Ctx &c) { one_run(c, true); }, 40, 4000, "more than 10 iterations", 60, false, 4, true},
        {"C12.large", one_large, 12, 120, "any", 300},
        {"C13.direct", two_direct, 150, 2500, "at least 100 iterations", 120, false, 8, true},
        {"C13.live", two_live, 10, 800, "any", 200, false, 8, true},
        {"C13.full", two_full, 24, 400, "any", 120, false, 6},
        {"C13.huge", two_huge, 1, 6, "any", 800, false, 1},
        {"C14.many", [](Ctx &c) { many(c, false, 14); }, 140, 1000, "any", 200, false, 8, true},
        {"C14.long", [](Ctx &c) { many(c, false, 70); }, 6, 100, "any", 300, false, 8, true},
        {"C14.storage", [](Ctx &c) { many(c, true, 12); }, 20, 400, "any", 200, false, 4, true},
        {"C14.live", many_live, 10, 300, "any", 200, false, 4, true},
        {"C15.fast", slots_fast, 60, 1000, "more than one segment"},
        {"C15.two", slots_two, 60, 1500, "any"},
        {"C15.capacity", capacity, 400, 8000, "any"},
        {"C16.pause", pausing, 250, 4000, "any", 60, false, 8, true},
        {"C16.stop", stopping, 300, 5000, "any", 60, false, 8, true},
    };
    return pbt::main_(argc, argv, S);
}
