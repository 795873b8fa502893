// The timelord engine (vdf.h) next to the reference model: processor variants, recording callbacks, group elements
// whose whole orbit under squaring is known.
#pragma once
#include <iostream>
#include "vdf.h"
#include "repo.h"
#include "gen.h"
#ifndef ENGINE_NO_GLOBALS
int gcd_base_bits = 50, gcd_128_max_iter = 3;
int segments = 7, thread_count = 3;
#endif
namespace eng {
using namespace model; using pbt::Ctx;
static const char *const kVariant[] = {"plain", "avx2", "avx512"};
inline int nvariants() { static int n = -1; if (n < 0) { bool a = hasAVX2(); n = a ? (__builtin_cpu_supports("avx512ifma") ? 3 : 2) : 1; } return n; }
inline void variant(int v) {   // what the programs do at start-up for the processor they find
    nvariants(); bAVX2.store(v >= 1); enable_avx512_ifma.store(v >= 2); gcd_base_bits = v ? 63 : 50; gcd_128_max_iter = v ? 2 : 3;
}
inline void init() { init_gmp(); set_rounding_mode(); nvariants(); std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr); }
inline int variant(Ctx &c) { int v = (int)c.s.raw(nvariants()); variant(v); set_rounding_mode(); c.note("cpu=%s", kVariant[v]); c.labelf("cpu %s", kVariant[v]); return v; }

// A start element and its orbit x^(2^i). For elements of known order the orbit is a table look-up.
struct Orbit {
    Z D; F x; Z ord; std::vector<F> seq; std::vector<F> pw;
    const F &at(uint64_t n) {
        if (ord != 0) { Z e = pow2mod(u64z(n), ord); size_t k = mpz_get_ui(e.get_mpz_t()); while (pw.size() <= k) pw.push_back(pw.empty() ? identity(D) : compose(pw.back(), x, D)); return pw[k]; }
        if (seq.empty()) seq.push_back(x);
        while (seq.size() <= n) seq.push_back(square(seq.back(), D));
        return seq[n];
    }
    // x^floor(2^T/B) computed without dividing the orbit into blocks
    F proof(uint64_t T, const F &y, Z *Bo = nullptr) {
        Z B = get_b(D, x, y); if (Bo) *Bo = B; if (ord != 0) { Z m = B * ord, r = pow2mod(u64z(T), m); return power(x, r / B, D); }
        return power(x, (Z(1) << T) / B, D);
    }
};
struct Short { int bits, m; Z D; F g; };   // -D prime, g = (2, b, .) of order dividing m+?, found at start-up
inline std::vector<Short> &shorts() {
    static std::vector<Short> v;
    if (v.empty()) for (int m : {61, 125, 197, 253, 317, 381, 447, 509, 605, 701, 831, 1001, 1019, 1021}) {   // |D| = 2^(m+2) - b^2
        for (Z b = 1;; b += 2) { Z D = b * b - (Z(1) << (m + 2)); if (!probab_prime(-D)) continue; Short s; s.bits = (int)bits(D); s.m = m; s.D = D; make(s.g, 2, b, D); s.g = reduce(s.g); v.push_back(s); break; }
    }
    return v;
}
inline Orbit orbit(Ctx &c, int lo = 16, int hi = 1024, bool allow_short = true) {
    Orbit o; auto &s = c.s;
    if (allow_short && s.raw(3) == 0) {
        std::vector<Short> ok; for (auto &x : shorts()) if (x.bits >= lo && x.bits <= hi) ok.push_back(x);
        if (!ok.empty()) { Short &q = ok[s.raw(ok.size())]; o.D = q.D; uint64_t e = s.range(1, q.m - 1); o.x = power(q.g, Z((unsigned long)e), q.D); o.ord = q.m; /* the order divides m */ c.note("D=2^%d-b^2 order|%d x=g^%llu", q.m + 2, q.m, (unsigned long long)e); c.label("short orbit"); return o; }
    }
    o.D = gen::disc(c, lo, hi); o.x = gen::element(c, o.D); o.ord = 0;
    if (bits(o.D) <= 24) o.ord = gen::order(o.x, o.D, 1 << 13);
    return o;
}
// Records the form the engine reports for every iteration.
struct Recorder : WesolowskiCallback {
    std::function<void(uint64_t, const form &)> fn; uint64_t every;
    Recorder(integer &D, uint64_t every_ = 1) : WesolowskiCallback(D), every(every_) {}
    void OnIteration(int type, void *data, uint64_t iteration) override { iteration++; if (iteration % every) return; form f; SetForm(type, data, &f); fn(iteration, f); }
};
}  // namespace eng
