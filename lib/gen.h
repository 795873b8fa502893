// Generators shared by the suites: seeds, discriminants, group elements, encodings.
#pragma once
#include "pbt.h"
#include "model.h"
namespace gen {
using model::Z; using model::F; using model::Bytes; using pbt::Ctx; using pbt::Src;

inline Bytes seed(Ctx &c, size_t maxlen = 40) {
    Src &s = c.s; size_t n;
    switch (s.raw(4)) { case 0: n = 32; break; case 1: n = s.range(1, 4); break; default: n = s.range(1, maxlen); }
    Bytes b(n, 0);
    switch (s.raw(6)) {
    case 0: b[0] = (uint8_t)s.raw(256); break;                                  // mostly zero
    case 1: for (auto &x : b) x = 0xff; if (s.raw(2)) b[s.raw(n)] = (uint8_t)s.raw(256); break;   // counter carries / wraps
    case 2: { b = s.bytes(n); size_t k = s.range(1, n); for (size_t i = 0; i < k; i++) b[n - 1 - i] = 0xff; b[n - 1] = (uint8_t)(0xff - s.raw(4)); break; }
    default: b = s.bytes(n);
    }
    return b;
}
// A discriminant size in bits (multiple of 8). Small sizes make rare branches and coincidences frequent.
inline int dbits(Ctx &c, int lo = 16, int hi = 1024) {
    Src &s = c.s; int r;
    switch (s.raw(8)) {
    case 0: r = 8 * (int)s.range(2, 4); break;
    case 1: r = 8 * (int)s.range(4, 16); break;
    case 2: r = 8 * (int)s.range(8, 32); break;
    case 3: r = 8 * (int)s.range(16, 64); break;
    case 4: r = 256; break;
    case 5: r = 512; break;
    case 6: r = 1024; break;
    default: r = 8 * (int)s.range(2, 128);
    }
    return std::max(lo, std::min(hi, r));
}
inline Z disc(Ctx &c, int lo = 16, int hi = 1024, Bytes *seedout = nullptr, int *bitsout = nullptr) {
    int n = dbits(c, lo, hi);
    // short seeds shrink well; long ones are exercised in the discriminant suites
    Bytes sd = c.s.bytes(4); if (seedout) *seedout = sd; if (bitsout) *bitsout = n;
    Z D = model::discriminant(sd, n);
    c.note("D%d=%s", n, n <= 256 ? D.get_str().c_str() : ("disc(seed " + model::hex(model::from_be(sd)) + ")").c_str());
    return D;
}
inline Z num(Src &s, size_t maxbits) {   // non-negative, all magnitudes, structured bit patterns
    size_t n = s.range(0, maxbits); if (!n) return 0; Z r;
    switch (s.raw(5)) {
    case 0: r = Z(1) << (n - 1); break;
    case 1: r = (Z(1) << n) - 1; break;
    case 2: { r = Z(1) << (n - 1); for (int i = 0; i < 3; i++) { if (s.raw(2)) r += Z(1) << s.raw(n); } break; }
    default: { Bytes b = s.bytes((n + 7) / 8); r = model::from_be(b) % (Z(1) << n); }
    }
    return r;
}
// square root of D modulo an odd prime p with (D/p) = 1 (small p: by search)
inline bool prime_form(F &f, const Z &D, unsigned p) {
    Z P(p); Z d = model::fmod(D, P);
    if (p == 2) { return model::make(f, 2, 1, D) && (f = model::reduce(f), true); }
    for (unsigned b = 0; b < p; b++) if ((Z(b) * b - d) % P == 0) {
        Z B = b; if (B % 2 == 0) B = P - B; if (B == 0) B = P;
        if (!model::make(f, P, B, D)) return false;
        f = model::reduce(f); return true;
    }
    return false;
}
static const unsigned kPrimes[] = {2,3,5,7,11,13,17,19,23,29,31,37,41,43,47,53,59,61,67,71,73,79,83,89,97,101,103,107,109,113,127,131,137,139,149,151,157,163,167,173,179,181,191,193,197,199,211,223,227,229};
inline F element(Ctx &c, const Z &D, const char *name = "x") {
    Src &s = c.s; F f; const char *k = "";
    switch (s.raw(8)) {
    case 0: f = model::generator(D); k = "gen"; break;
    case 1: f = model::identity(D); k = "id"; break;
    case 2: f = model::power(model::generator(D), Z((unsigned long)s.range(2, 40)), D); k = "gen^small"; break;
    case 3: { f = model::generator(D); if (!prime_form(f, D, kPrimes[s.raw(50)])) f = model::generator(D); k = "prime form"; break; }
    case 4: { F g = model::generator(D); f = model::identity(D); int n = (int)s.range(1, 4); for (int i = 0; i < n; i++) if (prime_form(g, D, kPrimes[s.raw(50)])) f = model::compose(f, g, D); k = "smooth"; break; }
    case 5: { F g = model::generator(D); prime_form(g, D, kPrimes[s.raw(20)]); f = model::repeated_square(g, s.range(1, 12), D); k = "square"; break; }
    default: { Bytes e = s.bytes(4 + s.raw((model::bits(D) + 15) / 16)); f = model::power(model::generator(D), model::from_be(e), D); k = "random"; }
    }
    f = model::reduce(f);
    if (s.chance(1, 4)) f = model::inverse(f);
    std::string v = model::bits(D) <= 256 ? model::str(f) : "a~" + f.a.get_str(16).substr(0, 12);
    c.note("%s=%s%s", name, k, v.c_str());
    return f;
}
inline Z order(const F &x, const Z &D, uint64_t limit = 1 << 16) {   // order of x by iteration (small groups only); 0 if above limit
    F id = model::identity(D), p = x; for (uint64_t i = 1; i <= limit; i++) { if (p == id) return Z((unsigned long)i); p = model::compose(p, x, D); } return 0;
}
}  // namespace gen
