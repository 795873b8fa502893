// Generators of whole verification cases (single- and multi-part proofs, tampering) used by several suites.
#pragma once
#include "gen.h"
namespace vc {
using namespace model;
using pbt::Ctx;

// A start element together with enough knowledge of its order to build proofs for any 64-bit iteration count.
struct Base { Z D; int n; F x; Z ord; };   // ord == 0: unknown, only small T possible
inline Base base(Ctx &c, bool small) {
    Base b; b.D = small ? gen::disc(c, 16, 16 + 8 * (int)c.s.raw(3), nullptr, &b.n) : gen::disc(c, 40, 1024, nullptr, &b.n);
    b.x = gen::element(c, b.D); b.ord = small ? gen::order(b.x, b.D, 1 << 14) : Z(0);
    return b;
}
inline F evolve(const Base &b, const F &x, uint64_t T) {   // x^(2^T); x must be a power of b.x if ord is known
    if (b.ord != 0) return power(x, pow2mod(u64z(T), b.ord), b.D);
    return repeated_square(x, T, b.D);
}
inline F prove(const Base &b, const F &x, const F &y, uint64_t T, Z *Bout = nullptr) {
    Z B = get_b(b.D, x, y); if (Bout) *Bout = B;
    if (b.ord != 0) { Z m = B * b.ord, r = pow2mod(u64z(T), m); return power(x, r / B, b.D); }   // floor(2^T/B) mod ord
    if (T > 5000) T %= 500;   // order unknown and an edited count: any element will do
    return power(x, (Z(1) << T) / B, b.D);
}
inline uint64_t iters(Ctx &c, const Base &b, uint64_t maxsmall = 400) {
    if (b.ord == 0) return c.s.logrange(0, maxsmall);
    switch (c.s.raw(6)) { case 0: return ~0ULL - c.s.raw(4); case 1: return 1ULL << c.s.raw(64); case 2: return c.s.u64(); case 3: return (1ULL << 32) + c.s.range(0, 4) - 2; default: return c.s.logrange(0, 100000); }
}
struct Part { uint64_t T; Z B; F pi; F xs, ye; };
struct Chain { std::vector<Part> p; F y; };   // p[0] first in time; the last one is the head (y||pi), earlier ones are segments
inline Chain chain(const Base &b, const std::vector<uint64_t> &ts) {
    Chain ch; F x = b.x;
    for (auto t : ts) { Part q; q.T = t; q.xs = x; q.ye = evolve(b, x, t); q.pi = prove(b, x, q.ye, t, &q.B); x = q.ye; ch.p.push_back(q); }
    ch.y = x; return ch;
}
inline void put64(Bytes &o, uint64_t v) { for (int i = 7; i >= 0; i--) o.push_back((uint8_t)(v >> (8 * i))); }
inline void put(Bytes &o, const Bytes &v) { o.insert(o.end(), v.begin(), v.end()); }
inline Bytes seg_bytes(const Part &q, size_t n) { Bytes o; put64(o, q.T); put(o, to_be(q.B, B_BYTES)); put(o, encode(q.pi, n)); return o; }
// full: y||pi||segments (the segment that comes first in time is last in the blob); else pi||segments
inline Bytes blob(const Chain &ch, size_t n, bool full) {
    Bytes o; if (full) put(o, encode(ch.y, n)); put(o, encode(ch.p.back().pi, n));
    for (size_t i = ch.p.size() - 1; i-- > 0;) put(o, seg_bytes(ch.p[i], n));
    return o;
}
inline std::vector<uint64_t> split(Ctx &c, const Base &b, int depth) {
    std::vector<uint64_t> t; for (int i = 0; i <= depth; i++) {
        if (b.ord != 0) t.push_back(c.s.chance(1, 8) ? ~0ULL - c.s.raw(1000) : c.s.chance(1, 6) ? 0 : c.s.logrange(0, 1ULL << 50));
        else t.push_back(c.s.logrange(0, 120));
    }
    return t;
}
inline Bytes jitter(Ctx &c, Bytes b, size_t lo, size_t hi) {   // small structured edits of an encoding inside [lo,hi)
    if (hi > b.size()) hi = b.size(); if (lo >= hi) return b;
    size_t i = lo + c.s.raw(c.s.chance(1, 3) ? std::min<size_t>(hi - lo, 2) : hi - lo);
    switch (c.s.raw(5)) { case 0: b[i] ^= 1 << c.s.raw(8); break; case 1: b[i]++; break; case 2: b[i] = (uint8_t)c.s.raw(256); break; case 3: b[i] = 0; break; default: { for (size_t k = i; k < hi && k < i + 8; k++) b[k] = 0xff; } }
    return b;
}
// An element related to the honest one: what a cheating prover would try first.
inline F related(Ctx &c, const Base &b, const F &f) {
    switch (c.s.raw(7)) {
    case 0: return inverse(f); case 1: return identity(b.D); case 2: return compose(f, generator(b.D), b.D); case 3: return b.x;
    case 4: return square(f, b.D); case 5: return compose(f, b.x, b.D); default: return gen::element(c, b.D, "other"); }
}
inline uint64_t related_t(Ctx &c, uint64_t t) {
    switch (c.s.raw(7)) { case 0: return t + 1; case 1: return t - 1; case 2: return t ^ (1ULL << c.s.raw(64)); case 3: return t * 2; case 4: return 0; case 5: return t + (1ULL << 32); default: return c.s.u64(); }
}
}  // namespace vc
